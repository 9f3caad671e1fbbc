use crate::json::{n, s, J};
use rustc_ast::attr::AttributeExt;
use rustc_hir::def::DefKind;

use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::Flags;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashMap<Instance<'tcx>, String>,
    fns: Vec<J>,
    env: TypingEnv<'tcx>,
    local_iters: Vec<DefId>,
    dei: Option<DefId>,
}

/// does the documentation name a panic that is not about running out of memory?
fn panics_by_input(doc: &str) -> bool {
    let at = match doc.find("# Panic") {
        Some(x) => x,
        None => {
            // older style: a sentence of the description
            let text = doc.to_lowercase().split_whitespace().collect::<Vec<_>>().join(" ");
            return ["panics when", "panics if", "panics unless", "panics on", "will panic", "may panic", "can panic", "panic if", "panic when"].iter().any(|w| text.contains(w));
        }
    };
    let rest = &doc[at..];
    let sec = match rest[1..].find("\n # ") {
        Some(x) => &rest[..x],
        None => rest,
    };
    let text: String = sec.to_lowercase().split_whitespace().collect::<Vec<_>>().join(" ");
    let memory = ["capacity exceeds", "capacity overflows", "isize::max", "allocation failure", "fails to allocate"];
    let other = ["out of bounds", "boundary", "index", "greater than", "less than", "zero", "empty", "`at`", "range"];
    !memory.iter().any(|w| text.contains(w)) || other.iter().any(|w| text.contains(w))
}

/// the places of the crate's own source whose soundness the compiler does not check
struct Unsafety<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(&'static str, String, Span)>,
    owner: String,
}

impl<'tcx> Unsafety<'tcx> {
    fn add(&mut self, kind: &'static str, what: String, sp: Span) {
        // macros of the standard library that are allowed to use unsafe inside
        if !sp.allows_unsafe() {
            self.out.push((kind, what, sp));
        }
    }
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafety<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let o = self.owner.clone();
            self.add("unsafe block", o, b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// External bodies that are analysed through their own MIR: combinators, iterator adapters and
/// comparison glue. Everything else outside the crate is a library call for the analyser.
fn inline_external(p: &str) -> bool {
    let not = [
        "std::iter::range::", "<std::iter::Zip", "std::iter::zip::", "std::iter::Iterator::nth",
        "std::iter::Iterator::collect", "std::iter::Iterator::sum", "std::iter::Iterator::product",
        "std::iter::Iterator::size_hint", "std::iter::Iterator::advance_by",
        "std::iter::ExactSizeIterator::len", "std::iter::Extend::", "std::iter::FromIterator",
    ];
    if not.iter().any(|x| p.starts_with(x)) {
        return false;
    }
    let pre = [
        "std::option::Option::<", "std::result::Result::<",
        "std::cmp::Ordering::", "std::cmp::Reverse", "<std::cmp::Reverse",
        "<std::cmp::Ordering as",
        "<std::option::Option<T> as", "<std::option::Option<&",
        "<std::result::Result<T, E> as", "<std::result::Result<T, F> as",
        "std::ops::ControlFlow::<", "<std::ops::ControlFlow<",
        "std::bool::", "core::bool::", "core::bool", "std::bool",
        "std::iter::", "<std::iter::", "<I as std::iter::IntoIterator>",
        "<&mut I as std::iter::", "std::ops::function::impls::", "core::ops::function::impls::",
        "std::cmp::Ord::", "std::cmp::PartialOrd::", "std::cmp::PartialEq::", "std::cmp::min", "std::cmp::max",
        "core::tuple::", "std::tuple::", "<T as std::convert::", "<(",
        "<std::option::Iter<", "<std::option::IntoIter<", "<std::option::Item<", "<std::option::IterMut<",
        "<time::Timespec as", "time::Timespec::",
        "core::option::", "core::result::", "std::cmp::impls::<impl std::cmp::PartialEq<&",
        "std::cmp::impls::<impl std::cmp::PartialOrd<&", "std::cmp::impls::<impl std::cmp::Ord for &",
        "std::mem::drop", "std::convert::identity",
        // parts of a slice between the elements that a function names
        "<std::slice::Split<", "<std::slice::RSplit<", "<std::slice::SplitN<", "<std::slice::RSplitN<", "<std::slice::SplitInclusive<",
        "std::slice::Split::<", "std::slice::RSplit::<", "std::slice::SplitN::<", "std::slice::RSplitN::<", "std::slice::SplitInclusive::<",
        "<std::slice::iter::GenericSplitN<", "<core::slice::iter::GenericSplitN<", "<std::slice::GenericSplitN<",
        "core::slice::iter::GenericSplitN::<",
    ];
    if p.starts_with("core::slice::<impl [T]>::") && ["split", "rsplit", "splitn", "rsplitn", "split_inclusive"].contains(&p.rsplit("::").next().unwrap()) {
        return true;
    }
    pre.iter().any(|x| p.starts_with(x))
        || p.contains("bool>::then")
        || p.contains("<impl bool>")
}

/// Overridden iterator methods are replaced by the trait's own default body, so that every
/// consumer is seen as a loop over `next` / `next_back`.
fn use_default_body(p: &str) -> bool {
    let keep = [
        "next", "next_back", "size_hint", "nth", "nth_back", "len", "is_empty", "collect", "sum",
        "product", "advance_by", "advance_back_by", "peekable", "cloned", "copied", "rev", "map",
        "filter", "filter_map", "enumerate", "zip", "chain", "take", "skip", "take_while",
        "skip_while", "map_while", "by_ref", "fuse", "step_by", "inspect", "flat_map", "flatten",
        "scan", "cycle",
    ];
    let Some((tr, m)) = p.rsplit_once("::") else { return false };
    (tr == "std::iter::Iterator" || tr == "std::iter::DoubleEndedIterator") && !keep.contains(&m)
}

fn iterator_type(p: &str) -> bool {
    p.starts_with("std::iter::")
        || p.starts_with("std::slice::")
        || p.starts_with("std::vec::IntoIter")
        || p.starts_with("std::vec::Drain")
        || p.starts_with("std::ops::Range")
        || p.starts_with("std::collections::")
        || p.starts_with("std::str::")
        || p.starts_with("std::option::I")
        || p.starts_with("std::array::IntoIter")
        || p.starts_with("tar::Entries")
        || p.starts_with("std::fs::ReadDir")
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let env0 = TypingEnv::fully_monomorphized();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        queue: VecDeque::new(),
        seen: HashMap::new(),
        fns: vec![],
        env: env0,
        local_iters: vec![],
        dei: tcx
            .visible_traits()
            .find(|t| path(tcx, *t) == "std::iter::DoubleEndedIterator"),
    };
    if let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
        for imp in tcx.all_local_trait_impls(()).get(&it).into_iter().flatten() {
            let st = tcx.type_of(imp.to_def_id()).instantiate_identity().skip_norm_wip();
            if let ty::Adt(d, _) = st.kind() {
                cx.local_iters.push(d.did());
            }
        }
    }
    let ev = tcx.effective_visibilities(());
    // roots: every local function-like body
    let mut roots = vec![];
    let mut impls = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let inst = Instance::new_raw(d, args);
        let env = TypingEnv::post_analysis(tcx, d);
        cx.env = env;
        let id = cx.add_instance(inst, env);
        let mut o = vec![("id", s(id)), ("path", s(path(tcx, d)))];
        o.push(("reachable", J::B(ev.is_reachable(ld))));
        o.push(("exported", J::B(ev.is_exported(ld))));
        o.push(("span", cx.span(tcx.def_span(d))));
        o.push(("name", s(tcx.item_name(d).to_string())));
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let self_ty = tcx.type_of(imp).instantiate_identity();
            let self_ty = self_ty.skip_norm_wip();
            o.push(("self_ty", n(cx.ty(self_ty))));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
                o.push(("trait_ref", s(with_no_trimmed_paths!(tr.to_string()))));
            }
            // derived?
            o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
        }
        if let Some(td) = tcx.trait_of_assoc(d) {
            o.push(("in_trait", s(path(tcx, td))));
        }
        roots.push(J::O(o));
    }
    // local trait impls of every trait (for dynamic dispatch / drop / deref)
    for (td, imps) in tcx.all_local_trait_impls(()).iter() {
        for imp in imps.iter() {
            let imp = imp.to_def_id();
            let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let tyid = cx.ty(self_ty);
            let mut ms = vec![];
            for it in tcx.associated_items(imp).in_definition_order() {
                if let Some(t) = it.trait_item_def_id() {
                    if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                        ms.push(J::A(vec![s(path(tcx, t)), s(path(tcx, it.def_id))]));
                    }
                }
            }
            impls.push(J::O(vec![
                ("trait", s(path(tcx, *td))),
                ("self_ty", n(tyid)),
                ("self_str", s(with_no_trimmed_paths!(self_ty.to_string()))),
                ("methods", J::A(ms)),
                ("derived", J::B(tcx.is_automatically_derived(imp))),
            ]));
        }
    }
    // consts and statics with bodies
    let mut statics = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if let DefKind::Static { .. } = tcx.def_kind(d) {
            let sty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            statics.push(J::O(vec![
                ("path", s(path(tcx, d))),
                ("ty", s(with_no_trimmed_paths!(sty.to_string()))),
                ("mut", J::B(tcx.is_mutable_static(d) || !sty.is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                ("span", cx.span(tcx.def_span(d))),
            ]));
        }
    }
    while let Some((inst, env)) = cx.queue.pop_front() {
        cx.env = env;
        let j = cx.body(inst);
        cx.fns.push(j);
    }
    // local ADTs
    let mut adts = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let def = tcx.adt_def(d);
            let mut fields = vec![];
            for v in def.variants() {
                for f in v.fields.iter() {
                    fields.push(J::O(vec![
                        ("v", s(v.name.to_string())),
                        ("n", s(f.name.to_string())),
                        ("pub", J::B(f.vis.is_public())),
                        ("ty", s(with_no_trimmed_paths!(tcx
                            .type_of(f.did)
                            .instantiate_identity()
                            .skip_norm_wip()
                            .to_string()))),
                    ]));
                }
            }
            adts.push(J::O(vec![
                ("path", s(path(tcx, d))),
                ("reachable", J::B(ev.is_reachable(id.owner_id.def_id))),
                ("exported", J::B(ev.is_exported(id.owner_id.def_id))),
                ("fields", J::A(fields)),
            ]));
        }
    }
    // what is written as unsafe in the crate
    let mut un = Unsafety { tcx, out: vec![], owner: String::new() };
    for id in tcx.hir_free_items() {
        let d = id.owner_id.def_id;
        let item = tcx.hir_item(id);
        match item.kind {
            rustc_hir::ItemKind::ForeignMod { .. } => un.add("foreign items", tcx.def_path_str(d.to_def_id()), item.span),
            rustc_hir::ItemKind::Trait { safety: rustc_hir::Safety::Unsafe, .. } => {
                un.add("unsafe trait", path(tcx, d.to_def_id()), item.span)
            }
            _ => {}
        }
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let h = tcx.impl_trait_header(d);
            if h.safety == rustc_hir::Safety::Unsafe && !tcx.is_automatically_derived(d.to_def_id()) {
                let t = h.trait_ref.skip_binder();
                un.add("unsafe impl", with_no_trimmed_paths!(t.to_string()), item.span);
            }
        }
    }
    let mut bodies = 0;
    for ld in tcx.hir_body_owners() {
        bodies += 1;
        let d = ld.to_def_id();
        un.owner = path(tcx, tcx.typeck_root_def_id(d));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(d).skip_binder().skip_binder().safety() == rustc_hir::Safety::Unsafe
        {
            let o = un.owner.clone();
            un.add("unsafe fn", o, tcx.def_span(d));
        }
        let a = tcx.codegen_fn_attrs(d);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. }) && a.contains_extern_indicator() {
            let o = un.owner.clone();
            un.add("exported symbol", o, tcx.def_span(d));
        }
        rustc_hir::intravisit::Visitor::visit_body(&mut un, tcx.hir_body_owned_by(ld));
    }
    let unsafes = un
        .out
        .into_iter()
        .map(|(k, w, sp)| J::O(vec![("kind", s(k)), ("path", s(w)), ("span", cx.span(sp))]))
        .collect();
    J::O(vec![
        ("unsafe", J::A(unsafes)),
        ("bodies", n(bodies)),
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots", J::A(roots)),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("adts", J::A(adts)),
        ("types", J::A(std::mem::take(&mut cx.ty_out))),
        ("fns", J::A(std::mem::take(&mut cx.fns))),
    ])
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn inst_name(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let mut p = match inst.def {
            InstanceKind::Item(_) => path(self.tcx, d),
            other => format!("{}#{}", path(self.tcx, d), kind_name(&other)),
        };
        if self.tcx.is_closure_like(d) {
            // closures print with a span; make the name stable
            let parent = self.tcx.typeck_root_def_id(d);
            let idx = self.tcx.def_key(d).disambiguated_data.disambiguator;
            let mut chain = format!("{{closure#{}}}", idx);
            let mut cur = self.tcx.parent(d);
            while cur != parent {
                let i = self.tcx.def_key(cur).disambiguated_data.disambiguator;
                chain = format!("{{closure#{}}}::{}", i, chain);
                cur = self.tcx.parent(cur);
            }
            p = format!("{}::{}", path(self.tcx, parent), chain);
        }
        p
    }

    fn add_instance(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        if let Some(x) = self.seen.get(&inst) {
            return x.clone();
        }
        let base = self.inst_name(inst);
        let args = with_no_trimmed_paths!(format!("{:?}", inst.args));
        let id = format!("{}|{}", base, args);
        self.seen.insert(inst, id.clone());
        self.queue.push_back((inst, env));
        id
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if d.is_local() {
                    return self.tcx.is_mir_available(d);
                }
                self.tcx.is_mir_available(d) && inline_external(&path(self.tcx, d))
            }
            _ => false,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let mut o = vec![("s", s(with_no_trimmed_paths!(t.to_string())))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("n", s(i.name_str())));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("n", s(i.name_str())));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let i = self.ty(*x);
                o.push(("t", n(i)));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let i = self.ty(*x);
                o.push(("t", n(i)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let i = self.ty(*x);
                o.push(("t", n(i)));
            }
            ty::Array(x, len) => {
                o.push(("k", s("array")));
                let i = self.ty(*x);
                o.push(("t", n(i)));
                o.push(("n", match len.try_to_target_usize(self.tcx) {
                    Some(v) => n(v),
                    None => J::Null,
                }));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(path(self.tcx, def.did()))));
                o.push(("krate", s(self.tcx.crate_name(def.did().krate).to_string())));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(a)));
                o.push(("enum", J::B(def.is_enum())));
                let all_pub = def.all_fields().all(|f| f.vis.is_public());
                if def.did().is_local() || def.is_enum() || all_pub {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            n(def.discriminant_for_variant(self.tcx, vi).val as i128)
                        } else {
                            n(0)
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.norm(ft.skip_norm_wip());
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), n(ft)]));
                        }
                        vs.push(J::O(vec![
                            ("n", s(v.name.to_string())),
                            ("d", discr),
                            ("f", J::A(fs)),
                        ]));
                    }
                    o.push(("vs", J::A(vs)));
                }
                let ap = path(self.tcx, def.did());
                let local_iter = def.did().is_local() && self.local_iters.contains(&def.did());
                if local_iter || iterator_type(&ap) {
                    if let Some(j) = self.iter_next(t) {
                        o.push(("next", j));
                    }
                    if let Some(j) = self.iter_next_back(t) {
                        o.push(("next_back", j));
                    }
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(*d, args);
                if d.is_local() || self.tcx.is_mir_available(*d) {
                    let id = self.add_instance(inst, self.env);
                    o.push(("f", s(id)));
                } else {
                    o.push(("f", J::Null));
                }
                let a: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| n(self.ty(x)))
                    .collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(*d, args.no_bound_vars().unwrap_or_else(|| ty::List::empty()));
                o.push(("c", c));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                o.push(("p", match preds.principal_def_id() {
                    Some(d) => s(path(self.tcx, d)),
                    None => J::Null,
                }));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::O(o);
        id
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        infcx
            .type_implements_trait(tr, [t], pe)
            .must_apply_modulo_regions()
    }

    fn iter_next(&mut self, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        if !self.implements(t, tr) {
            return None;
        }
        let m = first_fn(tcx, tr)?;
        let a = tcx.mk_args(&[t.into()]);
        Some(self.callee_dt(m, a))
    }

    fn iter_next_back(&mut self, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let tr = self.dei?;
        if !self.implements(t, tr) {
            return None;
        }
        let m = first_fn(tcx, tr)?;
        let a = tcx.mk_args(&[t.into()]);
        Some(self.callee_dt(m, a))
    }

    /// a callee together with the type of its result
    fn callee_dt(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut j = self.callee(d, args);
        let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
        let out = tcx.erase_and_anonymize_regions(sig.output().skip_binder());
        if let Ok(out) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(out)) {
            let ti = self.ty(out);
            if let J::O(ref mut v) = j {
                v.push(("dt", n(ti)));
            }
        }
        j
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(path(tcx, d)))];
        o.push(("krate", s(tcx.crate_name(d.krate).to_string())));
        o.push(("local", J::B(d.is_local())));
        let a: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
        o.push(("a", J::A(a)));
        if let Some(td) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, td))));
        }
        let mut target = d;
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(mut inst)) => {
                if inst.def_id() != d
                    && !inst.def_id().is_local()
                    && matches!(inst.def, InstanceKind::Item(_))
                    && use_default_body(&path(tcx, d))
                    && tcx.is_mir_available(d)
                {
                    inst = Instance::new_raw(d, args);
                }
                let kind = kind_name(&inst.def);
                o.push(("kind", s(kind)));
                target = inst.def_id();
                o.push(("rp", s(path(tcx, inst.def_id()))));
                o.push(("rkrate", s(tcx.crate_name(inst.def_id().krate).to_string())));
                o.push(("rlocal", J::B(inst.def_id().is_local())));
                let ra: Vec<J> = inst.args.types().map(|x| n(self.ty(x))).collect();
                o.push(("ra", J::A(ra)));
                if self.want_body(&inst) {
                    let env = self.env;
                    let id = self.add_instance(inst, env);
                    o.push(("body", s(id)));
                }
                let dp = path(tcx, d);
                if dp.ends_with("Argument::<'_>::new_display") || dp.ends_with("ToString::to_string") {
                    if let (Some(t0), Some(disp)) =
                        (args.types().next(), tcx.get_diagnostic_item(rustc_span::sym::Display))
                    {
                        if let Some(m) = first_fn(tcx, disp) {
                            // references and boxes display what they point to
                            let mut t1 = t0;
                            loop {
                                t1 = match t1.kind() {
                                    ty::Ref(_, x, _) => *x,
                                    _ => match t1.boxed_ty() {
                                        Some(x) => x,
                                        None => break,
                                    },
                                };
                            }
                            let a = tcx.mk_args(&[t1.into()]);
                            let j = self.callee(m, a);
                            o.push(("fmt", j));
                        }
                    }
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        let fl = tcx.def_kind(target).is_fn_like() && tcx.def_kind(target) != DefKind::Closure;
        if fl {
            let cfa = tcx.codegen_fn_attrs(target);
            let tc = cfa.flags.contains(
                rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER,
            );
            o.push(("tc", J::B(tc)));
        }
        let mut doc = String::new();
        for a in tcx.get_all_attrs(target) {
            if let Some(x) = a.doc_str() {
                doc.push_str(x.as_str());
                doc.push('\n');
            }
        }
        o.push(("pdoc", J::B(panics_by_input(&doc))));
        if doc.contains("# Panic") && !panics_by_input(&doc) {
            o.push(("pmem", J::B(true)));
        }
        if tcx.is_foreign_item(target) {
            o.push(("foreign", J::B(true)));
        }
        J::O(o)
    }

    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let id = self.seen[&inst].clone();
        let raw = tcx.optimized_mir(d);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, raw.clone()),
        );
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upvars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l.as_usize(), v.name.to_string());
                } else {
                    upvars.push(J::A(vec![s(v.name.to_string()), self.place(&p, &body)]));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, ld)| {
                let t = n(self.ty(ld.ty));
                let nm = match names.get(&l.as_usize()) {
                    Some(x) => s(x.clone()),
                    None => J::Null,
                };
                J::A(vec![t, nm])
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &data.statements {
                if let Some(j) = self.stmt(st, &body) {
                    sts.push(j);
                }
            }
            let term = self.term(data.terminator(), &body);
            blocks.push(J::O(vec![
                ("c", J::B(data.is_cleanup)),
                ("s", J::A(sts)),
                ("t", term),
            ]));
        }
        let base = self.inst_name(inst);
        let parent = if tcx.is_closure_like(d) {
            s(path(tcx, tcx.typeck_root_def_id(d)))
        } else {
            J::Null
        };
        J::O(vec![
            ("id", s(id)),
            ("path", s(base)),
            ("local", J::B(d.is_local())),
            ("closure_of", parent),
            ("span", self.span(tcx.def_span(d))),
            ("argc", n(body.arg_count)),
            ("spread", match body.spread_arg {
                Some(l) => n(l.as_usize()),
                None => J::Null,
            }),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let npt = pt.projection_ty(self.tcx, e);
            let j = match e {
                ProjectionElem::Deref => J::O(vec![("k", s("deref"))]),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(t);
                    let ti = self.ty(t);
                    J::O(vec![("k", s("f")), ("i", n(f.as_usize())), ("t", n(ti))])
                }
                ProjectionElem::Index(l) => {
                    J::O(vec![("k", s("idx")), ("l", n(l.as_usize()))])
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![
                    ("k", s("cidx")),
                    ("o", n(offset)),
                    ("min", n(min_length)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("k", s("sub")),
                    ("from", n(from)),
                    ("to", n(to)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    J::O(vec![("k", s("v")), ("i", n(vi.as_usize()))])
                }
                _ => J::O(vec![("k", s("cast"))]),
            };
            v.push(j);
            pt = npt;
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.constant(&c.const_),
            other => J::O(vec![("k", s("rtcheck")), ("s", s(format!("{:?}", other)))]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("k", s("const")), ("t", n(ti))];
        if let ty::FnDef(..) = t.kind() {
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            // the name identifies the constant: promoted constants of a function are numbered
            let mut name = path(tcx, u.def);
            if let Some(pr) = u.promoted {
                name = format!("{}#{}", name, pr.as_usize());
            }
            if !u.args.is_empty() {
                name = format!("{}{:?}", name, u.args);
            }
            o.push(("def", s(name)));
        }
        let value = match c {
            // (not through trait selection: the constant belongs to this very body)
            mir::Const::Unevaluated(u, _) if u.promoted.is_some() => {
                let pr = u.promoted.unwrap();
                if tcx.promoted_mir(u.def).get(pr).is_none() {
                    return J::O(o);
                }
                let inst = Instance::new_raw(u.def, u.args);
                let id = mir::interpret::GlobalId { instance: inst, promoted: Some(pr) };
                tcx.const_eval_global_id(self.env, id, rustc_span::DUMMY_SP)
            }
            _ => c.eval(tcx, self.env, rustc_span::DUMMY_SP),
        };
        match value {
            Ok(v) => {
                if let Some(j) = self.const_val(v, t) {
                    o.push(("v", j));
                }
            }
            Err(_) => {}
        }
        J::O(o)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => {
                let sc = v.try_to_scalar_int()?;
                Some(n(sc.to_bits(sc.size())))
            }
            ty::Int(_) => {
                let sc = v.try_to_scalar_int()?;
                Some(n(sc.to_int(sc.size())))
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    Some(J::O(vec![("str", s(String::from_utf8_lossy(b).into_owned()))]))
                }
                ty::Slice(e) if *e == tcx.types.u8 => {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x)).collect()))]))
                }
                _ => self.const_ref(v, *inner),
            },
            ty::Tuple(ts) if ts.is_empty() => Some(J::O(vec![("unit", J::B(true))])),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.const_agg(v, t),
            _ => None,
        }
    }

    fn const_agg(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        if has_params(t) {
            return None;
        }
        let d = self
            .tcx
            .try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields {
            let tid = self.ty(*ft);
            let inner = self.const_val(*fv, *ft).unwrap_or(J::Null);
            fs.push(J::A(vec![n(tid), inner]));
        }
        Some(J::O(vec![
            ("agg", J::A(fs)),
            ("var", match d.variant {
                Some(x) => n(x.as_usize()),
                None => n(0),
            }),
        ]))
    }

    /// Constant behind a reference (promoted arrays, byte strings, tuples, enums).
    fn const_ref(&mut self, v: ConstValue, inner: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if has_params(inner) {
            return None;
        }
        let ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = v else {
            return None;
        };
        let (prov, off) = ptr.into_raw_parts();
        let alloc_id = prov.alloc_id();
        let ga = tcx.try_get_global_alloc(alloc_id)?;
        let mir::interpret::GlobalAlloc::Memory(a) = ga else {
            return None;
        };
        if let ty::Array(e, len) = inner.kind() {
            if *e == tcx.types.u8 {
                let l = len.try_to_target_usize(tcx)? as usize;
                let st = off.bytes() as usize;
                let b = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(st..st + l);
                return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x)).collect()))]));
            }
        }
        let cv = ConstValue::Indirect { alloc_id, offset: off };
        let j = self.const_val_indirect(cv, inner)?;
        Some(J::O(vec![("ref", j)]))
    }

    fn const_val_indirect(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                let ConstValue::Indirect { alloc_id, offset } = v else { return None };
                let mir::interpret::GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)?
                else {
                    return None;
                };
                let size = tcx
                    .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
                    .ok()?
                    .size;
                let st = offset.bytes() as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                    st..st + size.bytes() as usize,
                );
                let mut x: u128 = 0;
                for (i, y) in b.iter().enumerate() {
                    x |= (*y as u128) << (8 * i);
                }
                if let ty::Int(_) = t.kind() {
                    let bits = size.bits();
                    let sh = 128 - bits;
                    return Some(n(((x << sh) as i128) >> sh));
                }
                Some(n(x))
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.const_agg(v, t),
            ty::Ref(_, inner, _) => {
                let ConstValue::Indirect { alloc_id, offset } = v else {
                    return self.const_val(v, t);
                };
                self.const_stored_ref(alloc_id, offset, *inner)
            }
            _ => self.const_val(v, t),
        }
    }

    /// A reference stored in constant memory.
    fn const_stored_ref(
        &mut self,
        alloc_id: mir::interpret::AllocId,
        offset: rustc_abi::Size,
        inner: Ty<'tcx>,
    ) -> Option<J> {
        let tcx = self.tcx;
        let mir::interpret::GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else {
            return None;
        };
        let prov = *a.inner().provenance().ptrs().get(&offset)?;
        let word = |at: usize| -> u64 {
            let b = a
                .inner()
                .inspect_with_uninit_and_ptr_outside_interpreter(at..at + 8);
            let mut x = 0u64;
            for (i, y) in b.iter().enumerate() {
                x |= (*y as u64) << (8 * i);
            }
            x
        };
        let at = offset.bytes() as usize;
        let start = word(at);
        let bytes = match inner.kind() {
            ty::Str => true,
            ty::Slice(e) => {
                if *e != tcx.types.u8 {
                    return None;
                }
                true
            }
            _ => false,
        };
        if bytes {
            let l = word(at + 8) as usize;
            let mir::interpret::GlobalAlloc::Memory(b) =
                tcx.try_get_global_alloc(prov.alloc_id())?
            else {
                return None;
            };
            let st = start as usize;
            let b = b
                .inner()
                .inspect_with_uninit_and_ptr_outside_interpreter(st..st + l);
            return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x)).collect()))]));
        }
        let ptr = mir::interpret::Pointer::new(prov, rustc_abi::Size::from_bytes(start));
        let cv = ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, std::num::NonZero::new(8).unwrap()));
        self.const_ref(cv, inner)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(o, body))]),
            Rvalue::Repeat(o, c) => J::O(vec![
                ("k", s("repeat")),
                ("o", self.operand(o, body)),
                ("n", match c.try_to_target_usize(self.tcx) {
                    Some(v) => n(v),
                    None => J::Null,
                }),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(true)),
                ("raw", J::B(true)),
                ("p", self.place(p, body)),
            ]),
            Rvalue::Cast(k, o, t) => {
                let ti = n(self.ty(*t));
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{:?}", k))),
                    ("o", self.operand(o, body)),
                    ("t", ti),
                ])
            }
            Rvalue::BinaryOp(op, b) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(&b.0, body)),
                ("b", self.operand(&b.1, body)),
            ]),
            Rvalue::UnaryOp(op, a) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(a, body)),
            ]),
            Rvalue::Discriminant(p) => {
                J::O(vec![("k", s("discr")), ("p", self.place(p, body))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("a", s("array")));
                        let ti = n(self.ty(*t));
                        o.push(("t", ti));
                    }
                    AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        o.push(("a", s("adt")));
                        let t = self
                            .tcx
                            .type_of(*d)
                            .instantiate(self.tcx, args)
                            .skip_norm_wip();
                        let ti = n(self.ty(t));
                        o.push(("t", ti));
                        o.push(("v", n(vi.as_usize())));
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("a", s("closure")));
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = n(self.ty(t));
                        o.push(("t", ti));
                    }
                    AggregateKind::RawPtr(..) => o.push(("a", s("rawptr"))),
                    _ => o.push(("a", s("other"))),
                }
                let v: Vec<J> = ops.iter().map(|x| self.operand(x, body)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("p", self.place(p, body))])),
            ]),
            other => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }

    fn stmt(&mut self, st: &Statement<'tcx>, body: &Body<'tcx>) -> Option<J> {
        let sp = self.span(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(b) => J::O(vec![
                ("k", s("=")),
                ("p", self.place(&b.0, body)),
                ("r", self.rvalue(&b.1, body)),
                ("sp", sp),
            ]),
            StatementKind::SetDiscriminant { place, variant_index } => J::O(vec![
                ("k", s("setd")),
                ("p", self.place(place, body)),
                ("v", n(variant_index.as_usize())),
                ("sp", sp),
            ]),
            StatementKind::StorageDead(l) => {
                J::O(vec![("k", s("dead")), ("l", n(l.as_usize()))])
            }
            StatementKind::StorageLive(l) => {
                J::O(vec![("k", s("live")), ("l", n(l.as_usize()))])
            }
            StatementKind::Intrinsic(i) => {
                J::O(vec![("k", s("intr")), ("s", s(format!("{:?}", i)))])
            }
            _ => return None,
        })
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", n(target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                let dt = discr.ty(&body.local_decls, self.tcx);
                let ti = n(self.ty(dt));
                o.push(("t", ti));
                o.push(("d", self.operand(discr, body)));
                let vs: Vec<J> = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![n(v), n(b.as_usize())]))
                    .collect();
                o.push(("vs", J::A(vs)));
                o.push(("else", n(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop")));
                let pt = place.ty(&body.local_decls, self.tcx).ty;
                let pt = self.norm(pt);
                let ti = n(self.ty(pt));
                o.push(("t", ti));
                o.push(("p", self.place(place, body)));
                o.push(("to", n(target.as_usize())));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                let ft = func.ty(&body.local_decls, self.tcx);
                match ft.kind() {
                    ty::FnDef(d, a) => {
                        let c = self.callee(*d, a.no_bound_vars().unwrap_or_else(|| ty::List::empty()));
                        o.push(("f", c));
                    }
                    _ => {
                        let fo = self.operand(func, body);
                        o.push(("fptr", fo));
                    }
                }
                let v: Vec<J> = args.iter().map(|x| self.operand(&x.node, body)).collect();
                o.push(("args", J::A(v)));
                o.push(("dst", self.place(destination, body)));
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dt = self.norm(dt);
                let ti = n(self.ty(dt));
                o.push(("dt", ti));
                o.push(("to", match target {
                    Some(b) => n(b.as_usize()),
                    None => J::Null,
                }));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                o.push(("c", self.operand(cond, body)));
                o.push(("e", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        let l = self.operand(len, body);
                        let i = self.operand(index, body);
                        J::O(vec![("k", s("bounds")), ("len", l), ("idx", i)])
                    }
                    AssertKind::Overflow(op, a, b) => {
                        let l = self.operand(a, body);
                        let i = self.operand(b, body);
                        J::O(vec![
                            ("k", s("overflow")),
                            ("op", s(format!("{:?}", op))),
                            ("a", l),
                            ("b", i),
                        ])
                    }
                    AssertKind::OverflowNeg(_) => J::O(vec![("k", s("neg"))]),
                    AssertKind::DivisionByZero(_) => J::O(vec![("k", s("div0"))]),
                    AssertKind::RemainderByZero(_) => J::O(vec![("k", s("rem0"))]),
                    other => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", other)))]),
                };
                o.push(("m", m));
                o.push(("to", n(target.as_usize())));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", n(real_target.as_usize())));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", n(real_target.as_usize())));
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                o.push(("k", s("resume")));
            }
            other => {
                o.push(("k", s("other")));
                o.push(("s", s(format!("{:?}", other))));
            }
        }
        J::O(o)
    }
}

fn first_fn(tcx: TyCtxt<'_>, tr: DefId) -> Option<DefId> {
    tcx.associated_items(tr)
        .in_definition_order()
        .find(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
        .map(|i| i.def_id)
}

fn kind_name(k: &InstanceKind<'_>) -> &'static str {
    match k {
        InstanceKind::Item(_) => "item",
        InstanceKind::Intrinsic(_) => "intrinsic",
        InstanceKind::Virtual(..) => "virtual",
        _ => "shim",
    }
}

fn has_params(t: Ty<'_>) -> bool {
    t.flags().intersects(ty::TypeFlags::HAS_PARAM)
}
