//! rustc driver: dumps the type-checked, monomorphised-per-instance MIR of the crate being
//! compiled as JSON, with resolved callees, types, constants and source positions.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver_impl::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = dump::dump(tcx);
        let mut s = String::new();
        j.write(&mut s);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: mirdump <rustc> <rustc args..>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let active = !want.is_empty() && name == want && !is_test && !out.is_empty();
    if active {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
        args.push("--cap-lints=warn".into());
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop;
        impl rustc_driver_impl::Callbacks for Nop {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    }
}
