"""Hand-written summaries of the library functions whose bodies are not analysed (collections,
strings, I/O, tar, regex, time, formatting). Each takes (E, st, fr, callee, args, result type) and
returns a list of (state, value)."""
import re

from terms import Term, Lin, L, mk, fresh, Cons, syms_of, RANGES, BITS
from vals import *

TABLE = {}
RX = []
PURE = set()
TOTAL = set()


def model(*names):
    def d(f):
        for n in names:
            if n.startswith('~'):
                RX.append((re.compile(n[1:]), f))
            else:
                TABLE[n] = f
        return f
    return d


_cache = {}


def lookup(c, p):
    m = _cache.get(p, 0)
    if m != 0:
        return m
    m = TABLE.get(p)
    if m is None:
        for r, f in RX:
            if r.search(p):
                m = f
                break
    m = m or TABLE.get(c['p'])
    _cache[p] = m
    return m


def is_pure(p):
    return p in PURE


def is_total(p):
    return p in TOTAL


# ------------------------------------------------------------------ helpers
def some(dty, v):
    return Agg(dty, 1, {0: v})


def none(dty):
    return Agg(dty, 0, {})


def ok(dty, v):
    return Agg(dty, 0, {0: v})


def err(dty, v):
    return Agg(dty, 1, {0: v})


def payload_ty(E, dty, var):
    return E.T[dty]['vs'][var]['f'][0][1]


def deref_all(E, st, v):
    n = 0
    while isinstance(v, Ref) and n < 6:
        v = E.read(st, v.p)
        n += 1
    return v


def sref(E, st, v):
    """fat view of a (reference to a) sequence"""
    n = 0
    while n < 8:
        if isinstance(v, SRef):
            return v
        if isinstance(v, Ref):
            x = E.read(st, v.p)
            if isinstance(x, Seq):
                return SRef(v.p, L(0), x.len, x.el)
            if isinstance(x, Lib) and x.kind == 'Box':
                v = x['inner']
                continue
            if isinstance(x, (Ref, SRef)):
                v = x
                n += 1
                continue
            if isinstance(x, (Sym, Agg, Lib)):
                return opaque_seq(E, st, x)
            return None
        if isinstance(v, Seq):
            root = ('R', mk('tmp', intern(v)), E.P.ty_by_s.get('[u8]'))
            st.mem[root] = v
            return SRef(Place(root), L(0), v.len, v.el)
        if isinstance(v, (Sym, Agg, Lib)):
            return opaque_seq(E, st, v)
        return None
    return None


def intern(v):
    from engine import intern_key
    return intern_key(v.key())


def opaque_seq(E, st, x, what='bytes'):
    t = mk(what, E.argterm(st, x))
    ty = E.P.ty_by_s.get('[u8]')
    pl = Place(('R', t, ty))
    v = E.read(st, pl)
    return SRef(pl, L(0), v.len, v.el)


def newseq(E, why, el, ln=None, attrs=frozenset()):
    return Seq(fresh(why), L(fresh('len', 'len')) if ln is None else ln, el, None, attrs)


def setseq(E, st, sr, v):
    E.write(st, Place(sr.p.root, sr.p.pr), v)


def isnum(v):
    return isinstance(v, Num)


def fork(E, st, f):
    """[(state, True/False)]"""
    r = E.decide(st, f)
    if r is not None:
        return [(st, r)]
    out = [(s if s is not st else st.copy(), True) for s in E.assume(st, f, True)]
    out += [(s if s is not st else st.copy(), False) for s in E.assume(st, f, False)]
    return out


def split(E, st, v):
    """[(state, variant, value seen as that variant)]"""
    if isinstance(v, Agg):
        return [(st, v.var, v)]
    if isinstance(v, Sym):
        out = []
        R = ('L', 0, 'split')
        st.mem[R] = v
        for s, i, d in E.discr(st, Place(R)):
            s.mem.pop(R, None)
            out.append((s, i, Agg(v.ty, i, {}, v.t)))
        st.mem.pop(R, None)
        return out
    raise AssertionError('split %r' % (v,))


def field(E, st, v, i):
    if v.ty is None:
        return v.fs[i]
    ty = E.field_ty(v.ty, v.var if isinstance(v, Agg) else 0, i)
    return E.proj(st, v, ('f', i, ty) if ty is not None else ('f', i))


# ------------------------------------------------------------------ comparisons
ORD = None


def cmpterm(kind, a, b):
    if a.id > b.id:
        return mk('cmp', kind, b, a), True
    return mk('cmp', kind, a, b), False


def cmp_values(E, st, kind, a, b, oty):
    """three-way comparison of two value numbers: [(st, Ordering)]"""
    if a is b:
        return [(st, Agg(oty, 1, {}))]
    if E.ranks:
        return num_cmp(E, st, rank_of(kind, a), rank_of(kind, b), oty)
    t, flip = cmpterm(kind, a, b)
    out = []
    for i in (0, 1, 2):
        for s in E.assume(st, ('var', t, frozenset([i]), 3)):
            out.append((s if s is not st else st.copy(), Agg(oty, 2 - i if flip else i, {})))
    return out


def rank_of(kind, a):
    """position of a value in the total order of its kind"""
    return L(mk('rank', kind, a, ty='rank'))


def eq_formula(kind, a, b, E=None):
    if a is b:
        return True
    if E is not None and E.ranks:
        return feq(rank_of(kind, a) - rank_of(kind, b))
    t, _ = cmpterm(kind, a, b)
    return ('var', t, frozenset([1]), 3)


def bytes_eq(E, st, a, b, kind='bytes'):
    ca, cb = E.cterm(st, a), E.cterm(st, b)
    if kind == 'bytes':
        if ca is cb and (a.len == b.len or st.cons.proves_eq(a.len - b.len)):
            return True
        if ca.op == 'const' and cb.op == 'const' and a.len.is_const() and b.len.is_const():
            return ca.args[0][:a.len.k] == cb.args[0][:b.len.k]
        if st.cons.proves_ne(a.len - b.len):
            return False
        for x, y, c in ((a, b, cb), (b, a, ca)):
            if c.op == 'const' and y.len.is_const() and y.len.k <= 64:
                fs = [feq(x.len - y.len)]
                off = 0
                for i in range(y.len.k):
                    e = E.elem_at(st, x, L(i))
                    if not isinstance(e, Num):
                        break
                    fs.append(feq(e.lin - c.args[0][i]))
                else:
                    return fand(*fs)
    elif ca is cb and a.len == b.len:
        return True
    return eq_formula(kind, ca, cb, E)


def ordering_ty(E):
    return E.P.ty_by_s['std::cmp::Ordering']


def num_cmp(E, st, x, y, oty):
    out = []
    for s in E.assume(st, fge(y - x - 1)):
        out.append((s if s is not st else st.copy(), Agg(oty, 0, {})))
    for s in E.assume(st, feq(x - y)):
        out.append((s if s is not st else st.copy(), Agg(oty, 1, {})))
    for s in E.assume(st, fge(x - y - 1)):
        out.append((s if s is not st else st.copy(), Agg(oty, 2, {})))
    return out


PATHTYS = ('std::path::PathBuf', 'std::path::Path')


def cmp_kind(E, st, v, c):
    """which ordering relation a comparison callee uses"""
    p = (c.get('rp') or c['p'])
    if 'path::' in p or 'Path' in p:
        return 'path'
    return 'bytes'


def three_way(E, st, c, a, b, oty):
    a, b = refval(E, st, a), refval(E, st, b)
    if isinstance(a, Num) and isinstance(b, Num):
        return num_cmp(E, st, a.lin, b.lin, oty)
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return num_cmp(E, st, E.num(st, a), E.num(st, b), oty)
    if isinstance(a, SRef) and isinstance(b, SRef):
        kind = cmp_kind(E, st, a, c)
        if kind == 'bytes' and a.el != E.P.u8:
            kind = 'seq'
        out = []
        for s, r in fork(E, st, bytes_eq(E, st, a, b, kind)):
            if r:
                out.append((s, Agg(oty, 1, {})))
            else:
                ca, cb = E.cterm(s, a), E.cterm(s, b)
                if ca is cb:
                    t = fresh('cmp')
                    for i in (0, 2):
                        out.append((s.copy(), Agg(oty, i, {})))
                    continue
                out.extend((s2, v) for s2, v in cmp_values(E, s, kind, ca, cb, oty) if v.var != 1)
        return out
    if istuple(E, a) and istuple(E, b):
        todo, out = [st], []
        n = tuplelen(E, a)
        for i in range(n):
            nxt = []
            for s in todo:
                for s2, v in three_way(E, s, c, field(E, s, a, i), field(E, s, b, i), oty):
                    for s3, k, _ in split(E, s2, v):
                        if k == 1:
                            nxt.append(s3)
                        else:
                            out.append((s3, Agg(oty, k, {})))
            todo = nxt
        return out + [(s, Agg(oty, 1, {})) for s in todo]
    x, y = unwrapped(E, st, a, 'Ord>::cmp'), unwrapped(E, st, b, 'Ord>::cmp')
    if x is not None and y is not None:
        return three_way(E, st, inner_cmp(E, a), x, y, oty)
    kind = tyname(E, a) or tyname(E, b) or 'val'
    return cmp_values(E, st, kind, E.argterm(st, a), E.argterm(st, b), oty)


def stdenum(E, v):
    """a library enum compared by variant and fields"""
    t = E.T[v.ty] if v.ty is not None else {}
    return t.get('p') in ('std::ops::ControlFlow', 'std::result::Result', 'std::cmp::Ordering') and t.get('vs') and v.var < len(t['vs'])


def istuple(E, v):
    if isinstance(v, Agg) and v.ty is None:
        return len(v.fs) > 1 and sorted(v.fs) == list(range(len(v.fs)))
    return isinstance(v, (Agg, Sym)) and v.ty is not None and E.T[v.ty]['k'] == 'tuple' and len(E.T[v.ty]['ts']) > 0


def tuplelen(E, v):
    return len(v.fs) if v.ty is None else len(E.T[v.ty]['ts'])


def unwrapped(E, st, v, impl):
    """the only field of a struct that is compared by its field (derived comparison)"""
    if not E.ranks or not isinstance(v, (Agg, Sym)) or v.ty is None:
        return None
    t = E.T[v.ty]
    if t['k'] != 'adt' or len(t['vs']) != 1 or len(t['vs'][0]['f']) != 1:
        return None
    r = E.P.root_by_path.get('<%s as std::cmp::%s' % (t['p'], impl))
    if not r or not r.get('derived'):
        return None
    x = field(E, st, v, 0)
    if not isinstance(x, Seq):
        return x
    # kept at a place of its own, in the order its type has
    root = ('W', x.key())
    st.mem[root] = x
    return SRef(Place(root), L(0), x.len, x.el)


def inner_cmp(E, v):
    return dict(p=E.T[E.T[v.ty]['vs'][0]['f'][0][1]]['s'])


def refval(E, st, v):
    """strip references down to a comparable value"""
    n = 0
    while n < 6:
        if isinstance(v, Ref):
            x = E.read(st, v.p)
            if isinstance(x, Seq):
                return SRef(v.p, L(0), x.len, x.el)
            v = x
            n += 1
        elif isinstance(v, Seq):
            return sref(E, st, v)
        else:
            return v
    return v


def tyname(E, v):
    t = E.tyof_value(v)
    if t is not None:
        return E.T[t].get('p') or E.T[t]['s']
    return None


def option_parts(E, st, v):
    """(formula: it is Some, payload)"""
    if isinstance(v, Agg):
        return v.var == 1, (field(E, st, v, 0) if v.var == 1 else None)
    return ('var', v.t, frozenset([1]), 2), E.mkval(mk('fld', v.t, 1, 0), payload_ty(E, v.ty, 1))


def equal(E, st, c, a, b):
    a, b = refval(E, st, a), refval(E, st, b)
    if isinstance(a, Num) and isinstance(b, Num):
        return feq(a.lin - b.lin)
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return E.compare(st, 'Eq', a, b)
    if isinstance(a, SRef) and isinstance(b, SRef):
        kind = cmp_kind(E, st, a, c)
        if kind == 'bytes' and a.el != E.P.u8:
            kind = 'seq'
        return bytes_eq(E, st, a, b, kind)
    if all(isinstance(v, (Agg, Sym)) and v.ty is not None and E.is_adt(v.ty, 'std::option::Option') for v in (a, b)):
        (ga, pa), (gb, pb) = option_parts(E, st, a), option_parts(E, st, b)
        inner = equal(E, st, c, pa, pb) if ga is not False and gb is not False else True
        return for_(fand(fnot(ga), fnot(gb)), fand(ga, gb, inner))
    if isinstance(a, Agg) and isinstance(b, Agg) and stdenum(E, a) and stdenum(E, b):
        if a.var != b.var:
            return False
        fs = E.T[a.ty]['vs'][a.var]['f']
        return fand(*[equal(E, st, c, field(E, st, a, i), field(E, st, b, i)) for i in range(len(fs))])
    if istuple(E, a) and istuple(E, b):
        n = tuplelen(E, a)
        return fand(*[equal(E, st, c, field(E, st, a, i), field(E, st, b, i)) for i in range(n)])
    x, y = unwrapped(E, st, a, 'PartialEq>::eq'), unwrapped(E, st, b, 'PartialEq>::eq')
    if x is not None and y is not None:
        return equal(E, st, inner_cmp(E, a), x, y)
    kind = tyname(E, a) or tyname(E, b) or 'val'
    return eq_formula(kind, E.argterm(st, a), E.argterm(st, b), E)


@model('~as std::cmp::PartialEq(<.*>)?>::eq$', '~impl std::cmp::PartialEq(<.*>)? for .*>::eq$')
def m_eq(E, st, fr, c, args, dty):
    return [(st, BoolV(equal(E, st, c, args[0], args[1])))]


@model('~as std::cmp::PartialEq(<.*>)?>::ne$', '~impl std::cmp::PartialEq(<.*>)? for .*>::ne$')
def m_ne(E, st, fr, c, args, dty):
    return [(st, BoolV(fnot(equal(E, st, c, args[0], args[1]))))]


@model('~as std::cmp::Ord>::cmp$', '~impl std::cmp::Ord for .*>::cmp$')
def m_cmp(E, st, fr, c, args, dty):
    return three_way(E, st, c, args[0], args[1], dty)


@model('~as std::cmp::PartialOrd(<.*>)?>::partial_cmp$', '~impl std::cmp::PartialOrd(<.*>)? for .*>::partial_cmp$')
def m_pcmp(E, st, fr, c, args, dty):
    return [(s, some(dty, v)) for s, v in three_way(E, st, c, args[0], args[1], payload_ty(E, dty, 1))]


def _rel(name, vs):
    def f(E, st, fr, c, args, dty):
        return [(s, BoolV(v.var in vs)) for s, v in three_way(E, st, c, args[0], args[1], ordering_ty(E))]
    model('~as std::cmp::PartialOrd(<.*>)?>::%s$' % name, '~impl std::cmp::PartialOrd(<.*>)? for .*>::%s$' % name)(f)


_rel('lt', (0,))
_rel('le', (0, 1))
_rel('gt', (2,))
_rel('ge', (1, 2))


@model('~^<?(std::cmp::Ord|.* as std::cmp::Ord>)::(min|max)$', '~impl std::cmp::Ord for .*>::(min|max)$', 'std::cmp::min', 'std::cmp::max')
def m_minmax(E, st, fr, c, args, dty):
    a, b = args
    p = c.get('rp') or c['p']
    if not (isnum(a) and isnum(b)):
        return None
    out = []
    mn = p.endswith('min')
    for s, r in fork(E, st, fge(b.lin - a.lin)):
        out.append((s, a if r == mn else b))
    return out


# ------------------------------------------------------------------ integers
def _intop(name):
    m = re.match(r'core::num::<impl ([ui]\w+)>::(\w+)$', name)
    return m


def num_result(E, st, l, ty):
    return Num(l, ty)


@model('~^core::num::<impl [ui](8|16|32|64|128|size)>::\\w+$')
def m_int(E, st, fr, c, args, dty):
    p = c.get('rp') or c['p']
    m = _intop(p)
    ty, op = m.group(1), m.group(2)
    lo, hi = RANGES[ty]
    a = E.num(st, args[0]) if args and isinstance(args[0], (Num, Sym, BoolV)) else None
    b = E.num(st, args[1]) if len(args) > 1 and isinstance(args[1], (Num, Sym)) else None
    kinds = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
    for pre in ('checked_', 'saturating_', 'wrapping_', 'overflowing_'):
        if op.startswith(pre) and op[len(pre):] in kinds and a is not None and b is not None:
            k = kinds[op[len(pre):]]
            ss = [(st, True)]
            out = []
            if k in ('Div', 'Rem'):
                if pre != 'checked_':
                    st2 = E.oblige(st, fr, fnot(feq(b)), 'division', op)
                    ss = [(s, True) for s in st2]
                else:
                    ss = fork(E, st, fnot(feq(b)))
            for s, nz in ss:
                if not nz:
                    out.append((s, none(dty)))
                    continue
                s, l = E.arith(s, k, a, b, ty)
                for s2, r in fork(E, s, E.inrange(l, ty)):
                    if pre == 'checked_':
                        out.append((s2, some(dty, Num(l, ty)) if r else none(dty)))
                    elif pre == 'saturating_':
                        if r:
                            out.append((s2, Num(l, ty)))
                        else:
                            for s3, low in fork(E, s2, fge(L(lo) - 1 - l)):
                                out.append((s3, Num(L(lo if low else hi), ty)))
                    elif pre == 'wrapping_':
                        out.append((s2, Num(l if r else L(mk('wrap' + k, a, b, ty=ty)), ty)))
                    else:
                        v = Num(l if r else L(mk('wrap' + k, a, b, ty=ty)), ty)
                        out.append((s2, Agg(dty, 0, {0: v, 1: BoolV(not r)})))
            return out
    if op in ('min_value', 'max_value'):
        return [(st, Num(L(lo if op == 'min_value' else hi), ty))]
    if op == 'abs_diff' and a is not None and b is not None:
        return [(s, Num(a - b if r else b - a, dty and E.numty(dty) or ty)) for s, r in fork(E, st, fge(a - b))]
    if op == 'pow':
        if a.is_const() and b.is_const():
            st2 = E.oblige(st, fr, E.inrange(L(a.k ** b.k), ty), 'overflow', 'pow')
            return [(s, Num(L(a.k ** b.k), ty)) for s in st2]
        E.fail(st, fr, 'overflow', 'pow')
        return [(st, Num(L(fresh('pow', ty)), ty))]
    if op in ('is_ascii_digit', 'is_ascii_hexdigit', 'is_ascii_lowercase', 'is_ascii_uppercase', 'is_ascii_whitespace',
              'is_ascii_alphabetic', 'is_ascii_alphanumeric') and isinstance(args[0], (Ref, Num)):
        v = deref_all(E, st, args[0])
        return [(st, BoolV(ascii_class(op, E.num(st, v))))]
    if op in ('count_ones', 'leading_zeros', 'trailing_zeros', 'swap_bytes', 'to_be', 'to_le', 'from_be', 'rotate_left', 'rotate_right'):
        n = E.numty(dty)
        t = mk('call', p, *[E.argterm(st, x) for x in args], ty=n)
        return [(st, Num(L(t), n))]
    return None


def ascii_class(op, l):
    def rg(a, b):
        return fand(fge(l - ord(a)), fge(L(ord(b)) - l))
    d, lo, up = rg('0', '9'), rg('a', 'z'), rg('A', 'Z')
    if op.endswith('hexdigit'):
        return for_(d, rg('a', 'f'), rg('A', 'F'))
    if op.endswith('digit'):
        return d
    if op.endswith('lowercase'):
        return lo
    if op.endswith('uppercase'):
        return up
    if op.endswith('alphabetic'):
        return for_(lo, up)
    if op.endswith('alphanumeric'):
        return for_(d, lo, up)
    return for_(*[feq(l - x) for x in (32, 9, 10, 12, 13)])


@model('~impl std::convert::TryFrom<[ui]\\w+> for [ui]\\w+>::try_from$')
def m_tryfrom(E, st, fr, c, args, dty):
    n = E.numty(payload_ty(E, dty, 0))
    l = E.num(st, args[0])
    return [(s, ok(dty, Num(l, n)) if r else err(dty, E.mkval(fresh('tryfrom'), payload_ty(E, dty, 1))))
            for s, r in fork(E, st, E.inrange(l, n))]


@model('~impl std::convert::From<[ui]\\w+|bool|char> for [ui]\\w+>::from$')
def m_fromint(E, st, fr, c, args, dty):
    n = E.numty(dty)
    if n is None or not isinstance(args[0], (Num, BoolV)):
        return None
    return [(st, Num(E.num(st, args[0]), n))]


@model('~^std::intrinsics::(unlikely|likely|assume|cold_path|assert_inhabited|black_box)$', 'core::hint::black_box', 'std::hint::must_use')
def m_ident(E, st, fr, c, args, dty):
    return [(st, args[0] if args else E.unit())]


# ------------------------------------------------------------------ cloning / conversions
@model('~as std::clone::Clone>::clone$', '~impl std::clone::Clone for .*>::clone$',
       '~impl std::borrow::ToOwned for .*>::to_owned$', '~as std::borrow::ToOwned>::to_owned$',
       'core::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec',
       'std::path::Path::to_path_buf', 'std::ffi::OsStr::to_os_string', 'std::borrow::Cow::<\'_, B>::into_owned',
       '~<std::string::String as std::convert::From<&.*str>>::from$', '~<std::vec::Vec<.*> as std::convert::From<&.*>>::from$',
       'std::clone::Clone::clone')
def m_clone(E, st, fr, c, args, dty):
    v = args[0]
    el = E.P.seq_el(dty)
    if el is not None:
        s = sref(E, st, v)
        if s is None:
            return None
        sv = E.seq_at(st, s)
        if s.off.is_const() and s.off.k == 0 and s.len == sv.len:
            return [(st, Seq(sv.t, sv.len, sv.el, dict(sv.ov), sv.attrs))]
        return [(st, Seq(E.cterm(st, s), s.len, s.el))]
    if isinstance(v, Ref):
        x = E.read(st, v.p)
        if c.get('body') and isinstance(x, (Sym, Agg)) and E.T[E.tyof_value(x)].get('local'):
            return None
        materialise(E, st, v.p)
        x = E.read(st, v.p)
        return [(st, x)]
    return [(st, v)]


@model('~as std::ops::Deref>::deref$', '~as std::ops::DerefMut>::deref_mut$', '~as std::convert::AsRef<.*>>::as_ref$',
       '~impl std::convert::AsRef<.*> for .*>::as_ref$', 'std::string::String::as_str', 'std::string::String::as_bytes',
       'core::str::<impl str>::as_bytes', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
       'std::path::Path::as_os_str', 'std::path::PathBuf::as_path', 'std::path::Path::new', 'std::ffi::OsString::as_os_str',
       '~<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::(as_bytes|from_bytes)$', '~as std::borrow::Borrow<.*>>::borrow$',
       'std::convert::AsRef::as_ref', 'core::str::<impl str>::as_ref', 'std::ffi::OsStr::new', '~impl std::borrow::Borrow<.*> for .*>::borrow$',
       'std::str::<impl str>::into_boxed_bytes', 'std::string::String::as_mut_str', 'std::str::from_utf8_unchecked', 'std::ops::Deref::deref')
def m_deref(E, st, fr, c, args, dty):
    v = args[0]
    if isinstance(v, SRef):
        return [(st, v)]
    if isinstance(v, Ref):
        x = E.read(st, v.p)
        n = 0
        while isinstance(x, Ref) and n < 4:
            v = x
            x = E.read(st, v.p)
            n += 1
        if isinstance(x, SRef):
            return [(st, x)]
        if isinstance(x, Seq):
            return [(st, SRef(v.p, L(0), x.len, x.el))]
        if isinstance(x, Lib) and x.kind in ('CellRef', 'CellRefMut'):
            return [(st, Ref(x['p'], x.kind == 'CellRefMut'))]
        if isinstance(x, Lib) and x.kind == 'Box':
            return [(st, Ref(v.p.f(('box',)), v.mut))]
        if isinstance(x, Sym) and E.T[x.ty]['k'] == 'adt':
            p = E.T[x.ty]['p']
            if p in ('std::cell::Ref', 'std::cell::RefMut'):
                ity = E.T[x.ty]['a'][0]
                return [(st, Ref(Place(('R', mk('cellref', x.t), ity)), p.endswith('RefMut')))]
            if p == 'std::boxed::Box':
                return [(st, Ref(v.p.f(('box',)), v.mut))]
            if p == 'std::borrow::Cow':
                return cow_deref(E, st, x, dty)
        if isinstance(x, Agg) and x.ty is not None and E.T[x.ty].get('p') == 'std::borrow::Cow':
            if 0 in x.fs:
                y = x.fs[0]
                if isinstance(y, (Ref, SRef)):
                    return [(st, y)]
                return [(st, sref(E, st, Ref(v.p.f(('v', x.var), ('f', 0)))))]
        if c.get('body'):
            return None
        t = E.T[dty]
        if t['k'] == 'ref' and E.P.unsized_seq(t['t']):
            return [(st, opaque_seq(E, st, x))]
    if isinstance(v, Sym):
        t = E.T[dty]
        if t['k'] == 'ref' and E.P.unsized_seq(t['t']):
            return [(st, opaque_seq(E, st, v))]
    return None


def cow_deref(E, st, x, dty):
    return [(st, opaque_seq(E, st, x))]


@model('~<std::vec::Vec<.*> as std::convert::From<std::string::String>>::from$', 'std::string::String::into_bytes',
       '~<std::path::PathBuf as std::convert::From<.*>>::from$', '~<std::ffi::OsString as .*OsStringExt>::(from_vec|into_vec)$',
       'std::path::PathBuf::into_os_string', 'std::vec::Vec::<T, A>::into_boxed_slice', '~<T as std::convert::From<T>>::from$',
       '~as std::convert::Into<U>>::into$', '~<std::ffi::OsString as std::convert::From<.*>>::from$', 'std::string::String::from_utf8_unchecked')
def m_conv(E, st, fr, c, args, dty):
    v = args[0]
    el = E.P.seq_el(dty)
    if isinstance(v, Seq) and el is not None:
        return [(st, v)]
    if el is not None and isinstance(v, (Ref, SRef)):
        return m_clone(E, st, fr, c, args, dty)
    if c.get('body'):
        return None
    if '<T as std::convert::From<T>>' in (c.get('rp') or c['p']):
        return [(st, v)]
    return None


# ------------------------------------------------------------------ Vec / String
@model('std::vec::Vec::<T>::new', 'std::string::String::new', 'std::path::PathBuf::new', 'std::ffi::OsString::new',
       '~<std::vec::Vec<T> as std::default::Default>::default$', '~<std::string::String as std::default::Default>::default$')
def m_vecnew(E, st, fr, c, args, dty):
    el = E.P.seq_el(dty)
    if el == E.P.u8:
        return [(st, E.const_bytes(b''))]
    return [(st, Seq(mk('empty', el), L(0), el))]


@model('std::vec::Vec::<T>::with_capacity', 'std::string::String::with_capacity')
def m_withcap(E, st, fr, c, args, dty):
    alloc(E, st, fr, args[0], dty)
    return m_vecnew(E, st, fr, c, args, dty)


def alloc(E, st, fr, n, dty):
    if 'alloc' in E.hooks:
        E.hooks['alloc'](E, st, fr, n, dty)


@model('std::vec::Vec::<T, A>::reserve', 'std::string::String::reserve', 'std::vec::Vec::<T, A>::reserve_exact')
def m_reserve(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    # capacity overflow panics: the requested total must fit isize
    sts = E.oblige(st, fr, fge(L(2**63 - 1) - s.len - E.num(st, args[1])), 'capacity', 'reserve')
    for x in sts:
        alloc(E, x, fr, args[1], None)
    return [(x, E.unit()) for x in sts]


@model('std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::shrink_to_fit')
def m_nop(E, st, fr, c, args, dty):
    return [(st, E.unit())]


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::string::String::len',
       'std::ffi::OsStr::len')
def m_len(E, st, fr, c, args, dty):
    return [(st, Num(sref(E, st, args[0]).len, 'usize'))]


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'std::string::String::is_empty',
       'std::ffi::OsStr::is_empty')
def m_isempty(E, st, fr, c, args, dty):
    return [(st, BoolV(feq(sref(E, st, args[0]).len)))]


@model('std::vec::Vec::<T, A>::push')
def m_push(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    ov = {}
    for i, x in v.ov.items():
        ov[i] = x
    ov[v.len] = args[1]
    if 'push' in E.hooks:
        E.hooks['push'](E, st, fr, s, v, args[1])
    c2 = st.cons.add(L(2**63 - 2) - v.len)
    if c2 is not None:
        st.cons = c2
    w = putback(E, st, v, args[1])
    setseq(E, st, s, w if w is not None else Seq(v.t, v.len + 1, v.el, ov))
    return [(st, E.unit())]


def putback(E, st, v, x):
    """the sequence after the element that was last in it is pushed again, or None"""
    t = v.t
    if v.ov or t.op != 'sub' or not (t.args[1].is_const() and t.args[1].k == 0):
        return None
    base = t.args[0]
    if base.op in ('sub', 'ov', 'const', 'bytes', 'empty') or not isinstance(x, (Agg, Sym)) or E.argterm(st, x) is not mk('elem', base, v.len):
        return None
    n = v.len + 1
    whole = L(mk('len', base, ty='len'))
    return Seq(base if n == whole or st.cons.proves_eq(n - whole) else mk('sub', base, L(0), n), n, v.el)


@model('std::string::String::push', 'std::string::String::push_str', 'std::path::PathBuf::push', 'std::ffi::OsString::push',
       'std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append', '~<std::string::String as std::ops::AddAssign<&str>>::add_assign$')
def m_grow(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    p = (c.get('rp') or c['p']).split('::')[-1]
    a = refval(E, st, args[1])
    ln = None
    if isinstance(a, SRef) and 'PathBuf' not in (c.get('rp') or c['p']):
        ln = v.len + a.len
    if ln is not None and v.el == E.P.u8 and 'append' not in p and isinstance(a, SRef) or isinstance(a, Num) and 'String' in (c.get('rp') or c['p']):
        # constant text stays constant
        x = E.cterm(st, s)
        if x.op == 'const' and v.len.is_const():
            y = None
            if isinstance(a, Num):
                y = chr(a.lin.k).encode('utf-8') if a.lin.is_const() else None
            else:
                z = E.cterm(st, a)
                y = z.args[0][:a.len.k] if z.op == 'const' and a.len.is_const() else None
            if y is not None:
                setseq(E, st, s, E.const_bytes(x.args[0][:v.len.k] + y, v.el))
                return [(st, E.unit())]
    if 'PathBuf' in (c.get('rp') or c['p']):
        t = joined(E, st, s, a)
    else:
        t = mk('grow:' + (c.get('rp') or c['p']), E.content(v), v.len, E.argterm(st, a))
    setseq(E, st, s, Seq(t, ln if ln is not None else L(mk('len', t, ty='len')), v.el))
    if p == 'append' and isinstance(a, SRef):
        setseq(E, st, a, Seq(mk('empty', v.el), L(0), v.el))
    return [(st, E.unit())]


def joined(E, st, s, a):
    """the path a put below the path s"""
    x = E.cterm(st, s)
    y = E.cterm(st, a) if isinstance(a, SRef) else E.argterm(st, a)
    return y if s.len.is_const() and s.len.k == 0 else mk('join', x, y)


@model('std::path::Path::join')
def m_pathjoin(E, st, fr, c, args, dty):
    t = joined(E, st, sref(E, st, args[0]), refval(E, st, args[1]))
    return [(st, Seq(t, L(mk('len', t, ty='len')), E.P.u8))]


@model('std::path::Path::with_extension', 'std::path::Path::with_file_name')
def m_pathwith(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    t = mk('grow:' + (c.get('rp') or c['p']), E.cterm(st, s), s.len, E.argterm(st, refval(E, st, args[1])))
    return [(st, Seq(t, L(mk('len', t, ty='len')), E.P.u8))]


def trunc(E, st, v, n):
    """first n elements of v"""
    if n.is_const() and n.k == 0:
        return E.const_bytes(b'') if v.el == E.P.u8 else Seq(mk('empty', v.el), L(0), v.el)
    if n == v.len:
        return v
    ov = {i: x for i, x in v.ov.items() if st.cons.prove(n - 1 - i)}
    if v.t.op == 'const' and n.is_const() and not ov:
        return Seq(mk('const', v.t.args[0][:n.k]), n, v.el)
    keep = v.t
    if len(ov) != len(v.ov):
        bad = [i for i in v.ov if i not in ov and not st.cons.prove(i - n)]
        if bad:
            keep = E.content(v)
            ov = {}
    return Seq(mk('sub', keep, L(0), n), n, v.el, ov, frozenset(a for a in v.attrs if a[0] in ('sorted', 'all')))


@model('std::vec::Vec::<T, A>::pop')
def m_vpop(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    out = []
    for s2, e in fork(E, st, feq(s.len)):
        if e:
            out.append((s2, none(dty)))
        else:
            v = E.seq_at(s2, s)
            x = E.elem(s2, v, v.len - 1)
            setseq(E, s2, s, trunc(E, s2, v, v.len - 1))
            out.append((s2, some(dty, x)))
    return out


@model('std::string::String::pop')
def m_spop(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    out = []
    for s2, e in fork(E, st, feq(s.len)):
        if e:
            out.append((s2, none(dty)))
        else:
            v = E.seq_at(s2, s)
            last = E.elem(s2, v, v.len - 1)
            for s3, asc in fork(E, s2, fge(L(127) - E.num(s2, last))):
                if asc:
                    n = v.len - 1
                    ch = Num(E.num(s3, last), 'char')
                else:
                    n = L(mk('poplen', E.content(v), v.len, ty='len'))
                    for k in (n, v.len - 2 - n):
                        s3.cons = s3.cons.add(k) or s3.cons
                    ch = Num(L(fresh('char', 'char')), 'char')
                setseq(E, s3, s, trunc(E, s3, v, n))
                out.append((s3, some(dty, ch)))
    return out


@model('std::vec::Vec::<T, A>::truncate', 'std::string::String::truncate')
def m_truncate(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    n = E.num(st, args[1])
    out = []
    isstr = 'String' in (c.get('rp') or c['p'])
    for s2, less in fork(E, st, fge(s.len - n)):
        if less:
            for s3 in E.oblige(s2, fr, strbound(E, s2, s, n), 'char boundary', 'String::truncate') if isstr else [s2]:
                v = E.seq_at(s3, s)
                setseq(E, s3, s, trunc(E, s3, v, n))
                out.append((s3, E.unit()))
            continue
        out.append((s2, E.unit()))
    return out


@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def m_clear(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    setseq(E, st, s, trunc(E, st, v, L(0)))
    return [(st, E.unit())]


@model('std::vec::Vec::<T, A>::insert')
def m_insert(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    i = E.num(st, args[1])
    out = []
    for s2 in E.oblige(st, fr, fge(s.len - i), 'index', 'Vec::insert'):
        s2 = s2 if s2 is not st else st
        v = E.seq_at(s2, s)
        if 'push' in E.hooks:
            E.hooks['push'](E, s2, fr, s, v, args[2])
        setseq(E, s2, s, Seq(fresh('ins'), v.len + 1, v.el, {i: args[2]}))
        out.append((s2, E.unit()))
    return out


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_remove(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    i = E.num(st, args[1])
    out = []
    for s2 in E.oblige(st, fr, fge(s.len - i - 1), 'index', 'Vec::remove'):
        v = E.seq_at(s2, s)
        x = E.elem(s2, v, i)
        setseq(E, s2, s, Seq(fresh('rem'), v.len - 1, v.el))
        out.append((s2, x))
    return out


@model('core::slice::<impl [T]>::reverse', 'std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::dedup_by_key')
def m_permute(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    p = (c.get('rp') or c['p'])
    n = v.len
    if not p.endswith('reverse'):
        n = L(fresh('len', 'len'))
        st.cons = st.cons.add(v.len - n) or st.cons
    event(E, 'permute', st, fr, p=p, place=s.p)
    setseq(E, st, s, Seq(fresh('perm'), n, v.el))
    return [(st, E.unit())]


@model('core::slice::<impl [T]>::swap')
def m_swap(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    i, j = E.num(st, args[1]), E.num(st, args[2])
    out = []
    for s2 in E.oblige(st, fr, fand(fge(s.len - i - 1), fge(s.len - j - 1)), 'index', 'swap'):
        v = E.seq_at(s2, s)
        event(E, 'permute', s2, fr, p='swap', place=s.p)
        setseq(E, s2, s, Seq(fresh('swap'), v.len, v.el))
        out.append((s2, E.unit()))
    return out


def event(E, kind, st, fr, **kw):
    if kind in E.hooks:
        E.hooks[kind](E, st, fr, **kw)


@model('std::vec::Vec::<T, A>::drain', 'std::vec::Vec::<T, A>::split_off')
def m_drain(E, st, fr, c, args, dty):
    E.fail(st, fr, 'index', 'unmodelled range operation ' + (c.get('rp') or c['p']))
    return None


# element access
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = c.get('rp') or c['p']
    out = []
    for s2, e in fork(E, st, feq(s.len)):
        if e:
            out.append((s2, none(dty)))
        else:
            i = s.off if 'first' in p else s.off + s.len - 1
            out.append((s2, some(dty, elref(E, s2, s, i, p.endswith('mut')))))
    return out


def elref(E, st, s, i, mut=False):
    return Ref(Place(s.p.root, s.p.pr + (('i', i, s.el),)), mut)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def m_get(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = c.get('rp') or c['p']
    if isinstance(args[1], Num):
        i = args[1].lin
        out = []
        for s2, r in fork(E, st, fge(s.len - i - 1)):
            out.append((s2, some(dty, elref(E, s2, s, s.off + i, p.endswith('mut'))) if r else none(dty)))
        return out
    r = range_of(E, st, s, args[1])
    if r is None:
        return None
    lo, hi, cond = r
    out = []
    if 'str' in p.split('>')[0]:
        cond = fand(cond, ('atom', mk('charbound', E.cterm(st, s), lo, hi, ty='bool')))
    for s2, b in fork(E, st, cond):
        out.append((s2, some(dty, SRef(s.p, s.off + lo, hi - lo, s.el)) if b else none(dty)))
    return out


def range_of(E, st, s, r):
    """(lo, hi, bounds condition) of a range value used to index s"""
    if not isinstance(r, Agg) or r.ty is None:
        if isinstance(r, Sym):
            r = Agg(r.ty, 0, {}, r.t)
        else:
            return None
    n = E.T[r.ty].get('p', '')
    g = lambda i: E.num(st, field(E, st, r, i))
    if n.endswith('ops::Range'):
        a, b = g(0), g(1)
        return a, b, fand(fge(b - a), fge(s.len - b))
    if n.endswith('ops::RangeFrom'):
        a = g(0)
        return a, s.len, fge(s.len - a)
    if n.endswith('ops::RangeTo'):
        b = g(0)
        return L(0), b, fge(s.len - b)
    if n.endswith('ops::RangeFull'):
        return L(0), s.len, True
    if n.endswith('ops::RangeToInclusive'):
        b = g(0)
        return L(0), b + 1, fge(s.len - b - 1)
    if n.endswith('ops::RangeInclusive'):
        a, b = g(0), g(1)
        return a, b + 1, fand(fge(b + 1 - a), fge(s.len - b - 1))
    return None


@model('~^(?!.*(HashMap|BTreeMap|regex::Captures)<).*as std::ops::Index(Mut)?<.*>>::index(_mut)?$', '~impl std::ops::Index(Mut)?<.*> for .*>::index(_mut)?$')
def m_index(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = c.get('rp') or c['p']
    mut = p.endswith('_mut')
    if s is None or 'HashMap' in p or 'BTreeMap' in p or 'Captures' in p:
        return None
    x = args[1]
    if isinstance(x, Num):
        out = []
        for s2 in E.oblige(st, fr, fge(s.len - x.lin - 1), 'index', ''):
            out.append((s2, elref(E, s2, s, s.off + x.lin, mut)))
        return out
    r = range_of(E, st, s, x)
    if r is None:
        E.fail(st, fr, 'index', 'unknown index type')
        return [(st, E.mkval(fresh('idx'), dty))]
    lo, hi, cond = r
    if ' str>' in p or 'String' in p:
        cond = fand(cond, strbound(E, st, s, lo), strbound(E, st, s, hi))
    return [(s2, SRef(s.p, s.off + lo, hi - lo, s.el)) for s2 in E.oblige(st, fr, cond, 'index', 'range')]


def strbound(E, st, s, i):
    if i == s.len or (i.is_const() and i.k == 0):
        return True
    # the byte before or after is one of ASCII
    for j in (i, i - 1):
        if E.decide(st, fand(fge(j), fge(s.len - 1 - j))) is True:
            e = E.elem_at(st, s, j)
            if isinstance(e, Num) and E.decide(st, fge(L(127) - e.lin)) is True:
                return True
    return ('atom', mk('charbound', E.cterm(st, s), i, ty='bool'))


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def m_splitat(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    i = E.num(st, args[1])
    cond = fge(s.len - i)
    if '<impl str>' in (c.get('rp') or c['p']):
        cond = fand(cond, strbound(E, st, s, i))
    out = []
    for s2 in E.oblige(st, fr, cond, 'split_at', ''):
        out.append((s2, Agg(dty, 0, {0: SRef(s.p, s.off, i, s.el), 1: SRef(s.p, s.off + i, s.len - i, s.el)})))
    return out


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_splitfirst(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    out = []
    first = (c.get('rp') or c['p']).endswith('first')
    for s2, e in fork(E, st, feq(s.len)):
        if e:
            out.append((s2, none(dty)))
        elif first:
            out.append((s2, some(dty, Agg(payload_ty(E, dty, 1), 0, {0: elref(E, s2, s, s.off), 1: SRef(s.p, s.off + 1, s.len - 1, s.el)}))))
        else:
            out.append((s2, some(dty, Agg(payload_ty(E, dty, 1), 0, {0: elref(E, s2, s, s.off + s.len - 1), 1: SRef(s.p, s.off, s.len - 1, s.el)}))))
    return out


def prefix_formula(E, st, s, a, suffix):
    """does s start / end with the constant or sequence a?"""
    ca = E.cterm(st, a)
    if ca.op == 'const' and a.len.is_const() and a.len.k <= 32:
        n = a.len.k
        fs = [fge(s.len - n)]
        cs = E.cterm(st, s)
        if cs.op == 'const' and s.len.is_const():
            b = cs.args[0][:s.len.k]
            return b.endswith(ca.args[0][:n]) if suffix else b.startswith(ca.args[0][:n])
        at = st.cons.lin_min(s.len) if suffix and not s.len.is_const() else None
        at = s.len if at is None or not st.cons.proves_eq(s.len - at) else L(at)
        for i in range(n):
            e = E.elem_at(st, s, (at - n + i) if suffix else L(i))
            fs.append(feq(E.num(st, e) - ca.args[0][i]))
        return fand(*fs)
    return ('atom', mk('suffix' if suffix else 'prefix', E.cterm(st, s), s.len, ca, ty='bool'))


@model('core::str::<impl str>::ends_with', 'core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::ends_with', 'core::slice::<impl [T]>::starts_with')
def m_startswith(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = c.get('rp') or c['p']
    suf = p.endswith('ends_with')
    a = args[1]
    if isinstance(a, Num):
        i = s.len - 1 if suf else L(0)
        if a.lin.is_const() and a.lin.k < 128:
            return [(st, BoolV(fand(fge(s.len - 1), feq(E.num(st, E.elem_at(st, s, i)) - a.lin))))]
        return [(st, BoolV(('atom', fresh('sw', 'bool'))))]
    a = refval(E, st, a)
    if isinstance(a, SRef):
        return [(st, BoolV(prefix_formula(E, st, s, a, suf)))]
    return [(st, BoolV(('atom', fresh('sw', 'bool'))))]


@model('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix', 'core::slice::<impl [T]>::strip_prefix', 'core::slice::<impl [T]>::strip_suffix')
def m_strip(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = c.get('rp') or c['p']
    suf = p.endswith('suffix')
    a = args[1]
    if isinstance(a, Num) and a.lin.is_const() and a.lin.k < 128:
        i = s.len - 1 if suf else L(0)
        f = fand(fge(s.len - 1), feq(E.num(st, E.elem_at(st, s, i)) - a.lin))
        n = L(1)
    else:
        a = refval(E, st, a)
        if not isinstance(a, SRef):
            return None
        f = prefix_formula(E, st, s, a, suf)
        n = a.len
    out = []
    for s2, r in fork(E, st, f):
        out.append((s2, some(dty, SRef(s.p, s.off if suf else s.off + n, s.len - n, s.el)) if r else none(dty)))
    return out


@model('~^(core|std)::str::<impl str>::(to_ascii_lowercase|to_lowercase|to_ascii_uppercase|to_uppercase)$', 'core::slice::ascii::<impl [u8]>::to_ascii_lowercase')
def m_lower(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = (c.get('rp') or c['p']).split('::')[-1]
    ct = E.cterm(st, s)
    if ct.op == 'const':
        b = ct.args[0].lower() if 'lower' in p else ct.args[0].upper()
        return [(st, E.const_bytes(b))]
    t = mk(p, ct)
    return [(st, Seq(t, s.len if 'ascii' in p else L(mk('len', t, ty='len')), E.P.u8))]


@model('~^core::str::<impl str>::(trim|trim_end|trim_start|trim_right|trim_left|trim_matches|trim_end_matches|trim_start_matches)$')
def m_trim(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = (c.get('rp') or c['p']).split('::')[-1]
    extra = [E.argterm(st, a) for a in args[1:] if not isinstance(a, (Agg,))]
    t = mk('call', p, E.cterm(st, s), s.len, *extra)
    o = L(mk('off', t, ty='len'))
    n = L(mk('len', t, ty='len'))
    if p in ('trim_end', 'trim_right', 'trim_end_matches'):
        o = L(0)
    st.cons = st.cons.add(s.len - o - n) or st.cons
    return [(st, SRef(s.p, s.off + o, n, s.el))]


@model('core::slice::<impl [T]>::contains', 'core::str::<impl str>::contains')
def m_contains(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    a = refval(E, st, args[1]) if not isinstance(args[1], Num) else args[1]
    cs = E.cterm(st, s)
    n = s.len.k if s.len.is_const() else st.cons.lin_min(s.len)
    if n is not None and n <= 40 and isinstance(a, Num) and st.cons.proves_eq(s.len - n) and isinstance(E.elem_at(st, s, L(0)), Num):
        return [(st, BoolV(for_(*[feq(E.num(st, E.elem_at(st, s, L(i))) - a.lin) for i in range(n)])))]
    return [(st, BoolV(('atom', mk('contains', cs, s.len, E.argterm(st, a), ty='bool'))))]


@model('core::str::<impl str>::parse', '~impl std::str::FromStr for .*>::from_str$')
def m_parse(E, st, fr, c, args, dty):
    if c.get('body'):
        return None
    s = sref(E, st, args[0])
    return [(st, parsed(E, E.cterm(st, s), dty))]


def parsed(E, t, dty):
    """result of parsing a text"""
    n = E.numty(payload_ty(E, dty, 0)) if t.op == 'const' else None
    if n in RANGES and n[0] == 'u' and re.fullmatch(rb'\+?[0-9]+', t.args[0]) and int(t.args[0]) <= RANGES[n][1]:
        return ok(dty, Num(L(int(t.args[0])), n))
    return E.mkval(mk('call', 'parse', dty, t), dty)


@model('core::num::<impl u8>::from_str_radix', 'core::num::<impl usize>::from_str_radix', 'core::num::<impl u32>::from_str_radix', 'core::num::<impl u64>::from_str_radix')
def m_radix(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    sts = E.oblige(st, fr, fand(fge(E.num(st, args[1]) - 2), fge(L(36) - E.num(st, args[1]))), 'radix', '')
    return [(x, E.mkval(mk('call', 'parse_radix', dty, E.cterm(x, s), E.argterm(x, args[1])), dty)) for x in sts]


def utf8_atom(E, st, s):
    c = E.cterm(st, s)
    if c.op == 'const':
        try:
            c.args[0].decode()
            return True
        except UnicodeDecodeError:
            return False
    if c.op in ('to_ascii_lowercase', 'to_lowercase'):
        return True
    return ('atom', mk('utf8', c, ty='bool'))


def utf8_fork(E, st, s):
    """[(state, is text)]; what is empty is text"""
    out = []
    for s2, r in fork(E, st, utf8_atom(E, st, s)):
        out.extend([(s2, True)] if r else [(s3, False) for s3 in E.assume(s2, fge(s.len - 1))])
    return out


@model('std::str::from_utf8', 'core::str::from_utf8')
def m_fromutf8(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    out = []
    for s2, r in utf8_fork(E, st, s):
        out.append((s2, ok(dty, s) if r else err(dty, E.mkval(mk('utf8error', E.cterm(s2, s)), payload_ty(E, dty, 1)))))
    return out


@model('std::string::String::from_utf8')
def m_sfromutf8(E, st, fr, c, args, dty):
    v = args[0]
    s = sref(E, st, v)
    out = []
    for s2, r in utf8_fork(E, st, s):
        out.append((s2, ok(dty, v) if r else err(dty, E.mkval(mk('fromutf8error', E.cterm(s2, s)), payload_ty(E, dty, 1)))))
    return out


@model('std::string::FromUtf8Error::utf8_error')
def m_utf8err(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    if isinstance(v, Sym) and v.t.op == 'fromutf8error':
        return [(st, E.mkval(mk('utf8error', v.t.args[0]), dty))]
    return [(st, E.mkval(mk('call', 'utf8_error', E.argterm(st, v)), dty))]


@model('std::string::String::from_utf8_lossy', 'std::path::Path::to_string_lossy', 'std::ffi::OsStr::to_string_lossy')
def m_lossy(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    return [(st, E.mkval(mk('call', 'lossy', E.cterm(st, s)), dty))]


@model('std::path::Path::to_str', 'std::ffi::OsStr::to_str')
def m_tostr(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    out = []
    for s2, r in utf8_fork(E, st, s):
        out.append((s2, some(dty, s) if r else none(dty)))
    return out


@model('std::path::Path::file_name', 'std::path::Path::extension', 'std::path::Path::file_stem', 'std::path::Path::parent')
def m_pathpart(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    t = mk('call', c.get('rp') or c['p'], E.cterm(st, s))
    return [(st, E.mkval(t, dty))]


# ------------------------------------------------------------------ iterators
def materialise(E, st, pl):
    """give a symbolic library iterator an explicit representation"""
    v = E.read(st, pl)
    if isinstance(v, Agg) and v.base is not None and not v.fs:
        v = Sym(v.base, v.ty)
    if not isinstance(v, Sym):
        return v
    t = E.T[v.ty]
    if t['k'] != 'adt':
        return v
    p = t['p']
    if p in ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter'):
        el = t['a'][0]
        sl = slice_ty(E, el)
        root = ('R', mk('iterbuf', v.t), sl)
        lo, hi = mk('iterlo', v.t, ty='len'), mk('iterhi', v.t, ty='len')
        ln = E.read(st, Place(root)).len
        c = st.cons.add(L(hi) - L(lo))
        c = c and c.add(ln - L(hi))
        if c is None:
            raise Infeasible()
        st.cons = c
        if p == 'std::vec::IntoIter':
            nv = Lib('IntoIter', seq=E.read(st, Place(root)), lo=L(lo), hi=L(hi), el=el)
        else:
            nv = Lib('SliceIter', p=Place(root), lo=L(lo), hi=L(hi), el=el, mut=p.endswith('Mut'))
        E.write(st, pl, nv)
        return nv
    if p == 'std::ops::Range':
        nv = Agg(v.ty, 0, {}, v.t)
        E.write(st, pl, nv)
        return nv
    return v


def slice_ty(E, el):
    P = E.P
    if el == P.u8:
        return P.ty_by_s.get('[u8]')
    for i, t in enumerate(P.T):
        if t['k'] == 'slice' and t['t'] == el:
            return i
    for i, t in enumerate(P.T):
        if t['k'] == 'adt' and t['p'] == 'std::vec::Vec' and t['a'][0] == el:
            return i
    return P.ty_by_s.get('[u8]')


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', '~^<&\'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$',
       '~^core::slice::iter::<impl std::iter::IntoIterator for &\'a (mut )?\\[T\\]>::into_iter$',
       '~^(core|std)::array::<impl std::iter::IntoIterator for &\'a (mut )?\\[T; N\\]>::into_iter$', 'core::str::<impl str>::bytes')
def m_iter(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = c.get('rp') or c['p']
    if p.endswith('bytes'):
        return None
    return [(st, Lib('SliceIter', p=Place(s.p.root, s.p.pr), lo=s.off, hi=s.off + s.len, el=s.el, mut='mut' in p))]


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_intoiter(E, st, fr, c, args, dty):
    v = args[0]
    if not isinstance(v, Seq):
        return None
    return [(st, Lib('IntoIter', seq=v, lo=L(0), hi=v.len, el=v.el))]


@model('~^<I as std::iter::IntoIterator>::into_iter$')
def m_intoiter_id(E, st, fr, c, args, dty):
    if c.get('body'):
        return None
    return [(st, args[0])]


def iter_item(E, st, it, i):
    if it.kind == 'SliceIter':
        return Ref(Place(it['p'].root, it['p'].pr + (('i', i, it['el']),)), it['mut'])
    return E.elem(st, it['seq'], i)


@model('~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::Iterator>::next$', '~^<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$',
       '~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::DoubleEndedIterator>::next_back$', '~^<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back$')
def m_next(E, st, fr, c, args, dty):
    if not isinstance(args[0], Ref):
        return None
    pl = args[0].p
    it = materialise(E, st, pl)
    back = (c.get('rp') or c['p']).endswith('next_back')
    if not isinstance(it, Lib) or it.kind not in ('SliceIter', 'IntoIter'):
        return [(st, E.mkval(fresh('next'), dty))]
    out = []
    lo, hi = it['lo'], it['hi']
    for s, more in fork(E, st, fge(hi - lo - 1)):
        if not more:
            if not (hi - lo).is_const():
                # an exhausted iterator has lo == hi
                s.cons = s.cons.add_eq(hi - lo) or s.cons
            out.append((s, none(dty)))
        elif back:
            v = iter_item(E, s, it, hi - 1)
            E.write(s, pl, it.with_(hi=hi - 1))
            out.append((s, some(dty, v)))
        else:
            v = iter_item(E, s, it, lo)
            E.write(s, pl, it.with_(lo=lo + 1))
            out.append((s, some(dty, v)))
    return out


@model('~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::ExactSizeIterator>::len$', '~^<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len$',
       '~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::Iterator>::count$')
def m_iterlen(E, st, fr, c, args, dty):
    if isinstance(args[0], Ref):
        it = materialise(E, st, args[0].p)
    else:
        it = args[0]
    if isinstance(it, Lib) and 'lo' in it.fs:
        return [(st, Num(it['hi'] - it['lo'], 'usize'))]
    return [(st, Num(L(mk('iterlen', E.argterm(st, it), ty='len')), 'usize'))]


@model('~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::Iterator>::size_hint$', '~^<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint$')
def m_sizehint(E, st, fr, c, args, dty):
    it = materialise(E, st, args[0].p)
    if isinstance(it, Lib) and 'lo' in it.fs:
        n = Num(it['hi'] - it['lo'], 'usize')
        oty = E.T[dty]['ts'][1]
        return [(st, Agg(dty, 0, {0: n, 1: some(oty, n)}))]
    return None


@model('~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::Iterator>::nth$', '~^<std::vec::IntoIter<T, A> as std::iter::Iterator>::nth$')
def m_nth(E, st, fr, c, args, dty):
    pl = args[0].p
    it = materialise(E, st, pl)
    if not isinstance(it, Lib) or 'lo' not in it.fs:
        return None
    n = E.num(st, args[1])
    lo, hi = it['lo'], it['hi']
    out = []
    for s, more in fork(E, st, fge(hi - lo - n - 1)):
        if more:
            v = iter_item(E, s, it, lo + n)
            E.write(s, pl, it.with_(lo=lo + n + 1))
            out.append((s, some(dty, v)))
        else:
            E.write(s, pl, it.with_(lo=hi))
            out.append((s, none(dty)))
    return out


@model('~^<std::slice::Iter(Mut)?<\'.*, T> as std::iter::Iterator>::last$')
def m_iterlast(E, st, fr, c, args, dty):
    it = args[0]
    if not isinstance(it, Lib):
        return None
    out = []
    for s, more in fork(E, st, fge(it['hi'] - it['lo'] - 1)):
        out.append((s, some(dty, iter_item(E, s, it, it['hi'] - 1)) if more else none(dty)))
    return out


@model('std::slice::Iter::<\'a, T>::as_slice')
def m_asslice(E, st, fr, c, args, dty):
    it = materialise(E, st, args[0].p)
    if not isinstance(it, Lib):
        return None
    return [(st, SRef(it['p'], it['lo'], it['hi'] - it['lo'], it['el']))]


@model('~^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$', '~^std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$')
def m_rangenext(E, st, fr, c, args, dty):
    pl = args[0].p
    v = E.read(st, pl)
    if isinstance(v, Sym):
        v = materialise(E, st, pl)
    back = (c.get('rp') or c['p']).endswith('next_back')
    a, b = field(E, st, v, 0), field(E, st, v, 1)
    x, y = E.num(st, a), E.num(st, b)
    ty = a.ty if isinstance(a, Num) else b.ty
    out = []
    for s, more in fork(E, st, fge(y - x - 1)):
        if not more:
            out.append((s, none(dty)))
        elif back:
            E.write(s, pl, Agg(v.ty, 0, {0: Num(x, ty), 1: Num(y - 1, ty)}))
            out.append((s, some(dty, Num(y - 1, ty))))
        else:
            E.write(s, pl, Agg(v.ty, 0, {0: Num(x + 1, ty), 1: Num(y, ty)}))
            out.append((s, some(dty, Num(x, ty))))
    return out


@model('~^std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next$', '~^std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back$')
def m_rangeincl(E, st, fr, c, args, dty):
    pl = args[0].p
    v = E.read(st, pl)
    if not isinstance(v, Agg):
        return [(st, E.mkval(fresh('next'), dty))]
    back = (c.get('rp') or c['p']).endswith('next_back')
    a, b = field(E, st, v, 0), field(E, st, v, 1)
    x, y = E.num(st, a), E.num(st, b)
    ty = a.ty
    ex = v.fs.get(2)
    cond = fge(y - x)
    if isinstance(ex, BoolV):
        cond = fand(cond, fnot(ex.f))
    out = []
    for s, more in fork(E, st, cond):
        if not more:
            out.append((s, none(dty)))
            continue
        for s2, last in fork(E, s, feq(x - y)):
            if last:
                E.write(s2, pl, Agg(v.ty, 0, {0: Num(x, ty), 1: Num(y, ty), 2: BoolV(True)}))
                out.append((s2, some(dty, Num(x, ty))))
            elif back:
                E.write(s2, pl, Agg(v.ty, 0, {0: Num(x, ty), 1: Num(y - 1, ty), 2: BoolV(False)}))
                out.append((s2, some(dty, Num(y, ty))))
            else:
                E.write(s2, pl, Agg(v.ty, 0, {0: Num(x + 1, ty), 1: Num(y, ty), 2: BoolV(False)}))
                out.append((s2, some(dty, Num(x, ty))))
    return out


@model('~^std::ops::RangeInclusive::<Idx>::new$')
def m_rangeinclnew(E, st, fr, c, args, dty):
    return [(st, Agg(dty, 0, {0: args[0], 1: args[1], 2: BoolV(False)}))]


def exact_remaining(E, st, v, d=4):
    """number of items an adapter chain will still yield, when it is exact; else (upper bound)"""
    if d < 0:
        return None, None
    if isinstance(v, Lib) and 'lo' in v.fs:
        n = v['hi'] - v['lo']
        return n, n
    if isinstance(v, Sym) and v.t.op == 'mapiter':
        n = map_len(st, v.t.args[0])
        return n, n
    if isinstance(v, Agg) and v.ty is not None:
        t = E.T[v.ty]
        p = t.get('p', '')
        if p == 'std::ops::Range':
            a, b = E.num(st, field(E, st, v, 0)), E.num(st, field(E, st, v, 1))
            if st.cons.prove(b - a):
                return b - a, b - a
            return None, None
        if p in ('std::iter::Map', 'std::iter::Cloned', 'std::iter::Copied', 'std::iter::Rev', 'std::iter::Enumerate', 'std::iter::Inspect'):
            return exact_remaining(E, st, v.fs.get(0), d - 1)
        if p.startswith('std::iter::'):
            for i in (0, 1):
                if i in v.fs:
                    e, u = exact_remaining(E, st, v.fs[i], d - 1)
                    if u is not None and p in ('std::iter::Filter', 'std::iter::FilterMap', 'std::iter::TakeWhile', 'std::iter::SkipWhile',
                                               'std::iter::Skip', 'std::iter::StepBy', 'std::iter::MapWhile'):
                        return None, u
    return None, None


def drive(E, st, fr, itv, step, tag, limit=20):
    """run an iterator to exhaustion abstractly: step(state, item) -> states. Returns exit states
    with the final iterator value dropped, plus the item samples"""
    ity = E.tyof_value(itv)
    nx = None
    if isinstance(itv, Lib):
        nx = 'lib'
    elif ity is not None:
        nx = E.T[ity].get('next')
    root = ('L', E.fid(fr, 0, fr.fn, ('drive', tag)), 'it')
    s0 = st.copy()
    s0.mem[root] = itv
    exits = []

    def once(s):
        s = s.copy()
        E.steps += 1
        if nx == 'lib':
            it = s.mem[root]
            outs = []
            for s2, more in fork(E, s, fge(it['hi'] - it['lo'] - 1)):
                if more:
                    v = iter_item(E, s2, it, it['lo'])
                    s2.mem[root] = it.with_(lo=it['lo'] + 1)
                    outs.append((s2, 1, v))
                else:
                    outs.append((s2, 0, None))
        elif nx is None:
            outs = [(s.copy(), 0, None), (s.copy(), 1, None)]
        else:
            oty = None
            outs = []
            for s2, v in E.call(fr, s, nx, [Ref(Place(root), True)], nx.get('dt') or opt_ty(E, nx, ity)):
                for s3, var, a in split(E, s2, v):
                    outs.append((s3, var, field(E, s3, a, 0) if var == 1 else None))
        back = []
        for s2, var, v in outs:
            if var == 0:
                x = s2.copy()
                x.mem.pop(root, None)
                exits.append(x)
            else:
                back.extend(step(s2, v))
        for b in back:
            E.loops.append(dict(fn=fr.fn, head='drive:%s' % (tag,), h=s, b=b, fid=fr.fid, stack=E.stack(fr), site=E.site(fr), drive=root))
        return back

    ex0 = exits
    back = once(s0)
    if back:
        H = {}
        for b in back:
            k = E.pkey(b, 3)
            H[k] = E.join(H[k], b) if k in H else b
        phis = {k: set() for k in H}
        it = 0
        while True:
            it += 1
            if it > limit:
                from engine import Budget
                raise Budget('iteration does not stabilise')
            mark = (len(E.obl), len(E.events), len(E.loops), len(exits))
            changed = False
            newH = dict(H)
            for k, h in H.items():
                for b in once(h):
                    kb = E.pkey(b, 3)
                    if kb in newH:
                        j, ch, ph = E.widen(newH[kb], b, phis[kb], it)
                        phis[kb] |= ph
                        newH[kb] = j
                        changed = changed or ch
                    else:
                        newH[kb] = b
                        phis[kb] = set()
                        changed = True
            if not changed:
                break
            H = newH
            del E.obl[mark[0]:]
            del E.events[mark[1]:]
            del E.loops[mark[2]:]
            del exits[mark[3]:]
    return E.limit(exits, E.joinlim)


def opt_ty(E, nx, ity):
    b = nx.get('body')
    if b and b in E.P.fns:
        return E.P.fns[b]['locals'][0][0]
    return None


@model('std::iter::Iterator::collect')
def m_collect(E, st, fr, c, args, dty):
    el = E.P.seq_el(dty)
    itv = args[0]
    if el is None:
        return None
    n, up = exact_remaining(E, st, itv)
    samples = []

    def step(s, v):
        samples.append((s, v))
        if 'item' in E.hooks:
            E.hooks['item'](E, s, fr, v, 'collect')
        return [s]
    if isinstance(itv, Lib) or (E.tyof_value(itv) is not None and E.T[E.tyof_value(itv)].get('next')):
        mark = len(samples)
        exits = drive(E, st, fr, itv, step, 'collect')
    else:
        exits = [st]
    cid = len(E.collects)
    E.collects.append(dict(samples=samples, src=itv, site=E.site(fr), stack=E.stack(fr), fn=fr.fn))
    out = []
    t = fresh('collected')
    for s in exits:
        ln = n
        if ln is None:
            ln = L(fresh('len', 'len'))
            if up is not None:
                s.cons = s.cons.add(up - ln) or s.cons
        out.append((s, Seq(t, ln, el, None, frozenset([('collect', cid)]))))
    return out


@model('~as std::iter::Extend<.*>>::extend$')
def m_extend(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    if s is None:
        return None
    itv = args[1]
    if isinstance(itv, Seq):
        itv = Lib('IntoIter', seq=itv, lo=L(0), hi=itv.len, el=itv.el)
    if isinstance(itv, (Ref, SRef)):
        q = sref(E, st, itv)
        if q is not None:
            itv = Lib('SliceIter', p=Place(q.p.root, q.p.pr), lo=q.off, hi=q.off + q.len, el=q.el, mut=False)
    n, up = exact_remaining(E, st, itv)
    v = E.seq_at(st, s)

    def step(x, item):
        if 'push' in E.hooks:
            E.hooks['push'](E, x, fr, s, v, item)
        return [x]
    exits = drive(E, st, fr, itv, step, 'extend') if isinstance(itv, (Lib, Agg)) else [st]
    out = []
    for x in exits:
        ln = v.len + n if n is not None else v.len + L(fresh('len', 'len'))
        setseq(E, x, s, Seq(fresh('ext'), ln, v.el))
        out.append((x, E.unit()))
    return out


def flat_count(E, st, fr, itv):
    """number of items of a fresh flat_map whose inner iterators have a known number each"""
    def named(v, n):
        return isinstance(v, Agg) and v.ty is not None and E.T[v.ty].get('p', '').split('::')[-1] == n
    if not named(itv, 'FlatMap') and not named(itv, 'Flatten'):
        return None
    inner = itv.fs.get(0)
    if not named(inner, 'FlattenCompat'):
        return None
    parts = {}
    for i, v in inner.fs.items():
        if isinstance(v, Agg) and v.var == 0 and E.T[v.ty].get('p', '').endswith('Option'):
            parts[i] = v
        else:
            it = v
    if len(parts) != 2 or not named(it, 'Fuse'):
        return None
    it = it.fs.get(0)
    if isinstance(it, Agg) and it.var == 1 and E.T[it.ty].get('p', '').endswith('Option'):
        it = it.fs.get(0)
    total = ('L', E.fid(fr, 0, fr.fn, 'flatcount'), 'acc')
    st = st.copy()
    st.mem[total] = Num(L(0), 'usize')
    unknown = []

    def step(s, v):
        n, u = exact_remaining(E, s, v)
        if n is None:
            unknown.append(v)
            n = L(fresh('count', 'len'))
        s = s.copy()
        s.mem[total] = Num(s.mem[total].lin + n, 'usize')
        return [s]
    out = []
    for s in drive(E, st, fr, it, step, 'flatcount'):
        v = s.mem.pop(total)
        out.append((s, v))
    return None if unknown else out


@model('std::iter::Iterator::sum', 'std::iter::Iterator::count', 'std::iter::Iterator::fold')
def m_reduce(E, st, fr, c, args, dty):
    p = c.get('rp') or c['p']
    itv = args[0]
    if p.endswith('count'):
        e, u = exact_remaining(E, st, itv)
        if e is not None:
            return [(st, Num(e, 'usize'))]
        r = flat_count(E, st, fr, itv)
        if r is not None:
            return r
    if c.get('body'):
        return None
    n = E.numty(dty) if dty is not None else None
    if n is None or p.endswith('fold'):
        return None
    acc = ('L', E.fid(fr, 0, fr.fn, ('acc', p)), 'acc')
    st = st.copy()
    st.mem[acc] = Num(L(0), n)

    def step(s, v):
        cur = s.mem[acc].lin
        d = L(1) if p.endswith('count') else E.num(s, deref_all(E, s, v))
        l = cur + d
        out = []
        for s2 in (E.oblige(s, fr, E.inrange(l, n), 'overflow', 'sum') if not p.endswith('count') and E.site(fr)[0] != '?' and BITS[n] < 64 else E.assume(s, E.inrange(l, n))):
            s2 = s2.copy()
            s2.mem[acc] = Num(l, n)
            out.append(s2)
        return out
    if not (isinstance(itv, Lib) or (E.tyof_value(itv) is not None and E.T[E.tyof_value(itv)].get('next'))):
        return [(st, Num(L(fresh('sum', n)), n))]
    res = []
    for s in drive(E, st, fr, itv, step, 'sum'):
        v = s.mem.pop(acc)
        res.append((s, v))
    return res


# ------------------------------------------------------------------ sorting / searching
@model('~^(core|std|alloc)::slice::<impl \\[T\\]>::sort(_by|_by_key|_unstable|_unstable_by|_unstable_by_key|_by_cached_key)?$')
def m_sort(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    p = (c.get('rp') or c['p']).split('::')[-1]
    A, B = mk('sortA', s.el), mk('sortB', s.el)
    pa, pb = Place(('R', A, s.el)), Place(('R', B, s.el))
    sx = st.copy()
    table = []
    outs = []
    if p in ('sort', 'sort_unstable'):
        table = [('natural', E.T[s.el]['s'])]
        outs = None
    elif p.endswith('key'):
        r1 = E.call_closure(fr, sx, args[1], [Ref(pa)], None, 0, 'A')
        keys = []
        for s1, k1 in r1:
            for s2, k2 in E.call_closure(fr, s1, args[1], [Ref(pb)], None, 0, 'B'):
                for s3, o in three_way(E, s2, dict(p='cmp'), k1, k2, ordering_ty(E)):
                    outs.append((s3, o))
    else:
        outs = E.call_closure(fr, sx, args[1], [Ref(pa), Ref(pb)], ordering_ty(E), 0, 'AB')
        # the library may panic when a comparison contradicts itself
        lims = E.joinlim, E.retlim
        E.joinlim = E.retlim = 400
        for s1, o1 in E.call_closure(fr, sx, args[1], [Ref(pa), Ref(pb)], ordering_ty(E), 0, 'AB2'):
            for s2, i, _ in split(E, s1, o1):
                for s3, o2 in E.call_closure(fr, s2, args[1], [Ref(pb), Ref(pa)], ordering_ty(E), 0, 'BA'):
                    for s4, j, _ in split(E, s3, o2):
                        E.oblige(s4, fr, j == 2 - i, 'sort order', 'the comparison is the same one both ways')
        E.joinlim, E.retlim = lims
    attr = ('sorted', p, len(E.sorts))
    E.sorts.append(dict(fn=fr.fn, site=E.site(fr), stack=E.stack(fr), place=s.p, el=s.el, A=A, B=B, outs=outs, kind=p,
                        stable='unstable' not in p, seq=v))
    event(E, 'sort', st, fr, place=s.p, seq=v, info=E.sorts[-1])
    setseq(E, st, s, Seq(fresh('sorted'), v.len, v.el, None, frozenset([attr])))
    return [(st, E.unit())]


@model('core::slice::<impl [T]>::binary_search_by', 'core::slice::<impl [T]>::binary_search_by_key', 'core::slice::<impl [T]>::partition_point', 'core::slice::<impl [T]>::binary_search')
def m_bsearch(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    p = (c.get('rp') or c['p']).split('::')[-1]
    probe = mk('probe', s.el)
    pv = Place(('R', probe, s.el))
    outs = None
    if p == 'binary_search_by':
        outs = E.call_closure(fr, st.copy(), args[1], [Ref(pv)], ordering_ty(E), 0, 'probe')
    elif p == 'partition_point':
        outs = E.call_closure(fr, st.copy(), args[1], [Ref(pv)], E.P.ty_by_s['bool'], 0, 'probe')
    elif p == 'binary_search_by_key':
        outs = E.call_closure(fr, st.copy(), args[2], [Ref(pv)], None, 0, 'probe')
    E.searches.append(dict(fn=fr.fn, site=E.site(fr), stack=E.stack(fr), sr=s, outs=outs, probe=probe, kind=p, seq=E.seq_at(st, s), st=st))
    k = len(E.searches) - 1
    i = mk('found', fresh('bs').args[0], ty='usize')
    if p == 'partition_point' and s.len.is_const():
        import exact
        r = exact.x_search(E, fr, st, c, p, args, dty)
        if r is not None:
            return r
    if p == 'partition_point' and E.seq_at(st, s).t in E.watch:
        # of elements that are in order: those that are known decide, from the last one on
        res, todo = [], [st]
        near = len(E.watch[E.seq_at(st, s).t])
        for j in range(1, near + 1):
            nxt = []
            for s0 in todo:
                for s1, more in fork(E, s0, fge(s.len - j)):
                    if not more:
                        res.append((s1, Num(s.len - (j - 1), 'usize')))
                        continue
                    s1 = s1.copy()
                    root = ('L', E.fid(fr, 0, fr.fn, ('pointarg', j)), 'x')
                    x = Ref(Place(s.p.root, s.p.pr + (('i', s.off + s.len - j, s.el),)))
                    for s2, b in E.call_closure(fr, s1, args[1], [x], E.P.ty_by_s['bool'], 0, ('point', j)):
                        for s3, yes in fork(E, s2, b.f):
                            if yes:
                                res.append((s3, Num(s.len - (j - 1), 'usize')))
                            else:
                                nxt.append(s3)
            todo = nxt
        for s0 in todo:
            s1 = s0.copy()
            s1.cons = s1.cons.add(s.len - near - L(i)) or s1.cons
            res.append((s1, Num(L(i), 'usize')))
        return res
    if p == 'partition_point':
        s1 = st.copy()
        s1.cons = s1.cons.add(s.len - L(i)) or s1.cons
        return [(s1, Num(L(i), 'usize'))]
    s1, s2 = st.copy(), st.copy()
    c1 = s1.cons.add(s.len - L(i) - 1)
    c2 = s2.cons.add(s.len - L(i))
    out = []
    if c1 is not None:
        s1.cons = c1
        out.append((s1, ok(dty, Num(L(i), 'usize'))))
    if c2 is not None:
        s2.cons = c2
        out.append((s2, err(dty, Num(L(i), 'usize'))))
    return out


NEAR = 3


@model('std::iter::Iterator::last')
def m_last(E, st, fr, c, args, dty):
    """the last item that a filter of a slice lets through: the final elements are looked at one by one, and
    anything that it lets through may come from before them"""
    v = args[0]
    if not isinstance(v, Agg) or v.ty is None or E.T[v.ty].get('p') != 'std::iter::Filter':
        return None
    it, f = v.fs.get(0), v.fs.get(1)
    if not isinstance(it, Lib) or it.kind not in ('SliceIter', 'IntoIter') or f is None:
        return None

    def test(s, x, n):
        s = s.copy()
        root = ('L', E.fid(fr, 0, fr.fn, ('lastarg', n)), 'x')
        s.mem[root] = x
        return [y for s2, b in E.call_closure(fr, s, f, [Ref(Place(root))], E.P.ty_by_s['bool'], 0, ('last', n)) for y in fork(E, s2, b.f)]
    out, todo = [], [st]
    for j in range(1, NEAR + 1):
        nxt = []
        for s in todo:
            for s1, more in fork(E, s, fge(it['hi'] - it['lo'] - j)):
                if not more:
                    out.append((s1, none(dty)))
                    continue
                x = iter_item(E, s1, it, it['hi'] - j)
                for s2, yes in test(s1, x, j):
                    if yes:
                        out.append((s2, some(dty, x)))
                    else:
                        nxt.append(s2)
        todo = nxt
    for s in todo:
        out.append((s.copy(), none(dty)))
        i = L(fresh('last', 'usize'))
        for s1 in E.assume(s, fge(i - it['lo']), True):
            for s2 in E.assume(s1, fge(it['hi'] - NEAR - 1 - i), True):
                x = iter_item(E, s2, it, i)
                out.extend((s3, some(dty, x)) for s3, yes in test(s2, x, 0) if yes)
    return out


# ------------------------------------------------------------------ boxes, cells, memory
@model('std::boxed::Box::<T>::new_uninit')
def m_boxuninit(E, st, fr, c, args, dty):
    return [(st, Lib('Box', inner=UNINIT))]


@model('std::boxed::Box::<T>::new')
def m_boxnew(E, st, fr, c, args, dty):
    return [(st, Lib('Box', inner=args[0]))]


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(E, st, fr, c, args, dty):
    v = args[0]
    if isinstance(v, Lib) and v.kind == 'Box':
        x = v['inner']
        n = 0
        while isinstance(x, Agg) and n < 4 and len(x.fs) == 1:
            x = list(x.fs.values())[0]
            n += 1
        if isinstance(x, Seq):
            return [(st, Seq(x.t, x.len, E.P.seq_el(dty), dict(x.ov)))]
    return [(st, newseq(E, 'vec', E.P.seq_el(dty)))]


@model('~^std::slice::<impl \\[T\\]>::into_vec$')
def m_intovec(E, st, fr, c, args, dty):
    return m_boxvec(E, st, fr, c, args, dty)


@model('std::mem::replace', 'std::mem::take', 'std::mem::swap')
def m_mem(E, st, fr, c, args, dty):
    p = (c.get('rp') or c['p']).split('::')[-1]
    if not isinstance(args[0], Ref):
        return None
    old = E.read(st, args[0].p)
    if p == 'replace':
        E.write(st, args[0].p, args[1])
        return [(st, old)]
    if p == 'swap':
        o2 = E.read(st, args[1].p)
        E.write(st, args[0].p, o2)
        E.write(st, args[1].p, old)
        return [(st, E.unit())]
    if isinstance(old, Seq):
        E.write(st, args[0].p, E.const_bytes(b'') if old.el == E.P.u8 else Seq(mk('empty', old.el), L(0), old.el))
        return [(st, old)]
    if isinstance(old, (Agg, Sym)) and E.T[old.ty].get('p') == 'std::option::Option':
        E.write(st, args[0].p, none(old.ty))
        return [(st, old)]
    if isinstance(old, Num):
        E.write(st, args[0].p, Num(L(0), old.ty))
        return [(st, old)]
    return None


@model('std::mem::drop', 'core::mem::drop')
def m_drop(E, st, fr, c, args, dty):
    E.drop(st, fr, args[0])
    return [(st, E.unit())]


@model('std::cell::RefCell::<T>::new')
def m_cellnew(E, st, fr, c, args, dty):
    return [(st, Lib('RefCell', inner=args[0]))]


def cell_of(E, st, v):
    """(cell value number, content place) of a &RefCell"""
    x = E.read(st, v.p)
    if isinstance(x, Lib) and x.kind == 'RefCell':
        t = mk('cellat', v.p)
        st.mem.setdefault(('B', t), Num(L(0), 'isize'))     # a value that was moved was not borrowed
        return t, v.p.f(('box',))
    t = E.argterm(st, x)
    ty = E.tyof_value(x)
    ity = E.T[ty]['a'][0]
    return t, Place(('R', mk('cellval', t), ity))


def cell_count(E, st, t, pl):
    """current number of outstanding shared borrows; negative: mutably borrowed"""
    root = ('B', t)
    v = st.mem.get(root)
    if v is None:
        v = Num(L(mk('cellborrows', t, ty='len')), 'isize')
        st.mem[root] = v
        # declared cell invariant: only a filled cell can be borrowed by the caller
        cont = E.read(st, pl)
        if E.cell_inv and isinstance(cont, Sym):
            f = for_(('var', cont.t, frozenset([1]), 2), feq(v.lin))
            for s in E.assume(st, f):
                st.cons, st.vs, st.at, st.forms = s.cons, s.vs, s.at, s.forms
    return v.lin


@model('std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::try_borrow', 'std::cell::RefCell::<T>::try_borrow_mut')
def m_borrow(E, st, fr, c, args, dty):
    t, pl = cell_of(E, st, args[0])
    p = (c.get('rp') or c['p']).split('::')[-1]
    mut = p.endswith('mut')
    n = cell_count(E, st, t, pl)
    cond = feq(n) if mut else fge(n)
    out = []
    if p.startswith('try_'):
        rs = fork(E, st, cond)
    else:
        rs = [(s if s is not st else st.copy(), True) for s in E.oblige(st, fr, cond, 'borrow', p)]
    for s, r in rs:
        if not r:
            out.append((s, err(dty, E.mkval(fresh('borrowerr'), payload_ty(E, dty, 1)))))
            continue
        cur = s.mem[('B', t)].lin
        s.mem[('B', t)] = Num(L(-1) if mut else cur + 1, 'isize')
        g = Lib('CellRefMut' if mut else 'CellRef', p=pl, cell=t)
        out.append((s, ok(dty, g) if p.startswith('try_') else g))
    return out


@model('std::cell::Ref::<\'b, T>::map', 'std::cell::Ref::<\'b, T>::clone')
def m_refmap(E, st, fr, c, args, dty):
    p = (c.get('rp') or c['p']).split('::')[-1]
    g = args[0] if p == 'map' else deref_all(E, st, args[0])
    if not (isinstance(g, Lib) and g.kind == 'CellRef'):
        return None
    if p == 'clone':
        root = ('B', g['cell'])
        if root in st.mem:
            st.mem[root] = Num(st.mem[root].lin + 1, 'isize')
        return [(st, g)]
    out = []
    for s, v in E.call_closure(fr, st, args[1], [Ref(g['p'])], None):
        if isinstance(v, Ref):
            out.append((s, g.with_(p=v.p)))
        elif isinstance(v, SRef):
            out.append((s, g.with_(p=Place(v.p.root, v.p.pr, (v.off, v.len)))))
    return out


def drop_lib(E, st, fr, v):
    if v.kind in ('CellRef', 'CellRefMut'):
        root = ('B', v['cell'])
        if root in st.mem:
            st.mem[root] = Num(L(0) if v.kind == 'CellRefMut' else st.mem[root].lin - 1, 'isize')


# ------------------------------------------------------------------ maps
@model('std::collections::HashMap::<K, V>::new', '~HashMap<.*> as std::default::Default>::default$', '~BTreeMap::<K, V>::new$', '~HashMap::<K, V>::with_capacity$')
def m_mapnew(E, st, fr, c, args, dty):
    return [(st, Sym(mk('emptymap', dty), dty))]


@model('~^std::collections::(HashMap|BTreeMap)::<K, V(, S)?, A>::insert$')
def m_mapinsert(E, st, fr, c, args, dty):
    v = E.read(st, args[0].p)
    event(E, 'mapinsert', st, fr, place=args[0].p, map=v, k=args[1], v=args[2])
    t = mk('mapput', E.argterm(st, v), E.argterm(st, args[1]), E.argterm(st, args[2]))
    old = mk('mapold', E.argterm(st, v), E.argterm(st, args[1]))
    ty = E.tyof_value(v)
    if ty is not None:
        E.write(st, args[0].p, Sym(t, ty))
    return [(st, E.mkval(old, dty))]


@model('~^std::collections::(HashMap|BTreeMap)::<K, V(, S)?, A>::(get|get_mut|contains_key|len|is_empty)$')
def m_mapget(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    p = (c.get('rp') or c['p']).split('::')[-1]
    k = [E.argterm(st, deref_all(E, st, a)) for a in args[1:]]
    m = E.argterm(st, v)
    if p in ('len', 'is_empty'):
        n = map_len(st, m)
        return [(st, Num(n, 'usize') if p == 'len' else BoolV(feq(n)))]
    if p == 'get_mut':
        return [(st, E.mkval(mk('mapget', m, *k), dty))]
    return map_get(E, st, m, k[0], p, dty)


def map_len(st, m):
    if m.op == 'emptymap':
        return L(0)
    n = L(mk('maplen', m, ty='len'))
    if m.op == 'mapput':
        a = map_len(st, m.args[0])
        st.cons = st.cons.add(n - a) or st.cons
        st.cons = st.cons.add(a + 1 - n) or st.cons
        st.cons = st.cons.add(n - 1) or st.cons
    return n


def map_get(E, st, m, k, p, dty):
    """look-up in a map built by insertions"""
    if m.op == 'emptymap':
        return [(st, BoolV(False) if p == 'contains_key' else none(dty))]
    if m.op == 'mapput':
        out = []
        f = feq(L(k) - L(m.args[1])) if k.ty == 'usize' and m.args[1].ty == 'usize' else eq_formula('key', k, m.args[1])
        for s, same in fork(E, st, f):
            if not same:
                out.extend(map_get(E, s, m.args[0], k, p, dty))
            elif p == 'contains_key':
                out.append((s, BoolV(True)))
            else:
                rt = payload_ty(E, dty, 1)
                inner = E.T[rt]['t']
                v = E.mkval(m.args[2], inner)
                root = ('R', mk('mapval', m, k), inner)
                s.mem[root] = v
                out.append((s, some(dty, Ref(Place(root)))))
        return out
    t = mk('map' + p, m, k)
    return [(st, E.mkval(t, dty))]


@model('~^std::collections::(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::(iter|keys|values)$', "~^<&'a std::collections::(HashMap|BTreeMap)<.*> as std::iter::IntoIterator>::into_iter$")
def m_mapiter(E, st, fr, c, args, dty):
    p = (c.get('rp') or c['p']).split('::')[-1]
    return [(st, E.mkval(mk('mapiter', E.argterm(st, deref_all(E, st, args[0])), 'iter' if p == 'into_iter' else p), dty))]


# ------------------------------------------------------------------ I/O
@model('std::io::BufRead::read_until', 'alloc::io::impls::<impl std::io::BufRead for &mut B>::read_until')
def m_readuntil(E, st, fr, c, args, dty):
    s = sref(E, st, args[2])
    event(E, 'read_until', st, fr, reader=args[0], delim=args[1], buf=s)
    out = []
    # error
    s1 = st.copy()
    v = E.seq_at(s1, s)
    q = L(fresh('len', 'len'))
    s1.cons = s1.cons.add(q - v.len) or s1.cons
    setseq(E, s1, s, Seq(fresh('partial'), q, v.el))
    ety = payload_ty(E, dty, 1)
    src = mk('readline', fresh('rl').args[0])
    out.append((s1, err(dty, E.mkval(mk('ioerr', src), ety))))
    # end of input: nothing read
    s2 = st.copy()
    out.append((s2, ok(dty, Num(L(0), 'usize'))))
    s2.gh = dict(s2.gh)
    # n >= 1 bytes appended
    s3 = st.copy()
    v = E.seq_at(s3, s)
    t = mk('line', src)
    n = L(mk('len', t, ty='len'))
    s3.cons = s3.cons.add(n - 1) or s3.cons
    if v.len.is_const() and v.len.k == 0:
        setseq(E, s3, s, Seq(t, n, v.el))
    else:
        setseq(E, s3, s, Seq(fresh('appended'), v.len + n, v.el))
    advance(s3)
    out.append((s3, ok(dty, Num(n, 'usize'))))
    return out


def advance(st):
    """one more item taken from a finite external source"""
    st.mem[('G', 'progress')] = Num(progress(st) + 1, 'usize')


def progress(st):
    v = st.mem.get(('G', 'progress'))
    return v.lin if v is not None else L(0)


@model('alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', 'std::io::Error::other')
def m_ioerr(E, st, fr, c, args, dty):
    t = mk('ioerror', *[E.argterm(st, refval(E, st, a)) for a in args])
    return [(st, Sym(t, dty))]


@model('std::io::BufReader::<R>::new', 'flate2::read::GzDecoder::<R>::new', 'tar::Archive::<R>::new', 'std::io::BufReader::<R>::with_capacity')
def m_wrap(E, st, fr, c, args, dty):
    p = c.get('rp') or c['p']
    return [(st, Sym(mk('wrap', p.split('::<')[0], E.argterm(st, args[-1])), dty))]


@model('tar::Archive::<R>::entries')
def m_entries(E, st, fr, c, args, dty):
    a = E.argterm(st, deref_all(E, st, args[0]))
    t = mk('call', 'tar_entries', a)
    return [(st, E.mkval(t, dty))]


@model("<tar::Entries<'a, R> as std::iter::Iterator>::next")
def m_entriesnext(E, st, fr, c, args, dty):
    it = E.read(st, args[0].p)
    s1, s2 = st.copy(), st
    st_adv(E, s2, args[0].p, it)
    advance(s2)
    t = fresh('tarentry')
    event(E, 'tarnext', s2, fr, it=it, item=t)
    return [(s1, none(dty)), (s2, some(dty, E.mkval(t, payload_ty(E, dty, 1))))]


def st_adv(E, st, pl, it):
    """an opaque finite source advanced by one item"""
    if isinstance(it, Sym):
        E.write(st, pl, Sym(mk('adv', it.t), it.ty))


@model('<std::fs::ReadDir as std::iter::Iterator>::next')
def m_readdirnext(E, st, fr, c, args, dty):
    it = E.read(st, args[0].p)
    s1, s2 = st.copy(), st
    st_adv(E, s2, args[0].p, it)
    advance(s2)
    t = fresh('direntry')
    return [(s1, none(dty)), (s2, some(dty, E.mkval(t, payload_ty(E, dty, 1))))]


def entry_pure(name):
    def f(E, st, fr, c, args, dty):
        v = deref_all(E, st, args[0])
        t = mk('call', name, E.argterm(st, v))
        return [(st, E.mkval(t, dty))]
    return f


for _n, _s in (("tar::Entry::<'a, R>::header", 'header'), ("tar::Entry::<'a, R>::path_bytes", 'path_bytes'),
               ("tar::Entry::<'a, R>::link_name_bytes", 'link_name_bytes'), ('tar::Header::size', 'size'), ('tar::Header::uid', 'uid'),
               ('tar::Header::gid', 'gid'), ('tar::Header::mode', 'mode'), ('tar::Header::mtime', 'mtime'), ('tar::Header::username', 'username'),
               ('tar::Header::groupname', 'groupname'), ('tar::Header::entry_type', 'entry_type'), ('tar::EntryType::as_byte', 'as_byte'),
               ("tar::Entry::<'a, R>::size", 'entry_size'), ("tar::Header::entry_size", 'entry_size')):
    TABLE[_n] = entry_pure(_s)


WORD = {'8': 1, '16': 2, '32': 4, '64': 8}


@model('byteorder::ReadBytesExt::read_u32', 'byteorder::ReadBytesExt::read_u16', 'byteorder::ReadBytesExt::read_u64', 'byteorder::ReadBytesExt::read_u8')
def m_readu32(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    k = ('L', 'rd', E.argterm(st, v))
    n = st.mem.get(k)
    i = n.lin if n is not None else L(0)
    name = (c.get('rp') or c['p']).split('::')[-1]
    t = mk('call', name + ':' + endian(E, c), E.argterm(st, v), i)
    st.mem[k] = Num(i + WORD[name[6:]], 'usize')
    return [(st, E.mkval(t, dty))]


@model('std::io::Read::read_exact')
def m_readexact(E, st, fr, c, args, dty):
    """the next bytes of a member; there are enough of them exactly when its words can be read one by one"""
    v = deref_all(E, st, args[0])
    ty = getattr(v, 'ty', None)
    s = sref(E, st, args[1])
    if ty is None or E.T[ty].get('p') != 'tar::Entry' or s is None or not s.len.is_const() or s.len.k % 4 or s.len.k > 64:
        return None
    q = E.seq_at(st, s)
    if not (s.off.is_const() and s.off.k == 0 and st.cons.proves_eq(q.len - s.len)):
        return None
    ent = E.argterm(st, v)
    k = ('L', 'rd', ent)
    n = st.mem.get(k)
    i = n.lin if n is not None else L(0)
    out = []
    for w in range(0, s.len.k, 4):
        r = mk('call', 'read_u32:BigEndian', ent, i + w)
        for s1 in E.assume(st.copy(), ('var', r, frozenset([1]), 2), True):
            s1 = s1.copy()
            s1.mem[k] = Num(i + s.len.k, 'usize')
            setseq(E, s1, s, Seq(fresh('part'), q.len, q.el))
            out.append((s1, err(dty, E.mkval(fresh('ioerr'), payload_ty(E, dty, 1)))))
        ok1 = E.assume(st, ('var', r, frozenset([0]), 2), True)
        if not ok1:
            return out
        st = ok1[0].copy()
    st.mem[k] = Num(i + s.len.k, 'usize')
    setseq(E, st, s, Seq(mk('sub', mk('memberbytes', ent), i, s.len), q.len, q.el))
    return out + [(st, ok(dty, E.unit()))]


def member_word(E, st, t, width, order):
    """the number that bytes of a member spell, when they are known to be such"""
    off = L(0)
    while t.op == 'sub':
        off = off + t.args[1]
        t = t.args[0]
    if t.op == 'memberbytes' and width == 4:
        return L(mk('fld', mk('call', 'read_u32:' + order, t.args[0], off), 0, 0, ty='u32'))
    if t.op == 'bytes' and len(t.args) == width == 4:
        xs = [x.single() for x in t.args]
        xs = [x.args[0] if x is not None and x.op == 'num' else x for x in xs]
        if all(x is not None and x.op == 'elem' for x in xs):
            b, o = xs[0].args[0], xs[0].args[1]
            if all(x.args[0] is b and x.args[1] == o + j for j, x in enumerate(xs)):
                return member_word(E, st, mk('sub', b, o, L(4)), width, order)
    return None


@model('byteorder::ByteOrder::read_u32', '<byteorder::BigEndian as byteorder::ByteOrder>::read_u32', '<byteorder::LittleEndian as byteorder::ByteOrder>::read_u32')
def m_orderu32(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    if s is None:
        return None
    order = 'BigEndian' if 'BigEndian' in (c.get('rp') or c['p']) else endian(E, c)
    out = []
    for s1 in E.oblige(st, fr, fge(s.len - 4), 'index', 'read of four bytes'):
        l = member_word(E, s1, E.cterm(s1, s), 4, order)
        out.append((s1, Num(l, 'u32') if l is not None else E.mkval(mk('word', order, E.cterm(s1, s)), dty)))
    return out


@model('std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from')
def m_arrayfrom(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    t = E.T[payload_ty(E, dty, 0)]
    if s is None or t['k'] != 'array' or not isinstance(t.get('n'), int):
        return None
    out = []
    for s1, same in fork(E, st, feq(s.len - t['n'])):
        out.append((s1, ok(dty, Seq(E.cterm(s1, s), L(t['n']), s.el)) if same else err(dty, E.mkval(fresh('notarray'), payload_ty(E, dty, 1)))))
    return out


@model('core::num::<impl u32>::from_be_bytes', 'core::num::<impl u32>::from_le_bytes')
def m_frombytes(E, st, fr, c, args, dty):
    if not isinstance(args[0], Seq):
        return None
    t = E.content(args[0])
    xs = [args[0].ov.get(L(j)) or args[0].ov.get(j) for j in range(4)] if args[0].ov else []
    if len(xs) == 4 and all(isinstance(x, (Num, Sym)) for x in xs):
        t = mk('bytes', *[E.num(st, x) for x in xs])
    order = 'BigEndian' if '_be_' in (c.get('rp') or c['p']) else 'LittleEndian'
    l = member_word(E, st, t, 4, order)
    return [(st, Num(l, 'u32') if l is not None else E.mkval(mk('word', order, t), dty))]


def endian(E, c):
    a = c.get('a') or c.get('ra') or []
    for x in a:
        try:
            s = E.T[x]['s']
        except Exception:
            continue
        if 'Endian' in s:
            return s.split('::')[-1]
    return '?'


@model('backend::Backend::open_file')
def m_open(E, st, fr, c, args, dty):
    if c.get('body'):
        return None
    event(E, 'open', st, fr, backend=args[0], name=args[1])
    n = sref(E, st, args[1])
    t = mk('openres', fresh('open').args[0], E.argterm(st, deref_all(E, st, args[0])), E.cterm(st, n))
    return [(st, E.mkval(t, dty))]


@model('backend::Backend::file_names')
def m_list(E, st, fr, c, args, dty):
    if c.get('body'):
        return None
    event(E, 'list', st, fr, backend=args[0])
    t = mk('listres', fresh('list').args[0], E.argterm(st, deref_all(E, st, args[0])))
    return [(st, E.mkval(t, dty))]


@model('std::fs::read_dir', 'std::fs::File::open')
def m_fs(E, st, fr, c, args, dty):
    p = c.get('rp') or c['p']
    s = sref(E, st, args[0])
    event(E, 'fs', st, fr, p=p, path=s)
    return [(st, E.mkval(mk('fsres', fresh('fs').args[0], p, E.cterm(st, s)), dty))]


@model('std::fs::DirEntry::file_name', 'std::fs::DirEntry::path')
def m_direntry(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    return [(st, E.mkval(mk('call', (c.get('rp') or c['p']).split('::')[-1], E.argterm(st, v)), dty))]


# ------------------------------------------------------------------ regex
@model('regex::Regex::new')
def m_regexnew(E, st, fr, c, args, dty):
    import regexa
    s = sref(E, st, args[0])
    ct = E.cterm(st, s)
    t = mk('regex', ct)
    if ct.op == 'const':
        try:
            regexa.parse(ct.args[0].decode())
            good = True
        except Exception:
            good = False
        if good:
            return [(st, ok(dty, Sym(t, payload_ty(E, dty, 0))))]
        return [(st, err(dty, Sym(fresh('regexerr'), payload_ty(E, dty, 1))))]
    return [(st, E.mkval(mk('regexres', t), dty))]


@model('regex::Regex::captures')
def m_captures(E, st, fr, c, args, dty):
    re_ = E.argterm(st, deref_all(E, st, args[0]))
    s = sref(E, st, args[1])
    t = mk('captures', re_, E.cterm(st, s))
    event(E, 'captures', st, fr, re=re_, text=s)
    return [(st, E.mkval(t, dty))]


@model('regex::Regex::is_match')
def m_ismatch(E, st, fr, c, args, dty):
    re_ = E.argterm(st, deref_all(E, st, args[0]))
    s = sref(E, st, args[1])
    t = mk('captures', re_, E.cterm(st, s))
    return [(st, BoolV(('var', t, frozenset([1]), 2)))]


@model("regex::Captures::<'h>::name", "regex::Captures::<'h>::get")
def m_capname(E, st, fr, c, args, dty):
    import regexa
    caps = deref_all(E, st, args[0])
    ct = E.argterm(st, caps)
    if isinstance(args[1], Num):
        g = args[1].lin.k if args[1].lin.is_const() else None
        gk = str(g)
    else:
        s = sref(E, st, args[1])
        nt = E.cterm(st, s)
        g = nt.args[0].decode() if nt.op == 'const' else None
        gk = g
    if g is None:
        return [(st, E.mkval(fresh('cap'), dty))]
    t = mk('group', ct, gk)
    # which groups always participate in a match of this regex?
    pat = None
    if ct.op == 'fld' and ct.args[0].op == 'captures' and ct.args[0].args[0].op == 'regex':
        pt = ct.args[0].args[0].args[0]
        if pt.op == 'const':
            pat = pt.args[0].decode()
    vs = None
    if pat is not None:
        try:
            st_ = regexa.group_status(regexa.parse(pat), g)
            vs = {'always': frozenset([1]), 'never': frozenset([0]), 'maybe': None}[st_]
        except Exception:
            vs = None
    elif g == 0:
        vs = frozenset([1])
    out = []
    v = E.mkval(t, dty)
    if vs is not None:
        ss = E.assume(st, ('var', t, vs, 2))
        return [(s, v) for s in ss]
    return [(st, v)]


@model("regex::Match::<'h>::as_str")
def m_asstr(E, st, fr, c, args, dty):
    m = deref_all(E, st, args[0])
    return [(st, opaque_seq(E, st, m, 'mstr'))]


# ------------------------------------------------------------------ time
TIME_LO, TIME_HI = -67768040609740800, 67768036191676799


@model('time::Timespec::new')
def m_tsnew(E, st, fr, c, args, dty):
    ns = E.num(st, args[1])
    out = []
    for s in E.oblige(st, fr, fand(fge(ns), fge(L(999999999) - ns)), 'timespec', 'nanoseconds'):
        out.append((s, Agg(dty, 0, {0: args[0], 1: args[1]})))
    return out


@model('time::at', 'time::at_utc')
def m_timeat(E, st, fr, c, args, dty):
    v = args[0]
    sec = E.num(st, field(E, st, v, 0))
    p = c.get('rp') or c['p']
    # the C calendar functions fail (and the time crate panics) beyond 32 bit years
    out = []
    for s in E.oblige(st, fr, fand(fge(sec - TIME_LO - 86400 * 2), fge(L(TIME_HI - 86400 * 2) - sec)), 'time range', p):
        out.append((s, E.mkval(mk('call', p, E.argterm(s, v)), dty)))
    return out


@model('time::now_utc', 'time::now', 'time::get_time')
def m_now(E, st, fr, c, args, dty):
    return [(st, E.mkval(fresh('now'), dty))]


STRF = set('AaBbCcDdeFfGgHIjklMmnPpRrSsTtUuVvWwXxYyZz+%E'.replace('E', ''))


@model('time::strftime')
def m_strftime(E, st, fr, c, args, dty):
    f = sref(E, st, args[0])
    ct = E.cterm(st, f)
    tm = E.argterm(st, deref_all(E, st, args[1]))
    t = mk('call', 'strftime', ct, tm)
    if ct.op == 'const' and strf_valid(ct.args[0].decode()):
        y = payload_ty(E, dty, 0)
        return [(st, ok(dty, E.mkval(mk('fld', t, 0, 0), y)))]
    return [(st, E.mkval(t, dty))]


def strf_valid(s):
    i = 0
    while i < len(s):
        if s[i] == '%':
            i += 1
            if i >= len(s) or s[i] not in STRF:
                return False
        i += 1
    return True


@model('time::strptime')
def m_strptime(E, st, fr, c, args, dty):
    a, b = sref(E, st, args[0]), sref(E, st, args[1])
    return [(st, E.mkval(mk('call', 'strptime', E.cterm(st, a), E.cterm(st, b)), dty))]


for _p in ('time::Tm::to_timespec', 'time::Tm::to_utc', 'time::Tm::to_local'):
    TABLE[_p] = entry_pure(_p)


# ------------------------------------------------------------------ formatting
def decode_template(b):
    """pieces of a fmt::Arguments template: literal bytes and placeholders (flags, width, prec, index)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', bytes(b[i:i + n])))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', bytes(b[i:i + ln])))
            i += ln
        else:
            fl = wd = pr = None
            if n & 1:
                fl = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if n & 2:
                wd = b[i] | b[i + 1] << 8
                i += 2
            if n & 4:
                pr = b[i] | b[i + 1] << 8
                i += 2
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append(('arg', nxt, (n, fl, wd, pr)))
            nxt += 1
    return out


@model('~^core::fmt::rt::Argument::<\'_>::new_\\w+$', '~^std::fmt::rt::Argument::<\'_>::new_\\w+$')
def m_fmtarg(E, st, fr, c, args, dty):
    return [(st, Lib('FmtArg', v=args[0], c=Opaque(c)))]


class Opaque:
    """wrapper for plain data inside Lib values"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.d == o.d

    def __hash__(self):
        return hash(self.d.get('p', '') if isinstance(self.d, dict) else 0)

    def __repr__(self):
        return 'opq'


@model("std::fmt::Arguments::<'a>::new")
def m_fmtargs(E, st, fr, c, args, dty):
    t = sref(E, st, args[0])
    ct = E.cterm(st, t)
    a = sref(E, st, args[1])
    pieces = None
    if ct.op == 'const':
        pieces = decode_template(ct.args[0])
    else:
        sv = E.seq_at(st, t)
        try:
            pieces = decode_template([E.num(st, E.elem(st, sv, L(i))).k for i in range(sv.len.k)])
        except Exception:
            pieces = None
    vals = []
    if a is not None and a.len.is_const():
        for i in range(a.len.k):
            vals.append(E.elem_at(st, a, L(i)))
    return [(st, Lib('FmtArgs', pieces=Opaque({'p': 'pieces', 'x': pieces}), vals=tuple(vals)))]


@model("std::fmt::Arguments::<'a>::from_str", '~^(core|std)::fmt::rt::<impl std::fmt::Arguments<.*>>::\\w+$')
def m_fmtstr(E, st, fr, c, args, dty):
    if not args:
        return None
    s = sref(E, st, args[0])
    if s is None:
        return None
    return [(st, Lib('FmtArgs', pieces=Opaque({'p': 'pieces', 'x': [('str',)]}), vals=(s,)))]


def format_effects(E, st, fr, a):
    """run the local formatting impls of the arguments; record the output pieces. -> states"""
    ss = [st]
    if not (isinstance(a, Lib) and a.kind == 'FmtArgs'):
        return ss
    pieces = a['pieces'].d['x']
    vals = a['vals']
    if pieces is None:
        pieces = [('arg', i, None) for i in range(len(vals))]
    for pc in pieces:
        ns = []
        for s in ss:
            if s.gh.get('fmtfail'):
                ns.append(s)
            elif pc[0] == 'lit':
                ns.append(emit(E, s, ('lit', pc[1])))
            elif pc[0] == 'str':
                s_ = vals[0]
                ct = E.cterm(s, s_)
                ns.append(emit(E, s, ('lit', ct.args[0]) if ct.op == 'const' else ('val', ct, 'str')))
            else:
                if pc[1] >= len(vals):
                    ns.append(s)
                    continue
                ns.extend(fmt_one(E, s, fr, vals[pc[1]], pc[2]))
        ss = ns
    return ss


def emit(E, st, x):
    if not E.trace_out:
        return st
    s = st.copy()
    out = s.gh.get('out', ())
    if out and out[-1][0] == 'lit' and x[0] == 'lit':
        out = out[:-1] + (('lit', out[-1][1] + x[1]),)
    else:
        out = out + (x,)
    s.gh['out'] = out
    return s


def fmt_one(E, st, fr, fa, spec):
    if not (isinstance(fa, Lib) and fa.kind == 'FmtArg'):
        return [emit(E, st, ('val', fresh('fmt'), spec))]
    c = fa['c'].d
    v = fa['v']
    fm = c.get('fmt')
    n = 0
    p = (fm or {}).get('rp') or (fm or {}).get('p', '')
    plain = spec is None or spec[1:] == (None, None, None)
    # strip reference forwarding (<&T as Display>)
    x = v
    while isinstance(x, Ref) and n < 4:
        y = E.read(st, x.p)
        if isinstance(y, (Ref, SRef)):
            x = y
            n += 1
        else:
            break
    h = E.stop.get(p)
    if h is not None and E.trace_out:
        r = h(E, st, fr, dict(fm, p=p), [x if isinstance(x, Ref) else v, spec], None)
        if r is not None:
            return [s for s, _ in r]
    if fm is not None and fm.get('body') and E.P.fns[fm['body']]['local']:
        f = Ref(Place(('R', mk('fmtr'), formatter_ty(E))), True)
        if h is not None and getattr(h, 'summary', False) and not E.trace_out:
            r = h(E, st, fr, dict(fm, p=p), [x if isinstance(x, Ref) else v, f], E.P.fns[fm['body']]['locals'][0][0])
            if r is not None:
                return [s for s, _ in r]
        outs = []
        mark = st.gh.get('out') if E.trace_out else None
        for s, r in E.call_fn(E.P.fns[fm['body']], [x if isinstance(x, Ref) else v, f], st, fr, 0, ('fmt', c['p'])):
            if not E.trace_out or not isinstance(r, (Agg, Sym)):
                outs.append(s)
                continue
            for s2, i, _ in split(E, s, r):
                s2 = s2.copy()
                if i == 1:
                    s2.gh['fmtfail'] = True
                outs.append(s2)
        return outs
    if isinstance(x, SRef) or isinstance(x, Ref):
        y = refval(E, st, x)
        if isinstance(y, SRef):
            ct = E.cterm(st, y)
            if ct.op == 'const' and y.len.is_const() and plain:
                return [emit(E, st, ('lit', ct.args[0][:y.len.k]))]
            return [emit(E, st, ('val', ct, None if plain else spec))]
        if isinstance(y, Num) and y.ty == 'char' and y.lin.is_const() and plain:
            return [emit(E, st, ('lit', chr(y.lin.k).encode()))]
        return [emit(E, st, ('val', E.argterm(st, y), None if plain else spec))]
    return [emit(E, st, ('val', E.argterm(st, x), None if plain else spec))]


def formatter_ty(E):
    for i, t in enumerate(E.T):
        if t['k'] == 'adt' and t['p'] == 'std::fmt::Formatter':
            return i
    return 0


@model("std::fmt::Formatter::<'a>::write_fmt", '~as std::fmt::Write>::write_fmt$', 'std::fmt::Write::write_fmt')
def m_writefmt(E, st, fr, c, args, dty):
    out = []
    own = 'Formatter' in c.get('p', '')
    for s in format_effects(E, st, fr, args[1]):
        r = fmt_result(E, s, dty, 'fmtres')
        out.append(written(*r) if own else r)
    return out


def written(s, v):
    """where it is asked for: the result of the last write, and whether one was not seen to have gone well"""
    if 'fmtw' in s.gh:
        s = s.copy()
        if not went_well(s):
            s.gh['fmtbad'] = True
        s.gh['fmtw'] = v.t if isinstance(v, Sym) else 'failed'
    return s, v


def went_well(s):
    t = s.gh.get('fmtw')
    return t is None or t != 'failed' and s.vs.get(t) == frozenset([0])


def fmt_result(E, s, dty, what):
    """an error when a display that was used failed, not known otherwise"""
    if s.gh.get('fmtfail'):
        s = s.copy()
        s.gh.pop('fmtfail')
        return (s, err(dty, E.mkval(fresh(what), payload_ty(E, dty, 1))))
    return (s, E.mkval(fresh(what), dty))


@model('std::io::Write::write_fmt')
def m_iowritefmt(E, st, fr, c, args, dty):
    event(E, 'iowrite', st, fr, dst=args[0], args=args[1])
    out = []
    for s in format_effects(E, st, fr, args[1]):
        out.append(fmt_result(E, s, dty, 'iores'))
    return out


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad")
def m_writestr(E, st, fr, c, args, dty):
    s = sref(E, st, args[1])
    ct = E.cterm(st, s)
    st2 = emit(E, st, ('lit', ct.args[0]) if ct.op == 'const' else ('val', ct, None))
    return [written(st2, E.mkval(fresh('fmtres'), dty))]


@model("std::fmt::Formatter::<'a>::write_char")
def m_writechar(E, st, fr, c, args, dty):
    l = E.num(st, args[1])
    st2 = emit(E, st, ('lit', chr(l.k).encode()) if l.is_const() else ('val', E.argterm(st, args[1]), None))
    return [written(st2, E.mkval(fresh('fmtres'), dty))]


@model('~^<.* as std::fmt::(Display|Debug|LowerHex|Octal)>::fmt$', '~impl std::fmt::(Display|Debug|LowerHex|Octal) for .*>::fmt$')
def m_dispfmt(E, st, fr, c, args, dty):
    if c.get('body') and E.P.fns[c['body']]['local']:
        return None
    if c.get('body'):
        return None
    y = refval(E, st, args[0])
    ct = E.cterm(st, y) if isinstance(y, SRef) else E.argterm(st, y)
    st2 = emit(E, st, ('lit', ct.args[0]) if ct.op == 'const' and isinstance(y, SRef) else ('val', ct, None))
    return [written(st2, E.mkval(fresh('fmtres'), dty))]


@model('std::fmt::format', 'alloc::fmt::format')
def m_format(E, st, fr, c, args, dty):
    return formatted(E, st, fr, args[0])


@model('~impl std::string::ToString for .*>::to_string$', '~as std::string::ToString>::to_string$', 'std::string::ToString::to_string')
def m_tostring(E, st, fr, c, args, dty):
    v = args[0]
    x = refval(E, st, v) if isinstance(v, Ref) else v
    if isinstance(x, (SRef, Seq)) or not c.get('fmt'):
        return m_clone(E, st, fr, c, args, dty)
    return formatted(E, st, fr, Lib('FmtArgs', pieces=Opaque({'p': 'pieces', 'x': None}), vals=(Lib('FmtArg', c=Opaque(c), v=v),)))


def formatted(E, st, fr, a):
    """the text that formatting gives"""
    out = []
    tr = E.trace_out
    for s in [st]:
        s1 = s.copy()
        saved = s1.gh.get('out')
        s1.gh.pop('out', None)
        E.trace_out = True
        try:
            ss = format_effects(E, s1, fr, a)
        finally:
            E.trace_out = tr
        for s2 in ss:
            s2 = s2.copy()
            s2.gh.pop('fmtfail', None)
            o = s2.gh.pop('out', ())
            if saved is not None:
                s2.gh['out'] = saved
            if all(x[0] == 'lit' for x in o):
                out.append((s2, E.const_bytes(b''.join(x[1] for x in o))))
            elif len(o) == 1 and o[0][0] == 'val' and o[0][2] in (None, 'str') and E.isbytes(o[0][1]):
                t = o[0][1]
                out.append((s2, Seq(t, L(mk('len', t, ty='len')), E.P.u8)))
            else:
                t = mk('fmt', tuple(o))
                out.append((s2, Seq(t, L(mk('len', t, ty='len')), E.P.u8)))
    return out


@model('~^std::fmt::Formatter::<\'a>::debug_\\w+$')
def m_debug(E, st, fr, c, args, dty):
    return [(st, E.mkval(fresh('fmtres'), dty))]


@model('tabwriter::TabWriter::<W>::new')
def m_tabnew(E, st, fr, c, args, dty):
    return [(st, Sym(fresh('tabwriter'), dty))]


@model('<tabwriter::TabWriter<W> as std::io::Write>::flush')
def m_tabflush(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    st.at[mk('flushed', E.argterm(st, v), ty='bool')] = True
    return [(st, E.mkval(fresh('iores'), dty))]


@model('tabwriter::TabWriter::<W>::into_inner')
def m_tabinner(E, st, fr, c, args, dty):
    # into_inner flushes and only fails when that flush fails; the writer is a Vec (cannot fail)
    y = payload_ty(E, dty, 0)
    if E.P.seq_el(y) is not None:
        return [(st, ok(dty, newseq(E, 'tabbed', E.P.seq_el(y))))]
    return [(st, E.mkval(fresh('tabinner'), dty))]


# ------------------------------------------------------------------ panics
@model('std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic',
       'core::panicking::panic_fmt', 'std::rt::begin_panic_fmt', '~^core::panicking::', '~^std::panicking::', 'std::process::exit', 'std::process::abort', 'core::option::expect_failed',
       '~^std::rt::panic')
def m_panic(E, st, fr, c, args, dty):
    p = c.get('rp') or c['p']
    E.fail(st, fr, 'panic', p)
    return []


@model('std::hint::unreachable_unchecked::precondition_check', '~::precondition_check$')
def m_precond(E, st, fr, c, args, dty):
    return [(st, E.unit())]


@model('std::fmt::Error::default', '~<std::fmt::Error as std::default::Default>::default$')
def m_fmterr(E, st, fr, c, args, dty):
    return [(st, Agg(dty, 0, {}))]


@model('std::iter::Iterator::next')
def m_opaquenext(E, st, fr, c, args, dty):
    """an iterator of an unknown type: finite, and otherwise arbitrary"""
    if c.get('body') or c.get('rp') not in (None, 'std::iter::Iterator::next') or not isinstance(args[0], Ref):
        return None
    s1, s2 = st.copy(), st.copy()
    for s in (s1, s2):
        E.havoc_val(s, args[0])
    advance(s2)
    return [(s1, none(dty)), (s2, some(dty, E.mkval(fresh('item'), payload_ty(E, dty, 1))))]
