"""Further summaries of library functions: less used parts of the standard library."""
import models
from models import (model, some, none, ok, err, payload_ty, deref_all, sref, newseq, setseq, fork, split, field, fge, feq, range_of,
                    strbound, elref, refval, alloc, event, materialise, iter_item, ascii_class, cell_of, cell_count, exact_remaining)
from terms import L, mk, fresh, RANGES
from vals import *


def name(c):
    return (c.get('rp') or c['p']).split('::')[-1]


# ------------------------------------------------------------------ arrays, vectors
@model('~^(std|core)::array::iter::<impl std::iter::IntoIterator for \\[T; N\\]>::into_iter$')
def m_arrayinto(E, st, fr, c, args, dty):
    v = args[0]
    if not isinstance(v, Seq):
        return None
    return [(st, Lib('IntoIter', seq=v, lo=L(0), hi=v.len, el=v.el))]


@model('std::vec::from_elem')
def m_fromelem(E, st, fr, c, args, dty):
    n = E.num(st, args[1])
    el = E.P.seq_el(dty)
    out = []
    for s in E.oblige(st, fr, fge(L(2**63 - 1) - n), 'capacity', 'repeat'):
        alloc(E, s, fr, args[1], None)
        if n.is_const() and 0 <= n.k <= 12:
            out.append((s, Seq(mk('empty', el), n, el, {L(i): args[0] for i in range(n.k)})))
        else:
            out.append((s, newseq(E, 'repeated', el, n)))
    return out


@model('std::vec::Vec::<T, A>::drain', 'std::string::String::drain')
def m_drain(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    if s is None:
        return None
    v = E.seq_at(st, s)
    r = range_of(E, st, s, args[1])
    if r is None:
        return None
    lo, hi, cond = r
    if 'String' in (c.get('rp') or c['p']):
        return None
    out = []
    for s2 in E.oblige(st, fr, cond, 'index', 'drain'):
        if s2.cons.proves_eq(lo) and s2.cons.proves_eq(s.len - hi):
            rest = Seq(mk('empty', v.el), L(0), v.el)
        elif s2.cons.proves_eq(s.len - hi) and not v.ov:
            rest = Seq(v.t, lo, v.el) if hasattr(v, 't') else newseq(E, 'drained', v.el, lo)
        else:
            rest = newseq(E, 'drained', v.el, s.len - hi + lo)
        setseq(E, s2, s, rest)
        out.append((s2, Lib('IntoIter', seq=v, lo=lo, hi=hi, el=v.el)))
    return out


@model('~^<std::vec::Drain<\'.*, T, A> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$',
       '~^<std::array::IntoIter<T, N> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$')
def m_drainnext(E, st, fr, c, args, dty):
    return models.m_next(E, st, fr, c, args, dty)


@model('~^<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint$', '~^<std::vec::Drain<\'.*, T, A> as std::iter::Iterator>::size_hint$')
def m_drainhint(E, st, fr, c, args, dty):
    return models.m_sizehint(E, st, fr, c, args, dty)


@model('~^<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len$', '~^<std::array::IntoIter<T, N> as std::iter::Iterator>::count$',
       '~^<std::vec::Drain<\'.*, T, A> as std::iter::ExactSizeIterator>::len$')
def m_drainlen(E, st, fr, c, args, dty):
    return models.m_iterlen(E, st, fr, c, args, dty)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copyfrom(E, st, fr, c, args, dty):
    a, b = sref(E, st, args[0]), sref(E, st, args[1])
    if a is None or b is None:
        return None
    out = []
    for s in E.oblige(st, fr, feq(a.len - b.len), 'slice lengths', name(c)):
        v = E.seq_at(s, a)
        if a.len.is_const() and a.len.k <= 40:
            xs = [E.elem_at(s, b, L(i)) for i in range(a.len.k)]
            for i, x in enumerate(xs):
                E.write(s, Place(a.p.root, a.p.pr + (('i', a.off + i, a.el),)), x)
        else:
            setseq(E, s, a, Seq(fresh('copied'), E.seq_at(s, SRef(a.p, L(0), a.len, a.el)).len, v.el))
        out.append((s, E.unit()))
    return out


# ------------------------------------------------------------------ windows and chunks
@model('core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks')
def m_windows(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    n = E.num(st, args[1])
    k = name(c)
    out = []
    for s2 in E.oblige(st, fr, fge(n - 1), 'chunk size', k):
        out.append((s2, Lib('Windows' if k == 'windows' else 'Chunks', p=s.p, at=s.off, end=s.off + s.len, n=n, el=s.el)))
    return out


@model("~^<std::slice::(Windows|Chunks)<'.*, T> as std::iter::Iterator>::next$")
def m_windownext(E, st, fr, c, args, dty):
    it = E.read(st, args[0].p)
    if not isinstance(it, Lib) or 'at' not in it.fs:
        return None
    out = []
    left = it['end'] - it['at']
    if it.kind == 'Windows':
        for s, more in fork(E, st, fge(left - it['n'])):
            if more:
                E.write(s, args[0].p, it.with_(at=it['at'] + 1))
                out.append((s, some(dty, SRef(it['p'], it['at'], it['n'], it['el']))))
            else:
                out.append((s, none(dty)))
        return out
    for s, more in fork(E, st, fge(left - 1)):
        if not more:
            out.append((s, none(dty)))
            continue
        for s2, full in fork(E, s, fge(left - it['n'])):
            n = it['n'] if full else left
            E.write(s2, args[0].p, it.with_(at=it['at'] + n))
            out.append((s2, some(dty, SRef(it['p'], it['at'], n, it['el']))))
    return out


# ------------------------------------------------------------------ zip
@model('~^<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new$')
def m_zipnew(E, st, fr, c, args, dty):
    return [(st, Agg(dty, 0, {0: args[0], 1: args[1]}))]


@model('~^<std::iter::Zip<A, B> as std::iter::Iterator>::next$')
def m_zipnext(E, st, fr, c, args, dty):
    if not isinstance(args[0], Ref):
        return None
    pl = args[0].p
    z = E.read(st, pl)
    ty = E.tyof_value(z)
    if ty is None:
        return None
    fts = E.T[ty]['a'][:2]
    nxs = [E.T[t].get('next') for t in fts]
    if None in nxs:
        return None
    pty = payload_ty(E, dty, 1)
    out = []

    def one(s, i):
        nx = nxs[i]
        ref = Ref(pl.f(('f', i, fts[i])), True)
        r = []
        for s2, v in E.call(fr, s, nx, [ref], nx.get('dt') or models.opt_ty(E, nx, fts[i])):
            for s3, var, a in split(E, s2, v):
                r.append((s3, field(E, s3, a, 0) if var == 1 else None))
        return r
    for s, a in one(st, 0):
        if a is None:
            out.append((s, none(dty)))
            continue
        for s2, b in one(s, 1):
            out.append((s2, none(dty) if b is None else some(dty, Agg(pty, 0, {0: a, 1: b}))))
    return out


# ------------------------------------------------------------------ ranges, integers, defaults
@model('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains', 'std::ops::RangeFrom::<Idx>::contains', 'std::ops::RangeTo::<Idx>::contains')
def m_rangecontains(E, st, fr, c, args, dty):
    r = E.read(st, args[0].p) if isinstance(args[0], Ref) else args[0]
    x = deref_all(E, st, args[1])
    if not isinstance(x, Num) or not isinstance(r, (Agg, Sym)):
        return None
    p = c.get('rp') or c['p']
    g = lambda i: E.num(st, field(E, st, r, i))
    if '::RangeInclusive' in p:
        f = fand(fge(x.lin - g(0)), fge(g(1) - x.lin))
    elif '::RangeFrom' in p:
        f = fge(x.lin - g(0))
    elif '::RangeTo:' in p:
        f = fge(g(0) - x.lin - 1)
    else:
        f = fand(fge(x.lin - g(0)), fge(g(1) - x.lin - 1))
    return [(st, BoolV(f))]


@model('std::iter::ExactSizeIterator::len')
def m_exactlen(E, st, fr, c, args, dty):
    if c.get('body') or not isinstance(args[0], Ref):
        return None
    it = materialise(E, st, args[0].p)
    n, _ = exact_remaining(E, st, it)
    if n is None:
        return None
    return [(st, Num(n, 'usize'))]


@model('~impl std::cmp::Ord for [iu]\\w+>::clamp$', 'std::cmp::Ord::clamp')
def m_clamp(E, st, fr, c, args, dty):
    x, a, b = args
    if not all(isinstance(v, Num) for v in args):
        return None
    out = []
    for s in E.oblige(st, fr, fge(b.lin - a.lin), 'clamp', ''):
        for s1, low in fork(E, s, fge(a.lin - x.lin - 1)):
            if low:
                out.append((s1, a))
                continue
            for s2, high in fork(E, s1, fge(x.lin - b.lin - 1)):
                out.append((s2, b if high else x))
    return out


@model('~^<([iu](8|16|32|64|128|size)|bool|char) as std::default::Default>::default$', '~impl std::default::Default for ([iu](8|16|32|64|128|size)|bool|char)>::default$')
def m_primdefault(E, st, fr, c, args, dty):
    if E.T[dty]['k'] == 'bool':
        return [(st, BoolV(False))]
    return [(st, Num(L(0), E.numty(dty)))]


# ------------------------------------------------------------------ characters
@model('~^(std|core)::char::methods::<impl char>::to_digit$')
def m_todigit(E, st, fr, c, args, dty):
    x, r = E.num(st, args[0]), E.num(st, args[1])
    out = []
    if not r.is_const():
        return None
    for s in E.oblige(st, fr, fand(fge(r - 2), fge(L(36) - r)), 'radix', ''):
        k = min(max(r.k, 2), 36)
        cases = [(48, min(k, 10), 0)]
        if k > 10:
            cases += [(97, k - 10, 10), (65, k - 10, 10)]
        rest = []
        for a, n, d in cases:
            f = fand(fge(x - a), fge(L(a + n - 1) - x))
            rest.append(fnot(f))
            for s2 in E.assume(s.copy(), f):
                out.append((s2.copy(), some(dty, Num(x - a + d, 'u32'))))
        for s2 in E.assume(s.copy(), fand(*rest)):
            out.append((s2.copy(), none(dty)))
    return out


@model('std::char::from_digit', 'core::char::from_digit', '~^(std|core)::char::methods::<impl char>::from_digit$')
def m_fromdigit(E, st, fr, c, args, dty):
    x, r = E.num(st, args[0]), E.num(st, args[1])
    out = []
    for s in E.oblige(st, fr, fge(L(36) - r), 'radix', ''):
        for s2, small in fork(E, s, fge(r - x - 1)):
            if not small:
                out.append((s2, none(dty)))
                continue
            for s3, dec in fork(E, s2, fge(L(9) - x)):
                out.append((s3, some(dty, Num(x + (48 if dec else 87), 'char'))))
    return out


@model('~^(std|core)::char::methods::<impl char>::(is_ascii|is_ascii_(digit|hexdigit|alphabetic|alphanumeric|lowercase|uppercase|whitespace))$')
def m_charclass(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    x = E.num(st, v)
    n = name(c)
    return [(st, BoolV(fge(L(127) - x) if n == 'is_ascii' else ascii_class(n, x)))]


@model('~^(std|core)::char::methods::<impl char>::to_ascii_(lower|upper)case$', 'core::num::<impl u8>::to_ascii_lowercase', 'core::num::<impl u8>::to_ascii_uppercase')
def m_charcase(E, st, fr, c, args, dty):
    v = deref_all(E, st, args[0])
    x = E.num(st, v)
    up = name(c) == 'to_ascii_uppercase'
    f = fand(fge(x - (97 if up else 65)), fge(L(122 if up else 90) - x))
    return [(s, Num(x + ((-32 if up else 32) if r else 0), v.ty)) for s, r in fork(E, st, f)]


@model('~^(std|core)::char::methods::<impl char>::len_utf8$')
def m_lenutf8(E, st, fr, c, args, dty):
    x = E.num(st, args[0])
    out = []
    todo = st
    lo = 0
    for n, hi in ((1, 0x7f), (2, 0x7ff), (3, 0xffff), (4, 0x10ffff)):
        for s in E.assume(st.copy(), fand(fge(x - lo), fge(L(hi) - x))):
            out.append((s.copy(), Num(L(n), 'usize')))
        lo = hi + 1
    return out


# ------------------------------------------------------------------ strings
def patlen(E, st, a):
    """(least, greatest) length of what a pattern matches, in bytes"""
    if isinstance(a, Num):
        return (L(1), L(1)) if a.lin.is_const() and a.lin.k < 128 else (L(1), L(4))
    b = refval(E, st, a)
    if isinstance(b, SRef) and b.el == E.P.u8:
        return b.len, b.len
    return L(1), L(4)


def found(E, st, s, a, what):
    """fresh match of a pattern: (position, end) with what is known of them"""
    lo, hi = patlen(E, st, a)
    extra = E.argterm(st, a) if not isinstance(a, (Agg, Fn)) else fresh('pat')
    t = mk('call', what, E.cterm(st, s), s.len, extra)
    i = L(mk('off', t, ty='len'))
    n = lo if lo == hi else L(mk('len', t, ty='len'))
    for f in (s.len - i - n, n - lo, hi - n):
        st.cons = st.cons.add(f) or st.cons
    return i, n


def boundaries(E, st, s, *ps):
    for p in ps:
        f = strbound(E, st, s, p)
        if f is True:
            continue
        for s2 in E.assume(st, f):
            st.cons, st.vs, st.at, st.forms = s2.cons, s2.vs, s2.at, s2.forms
            break


def constbytes(E, st, s):
    t = E.cterm(st, s)
    if t.op == 'const' and s.len.is_const():
        return t.args[0][:s.len.k]
    return None


def constpat(E, st, a):
    if isinstance(a, Num):
        return chr(a.lin.k).encode() if a.lin.is_const() else None
    b = refval(E, st, a)
    return constbytes(E, st, b) if isinstance(b, SRef) else None


def match_byte(E, st, s, a, i):
    """the byte at a match of a one-byte pattern is that byte"""
    if isinstance(a, Num) and a.lin.is_const() and a.lin.k < 128:
        e = E.elem_at(st, s, i)
        if isinstance(e, Num):
            st.cons = st.cons.add_eq(e.lin - a.lin) or st.cons


@model('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def m_strfind(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    b, p = constbytes(E, st, s), constpat(E, st, args[1])
    if b is not None and p is not None:
        i = b.find(p) if name(c) == 'find' else b.rfind(p)
        return [(st, none(dty) if i < 0 else some(dty, Num(L(i), 'usize')))]
    s1, s2 = st.copy(), st.copy()
    i, n = found(E, s2, s, args[1], name(c))
    boundaries(E, s2, s, i, i + n)
    match_byte(E, s2, s, args[1], i)
    return [(s1, none(dty)), (s2, some(dty, Num(i, 'usize')))]


@model('core::str::<impl str>::split_once', 'core::str::<impl str>::rsplit_once')
def m_splitonce(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    s1, s2 = st.copy(), st.copy()
    i, n = found(E, s2, s, args[1], 'find' if name(c) == 'split_once' else 'rfind')
    match_byte(E, s2, s, args[1], i)
    pr = Agg(payload_ty(E, dty, 1), 0, {0: SRef(s.p, s.off, i, s.el), 1: SRef(s.p, s.off + i + n, s.len - i - n, s.el)})
    return [(s1, none(dty)), (s2, some(dty, pr))]


# iterators over parts of a string: a finite number of parts, each a part of the string
PARTS = {'split': (1, 1), 'rsplit': (1, 1), 'splitn': (0, 1), 'rsplitn': (0, 1), 'lines': (0, 0), 'split_whitespace': (0, 0), 'split_terminator': (0, 1), 'split_ascii_whitespace': (0, 0),
         'chars': (0, 0), 'char_indices': (0, 0), 'matches': (0, 1), 'match_indices': (0, 1)}


@model('~^core::str::<impl str>::(split|rsplit|splitn|rsplitn|lines|split_whitespace|split_ascii_whitespace|split_terminator|chars|char_indices|matches|match_indices)$')
def m_strparts(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    n = name(c)
    lo, extra = PARTS[n]
    b = constbytes(E, st, s)
    if n in ('chars', 'char_indices') and b is not None:
        k = L(len(b.decode('utf-8', 'replace')))
        t = mk('call', n, E.cterm(st, s), s.len)
    else:
        t = mk('call', n, E.cterm(st, s), s.len, *[E.argterm(st, a) for a in args[1:] if not isinstance(a, (Agg, Fn))])
        k = L(mk('len', t, ty='len'))
        for f in (k - lo, s.len + extra - k):
            st.cons = st.cons.add(f) or st.cons
        if n in ('splitn', 'rsplitn'):
            st.cons = st.cons.add(E.num(st, args[1]) - k) or st.cons
    return [(st, Lib('StrIter', what=n, t=t, p=s.p, off=s.off, n=s.len, lo=L(0), hi=k))]


@model("~^<std::str::(Split|RSplit|SplitN|RSplitN|Lines|SplitWhitespace|SplitAsciiWhitespace|SplitTerminator|Chars|CharIndices|Matches|MatchIndices)<.*> as std::iter::(DoubleEnded)?Iterator>::next(_back)?$")
def m_strnext(E, st, fr, c, args, dty):
    if not isinstance(args[0], Ref):
        return None
    pl = args[0].p
    it = E.read(st, pl)
    if not isinstance(it, Lib) or it.kind != 'StrIter':
        return [(st.copy(), none(dty)), (st.copy(), some(dty, E.mkval(fresh('part'), payload_ty(E, dty, 1))))]
    back = name(c) == 'next_back'
    out = []
    lo, hi = it['lo'], it['hi']
    for s, more in fork(E, st, fge(hi - lo - 1)):
        if not more:
            out.append((s, none(dty)))
            continue
        i = hi - 1 if back else lo
        E.write(s, pl, it.with_(hi=hi - 1) if back else it.with_(lo=lo + 1))
        out.append((s, some(dty, str_item(E, s, it, i, payload_ty(E, dty, 1)))))
    return out


def str_item(E, st, it, i, ty):
    sr = SRef(it['p'], it['off'], it['n'], E.P.u8)
    b = constbytes(E, st, sr)
    w = it['what']
    if b is not None and i.is_const() and w in ('chars', 'char_indices'):
        txt = b.decode('utf-8', 'replace')
        ch = Num(L(ord(txt[i.k])), 'char')
        if w == 'chars':
            return ch
        return Agg(ty, 0, {0: Num(L(len(txt[:i.k].encode())), 'usize'), 1: ch})
    t = mk('part', it['t'], i)
    if w == 'chars':
        return E.mkval(t, ty)
    o = L(mk('off', t, ty='len'))
    n = L(mk('len', t, ty='len'))
    st.cons = st.cons.add(it['n'] - o - n) or st.cons
    if w == 'char_indices':
        st.cons = st.cons.add(n - 1) or st.cons
        st.cons = st.cons.add(L(4) - n) or st.cons
        boundaries(E, st, sr, o, o + n)
        return Agg(ty, 0, {0: Num(o, 'usize'), 1: E.mkval(mk('char', t), E.T[ty]['ts'][1])})
    part = SRef(it['p'], it['off'] + o, n, E.P.u8)
    if w == 'match_indices':
        boundaries(E, st, sr, o, o + n)
        return Agg(ty, 0, {0: Num(o, 'usize'), 1: part})
    return part


@model('core::str::<impl str>::bytes')
def m_strbytes(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    return [(st, Lib('IntoIter', seq=E.seq_at(st, s), lo=s.off, hi=s.off + s.len, el=s.el))]


@model("~^<std::str::Bytes<'_> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def m_bytesnext(E, st, fr, c, args, dty):
    return models.m_next(E, st, fr, c, args, dty)


@model('core::str::<impl str>::is_char_boundary')
def m_ischarb(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    i = E.num(st, args[1])
    return [(st, BoolV(fand(fge(s.len - i), strbound(E, st, s, i))))]


@model('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def m_eqcase(E, st, fr, c, args, dty):
    a, b = sref(E, st, args[0]), sref(E, st, args[1])
    x, y = constbytes(E, st, a), constbytes(E, st, b)
    if x is not None and y is not None:
        return [(st, BoolV(x.lower() == y.lower()))]
    t = sorted((mk('to_ascii_lowercase', E.cterm(st, a)), mk('to_ascii_lowercase', E.cterm(st, b))), key=lambda z: z.id)
    return [(st, BoolV(fand(feq(a.len - b.len), ('var', models.cmpterm('bytes', t[0], t[1])[0], frozenset([1]), 3))))]


@model('~^(std|alloc)::str::<impl str>::(replace|replacen|repeat)$')
def m_strreplace(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    t = mk('call', name(c), E.cterm(st, s), s.len, *[E.argterm(st, refval(E, st, a)) for a in args[1:]])
    return [(st, Seq(t, L(mk('len', t, ty='len')), E.P.u8))]


@model('<std::string::String as std::ops::Add<&str>>::add')
def m_stradd(E, st, fr, c, args, dty):
    a, b = sref(E, st, args[0]), sref(E, st, args[1])
    x, y = constbytes(E, st, a), constbytes(E, st, b)
    if x is not None and y is not None:
        return [(st, E.const_bytes(x + y))]
    t = mk('call', 'concat', E.cterm(st, a), a.len, E.cterm(st, b), b.len)
    return [(st, Seq(t, a.len + b.len, E.P.u8))]


# ------------------------------------------------------------------ cells
@model('std::cell::RefCell::<T>::into_inner')
def m_cellinto(E, st, fr, c, args, dty):
    v = args[0]
    if isinstance(v, Lib) and v.kind == 'RefCell':
        return [(st, v['inner'])]
    return None


@model('std::cell::RefCell::<T>::replace', 'std::cell::RefCell::<T>::take')
def m_cellreplace(E, st, fr, c, args, dty):
    t, pl = cell_of(E, st, args[0])
    n = cell_count(E, st, t, pl)
    out = []
    for s in E.oblige(st, fr, feq(n), 'borrow', name(c)):
        old = E.read(s, pl)
        if name(c) == 'replace':
            E.write(s, pl, args[1])
        elif E.is_adt(dty, 'std::option::Option'):
            E.write(s, pl, none(dty))
        else:
            E.write(s, pl, E.mkval(fresh('default'), dty))
        out.append((s, old))
    return out


@model('std::cell::Cell::<T>::new')
def m_cellnew(E, st, fr, c, args, dty):
    return [(st, Agg(dty, 0, {0: args[0]}))]


def cellplace(E, st, a):
    v = E.read(st, a.p)
    ty = E.tyof_value(v)
    if ty is None:
        return None, None
    return a.p.f(('f', 0, E.T[ty]['a'][0])), E.T[ty]['a'][0]


@model('std::cell::Cell::<T>::get', 'std::cell::Cell::<T>::set', 'std::cell::Cell::<T>::replace', 'std::cell::Cell::<T>::take')
def m_cellget(E, st, fr, c, args, dty):
    pl, ty = cellplace(E, st, args[0])
    if pl is None:
        return None
    n = name(c)
    old = E.read(st, pl)
    if n in ('set', 'replace'):
        E.write(st, pl, args[1])
    elif n == 'take':
        if E.numty(ty):
            E.write(st, pl, Num(L(0), E.numty(ty)))
        elif E.T[ty]['k'] == 'bool':
            E.write(st, pl, BoolV(False))
        elif E.is_adt(ty, 'std::option::Option'):
            E.write(st, pl, none(ty))
        else:
            return None
    return [(st, E.unit() if n == 'set' else old)]


# ------------------------------------------------------------------ maps
@model('~^std::collections::(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::entry$')
def m_mapentry(E, st, fr, c, args, dty):
    return [(st, Lib('MapEntry', p=args[0].p, k=args[1], t=dty))]


@model('~^std::collections::(hash_map|btree_map)::Entry::<\'a, K, V(, A)?>::(or_insert|or_insert_with|or_default)$')
def m_orinsert(E, st, fr, c, args, dty):
    e = args[0]
    if not isinstance(e, Lib) or e.kind != 'MapEntry':
        return None
    m = E.read(st, e['p'])
    ty = E.tyof_value(m)
    k = E.argterm(st, e['k'])
    vty = E.T[dty]['t']
    n = name(c)
    out = []
    for s, v in models.map_get(E, st, E.argterm(st, m), k, 'contains_key', E.P.ty_by_s['bool']):
        for s2, there in fork(E, s, v.f):
            if there:
                t = mk('mapslot', E.argterm(s2, m), k)
                out.append((s2, Ref(Place(('R', t, vty)), True)))
                continue
            vals = [(s2, args[1])] if n == 'or_insert' else E.call_closure(fr, s2, args[1], [], vty) if n == 'or_insert_with' else [(s2, E.mkval(fresh('default'), vty))]
            for s3, x in vals:
                event(E, 'mapinsert', s3, fr, place=e['p'], map=m, k=e['k'], v=x)
                t = mk('mapput', E.argterm(s3, m), k, E.argterm(s3, x))
                if ty is not None:
                    E.write(s3, e['p'], Sym(t, ty))
                r = ('R', mk('mapslot', t, k), vty)
                s3.mem[r] = x
                out.append((s3, Ref(Place(r), True)))
    return out


@model('~^std::collections::HashMap::<K, V(, S)?(, A)?>::remove$', '~^std::collections::BTreeMap::<K, V(, A)?>::remove$')
def m_mapremove(E, st, fr, c, args, dty):
    m = E.read(st, args[0].p)
    k = E.argterm(st, deref_all(E, st, args[1]))
    t = E.argterm(st, m)
    ty = E.tyof_value(m)
    if ty is not None:
        E.write(st, args[0].p, Sym(mk('mapdel', t, k), ty))
    return [(st, E.mkval(mk('mapold', t, k), dty))]


@model('~^<std::collections::(HashMap<K, V(, S)?(, A)?>|BTreeMap<K, V(, A)?>) as std::ops::Index<&Q>>::index$')
def m_mapindex(E, st, fr, c, args, dty):
    m = deref_all(E, st, args[0])
    k = E.argterm(st, deref_all(E, st, args[1]))
    t = E.argterm(st, m)
    E.fail(st, fr, 'index', 'key of a map')
    return [(st, E.mkval(mk('mapval', t, k), dty))]


# ------------------------------------------------------------------ vectors of unknown contents
@model('std::vec::Vec::<T, A>::split_off')
def m_splitoff(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    i = E.num(st, args[1])
    out = []
    for s2 in E.oblige(st, fr, fge(s.len - i), 'index', 'split_off'):
        if s2.cons.proves_eq(i):
            setseq(E, s2, s, Seq(mk('empty', v.el), L(0), v.el))
            out.append((s2, v))
            continue
        a, b = newseq(E, 'head', v.el, i), newseq(E, 'tail', v.el, s.len - i)
        for j in range(12 if i.is_const() and i.k <= 12 else 0):
            if j < i.k:
                a.ov[L(j)] = E.elem_at(s2, s, L(j))
        setseq(E, s2, s, a)
        out.append((s2, b))
    return out


@model('std::vec::Vec::<T, A>::resize', 'std::vec::Vec::<T, A>::resize_with')
def m_resize(E, st, fr, c, args, dty):
    s = sref(E, st, args[0])
    v = E.seq_at(st, s)
    n = E.num(st, args[1])
    out = []
    for s2 in E.oblige(st, fr, fge(L(2**63 - 1) - n), 'capacity', 'resize'):
        alloc(E, s2, fr, args[1], None)
        setseq(E, s2, s, newseq(E, 'resized', v.el, n))
        out.append((s2, E.unit()))
    return out


@model("~^<regex::Captures<.*> as std::ops::Index<.*>>::index$")
def m_capindex(E, st, fr, c, args, dty):
    """the text of a group; the group must take part in the match"""
    oty = None
    for i, t in enumerate(E.T):
        if t['k'] == 'adt' and t['p'] == 'std::option::Option' and 'regex::Match' in t['s']:
            oty = i
            break
    if oty is None:
        return None
    out = []
    for s, v in models.m_capname(E, st, fr, c, args, oty):
        for s2 in E.oblige(s, fr, ('var', v.t, frozenset([1]), 2), 'index', 'group'):
            m = E.mkval(mk('fld', v.t, 1, 0), payload_ty(E, oty, 1))
            out.append((s2, models.opaque_seq(E, s2, m, "mstr")))
    return out


# ------------------------------------------------------------------ parts of a slice between the elements that a function names
@model("~^<std::slice::Split<.*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def m_slicesplit(E, st, fr, c, args, dty):
    fn = E.P.fns.get(c.get('body'))
    if fn is None or not isinstance(args[0], Ref):
        return None
    # the search of the library, over the elements of the part that is left
    pos = [b['t']['f'] for b in fn['blocks'] if b['t']['k'] == 'call' and b['t']['f']['p'].rsplit('::', 1)[-1] in ('position', 'rposition') and b['t']['f'].get('body')]
    clos = [s['r']['t'] for b in fn['blocks'] for s in b['s'] if s.get('k') == '=' and s['r']['k'] == 'agg' and s['r']['a'] == 'closure']
    sty = args[0].p
    tys = {}

    def places(x):
        if isinstance(x, dict):
            for y in x.values():
                places(y)
        elif isinstance(x, list):
            if len(x) == 3 and x[0] == 1 and isinstance(x[1], dict) and x[1].get('k') == 'deref' and x[2].get('k') == 'f':
                tys[x[2]['i']] = x[2]['t']
            for y in x:
                places(y)
    places(fn['blocks'])
    if len(pos) != 1 or len(clos) != 1 or sorted(tys) != [0, 1, 2]:
        return None
    pv, pp, pf = (sty.f(('f', i, tys[i])) for i in range(3))
    out = []
    done = E.read(st, pf)
    back = name(c) == 'next_back'
    for s, fin in fork(E, st, done.f):
        if fin:
            out.append((s, none(dty)))
            continue
        sl = E.read(s, pv)
        if not isinstance(sl, SRef):
            return None
        R = ('L', ('split', c['body'], id(fr)), 0)
        s.mem[R] = Lib('SliceIter', p=Place(sl.p.root, sl.p.pr), lo=sl.off, hi=sl.off + sl.len, el=sl.el, mut=False)
        rs = E.call_fn(E.P.fns[pos[0]['body']], [Ref(Place(R), True), Agg(clos[0], 0, {0: Ref(pp, True)})], s, fr, 0, ('split',))
        for s2, r in rs:
            s2.mem.pop(R, None)
            for s3, k, x in split(E, s2, r):
                if k == 0:
                    E.write(s3, pf, BoolV(True))
                    out.append((s3, some(dty, sl)))
                    continue
                i = E.num(s3, x.fs[0]) if 0 in x.fs else E.num(s3, field(E, s3, x, 0))
                for f in (i, sl.len - i - 1):
                    s3.cons = s3.cons.add(f) or s3.cons
                left, right = SRef(sl.p, sl.off, i, sl.el), SRef(sl.p, sl.off + i + 1, sl.len - i - 1, sl.el)
                E.write(s3, pv, left if back else right)
                out.append((s3, some(dty, right if back else left)))
    return out
