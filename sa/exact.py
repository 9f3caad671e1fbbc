"""Sequences of known length: operations that keep every element apart.

Used by rules that decide a function for every input of a small shape (two recorded paths, two
members, ...) whose elements are unknown. Nothing here is sampled: elements stay symbolic, and
comparisons between them split the state."""
from terms import L, mk, fresh
from vals import *

LIMIT = 12


def items(E, st, v):
    """element values of a sequence of known length, or None"""
    if not isinstance(v, Seq) or not v.len.is_const() or v.len.k > LIMIT:
        return None
    return [E.elem(st, v, L(i)) for i in range(v.len.k)]


def make(E, xs, el):
    return Seq(mk('empty', el), L(len(xs)), el, {L(i): x for i, x in enumerate(xs)})


def run(E, st, fr, itv, limit=LIMIT, until=None):
    """[(state, items)] of an iterator run to its end (or the first item with until(state, item)), or None"""
    import models
    if isinstance(itv, Seq):
        itv = Lib('IntoIter', seq=itv, lo=L(0), hi=itv.len, el=itv.el)
    elif isinstance(itv, (Ref, SRef)):
        q = models.sref(E, st, itv)
        if q is not None:
            itv = Lib('SliceIter', p=Place(q.p.root, q.p.pr), lo=q.off, hi=q.off + q.len, el=q.el, mut=False)
    ity = E.tyof_value(itv)
    lib = isinstance(itv, Lib)
    nx = None if lib or ity is None else E.T[ity].get('next')
    if lib and itv.kind not in ('IntoIter', 'SliceIter'):
        return None
    if not lib and not nx:
        return None
    root = ('L', E.fid(fr, 0, fr.fn, ('exact', E.steps)), 'it')
    s0 = st.copy()
    s0.mem[root] = itv
    todo, out = [(s0, [])], []

    def got(s, xs, v):
        for s2, v2, last in (until(s, v) if until else [(s, v, False)]):
            if last:
                s2 = s2.copy()
                s2.mem.pop(root, None)
                out.append((s2, xs + [v2]))
            else:
                todo.append((s2, xs + [v2]))
    while todo:
        s, xs = todo.pop()
        if len(xs) > limit:
            return None
        E.steps += 1
        if lib:
            it = s.mem[root]
            for s2, more in models.fork(E, s, fge(it['hi'] - it['lo'] - 1)):
                if more:
                    v = models.iter_item(E, s2, it, it['lo'])
                    s2.mem[root] = it.with_(lo=it['lo'] + 1)
                    got(s2, xs, v)
                else:
                    s2.mem.pop(root, None)
                    out.append((s2, xs))
            continue
        for s2, v in E.call(fr, s, nx, [Ref(Place(root), True)], nx.get('dt') or models.opt_ty(E, nx, ity)):
            for s3, var, a in models.split(E, s2, v):
                s3 = s3.copy()
                if var == 1:
                    got(s3, xs, models.field(E, s3, a, 0))
                else:
                    s3.mem.pop(root, None)
                    out.append((s3, xs))
    return out


def ordered(E, st, fr, xs, el, cmpf):
    """[(state, items)]: stable insertion sort, cmpf(state, x, y) -> [(state, -1/0/1)]"""
    done = [(st, [])]
    for x in xs:
        nxt = []
        for s, ys in done:
            todo = [(s, len(ys))]
            while todo:
                s1, i = todo.pop()
                if i == 0:
                    nxt.append((s1, [x] + ys))
                    continue
                for s2, c in cmpf(s1, ys[i - 1], x):
                    if c <= 0:
                        nxt.append((s2, ys[:i] + [x] + ys[i:]))
                    else:
                        todo.append((s2, i - 1))
        done = nxt
    return done


def ordering(E, outs):
    import models
    return [(s, i - 1) for s0, v in outs for s, i, _ in models.split(E, s0, v)]


def byclosure(E, fr, f, kind, oty):
    """comparison of two elements by a closure: on the elements, or on their keys"""
    import models

    def place(s, x, n):
        root = ('L', E.fid(fr, 0, fr.fn, ('exactarg', n)), 'x')
        s.mem[root] = x
        return Ref(Place(root))

    def cmpf(s, x, y):
        s = s.copy()
        a, b = place(s, x, 0), place(s, y, 1)
        if kind == 'natural':
            return ordering(E, models.three_way(E, s, dict(p='cmp'), a, b, oty))
        if kind == 'cmp':
            return ordering(E, E.call_closure(fr, s, f, [a, b], oty, 0, ('exact', E.steps)))
        out = []
        for s1, k1 in E.call_closure(fr, s, f, [a], None, 0, ('exactA', E.steps)):
            for s2, k2 in E.call_closure(fr, s1, f, [b], None, 0, ('exactB', E.steps)):
                out.extend(ordering(E, models.three_way(E, s2, dict(p='cmp'), k1, k2, oty)))
        return out
    return cmpf


def attempt(E, fr, st, c, p, args, dty):
    """the outcomes of a call on sequences of known length, or None"""
    import models
    name = p.split('::')[-1]
    h = TABLE.get(name)
    if h is None or not args or 'Map' in p or 'Set<' in p:
        return None
    if not any(p.startswith(x) for x in ('std::vec::Vec', 'core::slice', 'alloc::slice', 'std::slice', 'std::iter', 'core::iter', '<std::vec::Vec', '<std::slice', 'std::collections')) and ' as std::iter::Extend' not in p:
        return None
    return h(E, fr, st, c, p, args, dty)


def on(E, st, a):
    import models
    s = models.sref(E, st, a)
    if s is None:
        return None, None, None
    v = E.seq_at(st, s)
    return s, v, items(E, st, v)


def put(E, st, s, xs, el):
    import models
    models.setseq(E, st, s, make(E, xs, el))


def x_extend(E, fr, st, c, p, args, dty):
    s, v, xs = on(E, st, args[0])
    if xs is None:
        return None
    r = run(E, st, fr, args[1])
    if r is None:
        return None
    out = []
    for s2, ys in r:
        zs = []
        for y in ys:
            if isinstance(y, Ref) and E.T[v.el]['k'] != 'ref':
                y = E.read(s2, y.p)
            if 'push' in E.hooks:
                E.hooks['push'](E, s2, fr, s, v, y)
            zs.append(y)
        # what the iterator did to the sequence itself stays
        cur = items(E, s2, E.seq_at(s2, s))
        put(E, s2, s, (cur if cur is not None else xs) + zs, v.el)
        out.append((s2, E.unit()))
    return out


def x_append(E, fr, st, c, p, args, dty):
    s, v, xs = on(E, st, args[0])
    s2, w, ys = on(E, st, args[1])
    if xs is None or ys is None:
        return None
    put(E, st, s, xs + ys, v.el)
    put(E, st, s2, [], w.el)
    return [(st, E.unit())]


def x_tryfrom(E, fr, st, c, p, args, dty):
    """collect into an option or a result of nothing or of a vector"""
    import models
    opt = E.T[dty]['p'] == 'std::option::Option'
    good = 1 if opt else 0
    pt = models.payload_ty(E, dty, good)
    el = E.P.seq_el(pt)
    unit = E.T[pt]['k'] == 'tuple' and not E.T[pt]['ts']
    if not unit and (el is None or el == E.P.u8 or E.T[pt].get('p') != 'std::vec::Vec'):
        return None

    def until(s, v):
        return [(s2, (i == good, models.field(E, s2, a, 0) if i == good or not opt else None), i != good) for s2, i, a in models.split(E, s, v)]
    r = run(E, st, fr, args[0], LIMIT, until)
    if r is None:
        return None
    out = []
    for s, xs in r:
        if xs and not xs[-1][0]:
            out.append((s, models.none(dty) if opt else models.err(dty, xs[-1][1])))
        else:
            v = E.unit() if unit else make(E, [x for _, x in xs], el)
            out.append((s, models.some(dty, v) if opt else models.ok(dty, v)))
    return out


def x_collect(E, fr, st, c, p, args, dty):
    if E.T[dty].get('p') in ('std::option::Option', 'std::result::Result'):
        return x_tryfrom(E, fr, st, c, p, args, dty)
    el = E.P.seq_el(dty)
    if el is None or el == E.P.u8 and E.T[dty].get('p') != 'std::vec::Vec':
        return None
    r = run(E, st, fr, args[0], 64 if el == E.P.u8 else LIMIT)
    if r is None:
        return None
    out = []
    for s, xs in r:
        if 'item' in E.hooks:
            for x in xs:
                E.hooks['item'](E, s, fr, x, 'collect')
        out.append((s, make(E, xs, el)))
    return out


def x_sort(E, fr, st, c, p, args, dty):
    import models
    s, v, xs = on(E, st, args[0])
    if xs is None:
        return None
    n = p.split('::')[-1]
    kind = 'natural' if n in ('sort', 'sort_unstable') else 'key' if n.endswith('key') else 'cmp'
    cmpf = byclosure(E, fr, args[1] if len(args) > 1 else None, kind, models.ordering_ty(E))
    out = []
    for s2, ys in ordered(E, st, fr, xs, v.el, cmpf):
        if kind == 'cmp':
            done = [(s2, True)]
            for i in range(len(ys)):
                for j in range(i + 1, len(ys)):
                    done = [(s5, ok and a <= 0 and b == -a) for s3, ok in done for s4, a in cmpf(s3, ys[i], ys[j]) for s5, b in cmpf(s4, ys[j], ys[i])]
        else:
            done = [(s2, True)]
        for s3, ok in done:
            # a comparison that contradicts itself: any order may come out
            for zs in ([ys] if ok else [ys, ys[::-1]]):
                s4 = s3.copy()
                put(E, s4, s, zs, v.el)
                out.append((s4, E.unit()))
    return out


def x_search(E, fr, st, c, p, args, dty):
    """binary search of a sequence that is sorted for the probe; nothing is known otherwise"""
    import models
    s, v, xs = on(E, st, args[0])
    if xs is None:
        return None
    n = p.split('::')[-1]
    oty = models.ordering_ty(E)
    todo = [(st, [])]
    for i, x in enumerate(xs):
        nxt = []
        for s1, got in todo:
            s1 = s1.copy()
            root = ('L', E.fid(fr, 0, fr.fn, ('exactarg', i)), 'x')
            s1.mem[root] = x
            r = Ref(Place(root))
            tag = ('exact', E.steps, i)
            if n == 'partition_point':
                for s2, b in E.call_closure(fr, s1, args[1], [r], E.P.ty_by_s['bool'], 0, tag):
                    nxt.extend((s3, got + [0 if y else 1]) for s3, y in models.fork(E, s2, b.f))
                continue
            if n == 'binary_search_by':
                o = E.call_closure(fr, s1, args[1], [r], oty, 0, tag)
            elif n == 'binary_search_by_key':
                o = [x2 for s2, k in E.call_closure(fr, s1, args[2], [r], None, 0, tag) for x2 in models.three_way(E, s2, dict(p='cmp'), k, args[1], oty)]
            else:
                o = models.three_way(E, s1, dict(p='cmp'), r, args[1], oty)
            nxt.extend((s2, got + [i2]) for s2, i2 in ordering(E, o))
        todo = nxt
    out = []
    for s1, got in todo:
        if n == 'partition_point':
            if got != sorted(got):
                return None
            out.append((s1, Num(L(got.count(0)), 'usize')))
            continue
        if got != sorted(got):
            return None
        hits = [i for i, g in enumerate(got) if g == 0]
        if hits:
            out.extend((s1.copy(), models.ok(dty, Num(L(i), 'usize'))) for i in hits)
        else:
            out.append((s1, models.err(dty, Num(L(got.count(-1)), 'usize'))))
    return out


def x_insert(E, fr, st, c, p, args, dty):
    s, v, xs = on(E, st, args[0])
    i = E.num(st, args[1])
    if xs is None or not i.is_const() or not 0 <= i.k <= len(xs):
        return None
    if 'push' in E.hooks:
        E.hooks['push'](E, st, fr, s, v, args[2])
    put(E, st, s, xs[:i.k] + [args[2]] + xs[i.k:], v.el)
    return [(st, E.unit())]


def x_remove(E, fr, st, c, p, args, dty):
    s, v, xs = on(E, st, args[0])
    i = E.num(st, args[1])
    if xs is None or not i.is_const() or not 0 <= i.k < len(xs):
        return None
    x = xs[i.k]
    put(E, st, s, xs[:i.k] + xs[i.k + 1:], v.el)
    return [(st, x)]


def x_reverse(E, fr, st, c, p, args, dty):
    s, v, xs = on(E, st, args[0])
    if xs is None:
        return None
    put(E, st, s, xs[::-1], v.el)
    return [(st, E.unit())]


def x_resize(E, fr, st, c, p, args, dty):
    s, v, xs = on(E, st, args[0])
    n = E.num(st, args[1])
    if xs is None or not n.is_const() or not 0 <= n.k <= LIMIT:
        return None
    todo = [(st, xs[:n.k])]
    for i in range(len(xs), n.k):
        if p.endswith('resize'):
            todo = [(s1, ys + [args[2]]) for s1, ys in todo]
        else:
            todo = [(s2, ys + [y]) for s1, ys in todo for s2, y in E.call_closure(fr, s1, args[2], [], v.el, 0, ('exact', E.steps, i))]
    out = []
    for s1, ys in todo:
        s1 = s1.copy()
        put(E, s1, s, ys, v.el)
        out.append((s1, E.unit()))
    return out


def x_retain(E, fr, st, c, p, args, dty):
    import models
    s, v, xs = on(E, st, args[0])
    if xs is None:
        return None
    todo = [(st, [])]
    for i, x in enumerate(xs):
        nxt = []
        for s1, ys in todo:
            s1 = s1.copy()
            root = ('L', E.fid(fr, 0, fr.fn, ('exactarg', i)), 'x')
            s1.mem[root] = x
            for s2, b in E.call_closure(fr, s1, args[1], [Ref(Place(root), True)], E.P.ty_by_s['bool'], 0, ('exact', E.steps, i)):
                for s3, keep in models.fork(E, s2, b.f):
                    nxt.append((s3, ys + [s3.mem[root]] if keep else ys))
        todo = nxt
    out = []
    for s1, ys in todo:
        s1 = s1.copy()
        put(E, s1, s, ys, v.el)
        out.append((s1, E.unit()))
    return out


def x_count(E, fr, st, c, p, args, dty):
    if c.get('body') and c.get('rlocal'):
        return None
    r = run(E, st, fr, args[0])
    return None if r is None else [(s, Num(L(len(xs)), 'usize')) for s, xs in r]


def x_sum(E, fr, st, c, p, args, dty):
    import models
    n = E.numty(dty) if dty is not None else None
    if n is None or c.get('body') and c.get('rlocal'):
        return None
    r = run(E, st, fr, args[0])
    if r is None:
        return None
    out = []
    for s, xs in r:
        tot = L(0)
        todo = [s]
        for x in xs:
            tot = tot + E.num(s, models.deref_all(E, s, x))
            todo = [y for z in todo for y in E.oblige(z, fr, E.inrange(tot, n), 'overflow', 'sum')]
        out.extend((y.copy(), Num(tot, n)) for y in todo)
    return out


def x_last(E, fr, st, c, p, args, dty):
    import models
    if c.get('body') and c.get('rlocal') or E.T[dty].get('p') != 'std::option::Option':
        return None
    r = run(E, st, fr, args[0])
    return None if r is None else [(s, models.some(dty, xs[-1]) if xs else models.none(dty)) for s, xs in r]


TABLE = {'resize': x_resize, 'resize_with': x_resize, 'retain': x_retain, 'retain_mut': x_retain, 'count': x_count, 'last': x_last, 'sum': x_sum, 'extend': x_extend, 'append': x_append, 'collect': x_collect, 'insert': x_insert, 'remove': x_remove, 'reverse': x_reverse,
         'binary_search_by': x_search, 'binary_search_by_key': x_search, 'partition_point': x_search, 'binary_search': x_search}
for _n in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'):
    TABLE[_n] = x_sort
