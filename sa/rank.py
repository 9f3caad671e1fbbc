"""Termination of loops: lexicographic ranking over the numeric quantities live at a loop head."""
from terms import L
from vals import *
import models

BIG = 60


def quantities(E, st, fid, others=()):
    """numeric quantities of the state, by path; others: states whose explicit quantities are wanted too"""
    out = {}

    def enum(ty):
        t = E.T[ty] if ty is not None else None
        return t is not None and t['k'] == 'adt' and (t.get('enum') or len(t.get('vs') or ()) > 1)

    def tyof(t, i, y):
        """type of a field"""
        if t.get('vs'):
            return t['vs'][0]['f'][i][1]
        if isinstance(y, Lib):
            if y.kind not in ('SliceIter', 'IntoIter'):
                return None
            p = 'std::vec::IntoIter' if y.kind == 'IntoIter' else 'std::slice::IterMut' if y.fs.get('mut') else 'std::slice::Iter'
            return next((j for j, u in enumerate(E.T) if u['k'] == 'adt' and u['p'] == p and y['el'] in u['a']), None)
        return E.tyof_value(y)

    def val(k, v, d):
        if d < 0 or len(out) > 400:
            return
        if isinstance(v, Num):
            if v.ty != 'char':
                out[k] = v.lin
        elif isinstance(v, Seq):
            out[k + ('len',)] = v.len
        elif isinstance(v, SRef):
            out[k + ('len',)] = v.len
            out[k + ('off',)] = v.off
        elif isinstance(v, Agg):
            if enum(v.ty):
                out[k + ('variant',)] = L(v.var)
            for i, x in v.fs.items():
                val(k + (v.var, i), x, d - 1)
        elif isinstance(v, Sym) and enum(v.ty):
            vs = st.vs.get(v.t)
            if vs is not None and len(vs) == 1:
                out[k + ('variant',)] = L(next(iter(vs)))
        elif isinstance(v, Lib):
            for i, x in v.fs.items():
                if isinstance(x, Place):
                    continue
                if hasattr(x, 'v') and hasattr(x, 'k'):
                    out[k + (v.kind, i)] = x
                elif hasattr(x, 'key'):
                    val(k + (v.kind, i), x, d - 1)
            if 'lo' in v.fs and 'hi' in v.fs:
                out[k + (v.kind, 'left')] = v['hi'] - v['lo']
    for r, v in st.mem.items():
        if r[0] == 'G' or r[0] == 'L' or r[0] == 'R' or r[0] == 'X':
            val((r,), v, 5)
    st = st.copy() if others else st

    def like(k, x, pl, d):
        if d < 0 or len(out) > 400:
            return
        if isinstance(x, Agg):
            t = E.T[x.ty] if x.ty is not None else None
            if t is None or t['k'] != 'adt':
                return
            if enum(x.ty):
                if k + ('variant',) not in out:
                    val(k, E.read(st, pl), 0)
                return
            for i, y in x.fs.items():
                ft = tyof(t, i, y)
                if ft is not None:
                    like(k + (x.var, i), y, pl.f(('f', i, ft)), d - 1)
        elif isinstance(x, (Num, Seq, SRef, Lib)):
            if isinstance(x, Lib):
                models.materialise(E, st, pl)
            val(k, E.read(st, pl), d)
    for other in others:
        for r, x in other.mem.items():
            if r[0] in ('R', 'L', 'X') and (r[0] == 'R' or r in st.mem):
                like((r,), x, Place(r), 5)
    return out


def ranked(E, pairs):
    """pairs: [(head state, back-edge state)]; returns (ok, measures used or reason)"""
    states = []
    for h, b, _ in pairs:
        states += [x for x in (h, b) if not any(x is y for y in states)]
    known = {id(x): quantities(E, x, pairs[0][2], states) for x in states}
    todo = [(h, b, known[id(h)], known[id(b)]) for h, b, _ in pairs]
    used = []
    while todo:
        keys = None
        for h, b, qh, qb in todo:
            ks = set(qh) & set(qb)
            keys = ks if keys is None else keys & ks
        cand = []
        moving = []
        for k in sorted(keys, key=repr):
            if any(qh[k] != qb[k] for _, _, qh, qb in todo):
                moving.append(k)
        still = [k for k in sorted(keys, key=repr) if k not in moving]
        best = None
        P = ('G', 'progress')
        order = [k for k in moving if k[0] == P] + [k for k in moving if k[-1] == 'left'] + [k for k in moving if k[0] != P and k[-1] != 'left']
        for k in order:
            if k[0] == P:
                cand.append((('progress',), [(qb[k] - qh[k], True) for _, _, qh, qb in todo]))
                continue
            # decreasing towards zero
            cand.append((k, [(qh[k] - qb[k], E_ge(b, qb[k]) or E_ge(b, qh[k])) for h, b, qh, qb in todo]))
        for name, ds in cand:
            r = attempt(todo, ds)
            if r is not None:
                best = (name, r)
                break
        if best is None:
            # distances between two quantities (a counter below a bound), or to a bound that is not live
            for k in order:
                if k[0] == P:
                    continue
                up = [attempt([t], [(t[3][k] - t[2][k], True)]) for t in todo]
                if all(u is None for u in up):
                    continue
                bs = [('at', b2) for b2 in still + moving if b2 != k]
                for _, b2 in bs[:BIG]:
                    ds = [((qh[b2] - qh[k]) - (qb[b2] - qb[k]), E_ge(b, qh[b2] - qh[k]) or E_ge(b, qb[b2] - qb[k])) for h, b, qh, qb in todo]
                    r = attempt(todo, ds)
                    if r is not None:
                        best = ((b2, '-', k), r)
                        break
                if best is None:
                    ds = [(qb[k] - qh[k], bounded_above(b, qh[k])) for h, b, qh, qb in todo]
                    r = attempt(todo, ds)
                    if r is not None:
                        best = (('bound', k), r)
                if best is not None:
                    break
        if best is None:
            return False, 'no quantity of the loop gets nearer to a bound on some way around it'
        used.append(best[0])
        todo = best[1]
    return True, used


def E_ge(b, l):
    return b.cons.prove(l)


def bounded_above(b, l):
    """some constraint of the state bounds l from above by a quantity of bounded memory"""
    s = l.single()
    if s is None:
        ts = [t for t, c in l.v if c > 0]
    else:
        ts = [s]
    for c in b.cons.cs:
        neg = [t for t, a in c.v if a < 0]
        pos = [t for t, a in c.v if a > 0]
        if any(t in neg for t in ts) and all(t.op in ('len', 'maplen') or t.ty == 'len' for t in pos):
            return True
    return False


def attempt(todo, ds):
    """None if some pair increases the measure or none decreases it; else the pairs it leaves equal"""
    rest = []
    dec = False
    for t, (d, low) in zip(todo, ds):
        b = t[1]
        if not (b.cons.prove(d) if d.v else d.k >= 0):
            return None
        if low and (b.cons.prove(d - 1) if d.v else d.k >= 1):
            dec = True
        else:
            rest.append(t)
    return rest if dec else None
