"""Whole-crate analysis, one function at a time from the leaves of the call graph up. A function
that is safe for arbitrary arguments is replaced in its callers by 'anything may come back' when it
is expensive, and analysed again in the context of every caller otherwise."""
import os
import time
import multiprocessing as mp

from terms import mk, L, fresh
from vals import *
from engine import Engine, Budget
import models
import rank

HEAVY = 700


def callees(P, fn, seen=None):
    """paths of the local functions a body (with its closures) mentions"""
    out = set()
    seen = seen if seen is not None else set()
    if fn['id'] in seen:
        return out
    seen.add(fn['id'])

    def walk(x):
        if isinstance(x, dict):
            p = x.get('rp') or x.get('p')
            if isinstance(p, str) and p in P.root_by_path:
                out.add(p)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for b in fn['blocks']:
        walk(b)
    for t, nm in fn['locals']:
        k = P.T[t]
        if k['k'] == 'closure':
            g = P.fns.get(k['f'])
            if g is not None:
                out |= callees(P, g, seen)
        if k['k'] == 'fndef':
            p = k['c'].get('rp') or k['c'].get('p')
            if p in P.root_by_path:
                out.add(p)
    # function items and closures appear in generic arguments of callees too
    return out


def local_fns(P):
    return [r['path'] for r in P.roots if 'assert_fields_are_eq' not in r['path'] and P.root_fn(r['path']) is not None]


def order(P, paths):
    """dependency levels (callees first); cycles end up in one level"""
    dep = {p: callees(P, P.root_fn(p)) - {p} for p in paths}
    done, levels = set(), []
    left = list(paths)
    while left:
        lv = [p for p in left if dep[p] & set(left) <= {p}]
        if not lv:
            lv = list(left)
        levels.append(lv)
        done |= set(lv)
        left = [p for p in left if p not in done]
    return levels, dep


# ---------------------------------------------------------------- havoc summaries
def reaches(P, ty, pred, seen=None):
    seen = seen if seen is not None else set()
    if ty in seen:
        return False
    seen.add(ty)
    t = P.T[ty]
    if pred(t):
        return True
    for k in ('t',):
        if isinstance(t.get(k), int) and t['k'] in ('ref', 'ptr', 'slice', 'array'):
            if reaches(P, t[k], pred, seen):
                return True
    for x in t.get('a') or ():
        if isinstance(x, int) and t['k'] == 'adt' and reaches(P, x, pred, seen):
            return True
    for x in t.get('ts') or ():
        if reaches(P, x, pred, seen):
            return True
    for v in t.get('vs') or ():
        if isinstance(v, dict):
            for _, ft in v['f']:
                if reaches(P, ft, pred, seen):
                    return True
    return False


CELLS = ('std::cell::RefCell', 'std::cell::Cell', 'std::cell::UnsafeCell', 'std::cell::Ref', 'std::cell::RefMut', 'std::cell::OnceCell')


def interior(P, ty):
    def pred(t):
        if t['k'] == 'adt' and t['p'] in CELLS:
            return True
        if t['k'] == 'dyn' and 'std::fmt' not in t['s']:
            return True
        if t['k'] == 'adt' and t['p'].endswith('IterMut'):
            return True
        if t['k'] == 'closure' or t['k'] == 'fndef':
            return True
        return False
    return reaches(P, ty, pred)


def nested_mut(P, ty):
    def pred(t):
        return t['k'] == 'ref' and t['m'] and P.T[t['t']]['k'] not in ('param', 'dyn') and not P.T[t['t']]['s'].startswith('std::fmt::Formatter')
    return reaches(P, ty, pred)


def havocable(P, fn):
    """is 'returns anything, leaves anything behind its mutable references' a sound summary?"""
    for i in range(fn['argc']):
        ty = fn['locals'][i + 1][0]
        t = P.T[ty]
        inner = t['t'] if t['k'] == 'ref' else ty
        if interior(P, ty) or nested_mut(P, inner):
            return False
    return True


_fields = {}


def written_fields(P, fn, arg):
    """top-level fields of what a &mut parameter points to that a function may write; None: any"""
    k = (fn['id'], arg)
    if k in _fields:
        return _fields[k]
    _fields[k] = frozenset()        # of a recursive call: what the others write
    same = {arg}                    # locals that are this reference
    out = set()
    grew = True
    while grew:
        grew = False
        for b in fn['blocks']:
            for x in b['s']:
                if x.get('k') != '=':
                    continue
                dst, rv = x['p'], x['r']
                if dst[0] in same and len(dst) > 1:
                    out.add(field_at(dst))
                used = list(places(rv))
                for how, q in used:
                    if q[0] not in same:
                        continue
                    if len(q) == 1 or len(q) == 2 and how == 'mut':
                        # the reference itself goes on
                        if len(dst) == 1 and rv['k'] in ('use', 'ref'):
                            if dst[0] not in same:
                                same.add(dst[0])
                                grew = True
                        else:
                            out.add(None)
                    elif how == 'mut':
                        out.add(field_at(q))
            t = b['t']
            if t['k'] == 'call':
                if t['dst'] and t['dst'][0] in same and len(t['dst']) > 1:
                    out.add(field_at(t['dst']))
                for i, a in enumerate(t['args']):
                    for how, q in places(a):
                        if q[0] in same and len(q) == 1:
                            g = P.fns.get(t['f'].get('body')) if isinstance(t['f'], dict) else None
                            r = written_fields(P, g, i + 1) if g is not None and g['local'] else None
                            out |= r if r is not None else {None}
                        elif how == 'move' and q[0] in same and len(q) > 2:
                            out.add(field_at(q))
            elif t['k'] == 'drop' and t['p'][0] in same and len(t['p']) > 1:
                out.add(field_at(t['p']))
    r = None if None in out else frozenset(out)
    _fields[k] = r
    return r


def field_at(q):
    return q[2]['i'] if len(q) > 2 and q[1]['k'] == 'deref' and q[2]['k'] == 'f' else None


def places(x):
    """(how, place) of every place an operand or value mentions"""
    if isinstance(x, dict):
        if isinstance(x.get('p'), list) and x['p'] and isinstance(x['p'][0], int):
            yield ('mut' if x.get('k') in ('ref', 'rawptr', 'addr') and x.get('m', True) else 'move' if x.get('k') == 'move' else 'read'), x['p']
        for k, v in x.items():
            if k != 'p':
                yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def havoc_summary(E, st, fr, c, args, dty):
    fn = E.P.fns.get(c.get('body'))
    if fn is None or not havocable(E.P, fn):
        return None
    dty = fn['locals'][0][0] if dty is None else dty
    if E.T[dty]['k'] == 'never':
        return None
    s = st.copy()
    for i, a in enumerate(args[:fn['argc']]):
        ty = fn['locals'][i + 1][0]
        t = E.T[ty]
        if t['k'] == 'ref' and t['m']:
            if isinstance(a, Ref):
                fs = written_fields(E.P, fn, i + 1)
                inner = E.T[t['t']]
                if fs is not None and inner['k'] == 'adt' and len(inner.get('vs') or ()) == 1:
                    for j in sorted(fs):
                        ft = inner['vs'][0]['f'][j][1]
                        E.write(s, a.p.f(('f', j, ft)), E.mkval(fresh('hv'), ft))
                else:
                    E.write(s, a.p, E.mkval(fresh('hv'), t['t']))
            elif isinstance(a, SRef):
                v = E.seq_at(s, a)
                E.write(s, a.p, Seq(fresh('hv'), v.len, v.el))
            else:
                return None
    q = fresh('adv', 'usize')
    g = s.mem.get(('G', 'progress'))
    s.mem[('G', 'progress')] = Num((g.lin if g is not None else L(0)) + L(q), 'usize')
    E.summarised.add(c.get('rp') or c['p'])
    return [(s, E.mkval(fresh('hret'), dty))]


havoc_summary.summary = True


def new_engine(P, stops, **kw):
    E = Engine(P, stop={p: havoc_summary for p in stops}, **kw)
    E.cell_inv = True
    E.summarised = set()
    return E


def initial():
    st = State()
    st.mem[('G', 'progress')] = Num(L(0), 'usize')
    return st


def loop_obligations(E):
    """ranking of every loop observed: one obligation per loop and calling context"""
    g = {}
    for l in E.loops:
        if not l['fn']['local'] or not isinstance(l['head'], int):
            continue        # of the standard library: the end of a finite iterator
        g.setdefault((l['fn']['path'], l['head'], l['fid']), []).append(l)
    out = []
    for (p, head, fid), ls in sorted(g.items(), key=lambda x: repr(x[0])):
        ok, why = rank.ranked(E, [(l['h'], l['b'], fid) for l in ls])
        site = ls[0]['site']
        out.append(dict(kind='loop', fn=p if ls[0]['fn']['local'] else site[0], span=site[1] if not ls[0]['fn']['local'] else span_of(ls[0]['fn'], head),
                        ok=ok, detail='' if ok else 'bb%s' % head, why='' if ok else why, stack=ls[0]['stack'], name='%s bb%s' % (p, head),
                        measure=repr(why)[:200] if ok else None))
    return out


def span_of(fn, bb):
    return fn['span']


def strip(o):
    return {k: v for k, v in o.items() if k != 'st'}


def run_one(P, path, stops, maxsteps=120000, setup=None, loops=True, secs=None, kinds=None):
    """analyse one function for arbitrary arguments"""
    from run import sym_args
    fn = P.root_fn(path)
    E = new_engine(P, stops, maxsteps=maxsteps)
    E.measures = rank.quantities if loops else None
    E.deadline = time.process_time() + secs if secs else None
    if setup:
        setup(E)
    t0 = time.time()
    err = None
    n = 0
    try:
        st = initial()
        n = len(E.call_fn(fn, sym_args(E, st, fn), st, None))
    except (Budget, AssertionError, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError, Infeasible) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        err = '%s: %s @ %s' % (type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(tb[-4:])))
    obl = E.obl + (loop_obligations(E) if err is None and loops else [])
    bad = [strip(o) for o in obl if not o['ok']]
    if kinds:
        bad = [o for o in bad if o['kind'] in kinds]
    if err:
        bad.append(dict(kind='analysis', fn=path, span=fn['span'], ok=False, detail=err, why=err, stack=[]))
    good = {}
    for o in obl:
        if o['ok']:
            k = (o['kind'], o['fn'], o['span'], o['detail'], o.get('name'))
            good[k] = good.get(k, 0) + 1
    return dict(path=path, steps=E.steps, secs=time.time() - t0, results=n, bad=bad, good=good, unmodelled=sorted(E.unmodelled),
                fns=sorted({P.fns[i]['path'] for i in E.fns_seen if P.fns[i]['local']}), summarised=sorted(E.summarised), calls=len(E.calls_seen))


_G = {}


def _work(a):
    path, stops, cfg = a
    P = _G['P']
    near = callees(P, P.root_fn(path))
    for q in sorted(near & set(_G['slow'])):
        # it would be followed from here too
        b = dict(_G['slow'][q])
        return dict(path=path, steps=0, secs=0, results=0, bad=b['bad'], good={}, unmodelled=[], fns=[], summarised=[], calls=0, slow=True)
    secs = _G['secs']
    # what is shown for arbitrary arguments need not be followed again
    r = run_one(P, path, cfg, setup=_G.get('setup'), loops=_G['loops'], secs=secs, kinds=_G['kinds'])
    if r['bad'] and cfg != stops:
        r2 = run_one(P, path, stops, setup=_G.get('setup'), loops=_G['loops'], secs=secs, kinds=_G['kinds'])
        if len(r2['bad']) < len(r['bad']):
            r2['steps'] = max(r['steps'], r2['steps'])
            r = r2
    if r['bad'] and stops and not (secs and r['secs'] > secs / 2):
        # once more with the direct callees analysed in context
        r2 = run_one(P, path, stops - near, setup=_G.get('setup'), loops=_G['loops'], secs=secs, kinds=_G['kinds'])
        if len(r2['bad']) < len(r['bad']):
            r2['steps'] = max(r['steps'], r2['steps'])
            r = r2
    return r


def analyse_all(P, paths=None, jobs=8, verbose=False, loops=True, heavy=HEAVY, secs=None, kinds=None):
    paths = paths if paths is not None else local_fns(P)
    levels, dep = order(P, paths)
    _G['P'] = P
    _G['loops'] = loops
    _G['kinds'] = kinds
    _G['secs'] = secs
    _G['slow'] = {}
    res = {}
    stops = set()
    good = set()
    ctx = mp.get_context('fork')
    for lv in levels:
        if len(lv) > 1:
            with ctx.Pool(min(jobs, len(lv))) as pool:
                rs = pool.map(_work, [(p, frozenset(stops), frozenset(good)) for p in lv], chunksize=1)
        else:
            rs = [_work((p, frozenset(stops), frozenset(good))) for p in lv]
        for r in rs:
            res[r['path']] = r
            if secs and r['bad'] and (r.get('slow') or r['secs'] > secs):
                _G['slow'][r['path']] = r
            if verbose:
                print('%-70s %6.2fs steps %6d good %4d bad %d%s' % (r['path'], r['secs'], r['steps'], sum(r['good'].values()), len(r['bad']), '  unmodelled ' + str(r['unmodelled']) if r['unmodelled'] else ''))
                seen = set()
                for o in r['bad']:
                    k = (o['kind'], o['fn'], o['span'], o['detail'])
                    if k not in seen:
                        seen.add(k)
                        print('      BAD', o['kind'], o['fn'], o['span'], o['detail'], '|', o['why'][:160])
            if not r['bad'] and havocable(P, P.root_fn(r['path'])):
                good.add(r['path'])
                if r['steps'] > heavy:
                    stops.add(r['path'])
    return res, good


if __name__ == '__main__':
    import sys
    from prog import Program
    P = Program(sys.argv[1])
    t0 = time.time()
    res, stops = analyse_all(P, verbose=True)
    print('total %.1fs' % (time.time() - t0), 'summarised:', sorted(stops))
