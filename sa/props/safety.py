"""Operations that never panic, whatever they are given."""
from base import each, Failed, PANIC
from lab import Lab, Missing
import modular


def public(P, files):
    """the functions of these files that a user can call"""
    return [r['path'] for r in P.roots if r['reachable'] and P.root_fn(r['path']) is not None and any(r['span'].startswith(f) for f in files) and callable_by_user(P, r)]


# functions with a documented duty of the caller, whose panics are part of their contract
CONTRACT = ('collections::BackupChain::new',)


def callable_by_user(P, r):
    fn = P.root_fn(r['path'])
    if r['path'] in CONTRACT or r.get('trait') == 'std::fmt::Display':
        return False
    # no value of a type that is not public can be passed by a user
    return not any(hidden(P, fn['locals'][i + 1][0]) for i in range(fn['argc']))


def hidden(P, ty):
    t = P.T[ty]
    if t['k'] in ('ref', 'ptr', 'slice', 'array'):
        return hidden(P, t['t'])
    a = P.adts.get(t.get('p')) if t['k'] == 'adt' else None
    return a is not None and not a['exported']


def closure(P, paths):
    out, todo = set(), list(paths)
    while todo:
        p = todo.pop()
        if p not in out:
            out.add(p)
            todo.extend(modular.callees(P, P.root_fn(p)))
    return out


def never(P, rep, entries, heavy=700):
    """no path of these functions, on arbitrary arguments, meets a failing obligation"""
    for p in entries:
        if P.root_fn(p) is None:
            raise Missing('function %s' % p)
    res, stops = modular.analyse_all(P, sorted(closure(P, entries)), loops=False, heavy=heavy, secs=60 if rep.tier == 'quick' else 400)
    for p in entries:
        r = res[p]
        rep.fns |= set(r['fns']) | set(r['summarised'])
        todo = list(r['summarised'])
        while todo:
            q = todo.pop()
            todo += [x for x in res[q]['summarised'] if x not in rep.fns]
            rep.fns |= set(res[q]['fns']) | set(res[q]['summarised'])
        rep.sites += r['calls']
        for o in r['bad']:
            if o['kind'] == 'loop':
                continue
            rep.ob(False, '%s|%s|%s|%s' % (PANIC, o['fn'], o['kind'], o['detail'] or ''), 'may panic when %s is called: %s %s' % (p, o['kind'], (o['why'] or '')[:200]), '%s (%s)' % (o['fn'], o['span']))
        for k, n in r['good'].items():
            if k[0] != 'loop':
                for _ in range(n):
                    rep.ob(True, '%s|%s|%s' % (PANIC, k[1], k[0]))
        rep.ob(True, 'analysed|' + p)
    for p in stops:
        for k, n in res[p]['good'].items():
            if k[0] != 'loop':
                for _ in range(n):
                    rep.ob(True, '%s|%s|%s' % (PANIC, k[1], k[0]))


def manifests(P, rep):
    es = public(P, ['src/manifest.rs'])
    never(P, rep, es)
    rep.floor('analysed', 18)


def collections(P, rep):
    es = public(P, ['src/collections/mod.rs'])
    never(P, rep, es)


def signatures(P, rep):
    es = [p for p in public(P, ['src/signatures.rs', 'src/rawpath.rs']) if not p.startswith('<signatures::Snapshots<')]
    never(P, rep, es)


def times(P, rep):
    es = public(P, ['src/timefmt.rs'])
    never(P, rep, es)


def facade(P, rep):
    es = public(P, ['src/lib.rs'])
    never(P, rep, es)


def cyclic(P, fn, seen=None):
    """does the body of a function, or of a closure made in it, have a loop"""
    seen = seen if seen is not None else set()
    if fn['id'] in seen:
        return False
    seen.add(fn['id'])
    return bool(P.control(fn).heads) or any(cyclic(P, P.fns[k['f']], seen) for k in (P.T[t] for t, n in fn['locals']) if k['k'] == 'closure' and k['f'] in P.fns)


def terminates(P, rep):
    """every loop of the library, for arbitrary arguments, has a measure that decreases, and no function calls itself"""
    paths = modular.local_fns(P)
    levels, dep = modular.order(P, paths)
    seen = set()
    for lv in levels:
        for p in lv:
            rep.ob(not dep[p] - seen - {p} and p not in modular.callees(P, P.root_fn(p)), 'recursion|' + p, 'a function may call itself', p)
        seen |= set(lv)
    todo = [p for p in sorted(paths) if cyclic(P, P.root_fn(p))]
    stops = frozenset(p for p in paths if modular.havocable(P, P.root_fn(p)))
    steps = {p for p in stops if p.endswith(' as std::iter::Iterator>::next')}

    def one(p, rep):
        # the steps of the library's own iterators are what makes loops over them end
        for ss, t in ((stops - steps, 40), (stops, 40), (stops - steps - modular.callees(P, P.root_fn(p)), 200)):
            x = modular.run_one(P, p, ss - {p}, secs=t, kinds=('loop',), maxsteps=200000)
            if ss == stops - steps or len(x['bad']) < len(r['bad']):
                r = x
            if not r['bad']:
                break
        rep.fns |= set(r['fns'])
        rep.sites += r['calls']
        for o in r['bad']:
            what = 'a loop may go on for ever: ' if o['kind'] == 'loop' else 'analysis of %s: ' % p
            rep.ob(False, 'loop|%s|%s|%s' % (o['fn'], o['kind'], o['detail'] or ''), what + (o['why'] or '')[:200], '%s (%s)' % (o['fn'], o['span']))
        for k, n in r['good'].items():
            if k[0] == 'loop':
                for _ in range(n):
                    rep.ob(True, 'loop|%s|%s' % (k[1], k[4]))
        rep.ob(True, 'analysed|' + p)
    each(rep, todo, one)
    rep.floor('loop', 8)
    rep.floor('recursion', 120)
