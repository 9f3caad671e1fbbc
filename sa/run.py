"""Analyse one function from symbolic arguments."""
import time

from terms import mk, L
from vals import *
from engine import Engine, Budget


def sym_args(E, st, fn, names=None):
    out = []
    for i in range(fn['argc']):
        ty, nm = fn['locals'][i + 1]
        t = mk('arg', nm or str(i))
        v = E.mkval(t, ty)
        out.append(v)
    return out


def analyse(E, path_or_fn, args=None, st=None):
    fn = E.P.root_fn(path_or_fn) if isinstance(path_or_fn, str) else path_or_fn
    if fn is None:
        raise KeyError(path_or_fn)
    st = st or State()
    if args is None:
        args = sym_args(E, st, fn)
    return E.call_fn(fn, args, st, None)


if __name__ == '__main__':
    import sys
    from prog import Program
    import traceback
    P = Program(sys.argv[1])
    verbose = '-v' in sys.argv
    pats = [a for a in sys.argv[2:] if not a.startswith('-')]
    for r in P.roots:
        if pats and not any((p[1:] == r['path']) if p[0] == '=' else p in r['path'] for p in pats):
            continue
        E = Engine(P)
        t0 = time.time()
        try:
            res = analyse(E, r['path'])
            s = '%d results' % len(res)
        except Exception as e:
            res = []
            tb = traceback.extract_tb(e.__traceback__)
            s = 'EXC %s: %s @ %s' % (type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(tb[-5:])))
            if verbose:
                traceback.print_exc()
        bad = [o for o in E.obl if not o['ok']]
        print('%-60s %6.2fs steps %d obl %d/%d bad %s' % (r['path'], time.time() - t0, E.steps, len(E.obl) - len(bad), len(E.obl), s))
        seen = set()
        for o in bad:
            k = (o['kind'], o['fn'], o['span'], o['detail'])
            if k not in seen:
                seen.add(k)
                print('     BAD %s %s %s [%s] %s' % (o['kind'], o['fn'], o['span'], o['detail'], o['why'][:150]))
        for p in E.unmodelled:
            print('     unmodelled', p)
        if verbose:
            for st, v in res:
                print('     ->', v)
