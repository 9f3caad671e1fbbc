"""Self-test of the library summaries: every assertion of an ok_ function of probes/ is discharged, a no_ function is reported."""
import os
import shutil
import sys
import traceback

import base
from base import VERIF
from engine import Engine
from run import analyse
from prog import Program


def main():
    os.environ.pop('SA_DUMP', None)
    out, d = base.dump(os.path.join(VERIF, 'probes'), crate='probes')
    P = Program(out)
    shutil.rmtree(d, ignore_errors=True)
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    fail = 0
    for r in P.roots:
        name = r['path'].split('::')[-1]
        if not (name.startswith('ok_') or name.startswith('no_')) or (pats and not any(p in name for p in pats)):
            continue
        for exact in (False, True):
            E = Engine(P, joinlim=60, retlim=60)
            if exact:
                E.exact = True
            try:
                analyse(E, r['path'])
                err = None
            except Exception as e:
                err = '%s: %s @ %s' % (type(e).__name__, str(e)[:150], ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
            bad = [o for o in E.obl if not o['ok']]
            if name.startswith('ok_'):
                msgs = sorted({'%s %s [%s]' % (o['kind'], o['span'], o['detail']) for o in bad}) + ['unmodelled ' + u for u in E.unmodelled]
            else:
                msgs = [] if bad else ['nothing reported']
            if err:
                msgs.append(err)
            if msgs:
                fail += 1
                print('%s%s' % (name, ' (exact)' if exact else ''))
                for m in msgs:
                    print('    ' + m[:220])
    print('%d failures' % fail)
    return 1 if fail else 0


if __name__ == '__main__':
    sys.exit(main())
