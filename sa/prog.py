"""Program representation: the MIR dump, control-flow structure, liveness."""
import json
import sys

sys.setrecursionlimit(20000)

SEQ_ADTS = {
    'std::vec::Vec': None, 'std::string::String': 'u8', 'std::path::PathBuf': 'u8',
    'std::ffi::OsString': 'u8', 'std::path::Path': 'u8', 'std::ffi::OsStr': 'u8',
}


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.T = d['types']
        for t in self.T:
            if t.get('p') == 'std::cmp::Ordering':
                for v in t['vs']:       # the only signed representation among the enums of std
                    v['d'] = v['d'] - 256 if v['d'] > 127 else v['d']
        self.fns = {f['id']: f for f in d['fns']}
        self.roots = d['roots']
        self.impls = d['impls']
        self.adts = {a['path']: a for a in d['adts']}
        self.by_path = {}
        for f in d['fns']:
            self.by_path.setdefault(f['path'], []).append(f)
        self.root_by_path = {}
        for r in d['roots']:
            self.root_by_path[r['path']] = r
        self.ty_by_s = {}
        for i, t in enumerate(self.T):
            self.ty_by_s.setdefault(t['s'], i)
        self.u8 = self.ty_by_s.get('u8')
        self.cfg = {}
        self._seq = {}

    def root_fn(self, path):
        """the generic (identity-instantiated) body of a local function"""
        r = self.root_by_path.get(path)
        return None if r is None else self.fns.get(r['id'])

    def seq_el(self, ty):
        """element type id when ty is a sequence type, else None"""
        if ty in self._seq:
            return self._seq[ty]
        t = self.T[ty]
        r = None
        k = t['k']
        if k == 'str':
            r = self.u8
        elif k in ('slice', 'array'):
            r = t['t']
        elif k == 'adt' and t['p'] in SEQ_ADTS:
            r = self.u8 if SEQ_ADTS[t['p']] else t['a'][0]
        self._seq[ty] = r
        return r

    def unsized_seq(self, ty):
        t = self.T[ty]
        return t['k'] in ('str', 'slice') or (t['k'] == 'adt' and t['p'] in ('std::path::Path', 'std::ffi::OsStr'))

    def control(self, f):
        c = self.cfg.get(f['id'])
        if c is None:
            c = Control(f)
            self.cfg[f['id']] = c
        return c


def succs(b):
    t = b['t']
    k = t['k']
    if k in ('goto', 'drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [] if t['to'] is None else [t['to']]
    if k == 'switch':
        r = [x[1] for x in t['vs']] + [t['else']]
        return list(dict.fromkeys(r))
    return []


class Control:
    def __init__(self, f):
        self.f = f
        B = f['blocks']
        self.succ = [succs(b) for b in B]
        self.wto = wto(self.succ, 0)
        self.heads = {}
        self._heads(self.wto)
        self.live()

    def _heads(self, w, parents=()):
        for e in w:
            if isinstance(e, tuple):
                body = set()
                flat(e, body)
                self.heads[e[0]] = body
                self._heads(e[1])

    def live(self):
        f = self.f
        B = f['blocks']
        borrowed = set()
        use = []
        dfn = []
        for b in B:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_r(p):
                rd(p[0])
                for e in p[1:]:
                    if e['k'] == 'idx':
                        rd(e['l'])

            def place_w(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    place_r(p)

            def op(o):
                if o['k'] in ('copy', 'move'):
                    place_r(o['p'])
            for s in b['s']:
                if s['k'] == '=':
                    r = s['r']
                    if r['k'] == 'ref':
                        p = r['p']
                        if not any(e['k'] == 'deref' for e in p[1:]):
                            borrowed.add(p[0])
                        place_r(p)
                    elif r['k'] == 'discr':
                        place_r(r['p'])
                    elif r['k'] == 'agg':
                        for o in r['ops']:
                            op(o)
                    else:
                        for kk in ('o', 'a', 'b'):
                            if isinstance(r.get(kk), dict):
                                op(r[kk])
                    place_w(s['p'])
                elif s['k'] == 'setd':
                    place_r(s['p'])
            t = b['t']
            if t['k'] == 'switch':
                op(t['d'])
            elif t['k'] == 'call':
                for a in t['args']:
                    op(a)
                if 'fptr' in t:
                    op(t['fptr'])
                place_w(t['dst'])
            elif t['k'] == 'assert':
                op(t['c'])
                for kk in ('len', 'idx', 'a', 'b'):
                    if isinstance(t['m'].get(kk), dict):
                        op(t['m'][kk])
            elif t['k'] == 'drop':
                place_r(t['p'])
            elif t['k'] == 'return':
                rd(0)
            use.append(u)
            dfn.append(d)
        n = len(B)
        li = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= li[s]
                x = use[i] | (o - dfn[i])
                if x != li[i]:
                    li[i] = x
                    ch = True
        self.livein = li
        self.borrowed = borrowed


def flat(e, acc):
    if isinstance(e, tuple):
        acc.add(e[0])
        for x in e[1]:
            flat(x, acc)
    else:
        acc.add(e)


def wto(succ, entry):
    dfn = {}
    stack = []
    num = [0]
    INF = 10**9

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = num[0]
        loop = False
        for w in succ[v]:
            m = visit(w, part) if dfn.get(w, 0) == 0 else dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            el = stack.pop()
            if loop:
                while el != v:
                    dfn[el] = 0
                    el = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    def component(v):
        part = []
        for w in succ[v]:
            if dfn.get(w, 0) == 0:
                visit(w, part)
        return (v, part)
    out = []
    visit(entry, out)
    return out
