"""Hash-consed terms, linear expressions over them, and conjunctions of linear constraints.

This is the numeric part of the abstract domain: a conjunction of linear inequalities over value
numbers (a small polyhedra domain; entailment by bounded Fourier-Motzkin projection)."""
import ctypes
import os
import subprocess
import tempfile
from ctypes import c_int32, c_int64
from math import gcd

MASK = (1 << 64) - 1
BIG = 1 << 100


def _load():
    """compile the elimination kernel (fm.c); the Python version below is the fallback"""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fm.c')
    d = None
    try:
        d = tempfile.mkdtemp(prefix='fmk')
        so = os.path.join(d, 'fm.so')
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', so, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        f = ctypes.CDLL(so).fm_query
        f.restype = ctypes.c_int
        return f
    except Exception:
        return None
    finally:
        if d is not None:
            import shutil
            shutil.rmtree(d, ignore_errors=True)


LIB = _load()

RANGES = {
    'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
    'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
    'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
    'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
    'char': (0, 0x10FFFF), 'len': (0, 2**63 - 1), 'bool': (0, 1), 'bit': (0, 1),
}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16,
        'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'char': 32, 'bool': 8}


class Term:
    __slots__ = ('op', 'args', 'ty', 'id', '_syms', '_h')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args, ty=None):
    k = (op, args, ty)
    t = Term.table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        t._syms = None
        Term.n += 1
        t.id = Term.n
        t._h = Term.n * 2654435761 & 0xFFFFFFFFFFFF
        Term.table[k] = t
    return t


_fresh = [0]


def fresh(kind, ty=None):
    _fresh[0] += 1
    return mk('?' + kind, _fresh[0], ty=ty)


def show(t, d=0):
    if isinstance(t, Term):
        if d > 12:
            return '..'
        if t.op == 'const':
            return repr(t.args[0])
        if not t.args:
            return t.op
        return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))
    if isinstance(t, Lin):
        return repr(t)
    if isinstance(t, tuple):
        return '(' + ', '.join(show(a, d + 1) for a in t) + ')'
    return str(t)


class Lin:
    """k + sum coef*term; immutable."""
    __slots__ = ('k', 'v', '_h')

    def __init__(self, k, v=()):
        self.k = k
        self.v = v
        self._h = hash((k, v))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.k == o.k and self.v == o.v

    def __repr__(self):
        s = []
        for t, c in self.v:
            s.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + show(t, 3))
        if self.k or not s:
            s.append(str(self.k))
        return ' + '.join(s)

    def is_const(self):
        return not self.v

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.k + o, self.v)
        if not self.v:
            return Lin(self.k + o.k, o.v)
        if not o.v:
            return Lin(self.k + o.k, self.v)
        d = dict(self.v)
        for t, c in o.v:
            d[t] = d.get(t, 0) + c
        return Lin(self.k + o.k, tuple(sorted(((t, c) for t, c in d.items() if c), key=_k0)))

    def scale(self, m):
        if m == 0:
            return Lin(0)
        return Lin(self.k * m, tuple((t, c * m) for t, c in self.v))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.k - o, self.v)
        return self + o.scale(-1)

    def single(self):
        """the term if this is exactly one term with coefficient 1 and no constant"""
        if self.k == 0 and len(self.v) == 1 and self.v[0][1] == 1:
            return self.v[0][0]
        return None


def _k0(x):
    return x[0].id


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(x)
    return Lin(0, ((x, 1),))


def syms_of(x):
    """all terms occurring in a term / lin (including itself)"""
    if isinstance(x, Term):
        if x._syms is None:
            s = {x}
            for a in x.args:
                if isinstance(a, (Term, Lin, tuple)):
                    s |= syms_of(a)
            x._syms = frozenset(s)
        return x._syms
    if isinstance(x, Lin):
        s = set()
        for t, _ in x.v:
            s |= syms_of(t)
        return s
    if isinstance(x, tuple):
        s = set()
        for a in x:
            s |= syms_of(a)
        return s
    return frozenset()


def subst(x, m, memo=None):
    """replace terms by (Term|Lin) inside x. m: Term -> Term|Lin"""
    if memo is None:
        memo = {}
    if isinstance(x, Term):
        if x in memo:
            return memo[x]
        if x in m:
            r = m[x]
        elif not x.args or not (syms_of(x) & m.keys()):
            r = x
        else:
            na = []
            for a in x.args:
                b = subst(a, m, memo) if isinstance(a, (Term, Lin, tuple)) else a
                if isinstance(a, Term) and isinstance(b, Lin):
                    s = b.single()
                    b = s if s is not None else mk('lin', b)
                na.append(b)
            r = rebuild(x.op, tuple(na), x.ty)
        memo[x] = r
        return r
    if isinstance(x, Lin):
        if not any(syms_of(t) & m.keys() for t, _ in x.v):
            return x
        r = Lin(x.k)
        for t, c in x.v:
            u = subst(t, m, memo)
            r = r + L(u).scale(c)
        return r
    if isinstance(x, tuple):
        return tuple(subst(a, m, memo) if isinstance(a, (Term, Lin, tuple)) else a for a in x)
    return x


def rebuild(op, args, ty):
    if op == 'cmp' and isinstance(args[1], Term) and isinstance(args[2], Term) and args[1].id > args[2].id:
        # orientation may flip; keep as an unoriented fresh term to stay sound
        return fresh('cmpflip', ty)
    return mk(op, *args, ty=ty)


def show_cons(c):
    return ' & '.join('%r>=0' % (l,) for l in c.cs)


class Cons:
    """immutable conjunction of Lin >= 0 and Lin != 0"""
    __slots__ = ('cs', 'ne', 'best', 'memo', 'bnd', 'enc')
    EMPTY = None

    def __init__(self, cs, ne):
        self.cs = cs          # frozenset of Lin
        self.ne = ne          # frozenset of Lin
        self.memo = {}
        self.best = None
        self.bnd = None
        self.enc = None

    def _prep(self):
        if self.best is None:
            b = {}
            bn = {}
            for c in self.cs:
                o = b.get(c.v)
                if o is None or c.k < o:
                    b[c.v] = c.k
                if len(c.v) == 1:
                    t, a = c.v[0]
                    lo, hi = bn.get(t, (None, None))
                    if a > 0:       # a*t + k >= 0 -> t >= ceil(-k/a)
                        x = -(c.k // a)
                        lo = x if lo is None or x > lo else lo
                    else:           # t <= floor(k/-a)
                        x = c.k // (-a)
                        hi = x if hi is None or x < hi else hi
                    bn[t] = (lo, hi)
            self.best = b
            self.bnd = bn

    def range(self, t):
        self._prep()
        lo, hi = RANGES.get(t.ty, (None, None))
        a, b = self.bnd.get(t, (None, None))
        if a is not None and (lo is None or a > lo):
            lo = a
        if b is not None and (hi is None or b < hi):
            hi = b
        return lo, hi

    def lin_min(self, l):
        m = l.k
        for t, c in l.v:
            lo, hi = self.range(t)
            x = lo if c > 0 else hi
            if x is None:
                return None
            m += c * x
        return m

    def lin_max(self, l):
        m = self.lin_min(-l)
        return None if m is None else -m

    def prove(self, l):
        """is l >= 0 entailed?"""
        if not l.v:
            return l.k >= 0
        r = self.memo.get(l)
        if r is None:
            r = self._prove(l)
            self.memo[l] = r
        return r

    def _prove(self, l):
        m = self.lin_min(l)
        if m is not None and m >= 0:
            return True
        self._prep()
        b = self.best.get(l.v)
        if b is not None and b <= l.k:
            return True
        return infeasible(self, Lin(-l.k - 1, tuple((t, -c) for t, c in l.v)))

    def proves_eq(self, l):
        return self.prove(l) and self.prove(-l)

    def proves_ne(self, l):
        if not l.v:
            return l.k != 0
        if l in self.ne or -l in self.ne:
            return True
        return self.prove(l - 1) or self.prove(-l - 1)

    def add(self, l):
        """returns Cons or None when contradictory"""
        l = norm(l)
        if not l.v:
            return self if l.k >= 0 else None
        if l in self.cs or self.prove(l):
            return self
        if self.prove(-l - 1):
            return None
        # drop syntactically weaker
        cs = frozenset(c for c in self.cs if not (c.v == l.v and c.k >= l.k)) | {l}
        n = Cons(cs, self.ne)
        if self.ne:
            ls = {t for t, _ in l.v}
            for e in self.ne:
                if any(t in ls for t, _ in e.v):
                    if n.prove(e):
                        n2 = Cons(n.cs, n.ne - {e}).add(e - 1)
                        if n2 is None:
                            return None
                        n = n2
                    elif n.prove(-e):
                        n2 = Cons(n.cs, n.ne - {e}).add(-e - 1)
                        if n2 is None:
                            return None
                        n = n2
        return n

    def project(self, ok):
        """eliminate the terms for which ok(term) is false"""
        dead = set()
        for c in self.cs:
            for t, _ in c.v:
                if t not in dead and not ok(t):
                    dead.add(t)
        ne = frozenset(c for c in self.ne if all(ok(t) for t, _ in c.v))
        if not dead:
            return self if len(ne) == len(self.ne) else Cons(self.cs, ne)
        cs = set(self.cs)
        while dead:
            best = None
            for t in sorted(dead, key=lambda t: t.id):
                p = q = 0
                for c in cs:
                    for u, a in c.v:
                        if u is t:
                            if a > 0:
                                p += 1
                            else:
                                q += 1
                if best is None or p * q - p - q < best[0]:
                    best = (p * q - p - q, t, p, q)
            _, t, p, q = best
            dead.discard(t)
            pos, neg, rest = [], [], set()
            for c in cs:
                a = 0
                for u, x in c.v:
                    if u is t:
                        a = x
                        break
                if a > 0:
                    pos.append((a, c))
                elif a < 0:
                    neg.append((-a, c))
                else:
                    rest.add(c)
            lo, hi = RANGES.get(t.ty, (None, None))
            if lo is not None and len(pos) + len(neg) <= 12:
                if neg and lo == 0:
                    pos.append((1, Lin(0, ((t, 1),))))
                if pos and hi < (1 << 20):
                    neg.append((1, Lin(hi, ((t, -1),))))
            if p * q <= 30:
                for a, c in pos:
                    for b, d in neg:
                        g = gcd(a, b)
                        n = norm(c.scale(b // g) + d.scale(a // g))
                        if n.v and len(n.v) <= 6:
                            rest.add(n)
            cs = rest
        # keep only the strongest of parallel constraints; drop what type ranges already say
        best = {}
        for c in cs:
            o = best.get(c.v)
            if o is None or c.k < o:
                best[c.v] = c.k
        out = set()
        for v, k in best.items():
            if len(v) == 1:
                lo, hi = RANGES.get(v[0][0].ty, (None, None))
                a = v[0][1]
                if lo is not None and ((a > 0 and a * lo + k >= 0) or (a < 0 and a * hi + k >= 0)):
                    continue
            out.add(Lin(k, v))
        return Cons(frozenset(out), ne)

    def add_eq(self, l):
        n = self.add(l)
        return None if n is None else n.add(-l)

    def add_ne(self, l):
        if not l.v:
            return self if l.k != 0 else None
        if self.proves_ne(l):
            return self
        if self.prove(l):
            return self.add(l - 1)
        if self.prove(-l):
            return self.add(-l - 1)
        return Cons(self.cs, self.ne | {l})


def norm(l):
    if not l.v:
        return l
    g = 0
    for _, c in l.v:
        g = gcd(g, c)
    if g > 1:
        return Lin(l.k // g, tuple((t, c // g) for t, c in l.v))
    return l


def _rangerow(t):
    lo, hi = RANGES.get(t.ty, (None, None))
    if lo is None or hi >= BIG:
        return None
    return (_s64(-lo & MASK), -lo >> 64, _s64(hi & MASK), hi >> 64)


def _s64(x):
    return x - (1 << 64) if x >> 63 else x


def _encode(cons):
    idx = {}
    start, cols, coefs, klo, khi = [0], [], [], [], []
    for c in cons.cs:
        for t, a in c.v:
            j = idx.get(t)
            if j is None:
                j = idx[t] = len(idx)
            cols.append(j)
            coefs.append(a)
        start.append(len(cols))
        klo.append(_s64(c.k & MASK))
        khi.append(c.k >> 64)
    has, r = [], [[], [], [], []]
    for t in idx:
        x = _rangerow(t)
        has.append(1 if x else 0)
        for q, y in zip(r, x or (0, 0, 0, 0)):
            q.append(y)
    n, m = len(idx), len(klo)
    return (idx, m, n, (c_int32 * len(start))(*start), (c_int32 * len(cols))(*cols), (c_int64 * len(cols))(*coefs),
            (c_int64 * m)(*klo), (c_int64 * m)(*khi), (c_int32 * n)(*has),
            (c_int64 * n)(*r[0]), (c_int64 * n)(*r[1]), (c_int64 * n)(*r[2]), (c_int64 * n)(*r[3]))


def infeasible(cons, extra):
    """is cons and extra >= 0 infeasible?  sound 'yes', incomplete 'no'"""
    if LIB is not None:
        e = cons.enc
        if e is None:
            try:
                e = cons.enc = _encode(cons)
            except OverflowError:
                return False
        ne = norm(extra)
        idx, m, n = e[0], e[1], e[2]
        xc, xf, has2, r2 = [], [], [], []
        nx = 0
        for t, a in ne.v:
            j = idx.get(t)
            if j is None:
                j = n + nx
                nx += 1
                x = _rangerow(t)
                has2.append(1 if x else 0)
                r2.extend(x or (0, 0, 0, 0))
            xc.append(j)
            xf.append(a)
        k = len(xc)
        if not -(1 << 120) < ne.k < (1 << 120):
            return False
        return bool(LIB(m, n, e[3], e[4], e[5], e[6], e[7], nx, e[8], e[9], e[10], e[11], e[12],
                        k, (c_int32 * k)(*xc), (c_int64 * k)(*xf), c_int64(_s64(ne.k & MASK)), c_int64(ne.k >> 64),
                        (c_int32 * nx)(*has2), (c_int64 * (4 * nx))(*r2)))
    # relevant constraints: transitive closure over shared terms
    rel = []
    seen = set(t for t, _ in extra.v)
    pool = list(cons.cs)
    changed = True
    rounds = 0
    while changed and rounds < 6:
        changed = False
        rounds += 1
        rest = []
        for c in pool:
            if any(t in seen for t, _ in c.v):
                rel.append(c)
                for t, _ in c.v:
                    if t not in seen:
                        seen.add(t)
                        changed = True
            else:
                rest.append(c)
        pool = rest
        if len(rel) > 60:
            break
    sys_ = set(rel)
    sys_.add(norm(extra))
    for t in seen:
        lo, hi = RANGES.get(t.ty, (None, None))
        if lo is not None:
            sys_.add(Lin(-lo, ((t, 1),)))
            sys_.add(Lin(hi, ((t, -1),)))
    return fm(sys_)


def fm(sys_):
    sys_ = set(sys_)
    steps = 0
    while True:
        best = {}
        for c in sys_:
            if not c.v:
                if c.k < 0:
                    return True
                continue
            o = best.get(c.v)
            if o is None or c.k < o:
                best[c.v] = c.k
        sys_ = {Lin(k, v) for v, k in best.items()}
        # equality pairs / direct contradiction
        for v, k in best.items():
            nv = tuple((t, -c) for t, c in v)
            k2 = best.get(nv)
            if k2 is not None and k + k2 < 0:
                return True
        if not sys_:
            return False
        occ = {}
        for c in sys_:
            for t, a in c.v:
                p = occ.setdefault(t, [0, 0])
                p[0 if a > 0 else 1] += 1
        t = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.id))
        pos = []
        neg = []
        rest = set()
        for c in sys_:
            a = 0
            for u, x in c.v:
                if u is t:
                    a = x
                    break
            if a > 0:
                pos.append((a, c))
            elif a < 0:
                neg.append((-a, c))
            else:
                rest.add(c)
        if len(pos) * len(neg) > 400:
            return False
        for a, p in pos:
            for b, q in neg:
                g = gcd(a, b)
                n = norm(p.scale(b // g) + q.scale(a // g))
                if not n.v:
                    if n.k < 0:
                        return True
                    continue
                rest.add(n)
        if len(rest) > 500:
            return False
        sys_ = rest
        steps += 1
        if steps > 60:
            return False


Cons.EMPTY = Cons(frozenset(), frozenset())
