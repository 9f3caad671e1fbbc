"""Case analysis over functions of the library: objects with unknown contents, calls to the
library's own observers on them, and questions about every abstract outcome."""
from terms import L, mk, fresh, Term, Lin
from vals import *
from engine import Engine, Budget
import models
from models import split, field


class Missing(Exception):
    """a function or type the rule is anchored in does not exist any more"""


class Lab:
    def __init__(self, P, rep=None, **kw):
        kw.setdefault('maxsteps', 150000)
        kw.setdefault('joinlim', 24)
        kw.setdefault('retlim', 64)
        self.E = Engine(P, **kw)
        self.P = P
        self.rep = rep

    # ---------------------------------------------------------------- program lookups
    def fn(self, path):
        f = self.P.root_fn(path)
        if f is None:
            raise Missing('function %s' % path)
        if self.rep is not None:
            self.rep.fns.add(path)
        return f

    def ty(self, s):
        t = self.P.ty_by_s.get(s)
        if t is None:
            raise Missing('type %s' % s)
        return t

    def adt(self, path):
        for i, t in enumerate(self.P.T):
            if t['k'] == 'adt' and t['p'] == path:
                return i
        raise Missing('type %s' % path)

    def fidx(self, tyid, var, name):
        """index of a field of a variant (by variant name for enums)"""
        for v in self.P.T[tyid]['vs']:
            if v['n'] == var:
                for i, (n, ft) in enumerate(v['f']):
                    if n == name:
                        return i, ft
        raise Missing('field %s of %s' % (name, self.P.T[tyid]['s']))

    def fby(self, tyid, want, var=0):
        """index of the only field of a struct whose type fits (name of the type, or a predicate)"""
        ok = want if callable(want) else (lambda s: s == want)
        got = [(i, ft) for i, (n, ft) in enumerate(self.P.T[tyid]['vs'][var]['f']) if ok(self.P.T[ft]['s'])]
        if len(got) != 1:
            raise Missing('field of %s by its type (%d fit)' % (self.P.T[tyid]['s'], len(got)))
        return got[0]

    def vidx(self, tyid, var):
        for i, v in enumerate(self.P.T[tyid]['vs']):
            if v['n'] == var:
                return i
        raise Missing('variant %s of %s' % (var, self.P.T[tyid]['s']))

    # ---------------------------------------------------------------- objects and calls
    def state(self):
        st = State()
        st.mem[('G', 'progress')] = Num(L(0), 'usize')
        return st

    def sym(self, name, tyid):
        return self.E.mkval(mk('arg', name), tyid)

    def obj(self, st, name, tyid, val=None, mut=False):
        root = ('X', name)
        st.mem[root] = self.sym(name, tyid) if val is None else val
        return Ref(Place(root), mut)

    def argty(self, path, i):
        return self.fn(path)['locals'][i + 1][0]

    def refto(self, st, path, i, name):
        """a reference argument of a function, to an object of unknown contents"""
        t = self.P.T[self.argty(path, i)]
        return self.obj(st, name, t['t'], mut=bool(t.get('m')))

    def call(self, st, path, args):
        return self.E.call_fn(self.fn(path), list(args), st, None)

    def call1(self, st, path, args):
        r = self.call(st, path, args)
        if len(r) != 1:
            raise Missing('%s has no unconditional answer' % path)
        return r[0]

    def calls(self, sts, path, args):
        out = []
        for s in sts:
            out.extend(self.call(s, path, args))
        return out

    # ---------------------------------------------------------------- questions
    def when(self, st, f, val=True):
        return [s if s is not st else st.copy() for s in self.E.assume(st, f, val)]

    def holds(self, st, f):
        return self.E.decide(st, f) is True

    def truth(self, st, v):
        if isinstance(v, BoolV):
            return self.E.decide(st, v.f)
        if isinstance(v, Num):
            if st.cons.proves_eq(v.lin - 1):
                return True
            if st.cons.proves_eq(v.lin):
                return False
        return None

    def bools(self, st, v):
        """[(state, bool)]"""
        out = []
        for b in (True, False):
            for s in self.when(st, v.f, b):
                out.append((s, b))
        return out

    def eqf(self, st, a, b):
        """formula: the two values are equal"""
        return models.equal(self.E, st, dict(p=''), a, b)

    def cmps(self, st, a, b):
        """[(state, -1/0/1)] three-way comparison"""
        return [(s, v.var - 1) for s, v in models.three_way(self.E, st, dict(p=''), a, b, self.ty('std::cmp::Ordering'))]

    def same(self, st, a, b, d=6):
        """provably the same value (structural)"""
        E = self.E
        if a is b:
            return True
        if d < 0:
            return False
        if isinstance(a, Num) and isinstance(b, Num):
            return a.lin == b.lin or st.cons.proves_eq(a.lin - b.lin)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if a.f == b.f:
                return True
            x, y = E.decide(st, a.f), E.decide(st, b.f)
            if x is not None and x == y:
                return True
            for s, v in self.bools(st, a):
                if E.decide(s, b.f) is not v:
                    return False
            return True
        if isinstance(a, (Ref, SRef)) and isinstance(b, (Ref, SRef)):
            if isinstance(a, Ref) and isinstance(b, Ref) and a.p == b.p:
                return True
            x, y = models.refval(E, st, a), models.refval(E, st, b)
            if isinstance(x, SRef) and isinstance(y, SRef):
                if not (x.len == y.len or st.cons.proves_eq(x.len - y.len)):
                    return False
                return x.p == y.p and (x.off == y.off or st.cons.proves_eq(x.off - y.off)) or E.cterm(st, x) is E.cterm(st, y)
            if isinstance(x, (Ref, SRef)) or isinstance(y, (Ref, SRef)):
                return False
            return self.same(st, x, y, d - 1)
        if isinstance(a, Lib) and isinstance(b, Lib) and a.kind == b.kind == 'SliceIter':
            x, y = (SRef(i['p'], i['lo'], i['hi'] - i['lo'], i['el']) for i in (a, b))
            return st.cons.proves_eq(x.len - y.len) and E.cterm(st, x) is E.cterm(st, y)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if not (a.len == b.len or st.cons.proves_eq(a.len - b.len)):
                return False
            return E.content(a) is E.content(b)
        if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
            if a.key() == b.key():
                return True
            if E.argterm(st, a) is E.argterm(st, b):
                return True
            ty = a.ty
            if ty != b.ty or E.T[ty]['k'] not in ('adt', 'tuple'):
                return False
            va = [(s, i) for s, i, _ in split(E, st, a)] if E.T[ty]['k'] == 'adt' else [(st, 0)]
            for s, i in va:
                for s2, j, bb in (split(E, s, b) if E.T[ty]['k'] == 'adt' else [(s, 0, b)]):
                    if i != j:
                        return False
                    aa = a if isinstance(a, Agg) else Agg(a.ty, i, {}, a.t)
                    bb = bb if isinstance(bb, Agg) else Agg(b.ty, j, {}, b.t)
                    n = len(E.T[ty]['vs'][i]['f']) if E.T[ty]['k'] == 'adt' else len(E.T[ty]['ts'])
                    for k in range(n):
                        if not self.same(s2, field(E, s2, aa, k), field(E, s2, bb, k), d - 1):
                            return False
            return True
        try:
            return a.key() == b.key()
        except AttributeError:
            return False

    def variants(self, st, v):
        """[(state, variant name, [payload values])]"""
        E = self.E
        out = []
        for s, i, x in split(E, st, v):
            vs = E.T[v.ty]['vs'][i]
            out.append((s, vs['n'], [field(E, s, x, k) for k in range(len(vs['f']))]))
        return out

    def elem_is(self, st, sr, i, val):
        """the element at a position provably has a numeric value (also when it is known under another expression for the position)"""
        e = self.E.elem_at(st, sr, L(i))
        if st.cons.proves_eq(e.lin - val):
            return True
        t = e.lin.single()
        if t is None or t.op != 'elem':
            return False
        seen = set()
        for l in st.cons.cs:
            for u, _ in l.v:
                if u.op == 'elem' and u.args[0] is t.args[0] and u is not t and u not in seen:
                    seen.add(u)
                    if st.cons.proves_eq(u.args[1] - t.args[1]) and st.cons.proves_eq(L(u) - val):
                        return True
        return False

    def part(self, st, v, i):
        """a component of a tuple or field of a struct"""
        if isinstance(v, Agg) and i in v.fs:
            return v.fs[i]
        return field(self.E, st, v, i)

    def sub(self, st, ref, i, var=0):
        """reference to a field of a struct behind a reference"""
        ty = self.E.tyof_value(self.E.load(st, ref.p))
        return Ref(ref.p.f(('f', i, self.P.T[ty]['vs'][var]['f'][i][1])), ref.mut)

    def nth(self, sr, k):
        """reference to an element of a slice"""
        return Ref(sr.p.f(('i', sr.off + k, sr.el)))

    def deref(self, st, v):
        return models.deref_all(self.E, st, v)

    def seq(self, st, v):
        """the sequence a slice reference (or slice iterator) stands for, as (SRef)"""
        if isinstance(v, Lib):
            return v
        return models.sref(self.E, st, v)
