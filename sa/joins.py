"""Joining and widening of abstract states: pair-memo anti-unification of values; constraints on
the generalised symbols are guessed from templates and kept only when both sides entail them
(in loop mode the guess is re-checked on every iteration, so what survives is inductive)."""
from terms import Term, Lin, L, mk, fresh, Cons, syms_of, subst, RANGES
from vals import *


class Joiner:
    def __init__(self, E, a, b, loop=False, phis=None, it=0):
        self.E, self.a, self.b = E, a, b
        self.loop = loop
        self.phis = phis or set()
        self.it = it
        self.sig = {}          # phi of H -> value (Term|Lin) on the B side
        self.newphis = set()
        self.pairs = {}        # (la, lb) -> new symbol
        self.ra = {}           # new symbol -> value on the A side
        self.rb = {}
        self.changed = False
        self.collect = False
        self.vacc = {}         # new enum symbol -> frozenset of variants

    # -------------------------------------------------------------- entry
    def run(self):
        a, b = self.a, self.b
        roots = [r for r in a.mem if r in b.mem]
        roots.sort(key=lambda r: (r[0], repr(r[1:])))
        if self.loop and self.phis:
            self.collect = True
            for r in roots:
                self.val(a.mem[r], b.mem[r])
            self.collect = False
        R = State()
        R.alias = dict(a.alias)
        for k, v in b.alias.items():
            R.alias[k] = tuple(dict.fromkeys(R.alias.get(k, ()) + v))
        self.R = R
        for r in roots:
            if r not in R.mem:
                R.mem[r] = self.val(a.mem[r], b.mem[r])
        for r in a.mem:
            if r not in b.mem and r not in R.mem:
                if r[0] == 'R':
                    R.mem[r] = self.val(a.mem[r], self.E.default_root(r))
                elif self.loop:
                    self.changed = True
        for r in b.mem:
            if r not in a.mem and r[0] == 'R' and r not in R.mem:
                R.mem[r] = self.val(self.E.default_root(r), b.mem[r])
                self.changed = True
        if self.loop:
            for r in R.mem:
                if r in a.mem and R.mem[r].key() != a.mem[r].key():
                    self.changed = True
        # identity for phis that were never looked at
        for p in self.phis:
            self.sig.setdefault(p, p)
        if self.newphis:
            self.changed = True
        self.cons(R)
        self.facts(R)
        R.gh = dict(a.gh)
        for k in list(R.gh):
            if b.gh.get(k) != R.gh[k]:
                del R.gh[k]
        R.inv = a.inv & b.inv
        if R.alias != a.alias:
            self.changed = True
        return R

    def onb(self, x):
        """an R/H-side expression evaluated on the B side"""
        m = self.sig
        if self.rb:
            m = dict(m)
            m.update(self.rb)
        return subst(x, m) if m else x

    def ona(self, x):
        return subst(x, self.ra) if self.ra else x

    # -------------------------------------------------------------- numbers
    def known(self, la):
        """can la be evaluated on B with the assignments made so far? assign identity otherwise"""
        if not self.phis:
            return
        for t in syms_of(la):
            if t in self.phis and t not in self.sig:
                return False
        return True

    def lin(self, la, lb, ty):
        if self.loop:
            s = la.single()
            if s is not None and s in self.phis and s not in self.sig:
                self.sig[s] = lb
                return la
            if self.collect:
                return la
            for t in syms_of(la):
                if t in self.phis and t not in self.sig:
                    self.sig[t] = t
            x = subst(la, self.sig)
            if x == lb or self.b.cons.proves_eq(x - lb):
                return la
        elif la == lb:
            return la
        elif self.a.cons.proves_eq(la - lb):
            # a's expression may be rewritten to b's
            return lb
        elif self.b.cons.proves_eq(la - lb):
            return la
        k = ('n', la, lb)
        q = self.pairs.get(k)
        if q is None:
            # single terms of the same shape: generalise inside
            ta, tb = la.single(), lb.single()
            if ta is not None and tb is not None and ta.op == tb.op and not ta.op.startswith('?') and \
                    ta.op in ('elem', 'fld', 'len', 'num', '*', 'call') and ta.ty == tb.ty and len(ta.args) == len(tb.args):
                g = self.term(ta, tb)
                if g.op == ta.op:
                    return L(g)
            # same difference to an existing pair: keep it relational
            for (kk_, xa, xb), q2 in list(self.pairs.items()):
                if kk_ == 'n':
                    da, db = la - xa, lb - xb
                    if da == db and da.is_const():
                        return L(q2) + da
                    if len(da.v) <= 2 and not da.is_const():
                        if self.loop:
                            if any(t in self.phis and t not in self.sig for t, _ in da.v):
                                continue
                            if any(t in self.newphis for t, _ in da.v):
                                continue
                            dx = subst(da, self.sig) if self.sig else da
                        else:
                            dx = da
                        if dx == db:
                            return L(q2) + da
            q = fresh('phi', ty)
            self.pairs[k] = q
            self.ra[q] = la
            self.rb[q] = lb
            self.newphis.add(q)
        return L(q)

    def term(self, ta, tb, d=0):
        if self.loop:
            if ta in self.phis and ta not in self.sig:
                self.sig[ta] = tb
                return ta
            if self.collect:
                if ta.op == tb.op and len(ta.args) == len(tb.args) and d < 9:
                    for x, y in zip(ta.args, tb.args):
                        if isinstance(x, Term) and isinstance(y, Term):
                            self.term(x, y, d + 1)
                        elif isinstance(x, Lin) and isinstance(y, Lin):
                            self.lin(x, y, 'usize')
                return ta
            for t in syms_of(ta):
                if t in self.phis and t not in self.sig:
                    self.sig[t] = t
            if subst(ta, self.sig) is tb:
                return ta
        elif ta is tb:
            return ta
        k = ('t', ta, tb)
        q = self.pairs.get(k)
        if q is not None:
            return q
        if ta.op == tb.op and len(ta.args) == len(tb.args) and ta.ty == tb.ty and d < 8 and \
                not ta.op.startswith('?') and ta.op not in ('const', 'constant', 'key', 'lin', 'cmp', 'call'):
            ok = True
            for x, y in zip(ta.args, tb.args):
                if isinstance(x, (Term, Lin)):
                    if type(x) is not type(y):
                        ok = False
                elif x != y:
                    ok = False
            if ok:
                na = []
                for x, y in zip(ta.args, tb.args):
                    if isinstance(x, Term):
                        na.append(self.term(x, y, d + 1))
                    elif isinstance(x, Lin):
                        na.append(self.lin(x, y, 'usize'))
                    else:
                        na.append(x)
                r = mk(ta.op, *na, ty=ta.ty)
                return r
        return self.newterm(k, ta, tb)

    def newterm(self, k, ta, tb):
        q = fresh('phi', ta.ty if ta.ty == tb.ty else None)
        self.pairs[k] = q
        self.ra[q] = ta
        self.rb[q] = tb
        self.newphis.add(q)
        return q

    # -------------------------------------------------------------- values
    def val(self, x, y):
        if x is UNINIT or y is UNINIT:
            if not (x is UNINIT and y is UNINIT) and self.loop and not self.collect and x is not UNINIT:
                self.changed = True
            return UNINIT
        if not self.loop and x.key() == y.key():
            return x
        E = self.E
        if isinstance(x, Num) and isinstance(y, Num):
            l = self.lin(x.lin, y.lin, x.ty)
            return x if l is x.lin else Num(l, x.ty)
        if isinstance(x, BoolV) and isinstance(y, BoolV):
            return self.boolv(x, y)
        if isinstance(x, Sym) and isinstance(y, Sym) and x.ty == y.ty:
            t = self.term(x.t, y.t)
            if t is x.t:
                return x
            self.note_variants(t, x, y)
            return Sym(t, x.ty)
        if isinstance(x, (Agg, Sym)) and isinstance(y, (Agg, Sym)):
            return self.agg(x, y)
        if isinstance(x, Ref) and isinstance(y, Ref):
            p = self.place(x.p, y.p)
            if p is None:
                return self.lostref(x, y)
            return x if p is x.p else Ref(p, x.mut)
        if isinstance(x, SRef) and isinstance(y, SRef):
            p = self.place(x.p, y.p)
            if p is None:
                if self.collect:
                    return x
                ca, cb = E.cterm(self.a, x), E.cterm(self.b, y)
                t = self.term(ca, cb)
                q = mk('sref', t)
                root = ('R', q, self.slice_ty(x.el))
                if root not in self.R.mem:
                    ln = self.lin(x.len, y.len, 'len')
                    self.R.mem[root] = Seq(t, ln, x.el)
                    self.changed = True
                return SRef(Place(root), L(0), self.R.mem[root].len, x.el)
            off = self.lin(x.off, y.off, 'len')
            ln = self.lin(x.len, y.len, 'len')
            if p is x.p and off is x.off and ln is x.len:
                return x
            return SRef(p, off, ln, x.el)
        if isinstance(x, Seq) and isinstance(y, Seq):
            return self.seq(x, y)
        if isinstance(x, Lib) and isinstance(y, Lib) and x.kind == y.kind and x.fs.keys() == y.fs.keys():
            fs = {}
            same = True
            for k in x.fs:
                v = self.plain(x.fs[k], y.fs[k])
                if v is LOST:
                    if not self.collect:
                        self.changed = True
                    return Lib('Lost', t=fresh('lost'))
                fs[k] = v
                if v is not x.fs[k]:
                    same = False
            return x if same else Lib(x.kind, **fs)
        if isinstance(x, Fn) and isinstance(y, Fn) and x.ty == y.ty:
            return x
        if self.collect:
            return x
        self.changed = True
        ty = getattr(x, 'ty', None)
        if isinstance(x, Num) or isinstance(y, Num):
            n = x.ty if isinstance(x, Num) else y.ty
            q = fresh('phi', n)
            self.newphis.add(q)
            self.ra[q] = E.num(self.a, x) if isinstance(x, (Num, Sym)) else L(fresh('any', n))
            self.rb[q] = E.num(self.b, y) if isinstance(y, (Num, Sym)) else L(fresh('any', n))
            return Num(L(q), n)
        if isinstance(x, Lib) or isinstance(y, Lib):
            return Lib('Lost', t=fresh('lost'))
        if isinstance(x, (Sym, Agg)) and x.ty is not None:
            q = fresh('phi')
            return E.mkval(q, x.ty)
        if isinstance(y, (Sym, Agg)) and y.ty is not None:
            return E.mkval(fresh('phi'), y.ty)
        return UNINIT

    def slice_ty(self, el):
        P = self.E.P
        if el == P.u8:
            return P.ty_by_s.get('[u8]')
        for i, t in enumerate(P.T):
            if t['k'] == 'slice' and t['t'] == el:
                return i
        return P.ty_by_s.get('[u8]')

    def lostref(self, x, y):
        if self.collect:
            return x
        E = self.E
        q = x.p.root[1] if x.p.root[0] == 'R' and not x.p.pr and x.p.view is None else None
        if self.loop and q in self.phis and q.op == '?phiref':
            # the target may stand for another one this time
            now = mk('target', y.p._k)
            if self.sig.get(q) is now:
                return x
            if q not in self.sig and x.p.root not in self.R.mem:
                try:
                    v = self.val(E.read(self.a, x.p), E.read(self.b, y.p))
                except Infeasible:
                    v = None
                if v is not None and q not in self.sig:
                    self.sig[q] = now
                    self.R.mem[x.p.root] = v
                    if x.mut or y.mut:
                        self.R.alias[x.p.root] = tuple(dict.fromkeys(self.R.alias.get(x.p.root, ()) + (y.p,)))
                    return x
        self.changed = True
        k = ('ref', x.p._k, y.p._k)
        q = self.pairs.get(k)
        if q is None:
            q = fresh('phiref')
            self.pairs[k] = q
            self.newphis.add(q)
        tx = self.place_ty(self.a, x.p)
        root = ('R', q, tx)
        # content: join of both targets
        if root not in self.R.mem:
            try:
                vx, vy = E.read(self.a, x.p), E.read(self.b, y.p)
                self.R.mem[root] = self.val(vx, vy)
            except Infeasible:
                pass
        if x.mut or y.mut:
            self.R.alias[root] = tuple(dict.fromkeys(self.R.alias.get(root, ()) + (x.p, y.p)))
        return Ref(Place(root), x.mut)

    def place_ty(self, st, p):
        try:
            v = self.E.read(st, p)
        except Infeasible:
            return 0
        t = self.E.tyof_value(v)
        if t is not None:
            return t
        if isinstance(v, Num):
            return self.E.P.ty_by_s.get(v.ty, 0)
        if isinstance(v, Seq):
            P = self.E.P
            for i, t in enumerate(P.T):
                if t['k'] == 'adt' and t['p'] == 'std::vec::Vec' and t['a'][0] == v.el:
                    return i
        return self.E.P.ty_by_s.get('()', 0)

    def place(self, p, q):
        if len(p.pr) != len(q.pr):
            return None
        if p.root != q.root:
            if p.root[0] == 'R' and q.root[0] == 'R' and p.root[2] == q.root[2] and \
                    p.root not in self.a.mem and q.root not in self.b.mem:
                t = self.term(p.root[1], q.root[1])
                root = p.root if t is p.root[1] else ('R', t, p.root[2])
            else:
                return None
        else:
            if self.loop and p.root[0] == 'R':
                t = self.term(p.root[1], q.root[1])
                if t is not p.root[1]:
                    return None
            root = p.root
        pr = []
        same = root is p.root
        for e, f in zip(p.pr, q.pr):
            if e[0] == 'i' and f[0] == 'i':
                l = self.lin(e[1], f[1], 'usize')
                if l is not e[1]:
                    same = False
                pr.append(('i', l) + e[2:])
            elif e == f or (e[:2] == f[:2]):
                pr.append(e)
            else:
                return None
        view = p.view
        if p.view is not None or q.view is not None:
            if p.view is None or q.view is None:
                return None
            view = (self.lin(p.view[0], q.view[0], 'len'), self.lin(p.view[1], q.view[1], 'len'))
            if view != p.view:
                same = False
        return p if same else Place(root, tuple(pr), view)

    def plain(self, x, y):
        if hasattr(x, 'key') and hasattr(y, 'key'):
            return self.val(x, y)
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.lin(x, y, 'len')
        if isinstance(x, Term) and isinstance(y, Term):
            return self.term(x, y)
        if isinstance(x, Place) and isinstance(y, Place):
            p = self.place(x, y)
            return LOST if p is None else p
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            out = []
            for a, b in zip(x, y):
                v = self.plain(a, b)
                if v is LOST:
                    return LOST
                out.append(v)
            return x if all(u is w for u, w in zip(out, x)) else tuple(out)
        return x if x == y else LOST

    def boolv(self, x, y):
        f = self.form(x.f, y.f)
        if f is not None:
            return x if f is x.f else BoolV(f)
        da = x.f if x.f in (True, False) else self.E.decide(self.a, x.f)
        db = y.f if y.f in (True, False) else self.E.decide(self.b, y.f)
        if da is not None and da == db:
            return BoolV(da) if BoolV(da).key() != x.key() else x
        if self.collect:
            return x
        if not self.loop or x.f in (True, False) or x.f[0] != 'atom' or x.f[1] not in self.phis:
            q = fresh('phi', 'bool')
            self.changed = True
            return BoolV(('atom', q))
        return x

    def form(self, f, g):
        if f is True or f is False or g is True or g is False:
            return f if f is g else None
        if f[0] != g[0]:
            return None
        k = f[0]
        if k in ('ge', 'eq'):
            l = self.lin(f[1], g[1], 'i128')
            return f if l is f[1] else (k, l)
        if k == 'atom':
            if self.loop and self.collect:
                return f
            return f if (subst(f[1], self.sig) if self.loop else f[1]) is g[1] else None
        if k == 'var':
            if f[2:] != g[2:]:
                return None
            t = self.term(f[1], g[1])
            return f if t is f[1] else (k, t) + f[2:]
        if k == 'not':
            s = self.form(f[1], g[1])
            return None if s is None else (f if s is f[1] else ('not', s))
        if len(f[1]) != len(g[1]):
            return None
        out = []
        for a, b in zip(f[1], g[1]):
            s = self.form(a, b)
            if s is None:
                return None
            out.append(s)
        return f if all(u is w for u, w in zip(out, f[1])) else (k, tuple(out))

    def note_variants(self, t, x, y):
        pass

    def vset(self, st, v):
        if isinstance(v, Agg):
            return frozenset([v.var])
        return st.vs.get(v.t)

    def agg(self, x, y):
        E = self.E
        ty = x.ty if x.ty is not None else y.ty
        if isinstance(x, Agg) and isinstance(y, Agg) and x.var == y.var:
            base = x.base
            if x.base is not None and y.base is not None:
                if not x.fs and not y.fs:
                    t = self.term(x.base, y.base)
                    return x if t is x.base else Agg(x.ty, x.var, {}, t)
                base = self.term(x.base, y.base)
            elif x.base is not y.base:
                base = None
            keys = set(x.fs) | set(y.fs)
            if base is None and ty is not None:
                n = self.nfields(ty, x.var)
                if n is not None:
                    keys |= set(range(n))
            fs = {}
            same = base is x.base
            for i in keys:
                fx = x.fs.get(i)
                fy = y.fs.get(i)
                if fx is None:
                    fx = self.fieldof(self.a, x, i)
                if fy is None:
                    fy = self.fieldof(self.b, y, i)
                v = self.val(fx, fy)
                fs[i] = v
                if v is not x.fs.get(i):
                    same = False
            return x if same else Agg(ty, x.var, fs, base)
        # Agg vs Sym of a known variant / a struct
        if isinstance(x, Agg) and isinstance(y, Sym):
            vy = self.b.vs.get(y.t)
            if not E.T[y.ty].get('enum') or vy == frozenset([x.var]):
                return self.agg(x, Agg(y.ty, x.var, {}, y.t))
        if isinstance(x, Sym) and isinstance(y, Agg):
            vx = self.a.vs.get(x.t)
            if not E.T[x.ty].get('enum') or vx == frozenset([y.var]):
                if self.loop and x.t in self.phis and not E.T[x.ty].get('enum'):
                    # keep the opaque symbol
                    if self.collect:
                        return x
                    self.sig.setdefault(x.t, fresh('any'))
                    return x
                return self.agg(Agg(x.ty, y.var, {}, x.t), y)
        if self.collect:
            return x
        if isinstance(x, Sym) and self.loop and x.t in self.phis and x.t not in self.sig:
            # an already generalised symbol absorbs the new value
            q = fresh('any')
            self.sig[x.t] = q
            vx, vy = self.vset(self.a, x), self.vset(self.b, y)
            if vy is not None:
                self.b.vs[q] = vy
            return x
        q = fresh('phi')
        self.newphis.add(q)
        sa, sb = fresh('any'), fresh('any')
        self.ra[q], self.rb[q] = sa, sb
        vx, vy = self.vset(self.a, x), self.vset(self.b, y)
        self.changed = True
        if vx is not None and vy is not None and E.T[ty].get('enum'):
            self.vacc[q] = vx | vy
        if ty is None:
            return UNINIT
        return E.mkval(q, ty)

    def nfields(self, ty, var):
        t = self.E.T[ty]
        if t['k'] == 'tuple':
            return len(t['ts'])
        if t['k'] == 'closure':
            return None
        vs = t.get('vs')
        if vs and (var or 0) < len(vs):
            return len(vs[var or 0]['f'])
        return None

    def fieldof(self, st, v, i):
        try:
            return self.E.proj(st, v, ('f', i) if v.ty is None or self.E.field_ty(v.ty, v.var, i) is None else ('f', i, self.E.field_ty(v.ty, v.var, i)))
        except Exception:
            return UNINIT

    def seq(self, x, y):
        E = self.E
        ln = self.lin(x.len, y.len, 'len')
        if x.ov and set(x.ov) == set(y.ov) and all(i.is_const() for i in x.ov):
            t = self.term(x.t, y.t)
            ov = {i: self.val(x.ov[i], y.ov[i]) for i in x.ov}
            at = self.attrs(x, y)
            if t is x.t and ln is x.len and at == x.attrs and all(ov[i] is x.ov[i] for i in ov):
                return x
            return Seq(t, ln, x.el, ov, at)
        if not x.ov and not y.ov:
            t = self.term(x.t, y.t)
            at = self.attrs(x, y)
            if t is x.t and ln is x.len and at == x.attrs:
                return x
            return Seq(t, ln, x.el, None, at)
        if self.collect:
            return x
        ca, cb = E.content(x), E.content(y)
        if ca.op == 'ov' or cb.op == 'ov':
            # contents changed element by element: one unknown content, not one per element
            if self.loop and ca in self.phis and ca not in self.sig:
                self.sig[ca] = cb
                t = ca
            elif ca is cb:
                t = ca
            else:
                t = self.pairs.get(('t', ca, cb))
                if t is None:
                    t = self.newterm(('t', ca, cb), ca, cb)
        else:
            t = self.term(ca, cb)
        if t is x.t and not x.ov and ln is x.len:
            return x if self.attrs(x, y) == x.attrs else Seq(t, ln, x.el, None, self.attrs(x, y))
        return Seq(t, ln, x.el, None, self.attrs(x, y))

    def attrs(self, x, y):
        at = x.attrs & y.attrs
        if at != x.attrs and not self.collect:
            self.changed = True
        return at

    # -------------------------------------------------------------- facts
    def cons(self, R):
        a, b = self.a, self.b
        c = Cons.EMPTY
        for l in sorted(a.cons.cs, key=lambda l: (len(l.v), repr(l))):
            m = self.onb(l)
            if b.cons.prove(m):
                c = c.add(l) or c
            else:
                if self.loop:
                    self.changed = True
                # weaken syntactically: constant slack
                mn = b.cons.lin_min(m)
                if mn is not None and not self.loop and mn < 0 and mn > -64:
                    c = c.add(l - mn) or c
        if not self.loop:
            for l in b.cons.cs:
                if a.cons.prove(l):
                    c = c.add(l) or c
        ne = set()
        for l in a.cons.ne:
            if b.cons.proves_ne(self.onb(l)):
                ne.add(l)
            elif self.loop:
                self.changed = True
        if not self.loop:
            for l in b.cons.ne:
                if a.cons.proves_ne(l):
                    ne.add(l)
        for l in ne:
            c = c.add_ne(l) or c
        # templates for generalised numeric symbols
        qs = [q for q in self.newphis if q in self.ra and isinstance(self.ra[q], Lin)]
        if qs:
            cand = self.interesting(R)
            for q in qs:
                c = self.templates(c, q, cand, qs)
        R.cons = c

    def interesting(self, R):
        """expressions over common symbols to relate new symbols with"""
        out = {}

        def add(l):
            if not l.is_const() and l not in out and len(out) < 48:
                out[l] = True

        def walk(v, d):
            if d < 0:
                return
            if isinstance(v, Num):
                add(v.lin)
            elif isinstance(v, Seq):
                add(v.len)
                for x in v.ov.values():
                    walk(x, d - 1)
            elif isinstance(v, SRef):
                add(v.len)
                add(v.off)
            elif isinstance(v, Agg):
                for x in v.fs.values():
                    walk(x, d - 1)
            elif isinstance(v, Lib):
                for x in v.fs.values():
                    if isinstance(x, Lin):
                        add(x)
                    elif hasattr(x, 'key'):
                        walk(x, d - 1)
        for qs in self.E.watch.values():
            for q in qs:
                add(q)
        for k, ts in self.a.gh.items():
            if isinstance(k, tuple) and k[0] == 'head' and self.b.gh.get(k) == ts:
                for t in ts:
                    add(L(t))
        for r in R.mem:
            walk(R.mem[r], 3)
        if any(isinstance(z, Lin) and z.is_const() for q in self.ra for z in (self.ra[q], self.rb[q])):
            # a constant on one side: lengths whose bound grew with it
            low = {}
            for l in self.a.cons.cs:
                if len(l.v) == 1 and l.v[0][1] == 1 and l.v[0][0].op == 'len':
                    low[l.v[0][0]] = l.k
            for l in self.b.cons.cs:
                if len(l.v) == 1 and l.v[0][1] == 1 and low.get(l.v[0][0], l.k) != l.k:
                    add(L(l.v[0][0]))
        # symbols already related to the generalised values on either side
        seen = set()
        for q in list(self.ra):
            for z in (self.ra[q], self.rb[q]):
                if isinstance(z, Lin):
                    seen |= {t for t, _ in z.v}
        for st in (self.a, self.b):
            for l in st.cons.cs:
                ts = [t for t, _ in l.v]
                if any(t in seen for t in ts):
                    for t in ts:
                        if t not in seen:
                            add(L(t))
        return list(out)

    def templates(self, c, q, cand, qs):
        a, b = self.a, self.b
        la, lb = self.ra[q], self.rb[q]
        # constant bounds
        for sgn in (1, -1):
            xa, xb = a.cons.lin_min(la.scale(sgn)), b.cons.lin_min(lb.scale(sgn))
            lo = None
            if xa is not None and xb is not None:
                if self.loop and xb < xa:
                    for t in (0, 1, -1, -8, -255, -256, -65535):
                        pass
                    lo = None
                    for t in sorted((0, 1, 2), reverse=True):
                        if xa >= t and xb >= t:
                            lo = t
                            break
                    if lo is None and self.E.watch:
                        for t in sorted({q.k * sgn for qs2 in self.E.watch.values() for q in qs2 if q.is_const()}, reverse=sgn == 1):
                            if a.cons.prove(la.scale(sgn) - t) and b.cons.prove(lb.scale(sgn) - t):
                                lo = t
                                break
                    if lo is None and sgn == -1:
                        for t in (-1, -2, -3, -4, -8, -9, -15, -16, -255, -256):
                            if xa >= t and xb >= t and self.it <= 3:
                                lo = t
                                break
                else:
                    lo = min(xa, xb)
            for t in ((0, 1) if lo is None or lo < 1 else ()):
                if a.cons.prove(la.scale(sgn) - t) and b.cons.prove(lb.scale(sgn) - t):
                    lo = t if lo is None or t > lo else lo
            if lo is not None:
                c = c.add(L(q).scale(sgn) - lo) or c
        # relations with other expressions, and with its own first value
        own = [la] if not la.is_const() and la not in cand and not any(t in self.newphis for t, _ in la.v) else []
        for x in cand + own:
            xa, xb = self.ona(x), self.onb(x)
            if x == L(q):
                continue
            da, db = la - xa, lb - xb
            for sgn in (1, -1):
                ea, eb = da.scale(sgn), db.scale(sgn)
                best = None
                if ea.is_const() and eb.is_const():
                    best = min(ea.k, eb.k)
                    if self.loop and eb.k < ea.k:
                        best = None
                if best is None:
                    for t in (1, 0, -1):
                        if a.cons.prove(ea - t) and b.cons.prove(eb - t):
                            best = t
                            break
                if best is not None:
                    c = c.add((L(q) - x).scale(sgn) - best) or c
        # sums that stay constant
        for p in qs:
            if p is q or p.id < q.id:
                continue
            sa, sb = la + self.ra[p], lb + self.rb[p]
            if sa == self.onb(sa) and sa == sb:
                c = c.add_eq(L(q) + L(p) - sa) or c
            elif self.b.cons.proves_eq(sb - self.onb(sa)):
                c = c.add_eq(L(q) + L(p) - sa) or c
        for x in cand:
            sx = x.single()
            if sx in self.newphis or x == L(q):
                continue
            xa, xb = self.ona(x), self.onb(x)
            sa, sb = la + xa, lb + xb
            if (sb - self.onb(sa)).is_const() and (sb - self.onb(sa)).k == 0 and not sa.is_const():
                c = c.add_eq(L(q) + x - sa) or c
        # linear relation between two generalised values, both moving by constant steps
        for p in qs:
            if p.id <= q.id:
                continue
            ma, mb = self.ra[p], self.rb[p]
            d1, d2 = lb - self.onb(la), mb - self.onb(ma)
            if d1.is_const() and d2.is_const() and d1.k and d2.k and abs(d1.k) != abs(d2.k):
                l = (L(q) - la).scale(d2.k) - (L(p) - ma).scale(d1.k)
                c = c.add_eq(l) or c
        return c

    def facts(self, R):
        a, b = self.a, self.b
        inv = {}
        for q, z in self.ra.items():
            if isinstance(z, Term):
                inv.setdefault(z, []).append(q)
            elif isinstance(z, Lin):
                s = z.single()
                if s is not None:
                    inv.setdefault(s, []).append(q)
        def images(t):
            yield t
            if inv:
                hit = syms_of(t) & inv.keys()
                for z in hit:
                    for q in inv[z]:
                        yield subst(t, {z: q})
        # H-side Lin substitutions inside elem(..., idx) terms
        linv = {}
        for q, z in self.ra.items():
            if isinstance(z, Lin) and z.single() is None:
                linv.setdefault(z, []).append(q)

        def images2(t):
            yield from images(t)
            if linv:
                for z, qs in linv.items():
                    for q in qs:
                        u = swap_lin(t, z, L(q))
                        if u is not t:
                            yield u
        for t, s in a.vs.items():
            for u in images2(t):
                w = b.vs.get(self.onb(u))
                if w is not None:
                    n = s | w
                    old = R.vs.get(u)
                    R.vs[u] = n if old is None else n & old
                    if self.loop and u is t and n != s:
                        self.changed = True
                elif self.loop and u is t:
                    self.changed = True
        for t, s in a.at.items():
            for u in images2(t):
                w = b.at.get(self.onb(u))
                if w is not None and w == s:
                    R.at[u] = s
                elif self.loop and u is t:
                    self.changed = True
        for f in a.forms:
            g = subst_form(f, self.onb)
            if g in b.forms or self.E.decide(b, g) is True:
                R.forms = R.forms | {f}
            elif self.loop:
                self.changed = True
        for q, s in self.vacc.items():
            R.vs[q] = s


def swap_lin(x, z, r):
    if isinstance(x, Term):
        if not x.args:
            return x
        na = tuple(swap_lin(u, z, r) if isinstance(u, (Term, Lin)) else u for u in x.args)
        if all(u is w for u, w in zip(na, x.args)):
            return x
        return mk(x.op, *na, ty=x.ty)
    if isinstance(x, Lin):
        return r if x == z else x
    return x


def subst_form(f, fn):
    if f is True or f is False:
        return f
    k = f[0]
    if k in ('ge', 'eq', 'atom', 'var'):
        r = fn(f[1])
        if k in ('atom', 'var') and isinstance(r, Lin):
            s = r.single()
            r = s if s is not None else fresh('x')
        return (k, r) + f[2:]
    if k == 'not':
        return ('not', subst_form(f[1], fn))
    return (k, tuple(subst_form(x, fn) for x in f[1]))


class _Lost:
    pass


LOST = _Lost()
