"""Abstract interpreter over MIR: context-sensitive, trace-partitioned dataflow with widening at
loop heads. Values are provenance terms (value numbers), integers live in a linear-inequality
domain, containers are summarised by length and content value number."""
import heapq
import json
import time

from terms import Term, Lin, L, mk, fresh, Cons, show, syms_of, subst, RANGES, BITS
from vals import *
from prog import Program, flat
import models
import models2
import exact

UNIT = None


class Frame:
    __slots__ = ('fid', 'fn', 'up', 'depth', 'ctl', 'cur')

    def __init__(self, fid, fn, up, ctl):
        self.fid, self.fn, self.up, self.ctl = fid, fn, up, ctl
        self.depth = 0 if up is None else up.depth + 1
        self.cur = None


class Budget(Exception):
    pass


class Engine:
    def __init__(self, prog, joinlim=12, retlim=12, invs=None, stop=None, maxsteps=400000):
        self.P = prog
        self.T = prog.T
        self.joinlim = joinlim
        self.retlim = retlim
        self.invs = invs or {}
        self.stop = stop or {}          # path -> handler(engine, st, fr, callee, args, dty) -> list or None
        self.obl = []
        self.events = []
        self.loops = []
        self.unmodelled = {}
        self.grown = {}                 # value at a join -> expressions it stands for
        self.calls_seen = {}
        self.fns_seen = set()
        self.fids = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.deadline = None
        self.active = []
        self.hooks = {}
        self.visited = set()
        self.search_facts = False
        self.quiet = 0
        self.collects = []
        self.sorts = []
        self.searches = []
        self.cell_inv = False
        self.trace_out = False
        self.exact = False              # keep sequences of known length element by element, unroll loops over them
        self.unroll = 14                # iterations of a loop that are kept apart when exact
        self.kept = 600                # states of such a loop
        self.ranks = False              # comparisons as positions in a total order
        self.measures = None            # what gives the quantities of a state that may rank a loop
        self.watch = {}                 # content term -> index expressions of elements told apart from others by what is known of them

    # ------------------------------------------------------------ types
    def tk(self, ty):
        return self.T[ty]['k']

    def is_adt(self, ty, p):
        t = self.T[ty]
        return t['k'] == 'adt' and t['p'] == p

    def variants(self, ty):
        return self.T[ty].get('vs')

    def inhabited_variants(self, ty):
        vs = self.variants(ty)
        out = []
        for i, v in enumerate(vs):
            if not any(self.uninhabited(ft) for _, ft in v['f']):
                out.append(i)
        return out

    def uninhabited(self, ty):
        t = self.T[ty]
        if t['k'] == 'never':
            return True
        if t['k'] == 'adt' and t.get('enum') and t.get('vs') == []:
            return True
        return False

    def numty(self, ty):
        t = self.T[ty]
        if t['k'] in ('int', 'uint'):
            return t['n']
        if t['k'] == 'char':
            return 'char'
        return None

    def isbytes(self, t):
        return t.op in ('fld', 'elem', '*', 'const', 'sub', 'cow', 'mstr', 'to_ascii_lowercase', 'fmt', 'bytes')

    # ------------------------------------------------------------ values
    def mkval(self, term, ty):
        t = self.T[ty]
        k = t['k']
        if k in ('int', 'uint', 'char'):
            n = self.numty(ty)
            if term.op == 'num':
                return Num(L(mk(term.args[0].op, *term.args[0].args, ty=n)), n)
            if term.op == 'elem' and term.args[0].op == 'const' and isinstance(term.args[1], Lin) and term.args[1].is_const():
                b = term.args[0].args[0]
                i = term.args[1].k
                if 0 <= i < len(b):
                    return Num(L(b[i]), n)
            return Num(L(mk(term.op, *term.args, ty=n)), n)
        if k == 'bool':
            return BoolV(('atom', mk(term.op, *term.args, ty='bool')))
        if k in ('ref', 'ptr'):
            p = t['t']
            if self.P.unsized_seq(p):
                r = mk('*', term)
                return SRef(Place(('R', term, p)), L(0), L(mk('len', r, ty='len')), self.P.seq_el(p))
            return Ref(Place(('R', term, p)), t['m'])
        if k == 'tuple' and not t['ts']:
            return Agg(ty, 0, {})
        el = self.P.seq_el(ty)
        if el is not None:
            if k == 'array':
                return Seq(term, L(t['n'] if t['n'] is not None else mk('len', term, ty='len')), el)
            return Seq(term, L(mk('len', term, ty='len')), el)
        if k == 'fndef':
            return Fn(ty)
        return Sym(term, ty)

    def unit(self):
        ty = self.P.ty_by_s.get('()')
        return Agg(ty, 0, {})

    def const_bytes(self, b, el=None):
        return Seq(mk('const', bytes(b)), L(len(b)), self.P.u8 if el is None else el)

    def const_val(self, ty, v, definition=None):
        t = self.T[ty]
        k = t['k']
        if k == 'fndef':
            return Fn(ty)
        if k == 'tuple' and not t['ts']:
            return Agg(ty, 0, {})
        if v is None:
            if k == 'adt' and not t.get('enum') and t.get('vs') and not t['vs'][0]['f']:
                return Agg(ty, 0, {})
            return self.mkval(mk('constant', definition or t['s']), ty)
        if k in ('int', 'uint', 'char'):
            return Num(L(v), self.numty(ty))
        if k == 'bool':
            return BoolV(bool(v))
        if isinstance(v, dict):
            if 'unit' in v:
                return Agg(ty, 0, {})
            if 'str' in v or 'bytes' in v:
                b = v['str'].encode() if 'str' in v else bytes(v['bytes'])
                pl = Place(('C', b))
                if k == 'ref' and self.P.unsized_seq(t['t']):
                    return SRef(pl, L(0), L(len(b)), self.P.u8)
                return Ref(pl)
            if 'ref' in v:
                return Ref(Place(('K', json.dumps(v['ref']), t['t'])))
            if 'agg' in v:
                fs = {i: self.const_val(ft, fv) for i, (ft, fv) in enumerate(v['agg'])}
                if k == 'array':
                    return Seq(mk('carr', json.dumps(v)), L(len(fs)), t['t'], {L(i): x for i, x in fs.items()})
                return Agg(ty, v['var'], fs)
        return self.mkval(mk('constant', t['s'], json.dumps(v)), ty)

    # ------------------------------------------------------------ formulas
    def decide(self, st, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == 'ge':
            if st.cons.prove(f[1]):
                return True
            if st.cons.prove(-f[1] - 1):
                return False
            return None
        if k == 'eq':
            if st.cons.proves_eq(f[1]):
                return True
            if st.cons.proves_ne(f[1]):
                return False
            return None
        if k == 'var':
            c = st.vs.get(f[1])
            if c is None:
                return None
            if c <= f[2]:
                return True
            if not (c & f[2]):
                return False
            return None
        if k == 'atom':
            return st.at.get(f[1])
        if k == 'not':
            r = self.decide(st, f[1])
            if r is None:
                return True if f in st.forms else None
            return not r
        if k == 'and':
            res = True
            for x in f[1]:
                r = self.decide(st, x)
                if r is False:
                    return False
                if r is None:
                    res = None
            if res is None:
                if f in st.forms:
                    return True
                if ('not', f) in st.forms:
                    return False
            return res
        if k == 'or':
            res = False
            for x in f[1]:
                r = self.decide(st, x)
                if r is True:
                    return True
                if r is None:
                    res = None
            if res is None and f in st.forms:
                return True
            return res
        raise AssertionError(f)

    def assume(self, st, f, val=True):
        """list of states where f == val (st is not modified)"""
        if f is True or f is False:
            return [st] if f == val else []
        k = f[0]
        if k == 'not':
            return self.assume(st, f[1], not val)
        if k == 'ge':
            c = st.cons.add(f[1] if val else -f[1] - 1)
            return self._withc(st, c, f[1])
        if k == 'eq':
            c = st.cons.add_eq(f[1]) if val else st.cons.add_ne(f[1])
            return self._withc(st, c, f[1])
        if k == 'var':
            cur = st.vs.get(f[1])
            if cur is None:
                cur = frozenset(range(f[3]))
            n = cur & f[2] if val else cur - f[2]
            if not n:
                return []
            if n == st.vs.get(f[1]):
                return [st]
            s = st.copy()
            s.vs[f[1]] = n
            if self.watch:
                s = self.apart(s, f[1])
                if s is None:
                    return []
            return self._units(s)
        if k == 'atom':
            c = st.at.get(f[1])
            if c is not None:
                return [st] if c == val else []
            s = st.copy()
            s.at[f[1]] = val
            return self._units(s)
        if (k == 'and' and val) or (k == 'or' and not val):
            ss = [st]
            for x in f[1]:
                ns = []
                for s in ss:
                    ns.extend(self.assume(s, x, val))
                ss = ns
            return ss
        # disjunction
        parts = [x if k == 'or' else fnot(x) for x in f[1]]
        live = []
        for x in parts:
            r = self.decide(st, x)
            if r is True:
                return [st]
            if r is None:
                live.append(x)
        if not live:
            return []
        if len(live) == 1:
            return self.assume(st, live[0], True)
        g = f if val else ('not', f)
        if g in st.forms:
            return [st]
        s = st.copy()
        s.forms = st.forms | {g}
        return [s]

    def _withc(self, st, c, about=None):
        if c is None:
            return []
        if c is st.cons:
            return [st]
        s = st.copy()
        s.cons = c
        if self.watch and about is not None:
            s = self.apart(s, about)
            if s is None:
                return []
        return self._units(s)

    def apart(self, s, about):
        """two elements of a sequence of which contradicting things are known have different positions"""
        for e in sorted((t for t in syms_of(about) if t.op == 'elem' and t.args[0] in self.watch), key=lambda t: t.id):
            for q in self.watch[e.args[0]]:
                d = e.args[1] - q
                if d.is_const() or s.cons.proves_ne(d):
                    continue
                w = mk('elem', e.args[0], q, ty=e.ty)
                c = s.cons.add_eq(d)
                m = {e: w}
                if c is not None:
                    for l in s.cons.cs:
                        if e in syms_of(l):
                            c = c.add(subst(l, m))
                            if c is None:
                                break
                if c is not None:
                    for l in s.cons.ne:
                        if e in syms_of(l):
                            c = c.add_ne(subst(l, m))
                            if c is None:
                                break
                if c is not None:
                    for t, vs in s.vs.items():
                        if e in syms_of(t):
                            x = s.vs.get(subst(t, m))
                            if x is not None and not (x & vs):
                                c = None
                                break
                if c is None:
                    c = s.cons.add_ne(d)
                    if c is None:
                        return None
                    s = s.copy()
                    s.cons = c
        return s

    def _units(self, s):
        """unit propagation over the recorded disjunctions"""
        if not s.forms:
            return [s]
        for g in s.forms:
            val = True
            f = g
            if f[0] == 'not':
                f, val = f[1], False
            if (f[0] == 'or' and val) or (f[0] == 'and' and not val):
                parts = [x if f[0] == 'or' else fnot(x) for x in f[1]]
                live = []
                done = False
                for x in parts:
                    r = self.decide(s, x)
                    if r is True:
                        done = True
                        break
                    if r is None:
                        live.append(x)
                if done:
                    continue
                if not live:
                    return []
                if len(live) == 1:
                    s2 = s.copy()
                    s2.forms = s.forms - {g}
                    return self.assume(s2, live[0], True)
        return [s]

    def holds(self, st, f):
        return self.decide(st, f) is True

    # ------------------------------------------------------------ memory
    def default_root(self, root):
        if root[0] == 'R':
            v = self.mkval(mk('*', root[1]), root[2])
            return v
        if root[0] == 'C':
            return self.const_bytes(root[1])
        if root[0] == 'K':
            return self.const_val(root[2], json.loads(root[1]))
        return UNINIT

    def read(self, st, pl):
        v = st.mem.get(pl.root)
        if v is None:
            v = self.default_root(pl.root)
        for p in pl.pr:
            v = self.proj(st, v, p)
        return v

    def touch(self, st, v):
        """assume the declared invariants of a symbolic value of a local type (once)"""
        t = self.T[v.ty]
        if t['k'] == 'adt':
            inv = self.invs.get(t['p'])
            if inv is not None and v.t not in st.inv:
                st.inv = st.inv | {v.t}
                inv(self, st, v)

    def field_ty(self, ty, var, i):
        t = self.T[ty]
        if t['k'] == 'tuple':
            return t['ts'][i]
        if t['k'] == 'closure':
            return t['a'][i]
        vs = t.get('vs')
        if vs:
            return vs[var or 0]['f'][i][1]
        return None

    def proj(self, st, v, p):
        k = p[0]
        if k == 'f':
            i = p[1]
            if isinstance(v, Agg):
                x = v.fs.get(i)
                if x is not None:
                    return x
                if v.base is not None:
                    ty = p[2] if len(p) > 2 else self.field_ty(v.ty, v.var, i)
                    return self.mkval(mk('fld', v.base, v.var or 0, i), ty)
                return UNINIT
            if isinstance(v, Sym):
                self.touch(st, v)
                ty = p[2] if len(p) > 2 else self.field_ty(v.ty, 0, i)
                return self.mkval(mk('fld', v.t, 0, i), ty)
            if isinstance(v, Lib):
                if v.kind == 'Box':
                    return v['inner']
                ty = p[2]
                return self.mkval(fresh('libfld'), ty)
            if v is UNINIT:
                return UNINIT
            if isinstance(v, Seq):
                # transparent wrappers around sequences (MaybeUninit etc.)
                return v
            if isinstance(v, (Ref, SRef)):
                return v
        elif k == 'v':
            if isinstance(v, Agg):
                if v.var != p[1]:
                    raise Infeasible()
                return v
            if isinstance(v, Sym):
                self.touch(st, v)
                c = st.vs.get(v.t)
                if c is not None and p[1] not in c:
                    raise Infeasible()
                return Agg(v.ty, p[1], {}, v.t)
            if v is UNINIT:
                return UNINIT
            return v
        elif k == 'i':
            if isinstance(v, Seq):
                return self.elem(st, v, p[1])
            if isinstance(v, Sym):
                el = p[2] if len(p) > 2 else None
                if el is not None:
                    return self.mkval(mk('elem', v.t, p[1]), el)
            if v is UNINIT:
                return UNINIT
        elif k == 'box':
            if isinstance(v, Lib) and v.kind in ('Box', 'RefCell'):
                return v['inner']
            if isinstance(v, Sym):
                return self.mkval(mk('fld', v.t, 0, 'box'), self.T[v.ty]['a'][0])
            return UNINIT
        raise AssertionError('proj %r of %r' % (p, v))

    def elem(self, st, v, i):
        x = v.ov.get(i)
        if x is not None:
            return x
        for j, x in v.ov.items():
            d = i - j
            if d.is_const() and d.k != 0:
                continue
            if st.cons.proves_ne(d):
                continue
            if st.cons.proves_eq(d):
                return x
            # may or may not alias: unknown element
            return self.mkval(mk('elem', self.content(v), i), v.el)
        t, off = v.t, i
        while t.op == 'sub':
            off = off + t.args[1]
            t = t.args[0]
        if t.op == 'bytes' and off.is_const() and 0 <= off.k < len(t.args):
            return Num(t.args[off.k], 'u8')
        for q in self.watch.get(t, ()):
            if q != off and st.cons.proves_eq(q - off):
                off = q
                break
        return self.mkval(mk('elem', t, off), v.el)

    def content(self, v):
        """content value number of a whole sequence value"""
        if not v.ov:
            return v.t
        items = tuple(sorted(((i, v.ov[i].key()) for i in v.ov), key=repr))
        if all(i.is_const() for i in v.ov) and v.len.is_const() and len(v.ov) == v.len.k:
            vals = [v.ov[L(i)] for i in range(v.len.k)] if all(L(i) in v.ov for i in range(v.len.k)) else None
            if vals is not None and all(isinstance(x, Num) and x.lin.is_const() and 0 <= x.lin.k < 256 for x in vals):
                return mk('const', bytes(x.lin.k for x in vals))
            if vals is not None and self.exact and v.el == self.P.u8 and all(isinstance(x, Num) for x in vals):
                return mk('bytes', *[x.lin for x in vals])
        return mk('ov', v.t, v.len, intern_key(items))

    def write(self, st, pl, val):
        """in-place update of st"""
        root = pl.root
        if root[0] == 'R' and root[1].op == 'mapslot':
            # what a map holds is only changed by insertion here
            raise Budget('a value kept in a map is changed in place')
        if pl.pr:
            v = st.mem.get(root)
            if v is None:
                v = self.default_root(root)
            st.mem[root] = self.upd(st, v, pl.pr, val)
        else:
            st.mem[root] = val
        al = st.alias.get(root)
        if al:
            for p in al:
                self.havoc(st, p)

    def upd(self, st, v, pr, val):
        if not pr:
            return val
        p = pr[0]
        if p[0] == 'f':
            if isinstance(v, Sym):
                self.touch(st, v)
                v = Agg(v.ty, 0, {}, v.t)
            elif v is UNINIT:
                v = Agg(None, 0, {}, None)
            if isinstance(v, Agg):
                cur = v.fs.get(p[1])
                if cur is None and len(pr) > 1:
                    cur = self.proj(st, v, p)
                fs = dict(v.fs)
                fs[p[1]] = self.upd(st, cur, pr[1:], val) if len(pr) > 1 else val
                return Agg(v.ty, v.var, fs, v.base)
            if isinstance(v, Lib) and v.kind in ('Box', 'RefCell'):
                return v.with_(inner=self.upd(st, v['inner'], pr[1:], val))
            if isinstance(v, (Seq, Ref, SRef)):
                return self.upd(st, v, pr[1:], val)
        elif p[0] == 'v':
            if isinstance(v, Sym):
                v = Agg(v.ty, p[1], {}, v.t)
            elif v is UNINIT:
                v = Agg(None, p[1], {}, None)
            if isinstance(v, Agg):
                if v.var != p[1]:
                    v = Agg(v.ty, p[1], {}, None)
                return self.upd(st, v, pr[1:], val)
            return self.upd(st, v, pr[1:], val)
        elif p[0] == 'i':
            if isinstance(v, Seq):
                i = p[1]
                cur = self.elem(st, v, i) if len(pr) > 1 else None
                nv = self.upd(st, cur, pr[1:], val) if len(pr) > 1 else val
                ov = {}
                lost = False
                for j, x in v.ov.items():
                    if j == i:
                        continue
                    if st.cons.proves_eq(i - j):
                        continue
                    if st.cons.proves_ne(i - j):
                        ov[j] = x
                    else:
                        lost = True
                ov[i] = nv
                t = v.t
                if lost:
                    t = fresh('seq')
                return Seq(t, v.len, v.el, ov)
            if isinstance(v, Sym):
                return v
        elif p[0] == 'box':
            if isinstance(v, Lib) and v.kind in ('Box', 'RefCell'):
                return v.with_(inner=self.upd(st, v['inner'], pr[1:], val))
            inner = self.proj(st, v, p)
            return Lib('Box', inner=self.upd(st, inner, pr[1:], val))
        raise AssertionError('upd %r of %r' % (p, v))

    def tyof_value(self, v):
        if isinstance(v, (Sym, Agg, Fn)):
            return v.ty
        return None

    def fresh_like(self, v, why='havoc'):
        if isinstance(v, Num):
            return Num(L(fresh(why, v.ty)), v.ty)
        if isinstance(v, BoolV):
            return BoolV(('atom', fresh(why, 'bool')))
        if isinstance(v, (Sym, Agg)) and v.ty is not None:
            return self.mkval(fresh(why), v.ty)
        if isinstance(v, Seq):
            return Seq(fresh(why), L(fresh('len', 'len')), v.el)
        return v

    def havoc(self, st, pl):
        st.mem[pl.root] = self.upd(st, st.mem.get(pl.root) or self.default_root(pl.root), pl.pr,
                                   self.fresh_like(self.read(st, pl))) if pl.pr else \
            self.fresh_like(self.read(st, pl))

    def havoc_val(self, st, v):
        """havoc everything a value can reach mutably"""
        if isinstance(v, Ref) and v.mut:
            cur = self.read(st, v.p)
            self.write(st, v.p, self.fresh_like(cur))
            if not isinstance(cur, Ref):
                self.havoc_val(st, cur)
        elif isinstance(v, Agg):
            for x in v.fs.values():
                self.havoc_val(st, x)

    # sequences behind references
    def seq_at(self, st, sr):
        v = self.read(st, sr.p)
        if isinstance(v, Seq):
            return v
        if isinstance(v, Agg) or isinstance(v, Sym) or isinstance(v, Lib) or v is UNINIT:
            return Seq(mk('opaque', intern_key(v.key())), L(mk('len', mk('opaque', intern_key(v.key())), ty='len')), sr.el)
        raise AssertionError('seq_at %r' % (v,))

    def cterm(self, st, sr):
        """content value number of what a fat reference points to"""
        v = self.seq_at(st, sr)
        c = self.content(v)
        if sr.off.is_const() and sr.off.k == 0 and (sr.len == v.len or st.cons.proves_eq(sr.len - v.len)):
            return c
        if c.op == 'const' and sr.off.is_const() and sr.len.is_const():
            return mk('const', c.args[0][sr.off.k:sr.off.k + sr.len.k])
        if c.op == 'bytes' and sr.off.is_const() and sr.len.is_const():
            xs = c.args[sr.off.k:sr.off.k + sr.len.k]
            if all(x.is_const() for x in xs):
                return mk('const', bytes(x.k for x in xs))
            return mk('bytes', *xs)
        off = sr.off
        while c.op == 'sub':
            off = off + c.args[1]
            c = c.args[0]
        return mk('sub', c, off, sr.len)

    def elem_at(self, st, sr, i):
        return self.elem(st, self.seq_at(st, sr), sr.off + i)

    # ------------------------------------------------------------ obligations / events
    def site(self, fr):
        f = fr
        while f is not None and not f.fn['local']:
            f = f.up
        if f is None:
            return ('?', '?')
        return (f.fn['path'], f.cur or f.fn['span'])

    def stack(self, fr):
        out = []
        f = fr
        while f is not None:
            if f.fn['local']:
                out.append('%s@%s' % (f.fn['path'], f.cur))
            f = f.up
        return out

    def oblige(self, st, fr, f, kind, detail=''):
        r = self.decide(st, f)
        if r is not True and f is not False:
            r = self.by_factors(st, f) or r
        fn, span = self.site(fr)
        self.obl.append(dict(kind=kind, fn=fn, span=span, ok=r is True, detail=detail,
                             stack=self.stack(fr), why='' if r is True else fshow(f)[:300],
                             st=None if r is True else st))
        return self.assume(st, f, True)

    def by_factors(self, st, f):
        """decide a formula with a product apart for a factor that is zero, and one that is not"""
        for t in {t for x in lins_of(f) for t, _ in x.v if t.op == 'mul'}:
            ss = self.factors(st, t)
            if ss and all(self.decide(s, f) is True for s in ss):
                return True
        return None

    def factors(self, st, t):
        """the cases of a product: each factor is zero, one, or more"""
        x, y = L(t.args[0]), L(t.args[1])
        if not (st.cons.prove(x) and st.cons.prove(y)):
            return [st]
        out = [st]
        for u in (x, y):
            out = [s2 for s in out for f in (feq(u), feq(u - 1), fge(u - 2)) for s2 in self.assume(s, f, True)]
        res = []
        for s in out:
            fs = []
            for u, w in ((x, y), (y, x)):
                m = s.cons.lin_min(u)
                k = 0 if m is None else min(int(m), 2)
                # no less than the least value of one factor times the other
                fs.append(fge(L(t) - w.scale(k)))
                if k < 2:
                    fs.append(feq(L(t) - w.scale(k)))
            ss = [s]
            for f in fs:
                ss = [s3 for s2 in ss for s3 in self.assume(s2, f, True)]
            res.extend(ss)
        return res

    def fail(self, st, fr, kind, detail=''):
        fn, span = self.site(fr)
        self.obl.append(dict(kind=kind, fn=fn, span=span, ok=False, detail=detail, stack=self.stack(fr), why=detail, st=st))

    def event(self, kind, st, fr, **data):
        fn, span = self.site(fr)
        self.events.append(dict(kind=kind, st=st, fn=fn, span=span, stack=self.stack(fr), **data))

    # ------------------------------------------------------------ functions
    def fid(self, up, bb, fn, extra=None):
        k = (None if up is None else up.fid, bb, fn['id'], extra)
        x = self.fids.get(k)
        if x is None:
            x = len(self.fids) + 1
            self.fids[k] = x
        return x

    def call_fn(self, fn, args, st, up, bb=0, extra=None):
        """inline a function body: list of (state, value)"""
        if up is not None and up.depth > 60:
            raise Budget('call depth at %s' % fn['path'])
        if any(a == fn['id'] for a in self.active) and self.active.count(fn['id']) > 3:
            raise Budget('recursion in %s' % fn['path'])
        self.fns_seen.add(fn['id'])
        ctl = self.P.control(fn)
        fr = Frame(self.fid(up, bb, fn, extra), fn, up, ctl)
        s = st.copy()
        # a previous activation with the same id left nothing live
        for i, a in enumerate(args):
            s.mem[('L', fr.fid, i + 1)] = a
        self.active.append(fn['id'])
        try:
            outs = self.run(fr, s)
        finally:
            self.active.pop()
        res = []
        for o in outs:
            v = o.mem.get(('L', fr.fid, 0), UNINIT)
            n = o.copy()
            for k in [k for k in n.mem if k[0] == 'L' and k[1] == fr.fid]:
                del n.mem[k]
            res.append((n, v))
        if len(res) > self.retlim:
            res = self.merge_rets(res)
        return res

    def merge_rets(self, res):
        R = ('L', 0, 'ret')
        ss = []
        for s, v in res:
            n = s.copy()
            n.mem[R] = v
            ss.append(n)
        ss = self.limit(ss, self.retlim)
        out = []
        for s in ss:
            v = s.mem.pop(R)
            out.append((s, v))
        return out

    # ------------------------------------------------------------ control flow
    def run(self, fr, st):
        self.rets = getattr(self, 'rets', None)
        rets = []
        pend = {0: [st]}
        self.region(fr, fr.ctl.wto, pend, rets)
        return rets

    def clean(self, fr, st, bb):
        li = fr.ctl.livein[bb]
        bo = fr.ctl.borrowed
        dead = [k for k in st.mem if k[0] == 'L' and k[1] == fr.fid and isinstance(k[2], int) and k[2] not in li and k[2] not in bo]
        if dead:
            st = st.copy()
            for k in dead:
                del st.mem[k]
        return st

    def region(self, fr, w, pend, rets):
        for e in w:
            if isinstance(e, tuple):
                ss = pend.pop(e[0], None)
                if ss:
                    self.loop(fr, e, ss, pend, rets)
            else:
                ss = pend.pop(e, None)
                if ss:
                    ss = self.arrive(fr, ss, e)
                    for s in ss:
                        self.transfer(fr, s, e, pend, rets)

    def arrive(self, fr, ss, bb):
        ss = [self.clean(fr, s, bb) for s in ss]
        if len(ss) > 1:
            ss = dedupe(ss)
        if len(ss) > self.joinlim:
            ss = self.limit([gc(s) for s in ss], self.joinlim)
        return ss

    def limit(self, ss, lim):
        """merge states with the same shape until at most lim remain"""
        for depth in (4, 2, 1):
            if len(ss) <= lim:
                return ss
            g = {}
            for s in ss:
                g.setdefault(self.pkey(s, depth), []).append(s)
            out = []
            for k, xs in g.items():
                a = xs[0]
                for b in xs[1:]:
                    a = self.join(a, b)
                out.append(a)
            ss = out
        return ss

    def loop(self, fr, comp, entry, pend, rets):
        head, body = comp
        entry = self.arrive(fr, entry, head)
        const_iter = 0
        # peel: process the entry states once
        hk = (fr.fn['path'], head)
        bset = fr.ctl.heads[head]
        groups = {}
        back = []
        for s in entry:
            bs = self.iterate(fr, comp, s, pend, rets, True)
            # exact unrolling of loops over constant ranges
            n = 0
            while bs and n < (self.unroll if self.exact else 9) and (self.exact or all(self.const_progress(fr, b) for b in bs)) and len(bs) <= (self.kept if self.exact else 64):
                nb = []
                for b in self.arrive(fr, bs, head):
                    nb.extend(self.iterate(fr, comp, b, pend, rets, True))
                bs = nb
                n += 1
            back.extend(bs)
        if not back:
            return
        back = [gc(self.clean(fr, b, head)) for b in back]

        def step(h, lp, lr):
            return [gc(self.clean(fr, b, head)) for b in self.iterate(fr, comp, h, lp, lr, False)]
        _, lp, lr = self.fixpoint(back, step, '%s bb%d' % (fr.fn['path'], head))
        for b, xs in lp.items():
            pend.setdefault(b, []).extend(xs)
        rets.extend(lr)

    def fixpoint(self, back, step, name):
        """least generalisation of the states `back` closed under step(h, lp, lr) -> states"""
        H = {}
        for b in dedupe(back):
            k = (self.pkey(b, 3), tuple(sorted(b.gh.items(), key=repr)))
            if k in H:
                H[k] = self.join(H[k], b)
            else:
                H[k] = b
        phis = {k: set() for k in H}
        it = 0
        while True:
            it += 1
            if it > 25:
                raise Budget('loop at %s does not stabilise' % name)
            mark = (len(self.obl), len(self.events), len(self.loops), len(self.collects), len(self.sorts), len(self.searches))
            lp = {}
            lr = []
            changed = False
            newH = dict(H)
            for k, h in H.items():
                for b in step(h, lp, lr):
                    kb = (self.pkey(b, 3), tuple(sorted(b.gh.items(), key=repr)))
                    if kb in newH:
                        j, ch, ph = self.widen(newH[kb], b, phis[kb], it)
                        phis[kb] |= ph
                        newH[kb] = j
                        if ch:
                            changed = True
                    else:
                        newH[kb] = b
                        phis[kb] = set()
                        changed = True
            if not changed:
                break
            H = newH
            for l, m in zip((self.obl, self.events, self.loops, self.collects, self.sorts, self.searches), mark):
                del l[m:]
        return H, lp, lr

    def const_progress(self, fr, st):
        """a live constant-bounded range (or constant slice) iterator drives this loop"""
        for k, v in st.mem.items():
            if k[0] == 'L' and k[1] == fr.fid:
                if self._constit(v, 3, st):
                    return True
        return False

    def _constit(self, v, d, st):
        if d < 0:
            return False
        if isinstance(v, Ref) and v.mut:
            return self._constit(self.read(st, v.p), d - 1, st)
        if isinstance(v, Agg):
            if v.ty is not None and self.T[v.ty]['s'].startswith('std::ops::Range<'):
                a, b = v.fs.get(0), v.fs.get(1)
                if isinstance(a, Num) and isinstance(b, Num) and a.lin.is_const() and b.lin.is_const() and b.lin.k - a.lin.k <= 8:
                    return True
            t = self.T[v.ty] if v.ty is not None else None
            if t is not None and t['k'] == 'adt' and t['p'].startswith('std::iter::'):
                return any(self._constit(x, d - 1, st) for x in v.fs.values())
        if isinstance(v, Lib) and v.kind in ('SliceIter', 'IntoIter'):
            return v['lo'].is_const() and v['hi'].is_const() and v['hi'].k - v['lo'].k <= 8
        return False

    def iterate(self, fr, comp, st, pend, rets, peel):
        """one pass over the loop body from state st at the head; returns back-edge states"""
        head, body = comp
        lp = {}
        if self.measures is not None and not peel:
            # what the quantities of the head are is remembered until the way around is compared with them
            mark = ('head', fr.fid, head)
            st = st.copy()
            st.gh[mark] = tuple(sorted({t for l in self.measures(self, st, fr.fid).values() for t, _ in l.v if freshes(t)}, key=repr))
            back = []
            inner = []
            self.transfer(fr, st, head, lp, inner)
            back = lp.pop(head, [])
            self.region_in(fr, body, lp, inner, head, back)
            for b in back:
                b.gh.pop(mark, None)
            for xs in lp.values():
                for x in xs:
                    x.gh.pop(mark, None)
            for x in inner:
                (x[0] if isinstance(x, tuple) else x).gh.pop(mark, None)
            rets.extend(inner)
        else:
            self.transfer(fr, st, head, lp, rets)
            back = lp.pop(head, [])
            self.region_in(fr, body, lp, rets, head, back)
        for b, xs in lp.items():
            pend.setdefault(b, []).extend(xs)
        if not peel:
            for b in back:
                self.loops.append(dict(fn=fr.fn, head=head, h=st, b=b, fid=fr.fid, stack=self.stack(fr), site=self.site(fr)))
        return back

    def region_in(self, fr, body, lp, rets, head, back):
        for e in body:
            v = e[0] if isinstance(e, tuple) else e
            ss = lp.pop(v, None)
            if not ss:
                continue
            if isinstance(e, tuple):
                self.loop(fr, e, ss, lp, rets)
            else:
                for s in self.arrive(fr, ss, e):
                    self.transfer(fr, s, e, lp, rets)
            back.extend(lp.pop(head, []))

    # ------------------------------------------------------------ blocks
    def transfer(self, fr, st, bb, pend, rets):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exhausted in %s' % fr.fn['path'])
        self.in_time()
        self.visited.add((fr.fn['id'], bb))
        b = fr.fn['blocks'][bb]
        ss = [st.copy()]
        for s in b['s']:
            if s['k'] == '=':
                fr.cur = s['sp']
            ns = []
            for x in ss:
                try:
                    ns.extend(self.stmt(fr, x, s, bb))
                except Infeasible:
                    pass
            ss = ns
        t = b['t']
        for x in ss:
            fr.cur = t['sp']
            try:
                self.term(fr, x, t, bb, pend, rets)
            except Infeasible:
                pass

    def goto(self, pend, bb, st):
        pend.setdefault(bb, []).append(st)

    def place(self, st, fr, p):
        cur = Place(('L', fr.fid, p[0]))
        for e in p[1:]:
            k = e['k']
            if k == 'deref':
                v = self.read(st, cur)
                if isinstance(v, Ref):
                    cur = v.p
                elif isinstance(v, SRef):
                    cur = Place(v.p.root, v.p.pr, (v.off, v.len))
                elif isinstance(v, Lib) and v.kind == 'Box':
                    cur = cur.f(('box',))
                elif isinstance(v, Sym) and self.is_adt(v.ty, 'std::boxed::Box'):
                    cur = cur.f(('box',))
                elif isinstance(v, Sym):
                    cur = Place(('R', v.t, self.T[v.ty].get('t', v.ty)))
                elif v is UNINIT:
                    raise Infeasible()
                else:
                    raise AssertionError('deref of %r in %s' % (v, fr.fn['path']))
            elif k == 'f':
                cur = Place(cur.root, cur.pr + (('f', e['i'], e['t']),))
            elif k == 'v':
                cur = Place(cur.root, cur.pr + (('v', e['i']),))
            elif k == 'idx':
                i = self.num(st, self.read(st, Place(('L', fr.fid, e['l']))))
                cur = self.idx(st, cur, i)
            elif k == 'cidx':
                if e['end']:
                    ln = cur.view[1] if cur.view else self.read(st, cur).len
                    i = ln - e['o']
                else:
                    i = L(e['o'])
                cur = self.idx(st, cur, i)
            elif k == 'sub':
                off, ln = cur.view if cur.view else (L(0), self.read(st, cur).len)
                if e['end']:
                    n = ln - e['from'] - e['to']
                else:
                    n = L(e['to'] - e['from'])
                cur = Place(cur.root, cur.pr, (off + e['from'], n))
            elif k == 'cast':
                pass
        return cur

    def idx(self, st, cur, i):
        if cur.view:
            return Place(cur.root, cur.pr + (('i', cur.view[0] + i),))
        return Place(cur.root, cur.pr + (('i', i),))

    def num(self, st, v):
        if isinstance(v, Num):
            return v.lin
        if isinstance(v, BoolV):
            r = self.decide(st, v.f)
            if r is not None:
                return L(int(r))
            return L(mk('b2i', intern_key(v.key()), ty='bool'))
        if isinstance(v, Sym):
            return L(mk('num', v.t, ty=self.numty(v.ty)))
        if v is UNINIT:
            return L(fresh('uninit', 'usize'))
        raise AssertionError('num of %r' % (v,))

    def operand(self, st, fr, o):
        if o['k'] in ('copy', 'move'):
            return self.load(st, self.place(st, fr, o['p']))
        if o['k'] == 'const':
            return self.const_val(o['t'], o.get('v'), o.get('def'))
        return BoolV(True)      # runtime checks (ub / overflow checks enabled)

    def load(self, st, pl):
        if pl.view is not None:
            v = self.read(st, Place(pl.root, pl.pr))
            el = v.el if isinstance(v, Seq) else self.P.u8
            return SRef(Place(pl.root, pl.pr), pl.view[0], pl.view[1], el)
        return self.read(st, pl)

    def stmt(self, fr, st, s, bb):
        k = s['k']
        if k == '=':
            out = []
            for s2, v in self.rvalue(fr, st, s['r']):
                pl = self.place(s2, fr, s['p'])
                self.write(s2, pl, v)
                if 'store' in self.hooks:
                    self.hooks['store'](self, s2, fr, pl, v, s)
                out.append(s2)
            return out
        if k == 'dead':
            st.mem.pop(('L', fr.fid, s['l']), None)
            return [st]
        if k == 'live':
            st.mem.pop(('L', fr.fid, s['l']), None)
            return [st]
        if k == 'setd':
            pl = self.place(st, fr, s['p'])
            v = self.read(st, pl)
            if isinstance(v, Agg):
                self.write(st, pl, Agg(v.ty, s['v'], v.fs, v.base))
            return [st]
        return [st]

    def mkref(self, st, pl, mut):
        if pl.view is not None:
            v = self.read(st, Place(pl.root, pl.pr))
            el = v.el if isinstance(v, Seq) else self.P.u8
            return SRef(Place(pl.root, pl.pr), pl.view[0], pl.view[1], el)
        return Ref(pl, mut)

    def rvalue(self, fr, st, r):
        k = r['k']
        if k == 'use':
            return [(st, self.operand(st, fr, r['o']))]
        if k == 'ref':
            pl = self.place(st, fr, r['p'])
            return [(st, self.mkref(st, pl, r['m']))]
        if k == 'bin':
            a = self.operand(st, fr, r['a'])
            b = self.operand(st, fr, r['b'])
            return self.binop(st, fr, r['op'], a, b)
        if k == 'un':
            a = self.operand(st, fr, r['a'])
            if r['op'] == 'Not':
                if isinstance(a, BoolV):
                    return [(st, BoolV(fnot(a.f)))]
                if isinstance(a, Num):
                    lo, hi = RANGES[a.ty]
                    if lo == 0:
                        return [(st, Num(L(hi) - a.lin, a.ty))]
                    return [(st, Num(-a.lin - 1, a.ty))]
            if r['op'] == 'Neg':
                return [(st, Num(-self.num(st, a), a.ty))]
            if r['op'] == 'PtrMetadata':
                if isinstance(a, SRef):
                    return [(st, Num(a.len, 'usize'))]
                if isinstance(a, Ref):
                    v = self.read(st, a.p)
                    if isinstance(v, Seq):
                        return [(st, Num(v.len, 'usize'))]
                return [(st, Num(L(fresh('meta', 'len')), 'usize'))]
            return [(st, self.fresh_like(a))]
        if k == 'discr':
            pl = self.place(st, fr, r['p'])
            if len(r['p']) == 1 and self.read(st, pl) is UNINIT:
                # a local whose only inhabited variant carries no data is never written
                ty = fr.fn['locals'][r['p'][0]][0]
                al = self.inhabited_variants(ty) if self.variants(ty) else []
                if len(al) == 1:
                    return [(st, Num(L(self.variants(ty)[al[0]]['d']), 'isize'))]
            return [(s, Num(L(d), 'isize')) for s, i, d in self.discr(st, pl)]
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            if r['a'] == 'array':
                ty = None
                return [(st, Seq(mk('arr', fresh('arr')), L(len(ops)), r['t'], {L(i): v for i, v in enumerate(ops)}))]
            if r['a'] == 'tuple':
                return [(st, Agg(self.tuple_ty(ops), 0, dict(enumerate(ops))))]
            if r['a'] == 'adt':
                v = Agg(r['t'], r['v'], dict(enumerate(ops)))
                if 'construct' in self.hooks:
                    self.hooks['construct'](self, st, fr, v)
                return [(st, v)]
            if r['a'] == 'closure':
                return [(st, Agg(r['t'], 0, dict(enumerate(ops))))]
            if r['a'] == 'rawptr':
                p = ops[0]
                if isinstance(p, Ref) and len(ops) > 1 and isinstance(ops[1], Num):
                    return [(st, SRef(p.p, L(0), ops[1].lin, self.P.u8))]
                if isinstance(p, SRef) and len(ops) > 1 and isinstance(ops[1], Num) and self.decide(st, fge(p.len - ops[1].lin)) is True:
                    return [(st, SRef(p.p, p.off, ops[1].lin, p.el))]
                if isinstance(p, SRef) and len(ops) > 1:
                    return [(st, Sym(fresh('rawptr'), r.get('t', 0)))]
                return [(st, p)]
            return [(st, Sym(fresh('agg'), r.get('t', 0)))]
        if k == 'cast':
            if r['ck'] == 'BoxDerefTransmute' and 'p' in r['o']:
                bp = self.place(st, fr, r['o']['p'][:-1])
                return [(st, Ref(bp.f(('box',)), True))]
            v = self.operand(st, fr, r['o'])
            return [(st, self.cast(st, r, v))]
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            n = r['n']
            if n is not None and n <= 64:
                return [(st, Seq(mk('rep', fresh('rep')), L(n), 0, {L(i): v for i in range(n)}))]
            return [(st, Seq(fresh('rep'), L(n if n is not None else fresh('n', 'len')), 0))]
        return [(st, Sym(fresh('rv'), self.P.ty_by_s['()']))]

    def tuple_ty(self, ops):
        return None

    def cast(self, st, r, v):
        ck = r['ck']
        ty = r['t']
        if ck.startswith('PointerCoercion(Unsize'):
            t = self.T[ty]
            if isinstance(v, Ref):
                if t['k'] in ('ref', 'ptr') and self.P.unsized_seq(t['t']):
                    cur = self.read(st, v.p)
                    if isinstance(cur, Seq):
                        return SRef(v.p, L(0), cur.len, cur.el)
                return v
            return v
        if ck.startswith('PointerCoercion') or ck.startswith('PtrToPtr') or ck in ('Transmute', 'Subtype'):
            if isinstance(v, Num) and self.numty(ty):
                if BITS.get(v.ty) == BITS.get(self.numty(ty)):
                    pass
                else:
                    return Num(L(fresh('cast', self.numty(ty))), self.numty(ty))
            else:
                return v
        n = self.numty(ty)
        if n is None:
            if isinstance(v, Num) and self.tk(ty) == 'bool':
                return BoolV(feq(v.lin - 1))
            return self.mkval(fresh('cast'), ty) if not isinstance(v, (Ref, SRef)) else v
        if isinstance(v, BoolV):
            d = self.decide(st, v.f)
            if d is not None:
                return Num(L(int(d)), n)
            return Num(L(mk('b2i', intern_key(v.key()), ty='bool')), n)
        if isinstance(v, (Num, Sym)):
            l = self.num(st, v)
            lo, hi = RANGES[n]
            if st.cons.prove(l - lo) and st.cons.prove(L(hi) - l):
                return Num(l, n)
            if l.is_const():
                x = l.k % (hi - lo + 1)
                if x > hi:
                    x -= hi - lo + 1
                return Num(L(x), n)
            if lo == 0 and st.cons.prove(l):
                q, x = split_multiple(l, hi + 1)
                if q is not None and q.v and 0 <= x <= hi:
                    return Num(L(x), n)
            return Num(L(mk('cast', l, n, ty=n)), n)
        return self.mkval(fresh('cast'), ty)

    def discr(self, st, pl):
        """fork on the variant of the enum at pl: list of (state, variant index, discriminant)"""
        v = self.read(st, pl)
        if isinstance(v, Agg):
            vs = self.variants(v.ty) if v.ty is not None else None
            d = vs[v.var]['d'] if vs else v.var
            return [(st, v.var, d)]
        if isinstance(v, Sym):
            self.touch(st, v)
            t = self.T[v.ty]
            vs = t.get('vs')
            if not vs or not t.get('enum'):
                return [(st, None, None)] if False else [(st, 0, 0)]
            cand = st.vs.get(v.t)
            al = self.inhabited_variants(v.ty)
            out = []
            for i in al:
                if cand is not None and i not in cand:
                    continue
                for s in self.assume(st, ('var', v.t, frozenset([i]), len(vs))):
                    out.append((s if s is not st else st.copy(), i, vs[i]['d']))
            return out
        if v is UNINIT:
            raise Infeasible()
        if isinstance(v, Lib) and v.kind == 'Cow':
            return [(st, 0, 0)]
        raise AssertionError('discr of %r' % (v,))

    # ------------------------------------------------------------ arithmetic
    def rng(self, ty):
        return RANGES[ty]

    def inrange(self, l, ty):
        lo, hi = RANGES[ty]
        return fand(fge(l - lo), fge(L(hi) - l))

    def binop(self, st, fr, op, a, b):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            f = self.compare(st, op, a, b)
            return [(st, BoolV(f))]
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            if isinstance(a, BoolV) and isinstance(b, BoolV):
                if op == 'BitAnd':
                    return [(st, BoolV(fand(a.f, b.f)))]
                if op == 'BitOr':
                    return [(st, BoolV(for_(a.f, b.f)))]
                if op == 'BitXor':
                    return [(st, BoolV(for_(fand(a.f, fnot(b.f)), fand(fnot(a.f), b.f))))]
        if isinstance(a, (Ref, SRef)) or isinstance(b, (Ref, SRef)):
            return [(st, a)]
        x, y = self.num(st, a), self.num(st, b)
        ty = a.ty if isinstance(a, Num) else (b.ty if isinstance(b, Num) else 'usize')
        if ty == 'len':
            ty = 'usize'
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            s, l = self.arith(st, base, x, y, ty)
            return [(s, Agg(None, 0, {0: Num(l, ty), 1: BoolV(fnot(self.inrange(l, ty)))}))]
        op = op.replace('Unchecked', '')
        s, l = self.arith(st, op, x, y, ty)
        if op in ('Add', 'Sub', 'Mul'):
            if self.decide(s, self.inrange(l, ty)) is not True and not l.is_const():
                l = L(mk('wrap' + op, x, y, ty=ty))
            elif l.is_const():
                lo, hi = RANGES[ty]
                k = (l.k - lo) % (hi - lo + 1) + lo
                l = L(k)
        return [(s, Num(l, ty))]

    def compare(self, st, op, a, b):
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            e = for_(fand(a.f, b.f), fand(fnot(a.f), fnot(b.f)))
            if a.f is True:
                e = b.f
            elif a.f is False:
                e = fnot(b.f)
            elif b.f is True:
                e = a.f
            elif b.f is False:
                e = fnot(a.f)
            if op == 'Eq':
                return e
            if op == 'Ne':
                return fnot(e)
        if isinstance(a, (Ref, SRef)) or isinstance(b, (Ref, SRef)):
            return ('atom', fresh('ptrcmp', 'bool'))
        x, y = self.num(st, a), self.num(st, b)
        if op == 'Eq':
            return feq(x - y)
        if op == 'Ne':
            return fnot(feq(x - y))
        if op == 'Lt':
            return fge(y - x - 1)
        if op == 'Le':
            return fge(y - x)
        if op == 'Gt':
            return fge(x - y - 1)
        return fge(x - y)

    def arith(self, st, op, x, y, ty):
        """exact mathematical result as a Lin (possibly over new terms), constraints added to st"""
        if op == 'Add':
            return st, x + y
        if op == 'Sub':
            return st, x - y
        if op == 'Mul':
            if x.is_const():
                return st, y.scale(x.k)
            if y.is_const():
                return st, x.scale(y.k)
            r = product(x, y)
            c = st.cons
            if c.prove(x) and c.prove(y):
                c2 = c.add(r) or c
                if c.prove(y - 1):
                    c2 = c2.add(r - x) or c2
                if c.prove(x - 1):
                    c2 = c2.add(r - y) or c2
                hx, hy = c.lin_max(x), c.lin_max(y)
                if hx is not None and hy is not None:
                    c2 = c2.add(L(hx * hy) - r) or c2
                st.cons = c2
            return st, r
        if op == 'Div':
            if y.is_const() and y.k > 0 and x.is_const():
                q = abs(x.k) // y.k
                return st, L(q if x.k >= 0 else -q)
            if y.is_const() and y.k > 0 and x.v and st.cons.prove(x):
                q, r = split_multiple(x, y.k)
                if q is not None and st.cons.prove(q):
                    return st, q
            t = mk('div', x, y, ty=ty)
            c = st.cons
            if c.prove(x) and c.prove(y - 1):
                c = c.add(L(t)) or c
                c = c.add(x - L(t)) or c
                if y.is_const():
                    c = c.add(x - L(t).scale(y.k)) or c
                    c = c.add(L(t).scale(y.k) + (y.k - 1) - x) or c
                st.cons = c
            return st, L(t)
        if op == 'Rem':
            if y.is_const() and y.k > 0 and x.is_const() and x.k >= 0:
                return st, L(x.k % y.k)
            if y.is_const() and y.k > 0 and x.v and st.cons.prove(x):
                q, r = split_multiple(x, y.k)
                if q is not None and st.cons.prove(q):
                    return st, L(r)
            t = mk('rem', x, y, ty=ty)
            c = st.cons
            if c.prove(x) and c.prove(y - 1):
                c = c.add(L(t)) or c
                c = c.add(y - L(t) - 1) or c
                c = c.add(x - L(t)) or c
                st.cons = c
            return st, L(t)
        bits = BITS.get(ty, 64)
        if op in ('Shl', 'Shr'):
            if y.is_const():
                n = y.k % bits
                if op == 'Shl':
                    r = x.scale(1 << n)
                    if x.is_const():
                        lo, hi = RANGES[ty]
                        return st, L((r.k - lo) % (hi - lo + 1) + lo)
                    if self.decide(st, self.inrange(r, ty)) is True:
                        return st, r
                    t = mk('shl', x, n, ty=ty)
                    # multiple of 2^n
                    m = mk('shlq', x, n, ty=ty)
                    c = st.cons.add_eq(L(t) - L(m).scale(1 << n))
                    if c is not None:
                        st.cons = c
                    return st, L(t)
                if n == 0:
                    return st, x
                return self.arith(st, 'Div', x, L(1 << n), ty) if RANGES[ty][0] == 0 else (st, L(mk('sar', x, n, ty=ty)))
            return st, L(mk(op.lower(), x, y, ty=ty))
        if op == 'BitAnd':
            if x.is_const() and y.is_const():
                return st, L(x.k & y.k)
            if x.is_const():
                x, y = y, x
            if y.is_const():
                m = y.k
                if m == 0:
                    return st, L(0)
                if m > 0 and x.v and st.cons.prove(x):
                    q, r = split_multiple(x, 1 << m.bit_length())
                    if q is not None and st.cons.prove(q):
                        return st, L(r & m)
                if m > 0 and m & (m - 1) == 0:
                    kbit = m.bit_length() - 1
                    b = self.bit(x, kbit)
                    return st, L(b).scale(m)
                if m > 0 and m & (m + 1) == 0 and st.cons.prove(x) and st.cons.prove(L(m) - x):
                    return st, x
                t = mk('and', x, m, ty=ty)
                if m >= 0:
                    c = st.cons.add(L(m) - L(t))
                    c = c and c.add(L(t))
                    if c is not None and st.cons.prove(x):
                        c = c.add(x - L(t)) or c
                    if c is not None:
                        st.cons = c
                return st, L(t)
            t = mk('and2', *sorted([x, y], key=repr), ty=ty)
            return st, L(t)
        if op == 'BitOr':
            if x.is_const() and y.is_const():
                return st, L(x.k | y.k)
            for p, q in ((x, y), (y, x)):
                if p.is_const() and p.k == 0:
                    return st, q
                # disjoint bits: p is a multiple of 2^n and 0 <= q < 2^n
                g = 0
                from math import gcd
                for t, c in p.v:
                    g = gcd(g, c)
                g = gcd(g, p.k)
                n = g & -g if g else 0
                if n > 1 and st.cons.prove(q) and st.cons.prove(L(n - 1) - q):
                    return st, p + q
                s1 = p.single()
                if s1 is not None and s1.op == 'shl' and st.cons.prove(q) and st.cons.prove(L((1 << s1.args[1]) - 1) - q):
                    return st, p + q
            t = mk('or', *sorted([x, y], key=repr), ty=ty)
            c = st.cons
            if c.prove(x) and c.prove(y):
                c2 = c.add(L(t) - x) or c
                c2 = c2.add(L(t) - y) or c2
                hx, hy = c.lin_max(x), c.lin_max(y)
                if hx is not None and hy is not None:
                    m = (1 << max(hx, hy).bit_length()) - 1
                    c2 = c2.add(L(m) - L(t)) or c2
                st.cons = c2
            return st, L(t)
        if op == 'BitXor':
            if x.is_const() and y.is_const():
                return st, L(x.k ^ y.k)
            return st, L(mk('xor', *sorted([x, y], key=repr), ty=ty))
        if op == 'Cmp':
            return st, L(mk('cmp3', x, y, ty='i8'))
        return st, L(mk('op' + op, x, y, ty=ty))

    def bit(self, x, k):
        """bit k of x as a 0/1 term, seen through constant right shifts"""
        s = x.single()
        if s is not None and s.op == 'div' and isinstance(s.args[1], Lin) and s.args[1].is_const():
            d = s.args[1].k
            if d > 0 and d & (d - 1) == 0:
                return self.bit(s.args[0], k + d.bit_length() - 1)
        if s is not None and s.op == 'and' and isinstance(s.args[1], int) and s.args[1] >> k & 1:
            return self.bit(s.args[0], k)
        return mk('bit', x, k, ty='bit')

    # ------------------------------------------------------------ terminators
    def term(self, fr, st, t, bb, pend, rets):
        k = t['k']
        if k == 'goto':
            self.goto(pend, t['to'], st)
        elif k == 'return':
            rets.append(st)
        elif k == 'drop':
            pl = self.place(st, fr, t['p'])
            v = self.read(st, pl)
            if v is not UNINIT:
                self.drop(st, fr, v)
            self.goto(pend, t['to'], st)
        elif k == 'switch':
            d = self.operand(st, fr, t['d'])
            if isinstance(d, BoolV):
                rest = st
                for val, to in t['vs']:
                    for s in self.assume(st, d.f, bool(val)):
                        self.goto(pend, to, s)
                vals = {v for v, _ in t['vs']}
                for val in (0, 1):
                    if val not in vals:
                        for s in self.assume(st, d.f, bool(val)):
                            self.goto(pend, t['else'], s)
                return
            l = self.num(st, d)
            n = self.numty(t['t']) or 'isize'
            bits = BITS[n]
            lo, hi = RANGES[n]
            if l.is_const():
                for val, to in t['vs']:
                    if (val - l.k) % (1 << bits) == 0:
                        self.goto(pend, to, st)
                        return
                self.goto(pend, t['else'], st)
                return
            rest = [st]
            for val, to in t['vs']:
                x = val if val <= hi else val - (1 << bits)
                ns = []
                for r in rest:
                    for s in self.assume(r, feq(l - x), True):
                        self.goto(pend, to, s)
                    ns.extend(self.assume(r, feq(l - x), False))
                rest = ns
            for r in rest:
                self.goto(pend, t['else'], r)
        elif k == 'assert':
            c = self.operand(st, fr, t['c'])
            f = c.f if isinstance(c, BoolV) else ('atom', fresh('c', 'bool'))
            if not t['e']:
                f = fnot(f)
            m = t['m']
            if fr.fn['local'] and m['k'] != 'other':
                if m['k'] == 'overflow' and self.widecounter(st, fr, m):
                    ss = self.assume(st, f, True)
                else:
                    ss = self.oblige(st, fr, f, m['k'], m.get('op', ''))
            else:
                ss = self.assume(st, f, True)
            for s in ss:
                self.goto(pend, t['to'], s)
        elif k == 'call':
            self.call_term(fr, st, t, bb, pend)
        elif k == 'unreachable' or k == 'resume':
            return
        else:
            self.fail(st, fr, 'unsupported terminator', t.get('s', k))

    def widecounter(self, st, fr, m):
        """a 64-bit sum of sizes of things in memory, of small constants and of loop values that only
        ever grow by such cannot overflow in any execution that fits in time and memory"""
        if m.get('op') != 'Add':
            return False
        a = self.operand(st, fr, m['a'])
        b = self.operand(st, fr, m['b'])
        if not (isinstance(a, Num) and isinstance(b, Num)):
            return False
        if BITS.get(a.ty, 0) < 64 or RANGES[a.ty][0] != 0:
            return False
        return self.sizelike(a.lin) and self.sizelike(b.lin)

    def sizelike(self, l, seen=frozenset()):
        """is the value a sum of sizes, small numbers and loop values that only grow by such?"""
        if abs(l.k) > 1 << 32:
            return False
        for t, c in l.v:
            if c < 0:
                continue
            if t.op in ('len', 'maplen') or t.ty in ('len', 'u8', 'bool'):
                if c > 256:
                    return False
            elif t in seen:
                if c > 1:
                    return False
            elif t in self.grown:
                if c > 1 or not all(self.sizelike(x, seen | {t}) for x in self.grown[t]):
                    return False
            else:
                return False
        return True

    def drop(self, st, fr, v, d=0):
        if d > 6:
            return
        if isinstance(v, Lib):
            models.drop_lib(self, st, fr, v)
        elif isinstance(v, Agg):
            for x in v.fs.values():
                if isinstance(x, (Lib, Agg, Seq)):
                    self.drop(st, fr, x, d + 1)
        elif isinstance(v, Seq):
            for x in v.ov.values():
                if isinstance(x, (Lib, Agg, Seq)):
                    self.drop(st, fr, x, d + 1)

    def call_term(self, fr, st, t, bb, pend):
        args = [self.operand(st, fr, a) for a in t['args']]
        if 'f' in t:
            c = t['f']
        else:
            fv = self.operand(st, fr, t['fptr'])
            c = None
            outs = None
            if isinstance(fv, Fn):
                c = self.T[fv.ty]['c']
            elif isinstance(fv, Agg) and fv.ty is not None and self.T[fv.ty]['k'] == 'closure':
                outs = self.call_closure(fr, st, fv, args, t['dt'], bb)
            else:
                self.fail(st, fr, 'indirect call', '')
        if c is None and 'f' not in t and outs is not None:
            pass
        elif c is None:
            outs = [(st, self.mkval(fresh('icall'), t['dt']))]
        else:
            outs = self.call(fr, st, c, args, t['dt'], bb)
        if t['to'] is None:
            return
        for s, v in outs:
            s = s.copy()
            try:
                pl = self.place(s, fr, t['dst'])
                self.write(s, pl, v)
                if 'store' in self.hooks:
                    self.hooks['store'](self, s, fr, pl, v, t)
                self.goto(pend, t['to'], s)
            except Infeasible:
                pass

    def call(self, fr, st, c, args, dty, bb=0):
        """call a resolved callee record: list of (state, value)"""
        p = c.get('rp') or c['p']
        self.calls_seen.setdefault(p, set()).add(self.site(fr))
        if 'call' in self.hooks:
            self.hooks['call'](self, st, fr, c, p, args)
        h = self.stop.get(p) or self.stop.get(c['p'])
        if h is not None:
            r = h(self, st, fr, c, args, dty)
            if r is not None:
                return r
        if self.exact:
            r = exact.attempt(self, fr, st, c, p, args, dty)
            if r is not None:
                return r
        m = models.lookup(c, p)
        if m is not None and c.get('rlocal') and c.get('body') and p in self.P.root_by_path and not self.P.root_by_path[p].get('derived'):
            m = None
        if m is not None:
            r = m(self, st, fr, c, args, dty)
            if r is not None:
                return r
        if c.get('body'):
            fn = self.P.fns[c['body']]
            return self.inline(fr, st, fn, c, args, bb)
        if c['p'].startswith('std::ops::Fn') and '::call' in c['p']:
            return self.call_closure(fr, st, args[0], self.untuple(st, args[1]), dty, bb)
        if c.get('kind') == 'virtual':
            r = self.devirt(fr, st, c, args, dty, bb)
            if r is not None:
                return r
        return self.unknown(fr, st, c, args, dty)

    def inline(self, fr, st, fn, c, args, bb):
        if '{closure' in fn['path'] and c['p'].startswith('std::ops::Fn') and fn['argc'] != len(args) or \
                ('{closure' in fn['path'] and c['p'].startswith('std::ops::Fn') and len(args) == 2):
            return self.call_closure_fn(fr, st, fn, args[0], self.untuple(st, args[1]), bb)
        return self.call_fn(fn, args, st, fr, bb)

    def untuple(self, st, v):
        if isinstance(v, Agg):
            n = max(v.fs.keys(), default=-1) + 1
            return [v.fs[i] for i in range(n)]
        if isinstance(v, Sym):
            ts = self.T[v.ty].get('ts', [])
            return [self.mkval(mk('fld', v.t, 0, i), x) for i, x in enumerate(ts)]
        return []

    def call_closure(self, fr, st, f, args, dty, bb=0, extra=None):
        """f: closure value, reference to one, or function item"""
        v = f
        n = 0
        while isinstance(v, Ref):
            v = self.read(st, v.p)
            n += 1
            if n > 4:
                break
        if isinstance(v, Fn):
            c = self.T[v.ty]['c']
            # tuple-struct / variant constructors used as functions
            return self.call(fr, st, c, args, dty, bb)
        if isinstance(v, (Agg, Sym)) and v.ty is not None and self.T[v.ty]['k'] == 'closure':
            fid = self.T[v.ty]['f']
            fn = self.P.fns.get(fid)
            if fn is not None:
                return self.call_closure_fn(fr, st, fn, f, args, bb, extra)
        if isinstance(v, (Agg, Sym)) and v.ty is not None and self.T[v.ty]['k'] == 'ref':
            pass
        # unknown function value
        s = st.copy()
        for a in args:
            self.havoc_val(s, a)
        return [(s, self.mkval(fresh('cbret'), dty) if dty is not None else self.unit())]

    def call_closure_fn(self, fr, st, fn, f, args, bb, extra=None):
        want_ref = self.T[fn['locals'][1][0]]['k'] == 'ref' if fn['argc'] >= 1 else False
        s = st
        if want_ref:
            # strip extra reference levels
            while isinstance(f, Ref):
                inner = self.read(s, f.p)
                if isinstance(inner, Ref):
                    f = inner
                else:
                    break
            if not isinstance(f, Ref):
                s = s.copy()
                root = ('L', self.fid(fr, bb, fn, ('env', extra)), -1)
                s.mem[root] = f
                f = Ref(Place(root), True)
        else:
            while isinstance(f, Ref):
                f = self.read(s, f.p)
        a = [f] + list(args)
        a = a[:fn['argc']]
        return self.call_fn(fn, a, s, fr, bb, extra)

    def devirt(self, fr, st, c, args, dty, bb):
        tr = c.get('trait')
        cands = []
        for im in self.P.impls:
            if im['trait'] == tr:
                for tm, imm in im['methods']:
                    if tm == c['p']:
                        fn = self.P.root_fn(imm)
                        if fn is not None:
                            cands.append((im, fn))
        if not cands:
            return None
        out = []
        for im, fn in cands:
            a = list(args)
            if isinstance(a[0], Ref):
                r = a[0].p.root
                if r[0] == 'R' and not a[0].p.pr:
                    a[0] = Ref(Place(('R', r[1], im['self_ty'])), a[0].mut)
            out.extend(self.call_fn(fn, a, st, fr, bb, fn['id']))
        return out

    def unknown(self, fr, st, c, args, dty):
        p = c.get('rp') or c['p']
        pure = models.is_pure(p) or models.is_pure(c['p'])
        if (c.get('pdoc') or c.get('tc') and not c.get('pmem')) and not models.is_total(p) and not models.is_total(c['p']):
            if self.site(fr)[0] != '?':
                self.fail(st, fr, 'panicking callee', p)
        if p not in self.unmodelled:
            self.unmodelled[p] = c
        s = st
        if not pure:
            s = st.copy()
            for a in args:
                self.havoc_val(s, a)
            return [(s, self.mkval(fresh('ret:' + p), dty))]
        return [(s, self.mkval(mk('call', p, *[self.argterm(st, a) for a in args]), dty))]

    def argterm(self, st, a):
        """value number of an argument, looking through shared references"""
        if isinstance(a, Num):
            s = a.lin.single()
            return s if s is not None else mk('lin', a.lin)
        if isinstance(a, BoolV):
            return mk('bool', intern_key(a.key()))
        if isinstance(a, Sym):
            return a.t
        if isinstance(a, SRef):
            return self.cterm(st, a)
        if isinstance(a, Seq):
            return self.content(a)
        if isinstance(a, Ref):
            v = self.read(st, a.p)
            return self.argterm(st, v)
        if isinstance(a, Agg):
            if a.base is not None and not a.fs:
                return a.base
            if len(a.fs) == 0:
                return mk('agg', a.ty, a.var)
            return mk('agg', a.ty, a.var, *[self.argterm(st, a.fs[i]) for i in sorted(a.fs)])
        if isinstance(a, Lib):
            return mk('lib', intern_key(a.key()))
        return mk('val', intern_key(a.key()))

    # ------------------------------------------------------------ partitioning
    def pkey(self, st, depth):
        out = []
        for k in sorted(st.mem, key=repr):
            s = self.shape(st, st.mem[k], depth)
            if s is not None:
                out.append((k, s))
        out.append(tuple(sorted(st.gh.items(), key=repr)))
        return tuple(out)

    def shape(self, st, v, d):
        if d <= 0:
            return None
        if isinstance(v, Agg):
            t = self.T[v.ty] if v.ty is not None else None
            sub = tuple((i, x) for i, x in ((i, self.shape(st, v.fs[i], d - 1)) for i in sorted(v.fs)) if x is not None)
            if t is not None and t.get('enum'):
                return (v.var, sub)
            return sub or None
        if isinstance(v, Sym):
            c = st.vs.get(v.t)
            t = self.T[v.ty]
            if t.get('enum') and c is not None and len(c) == 1:
                return (min(c), ())
            return None
        if isinstance(v, BoolV):
            r = self.decide(st, v.f) if v.f not in (True, False) else v.f
            return None if r is None else ('b', r)
        if isinstance(v, (Ref, SRef)):
            return ('p', v.p.root, tuple(p[:2] if p[0] != 'i' else ('i',) for p in v.p.pr)) if v.p.root[0] == 'L' else ('R',)
        if isinstance(v, Lib):
            return ('lib', v.kind) + tuple(self.shape(st, x, d - 1) for k, x in sorted(v.fs.items()) if hasattr(x, 'key'))
        return None

    def in_time(self):
        if self.deadline is not None and time.process_time() > self.deadline:
            raise Budget('time budget exhausted')

    def join(self, a, b):
        self.in_time()
        from joins import Joiner
        j = Joiner(self, a, b)
        s = j.run()
        self.stands(j)
        return s

    def stands(self, j):
        """note what the values made by a join stand for"""
        def lin(x):
            return x if isinstance(x, Lin) else L(x) if isinstance(x, Term) else L(fresh('any'))
        for q in j.newphis:
            self.grown.setdefault(q, []).extend((lin(j.ra.get(q)), lin(j.rb.get(q))))
        for q in j.phis:
            x = j.sig.get(q)
            if x is not None and x is not q and q in self.grown:
                x = lin(x)
                if x != L(q) and x not in self.grown[q]:
                    self.grown[q].append(x)

    def widen(self, h, b, phis, it):
        from joins import Joiner
        j = Joiner(self, h, b, loop=True, phis=phis, it=it)
        s = j.run()
        self.stands(j)
        return s, j.changed, j.newphis


_keys = {}


def product(x, y):
    """the product of two sums, over the products of their terms"""
    if len(x.v) * len(y.v) > 6:
        if repr(x) > repr(y):
            x, y = y, x
        return L(mk('mul', x, y, ty=None))
    r = L(x.k * y.k) + Lin(0, y.v).scale(x.k) + Lin(0, x.v).scale(y.k)
    for a, i in x.v:
        for b, j in y.v:
            p, q = L(a), L(b)
            if repr(p) > repr(q):
                p, q = q, p
            r = r + L(mk('mul', p, q, ty=None)).scale(i * j)
    return r


def lins_of(f):
    """the expressions of a formula"""
    if isinstance(f, Lin):
        yield f
    elif isinstance(f, (tuple, list, frozenset)):
        for x in f:
            yield from lins_of(x)


def split_multiple(x, d):
    """x = d * q + r with 0 <= r < d when every coefficient is a multiple of d"""
    if any(c % d for _, c in x.v):
        return None, None
    r = x.k % d
    q = L((x.k - r) // d)
    for t, c in x.v:
        q = q + L(t).scale(c // d)
    return q, r


def intern_key(k):
    """small stable id for a structural key"""
    x = _keys.get(k)
    if x is None:
        x = mk('key', len(_keys))
        _keys[k] = x
    return x


def dedupe(ss):
    seen = {}
    out = []
    for s in ss:
        k = (tuple(sorted(((repr(r), v.key()) for r, v in s.mem.items()), key=lambda x: x[0])),
             s.cons.cs, s.cons.ne, tuple(sorted(((t.id, tuple(sorted(x))) for t, x in s.vs.items()))),
             tuple(sorted((t.id, x) for t, x in s.at.items())), s.forms, tuple(sorted(s.gh.items(), key=repr)))
        if k in seen:
            continue
        seen[k] = True
        out.append(s)
    return out
