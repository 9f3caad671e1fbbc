"""Abstract values, places and the abstract state."""
from terms import Term, Lin, L, mk, fresh, Cons, show, syms_of, subst


class Num:
    __slots__ = ('lin', 'ty', '_fr')

    def __init__(self, lin, ty):
        self.lin, self.ty = lin, ty

    def key(self):
        return ('n', self.lin)

    def __repr__(self):
        return 'Num(%r)' % (self.lin,)


class BoolV:
    """f: formula -- True | False | ('ge',Lin) | ('eq',Lin) | ('var',Term,frozenset) | ('atom',Term)
    | ('not',f) | ('and',(f..)) | ('or',(f..))"""
    __slots__ = ('f', '_fr')

    def __init__(self, f):
        self.f = f

    def key(self):
        return ('b', self.f)

    def __repr__(self):
        return 'Bool(%s)' % (fshow(self.f),)


class Agg:
    """struct / tuple / closure / array / known enum variant. fields: dict idx -> value;
    missing fields are projections of `base`."""
    __slots__ = ('ty', 'var', 'fs', 'base', '_fr')

    def __init__(self, ty, var, fs, base=None):
        self.ty, self.var, self.fs, self.base = ty, var, fs, base

    def key(self):
        return ('a', self.ty, self.var, tuple((i, self.fs[i].key()) for i in sorted(self.fs)), self.base)

    def __repr__(self):
        return 'Agg(%s:%s %r%s)' % (self.ty, self.var, self.fs, '' if self.base is None else ' base=%r' % self.base)


class Sym:
    __slots__ = ('t', 'ty', '_fr')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def key(self):
        return ('s', self.t, self.ty)

    def __repr__(self):
        return 'Sym(%r)' % (self.t,)


class Place:
    """root + projections; view=(off,len) for an unsized subrange of the sequence at that place"""
    __slots__ = ('root', 'pr', 'view', '_k')

    def __init__(self, root, pr=(), view=None):
        self.root, self.pr, self.view = root, pr, view
        self._k = (root, pr, view)

    def __eq__(self, o):
        return self._k == o._k

    def __hash__(self):
        return hash(self._k)

    def f(self, *p):
        return Place(self.root, self.pr + p)

    def __repr__(self):
        return 'P(%s%s%s)' % (show(self.root), ''.join('.' + show(p) for p in self.pr), '' if self.view is None else show(self.view))


class Ref:
    __slots__ = ('p', 'mut', '_fr')

    def __init__(self, p, mut=False):
        self.p, self.mut = p, mut

    def key(self):
        return ('r', self.p._k)

    def __repr__(self):
        return '&%r' % (self.p,)


class SRef:
    """fat reference to a subrange of a sequence place"""
    __slots__ = ('p', 'off', 'len', 'el', '_fr')

    def __init__(self, p, off, ln, el):
        self.p, self.off, self.len, self.el = p, off, ln, el

    def key(self):
        return ('sr', self.p._k, self.off, self.len)

    def __repr__(self):
        return '&%r[%r;%r]' % (self.p, self.off, self.len)


class Seq:
    """Vec/String/str/slice contents. t: content value number; ov: overlay {Lin: value};
    attrs: frozenset of facts about the whole content."""
    __slots__ = ('t', 'len', 'ov', 'el', 'attrs', '_fr')

    def __init__(self, t, ln, el, ov=None, attrs=frozenset()):
        self.t, self.len, self.el, self.ov, self.attrs = t, ln, el, ov or {}, attrs

    def key(self):
        return ('q', self.t, self.len, tuple(sorted(((i, v.key()) for i, v in self.ov.items()), key=repr)), self.attrs)

    def __repr__(self):
        return 'Seq(%r len=%r%s%s)' % (self.t, self.len, ' ov=%r' % self.ov if self.ov else '', ' %r' % set(self.attrs) if self.attrs else '')


class Lib:
    """modelled library object: kind + fields (values, Lins, Places or plain data)"""
    __slots__ = ('kind', 'fs', '_fr')

    def __init__(self, kind, **fs):
        self.kind = kind
        self.fs = fs

    def __getitem__(self, k):
        return self.fs[k]

    def with_(self, **kw):
        d = dict(self.fs)
        d.update(kw)
        return Lib(self.kind, **d)

    def key(self):
        return ('l', self.kind, tuple((k, kk(self.fs[k])) for k in sorted(self.fs)))

    def __repr__(self):
        return 'Lib(%s %r)' % (self.kind, self.fs)


class Fn:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def key(self):
        return ('f', self.ty)

    def __repr__(self):
        return 'Fn(%s)' % self.ty


class Uninit:
    __slots__ = ()

    def key(self):
        return ('u',)

    def __repr__(self):
        return 'Uninit'


UNINIT = Uninit()


def kk(x):
    if hasattr(x, 'key'):
        return x.key()
    if isinstance(x, Place):
        return x._k
    if isinstance(x, dict):
        return tuple((k, kk(v)) for k, v in sorted(x.items(), key=repr))
    if isinstance(x, (list, tuple)):
        return tuple(kk(v) for v in x)
    return x


# ---------------------------------------------------------------- formulas
def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    if f[0] == 'ge':
        return ('ge', -f[1] - 1)
    return ('not', f)


def fand(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def for_(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def fge(l):
    if not l.v:
        return l.k >= 0
    return ('ge', l)


def feq(l):
    if not l.v:
        return l.k == 0
    return ('eq', l)


def fshow(f):
    if f is True or f is False:
        return str(f)
    if f[0] in ('and', 'or'):
        return '(' + (' %s ' % f[0]).join(fshow(x) for x in f[1]) + ')'
    if f[0] == 'not':
        return 'not ' + fshow(f[1])
    if f[0] == 'ge':
        return '%r>=0' % (f[1],)
    if f[0] == 'eq':
        return '%r==0' % (f[1],)
    if f[0] == 'var':
        return '%r in %s' % (f[1], sorted(f[2]))
    return repr(f)


class State:
    """mem: root -> value; cons: numeric constraints; vs: term -> frozenset of possible variants;
    at: atom term -> bool; forms: formulas known true but not decomposed; gh: ghost variables."""
    __slots__ = ('mem', 'cons', 'vs', 'at', 'forms', 'gh', 'alias', 'types', 'inv')

    def __init__(self):
        self.mem = {}
        self.cons = Cons.EMPTY
        self.vs = {}
        self.at = {}
        self.forms = frozenset()
        self.gh = {}
        self.alias = {}
        self.inv = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.vs = dict(self.vs)
        s.at = dict(self.at)
        s.forms = self.forms
        s.gh = dict(self.gh)
        s.alias = dict(self.alias)
        s.inv = self.inv
        return s


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- generalised symbols in values
def freshes(x):
    """the '?' symbols a term, expression, formula or value mentions"""
    if isinstance(x, Term):
        r = _FR.get(x)
        if r is None:
            r = frozenset(t for t in syms_of(x) if t.op[0] == '?')
            _FR[x] = r
        return r
    if isinstance(x, Lin):
        if not x.v:
            return _NONE
        if len(x.v) == 1:
            return freshes(x.v[0][0])
        s = set()
        for t, _ in x.v:
            s |= freshes(t)
        return s
    if isinstance(x, (tuple, list)):
        s = set()
        for y in x:
            if isinstance(y, (Term, Lin, tuple, list, Place)) or hasattr(y, '_fr') or hasattr(y, 'key'):
                s |= freshes(y)
        return s
    if isinstance(x, Place):
        return freshes(x._k)
    if isinstance(x, dict):
        s = set()
        for k, y in x.items():
            s |= freshes(k) | freshes(y)
        return s
    try:
        return x._fr
    except AttributeError:
        pass
    if isinstance(x, Num):
        r = freshes(x.lin)
    elif isinstance(x, BoolV):
        r = freshes(x.f) if isinstance(x.f, tuple) else _NONE
    elif isinstance(x, Sym):
        r = freshes(x.t)
    elif isinstance(x, Agg):
        r = set() if x.base is None else set(freshes(x.base))
        for y in x.fs.values():
            r |= freshes(y)
    elif isinstance(x, Ref):
        r = freshes(x.p)
    elif isinstance(x, SRef):
        r = set(freshes(x.p)) | set(freshes(x.off)) | set(freshes(x.len))
    elif isinstance(x, Seq):
        r = set(freshes(x.t)) | set(freshes(x.len))
        for i, y in x.ov.items():
            r |= freshes(i)
            r |= freshes(y)
    elif isinstance(x, Lib):
        r = freshes(x.fs)
    else:
        return _NONE
    r = frozenset(r)
    try:
        x._fr = r
    except AttributeError:
        pass
    return r


_FR = {}
_NONE = frozenset()


def gc(st):
    """forget what is known about generalised symbols no live value mentions (sound: a projection)"""
    live = set()
    rs = []
    for r, v in st.mem.items():
        if r[0] == 'R' or r[0] == 'B':
            rs.append((r, v))
        else:
            live |= freshes(v)
    for v in st.gh.values():
        live |= freshes(v)
    for v in st.alias.values():
        live |= freshes(v)
    while rs:
        n = []
        for r, v in rs:
            if freshes(r[1]) <= live:
                live |= freshes(v)
            else:
                n.append((r, v))
        if len(n) == len(rs):
            break
        rs = n
    dead = {r for r, _ in rs}
    def ok(x):
        return freshes(x) <= live
    changed = bool(dead)
    mem = {r: v for r, v in st.mem.items() if r not in dead} if dead else st.mem
    vs = {t: x for t, x in st.vs.items() if ok(t)}
    at = {t: x for t, x in st.at.items() if ok(t)}
    forms = frozenset(f for f in st.forms if ok(f))
    cons = st.cons.project(ok)
    alias = {r: v for r, v in st.alias.items() if r not in dead}
    inv = frozenset(t for t in st.inv if ok(t))
    if not dead and len(vs) == len(st.vs) and len(at) == len(st.at) and forms == st.forms and cons is st.cons and len(inv) == len(st.inv):
        return st
    s = st.copy()
    s.mem, s.vs, s.at, s.forms, s.cons, s.alias, s.inv = mem, vs, at, forms, cons, alias, inv
    return s
