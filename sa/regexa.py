"""Regular expressions as automata: parser for the regex-crate syntax used in the repository, and an
exact decision procedure for 'two regexes match the same strings and capture the same substrings'
(product of the two determinised, priority-ordered tagged automata)."""

MAXU = 0x110000


class Bad(Exception):
    pass


# AST: ('set', ranges) ('cat', [..]) ('alt', [..]) ('rep', n, lo, hi, greedy) ('grp', idx, name, n)
#      ('bol',) ('eol',) ('eps',) ('wb', negated)

def parse(p):
    ast, P = _parse(p)
    return ast


def _parse(p):
    P = Parser(p)
    a = P.alt()
    if P.i != len(p):
        raise Bad('unbalanced at %d in %r' % (P.i, p))
    return a, P


class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.ng = 0
        self.names = {}
        self.flags = {'i': False, 's': False, 'm': False, 'U': False, 'x': False}

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        saved = dict(self.flags)
        xs = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.cat())
        self.flags = saved
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat(self):
        xs = []
        while self.peek() not in (None, '|', ')'):
            x = self.rep()
            if x is not None:
                xs.append(x)
        if not xs:
            return ('eps',)
        return xs[0] if len(xs) == 1 else ('cat', xs)

    def rep(self):
        x = self.atom()
        if x is None:
            return None
        while True:
            c = self.peek()
            if c == '*':
                lo, hi = 0, None
            elif c == '+':
                lo, hi = 1, None
            elif c == '?':
                lo, hi = 0, 1
            elif c == '{':
                j = self.s.index('}', self.i)
                b = self.s[self.i + 1:j]
                if ',' in b:
                    l, h = b.split(',')
                    lo, hi = int(l or 0), (int(h) if h else None)
                else:
                    lo = hi = int(b)
                self.i = j
            else:
                return x
            self.i += 1
            greedy = not self.flags['U']
            if self.peek() == '?':
                self.i += 1
                greedy = not greedy
            if hi is not None and hi < lo:
                raise Bad('bad repetition')
            x = ('rep', x, lo, hi, greedy)

    def atom(self):
        c = self.peek()
        self.i += 1
        if self.flags['x'] and c in ' \t\n\r':
            return None
        if c == '(':
            if self.s.startswith('?', self.i):
                if self.s.startswith('?P<', self.i) or (self.s.startswith('?<', self.i)):
                    j = self.s.index('>', self.i)
                    name = self.s[self.s.index('<', self.i) + 1:j]
                    self.i = j + 1
                    self.ng += 1
                    g = self.ng
                    if name in self.names or not name:
                        raise Bad('duplicate group')
                    self.names[name] = g
                    x = self.alt()
                    r = ('grp', g, name, x)
                else:
                    j = self.i + 1
                    on = True
                    fl = dict(self.flags)
                    while self.s[j] not in ':)':
                        if self.s[j] == '-':
                            on = False
                        elif self.s[j] in fl:
                            fl[self.s[j]] = on
                        else:
                            raise Bad('flag')
                        j += 1
                    if self.s[j] == ')':
                        self.flags = fl
                        self.i = j + 1
                        return None
                    self.i = j + 1
                    saved = self.flags
                    self.flags = fl
                    r = self.alt()
                    self.flags = saved
            else:
                self.ng += 1
                g = self.ng
                x = self.alt()
                r = ('grp', g, None, x)
            if self.peek() != ')':
                raise Bad('unclosed group')
            self.i += 1
            return r
        if c == '[':
            return self.cls()
        if c == '.':
            return ('set', ((0, MAXU - 1),)) if self.flags['s'] else ('set', neg([(10, 10)]))
        if c == '^':
            if self.flags['m']:
                raise Bad('multiline')
            return ('bol',)
        if c == '$':
            if self.flags['m']:
                raise Bad('multiline')
            return ('eol',)
        if c == '\\':
            return self.esc()
        if c in '*+?{':
            raise Bad('nothing to repeat')
        return self.lit(ord(c))

    def lit(self, o):
        if self.flags['i'] and chr(o).isalpha():
            if o > 127:
                raise Bad('case-insensitive non-ascii')
            return ('set', norm([(ord(chr(o).lower()),) * 2, (ord(chr(o).upper()),) * 2]))
        return ('set', ((o, o),))

    def esc(self):
        c = self.peek()
        self.i += 1
        if c is None:
            raise Bad('trailing backslash')
        m = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7}
        if c in m:
            return self.lit(m[c])
        if c == 'A':
            return ('bol',)
        if c == 'z':
            return ('eol',)
        if c in 'dDwWsS':
            # the regex crate's classes are Unicode-aware; only the ASCII part is distinguished here
            return ('set', self.perl(c))
        if c == 'x':
            if self.peek() == '{':
                j = self.s.index('}', self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                v = int(self.s[self.i:self.i + 2], 16)
                self.i += 2
            return self.lit(v)
        if c.isalnum():
            raise Bad('escape \\%s' % c)
        return self.lit(ord(c))

    def perl(self, c):
        U = (0x80, MAXU - 1)   # the Unicode part of \d \w \s: kept apart as a pseudo range
        base = {'d': [(48, 57)], 'w': [(48, 57), (65, 90), (95, 95), (97, 122)], 's': [(9, 13), (32, 32)]}[c.lower()]
        uni = {'d': (0x660, 0x669), 'w': (0xC0, 0xD6), 's': (0x2000, 0x200a)}[c.lower()]
        r = norm(base + [uni])
        return neg(r) if c.isupper() else r

    def cls(self):
        negd = False
        if self.peek() == '^':
            negd = True
            self.i += 1
        rs = []
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise Bad('unclosed class')
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[' and self.s.startswith('[:', self.i):
                j = self.s.index(':]', self.i)
                name = self.s[self.i + 2:j]
                tab = {'alpha': [(65, 90), (97, 122)], 'digit': [(48, 57)], 'alnum': [(48, 57), (65, 90), (97, 122)],
                       'lower': [(97, 122)], 'upper': [(65, 90)], 'space': [(9, 13), (32, 32)],
                       'xdigit': [(48, 57), (65, 70), (97, 102)], 'word': [(48, 57), (65, 90), (95, 95), (97, 122)]}
                if name not in tab:
                    raise Bad('class')
                rs.extend(tab[name])
                self.i = j + 2
                continue
            if c in '[&~' and self.s[self.i:self.i + 2] in ('[', '&&', '~~', '--'):
                raise Bad('set operation')
            x = self.clsatom()
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] != ']':
                self.i += 1
                y = self.clsatom()
                rs.append((x[0][0], y[0][0]))
            else:
                rs.extend(x)
        if self.flags['i']:
            ex = []
            for a, b in rs:
                for o in range(a, min(b, 127) + 1):
                    if chr(o).isalpha():
                        ex += [(ord(chr(o).lower()),) * 2, (ord(chr(o).upper()),) * 2]
            rs += ex
        rs = norm(rs)
        return ('set', neg(rs) if negd else rs)

    def clsatom(self):
        c = self.peek()
        self.i += 1
        if c == '\\':
            fl = self.flags
            self.flags = dict(fl, i=False)
            x = self.esc()
            self.flags = fl
            if x[0] != 'set':
                raise Bad('class escape')
            return list(x[1])
        return [(ord(c), ord(c))]


def norm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def neg(rs):
    out = []
    p = 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p < MAXU:
        out.append((p, MAXU - 1))
    return tuple(out)


def groups(p):
    ast, P = _parse(p)
    return P.ng, P.names


def group_status(ast, g):
    """does group g (index or name) participate in every match / no match / some matches?"""
    def occurs(a):
        if a[0] == 'grp':
            return a[1] == g or a[2] == g or occurs(a[3])
        if a[0] in ('cat', 'alt'):
            return any(occurs(x) for x in a[1])
        if a[0] == 'rep':
            return occurs(a[1])
        return False

    def always(a):
        if a[0] == 'grp':
            return a[1] == g or a[2] == g or always(a[3])
        if a[0] == 'cat':
            return any(always(x) for x in a[1])
        if a[0] == 'alt':
            return all(always(x) for x in a[1])
        if a[0] == 'rep':
            return a[2] >= 1 and always(a[1])
        return False
    if g == 0:
        return 'always'
    if not occurs(ast):
        return 'never'
    return 'always' if always(ast) else 'maybe'


# ---------------------------------------------------------------- automata
class NFA:
    """Thompson automaton with priorities: instructions
    ('set', ranges, next) ('split', [n1, n2, ..]) ('tag', t, next) ('bol', next) ('eol', next) ('match',)"""

    def __init__(self, ast, want):
        """want: list of capture keys (name or index) whose start/end are tags 2i / 2i+1"""
        self.ins = []
        self.want = want
        m = self.add(('match',))
        s = self.comp(ast, m)
        # unanchored search: lowest-priority self loop on any character
        loop = self.add(None)
        anyc = self.add(('set', ((0, MAXU - 1),), loop))
        self.ins[loop] = ('split', [s, anyc])
        self.start = loop

    def add(self, x):
        self.ins.append(x)
        return len(self.ins) - 1

    def comp(self, a, nx):
        k = a[0]
        if k == 'eps':
            return nx
        if k == 'set':
            return self.add(('set', a[1], nx))
        if k == 'cat':
            for x in reversed(a[1]):
                nx = self.comp(x, nx)
            return nx
        if k == 'alt':
            return self.add(('split', [self.comp(x, nx) for x in a[1]]))
        if k == 'grp':
            ts = [i for i, w in enumerate(self.want) if w is not None and (w == a[1] or w == a[2])]
            e = nx
            for i in ts:
                e = self.add(('tag', 2 * i + 1, e))
            s = self.comp(a[3], e)
            for i in ts:
                s = self.add(('tag', 2 * i, s))
            return s
        if k == 'rep':
            _, n, lo, hi, greedy = a
            if hi is None:
                loop = self.add(None)
                body = self.comp(n, loop)
                self.ins[loop] = ('split', [body, nx] if greedy else [nx, body])
                cur = loop
            else:
                cur = nx
                for _i in range(hi - lo):
                    body = self.comp(n, cur)
                    cur = self.add(('split', [body, nx] if greedy else [nx, body]))
            for _i in range(lo):
                cur = self.comp(n, cur)
            return cur
        if k in ('bol', 'eol'):
            return self.add((k, nx))
        raise Bad(k)

    def closure(self, threads, atstart, atend, label):
        """threads: priority list of (state, tags); follows empty moves in priority order.
        label: the value a tag gets now. Without atend, end-of-line assertions stay as waiting states."""
        out = []
        seen = set()

        def go(s, tags):
            stack = [(s, tags)]
            while stack:
                s, tags = stack.pop()
                if s in seen:
                    continue
                seen.add(s)
                i = self.ins[s]
                if i[0] == 'split':
                    for x in reversed(i[1]):
                        stack.append((x, tags))
                elif i[0] == 'tag':
                    t = list(tags)
                    t[i[1]] = label
                    stack.append((i[2], tuple(t)))
                elif i[0] == 'bol':
                    if atstart:
                        stack.append((i[1], tags))
                elif i[0] == 'eol':
                    if atend:
                        stack.append((i[1], tags))
                    else:
                        out.append((s, tags))
                else:
                    out.append((s, tags))
        for s, tags in threads:
            go(s, tags)
        return out


def alphabet(asts, exclude=()):
    """representative characters of the coarsest partition all sets respect"""
    cuts = {0, MAXU, 0x80}

    def walk(a):
        if a[0] == 'set':
            for lo, hi in a[1]:
                cuts.add(lo)
                cuts.add(hi + 1)
        elif a[0] == 'grp':
            walk(a[3])
        elif a[0] in ('cat', 'alt'):
            for x in a[1]:
                walk(x)
        elif a[0] == 'rep':
            walk(a[1])
    for a in asts:
        walk(a)
    for lo, hi in exclude:
        cuts.add(lo)
        cuts.add(hi + 1)
    cs = sorted(cuts)
    return [c for c in cs[:-1] if not any(lo <= c <= hi for lo, hi in exclude)]


def inset(c, rs):
    return any(lo <= c <= hi for lo, hi in rs)


def same_captures(pa, wa, pb, wb, exclude=(), limit=200000):
    """Decide whether the two patterns match the same strings and, where they match, bind the capture
    lists wa and wb (names/indices, pairwise) to the same substrings. Characters in `exclude` never occur.
    Returns (True, states explored) or (False, witness string, what differs)."""
    A, B = NFA(parse(pa), wa), NFA(parse(pb), wb)
    sig = alphabet([parse(pa), parse(pb)], exclude)
    nt = 2 * max(len(wa), len(wb))
    z = tuple([None] * nt)

    def result(threads, nfa, atstart, label):
        r = nfa.closure(threads, atstart, True, label)
        for s, tags in r:
            if nfa.ins[s][0] == 'match':
                return tags
        return None

    def step(threads, nfa, atstart, label, c):
        """after reading c: a thread that is already 'match' keeps the match if it has priority"""
        cl = nfa.closure(threads, atstart, False, label)
        out = []
        for s, tags in cl:
            i = nfa.ins[s]
            if i[0] == 'match':
                out.append((s, tags))
                break            # lower-priority threads are cut off
            if i[0] == 'set' and inset(c, i[1]):
                out.append((i[2], tags))
        seen = set()
        res = []
        for s, tags in out:
            if s not in seen:
                seen.add(s)
                res.append((s, tags))
        return res

    def canon(ta, tb):
        m = {}
        def lab(t):
            out = []
            for x in t:
                if x is None:
                    out.append(None)
                else:
                    out.append(m.setdefault(x, len(m)))
            return tuple(out)
        a = tuple((s, lab(t)) for s, t in ta)
        b = tuple((s, lab(t)) for s, t in tb)
        return a, b

    init = (((A.start, z),), ((B.start, z),), True)
    seen = {init}
    work = [(init, '')]
    n = 0
    while work:
        (ta, tb, st), w = work.pop(0)
        n += 1
        if n > limit:
            raise Bad('state limit')
        ra = result(ta, A, st, 'now')
        rb = result(tb, B, st, 'now')
        if (ra is None) != (rb is None):
            return (False, w, 'only the %s pattern matches' % ('first' if rb is None else 'second'))
        if ra is not None and ra != rb:
            return (False, w, 'captures differ')
        for c in sig:
            na = step(ta, A, st, 'now', c)
            nb = step(tb, B, st, 'now', c)
            a, b = canon(na, nb)
            k = (a, b, False)
            if k not in seen:
                seen.add(k)
                work.append((k, w + chr(c)))
    return (True, n)


def language_subset(pa, pb, exclude=()):
    """every string matched by pa is matched by pb"""
    A, B = NFA(parse(pa), []), NFA(parse(pb), [])
    sig = alphabet([parse(pa), parse(pb)], exclude)

    def clos(n, ss, st, end):
        return [s for s, _ in n.closure([(s, ()) for s in ss], st, end, None)]

    def acc(n, ss, st):
        return any(n.ins[s][0] == 'match' for s in clos(n, ss, st, True))

    def step(n, ss, st, c):
        out = set()
        for s in clos(n, ss, st, False):
            i = n.ins[s]
            if i[0] == 'match':
                out.add(s)
            elif i[0] == 'set' and inset(c, i[1]):
                out.add(i[2])
        return frozenset(out)
    init = (frozenset([A.start]), frozenset([B.start]), True)
    seen = {init}
    work = [(init, '')]
    while work:
        (a, b, st), w = work.pop(0)
        if acc(A, a, st) and not acc(B, b, st):
            return (False, w)
        for c in sig:
            k = (step(A, a, st, c), step(B, b, st, c), False)
            if k not in seen:
                seen.add(k)
                work.append((k, w + chr(c)))
    return (True, len(seen))


def intersect_nonempty(pa, pb, exclude=()):
    """a string both patterns match, or None"""
    A, B = NFA(parse(pa), []), NFA(parse(pb), [])
    sig = alphabet([parse(pa), parse(pb)], exclude)

    def clos(n, ss, st, end):
        return [s for s, _ in n.closure([(s, ()) for s in ss], st, end, None)]

    def acc(n, ss, st):
        return any(n.ins[s][0] == 'match' for s in clos(n, ss, st, True))

    def step(n, ss, st, c):
        out = set()
        for s in clos(n, ss, st, False):
            i = n.ins[s]
            if i[0] == 'match':
                out.add(s)
            elif i[0] == 'set' and inset(c, i[1]):
                out.add(i[2])
        return frozenset(out)
    init = (frozenset([A.start]), frozenset([B.start]), True)
    seen = {init}
    work = [(init, '')]
    while work:
        (a, b, st), w = work.pop(0)
        if acc(A, a, st) and acc(B, b, st):
            return w
        for c in sig:
            k = (step(A, a, st, c), step(B, b, st, c), False)
            if k not in seen:
                seen.add(k)
                work.append((k, w + chr(c)))
    return None
