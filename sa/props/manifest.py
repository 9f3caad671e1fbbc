"""Parsed manifests: every line template, over arbitrary words."""
from base import each
from lab import *
from terms import L, mk, fresh
import models

PARSE = 'manifest::Manifest::parse'
MAN, VOL = 'manifest::Manifest', 'manifest::Volume'
READ = ('std::io::BufRead::read_until', 'alloc::io::impls::<impl std::io::BufRead for &mut B>::read_until')


class Word:
    """a word of arbitrary bytes: no separator, no quote, no escape unless told otherwise"""

    def __init__(self, name, n, no=b' \n\r\\"'):
        self.name, self.n, self.no = name, n, no


class Text:
    """a manifest: lines given as lists of bytes and words"""

    def __init__(self, P, rep, lines, errors=False, **kw):
        kw.setdefault('joinlim', 4000)
        kw.setdefault('retlim', 4000)
        kw.setdefault('maxsteps', 2000000)
        self.lab = Lab(P, rep, **kw)
        E = self.lab.E
        E.exact = True
        E.unroll, E.kept = 64, 4000
        self.errors = errors
        for r in READ:
            E.stop[r] = self.read
        st = self.st = self.lab.state()
        self.words = {}
        self.lines = [self.line(st, k, x) for k, x in enumerate(lines)]
        st.gh = dict(st.gh, line=0)

    def line(self, st, k, parts):
        E = self.lab.E
        xs = []
        for p in parts:
            if isinstance(p, Word):
                w = []
                for i in range(p.n):
                    b = self.lab.sym('%s.%d' % (p.name, i), E.P.u8)
                    for c in p.no:
                        st.cons = st.cons.add_ne(b.lin - c)
                    w.append(b)
                self.words[p.name] = w
                xs.extend(w)
            else:
                xs.extend(Num(L(c), 'u8') for c in p)
        return xs

    def read(self, E, st, fr, c, args, dty):
        """the next line, or an error of the reader"""
        s = models.sref(E, st, args[2])
        v = E.seq_at(st, s)
        if not v.len.is_const():
            raise Missing('what the buffer of a line contains')
        k = st.gh['line']
        out = []
        if self.errors:
            s1 = st.copy()
            s1.gh = dict(s1.gh, readerr=k)
            e = E.mkval(mk('ioerr', mk('line', k)), models.payload_ty(E, dty, 1))
            out.append((s1, models.err(dty, e)))
        s2 = st.copy()
        new = self.lines[k] if k < len(self.lines) else []
        s2.gh = dict(s2.gh, line=k + 1)
        xs = [E.elem(s2, v, L(i)) for i in range(v.len.k)] + new
        models.setseq(E, s2, s, Seq(mk('empty', E.P.u8), L(len(xs)), E.P.u8, {L(i): x for i, x in enumerate(xs)}))
        out.append((s2, models.ok(dty, Num(L(len(new)), 'usize'))))
        return out

    def run(self):
        lab = self.lab
        r = lab.obj(self.st, 'input', None, lab.sym('input', lab.P.T[lab.argty(PARSE, 0)]['t']), mut=True)
        return lab.call(self.st, PARSE, [r])



# ---------------------------------------------------------------- what a text stands for
def lins(w):
    return [L(c) for c in w] if isinstance(w, bytes) else [b.lin for b in w]


def code(xs):
    """content term of a list of bytes"""
    if all(x.is_const() for x in xs):
        return mk('const', bytes(x.k for x in xs))
    return mk('bytes', *xs)


def tokens(t, parts):
    """words of a line, without its end; None when it has none at all"""
    xs = []
    for p in parts:
        xs.extend(lins(t.words[p.name] if isinstance(p, Word) else p))
    if xs and xs[-1].is_const() and xs[-1].k == 10:
        xs.pop()
    if xs and xs[-1].is_const() and xs[-1].k == 13:
        xs.pop()
    if not xs:
        return None
    out, cur = [], []
    for x in xs:
        if x.is_const() and x.k == 32:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def plain(xs):
    """a word without quotes around it; escapes are not for this rule"""
    if len(xs) > 1 and xs[0].is_const() and xs[0].k == 34:
        return xs[1:-1]
    return list(xs)


class Reference:
    """[(state, outcome)]: the outcome is ('Ok', description) or (error, payload)"""

    def __init__(self, t, spec):
        self.t, self.lab, self.spec = t, t.lab, spec
        self.res = None
        for i, ty in enumerate(t.lab.P.T):
            if ty['s'] == 'std::result::Result<usize, std::num::ParseIntError>':
                self.res = i
        if self.res is None:
            raise Missing('parsing of numbers')

    def utf8(self, st, xs):
        f = utf8f(code(xs))
        return [(s, b) for b in (True, False) for s in self.lab.when(st, f, b)]

    def number(self, st, xs):
        """[(state, value or None, error)]"""
        E = self.lab.E
        v = models.parsed(E, code(xs), self.res)
        return [(s, p[0] if n == 'Ok' else None, p[0]) for s, n, p in self.lab.variants(st, v)]

    def equal(self, st, xs, key):
        f = fand(*[feq(a - b) for a, b in zip(xs, key)]) if len(xs) == len(key) else False
        return [(s, b) for b in (True, False) for s in self.lab.when(st, f, b)]

    def line(self, st, k, key, go):
        """go(state, words after the keyword) when the line starts with the keyword"""
        if st.gh.get('readerr') == k:
            return [(st, ('Io', ('reader', k)))]
        toks = tokens(self.t, self.spec[k]) if k < len(self.spec) else None
        if toks is None:
            return [(st, ('Io', ('end', k)))]
        out = []
        kw = toks[0] if toks else []
        for s, u in self.utf8(st, kw):
            if not u:
                out.append((s, ('Utf8', None)))
                continue
            for s2, same in self.equal(s, kw, key):
                if same:
                    out.extend(go(s2, toks[1:]))
                else:
                    out.append((s2, ('MissingKeyword', key)))
        return out

    def run(self, st):
        def host(s, w):
            h = plain(w[0]) if w else []
            r = []
            for s2, u in self.utf8(s, h):
                r.extend(self.line(s2, 1, b'Localdir', lambda s3, w2: self.volumes(s3, dict(hostname=h, local=plain(w2[0]) if w2 else []), [], 2)) if u else [(s2, ('Utf8', None))])
            return r
        return self.line(st, 0, b'Hostname', host)

    def volumes(self, st, d, vols, k):
        if st.gh.get('readerr') == k:
            return [(st, ('Io', ('reader', k)))]
        if k >= len(self.spec) or tokens(self.t, self.spec[k]) is None:
            return [(st, ('Ok', dict(d, volumes=vols)))]

        def number(s, w):
            n = plain(w[0]) if w else []
            r = []
            for s1, u in self.utf8(s, n):
                if not u:
                    r.append((s1, ('Utf8', None)))
                    continue
                for s2, colon in ([(x, b) for b in (True, False) for x in self.lab.when(s1, feq(n[-1] - 58), b)] if n else [(s1, False)]):
                    for s3, v, e in self.number(s2, n[:-1] if colon else n):
                        r.extend(self.line(s3, k + 1, b'StartingPath', lambda s4, w4: path(s4, w4, lambda s5, a: self.line(s5, k + 2, b'EndingPath', lambda s6, w6: path(s6, w6, lambda s7, b: self.line(s7, k + 3, b'Hash', lambda s8, w8: hashed(s8, w8, v, a, b))))))
                                 if v is not None else [(s3, ('ParseInt', e))])
            return r

        def path(s, w, go):
            if not w:
                return [(s, ('MissingPath', None))]
            p = plain(w[0])
            if len(w) < 2:
                return go(s, (p, None))
            r = []
            for s1, u in self.utf8(s, w[1]):
                if not u:
                    r.append((s1, ('Utf8', None)))
                    continue
                for s2, v, e in self.number(s1, w[1]):
                    r.extend(go(s2, (p, v)) if v is not None else [(s2, ('ParseInt', e))])
            return r

        def hashed(s, w, v, a, b):
            if not w:
                return [(s, ('MissingHashType', None))]
            r = []
            for s1, u in self.utf8(s, w[0]):
                if not u:
                    r.append((s1, ('Utf8', None)))
                elif len(w) < 2:
                    r.append((s1, ('MissingHash', None)))
                else:
                    for s2 in self.lab.when(s1, feq(v.lin - len(vols) - 1), True):
                        r.extend(self.volumes(s2, d, vols + [dict(start=a, end=b, hash_type=w[0], hash=bytes.fromhex(bytes(x.k for x in w[1]).decode()))], k + 4))
                    for s2 in self.lab.when(s1, feq(v.lin - len(vols) - 1), False):
                        r.append((s2, ('OutOfOrderVolume', v)))
            return r
        return self.line(st, k, b'Volume', number)


def utf8f(c):
    if c.op == 'const':
        try:
            c.args[0].decode()
            return True
        except UnicodeDecodeError:
            return False
    return ('atom', mk('utf8', c, ty='bool'))


# ---------------------------------------------------------------- comparison
def content(lab, st, v):
    """content term of a text or path"""
    q = lab.seq(st, v)
    return None if q is None else lab.E.cterm(st, q)


def optional(lab, st, v):
    """[(state, payload or None)]"""
    return [(s, p[0] if n == 'Some' else None) for s, n, p in lab.variants(st, v)]


def observed(rep, t, st, ref, want, key):
    """a parsed manifest shows what its lines say"""
    lab = t.lab

    def text(f, args, xs, what):
        for s, v in lab.call(st, f, args):
            got = content(lab, s, v)
            rep.ob(got is code(xs), '%s|%s' % (what, key), '%s shows %s instead of %s' % (f, got, code(xs)), f)

    def path(f, args, xs, what):
        for s, v in lab.call(st, f, args):
            for s2, p in optional(lab, s, v):
                got = None if p is None else content(lab, s2, p)
                rep.ob(got is code(xs), '%s|%s' % (what, key), '%s shows %s instead of %s' % (f, got, code(xs)), f)

    text(MAN + '::hostname', [ref], want['hostname'], 'host name')
    path(MAN + '::local_dir', [ref], want['local'], 'local directory')
    n = len(want['volumes'])
    f = MAN + '::last_volume_index'
    for s, v in lab.call(st, f, [ref]):
        rep.ob(s.cons.proves_eq(v.lin - n), 'number of volumes|' + key, 'the last volume index is not %d' % n, f)
    f = MAN + '::volume'
    for i in (0, n + 1):
        for s, v in lab.call(st, f, [ref, Num(L(i), 'usize')]):
            for s2, p in optional(lab, s, v):
                rep.ob(p is None, 'no such volume|' + key, 'volume %d of %d is there' % (i, n), f)
    big = lab.sym('index', lab.P.ty_by_s['usize'])
    for s0 in lab.when(st, fge(big.lin - n - 1)):
        for s, v in lab.call(s0, f, [ref, big]):
            for s2, p in optional(lab, s, v):
                rep.ob(p is None, 'no such volume|' + key, 'a volume past the last one is there', f)
    for i, w in enumerate(want['volumes']):
        for s, v in lab.call(st, MAN + '::volume', [ref, Num(L(i + 1), 'usize')]):
            for s2, p in optional(lab, s, v):
                rep.ob(p is not None, 'volume there|' + key, 'volume %d of %d is not there' % (i + 1, n), f)
                if p is None:
                    continue
                st2, st = st, s2
                for g, side in (('start', 'start'), ('end', 'end')):
                    xs, b = w[side]
                    path('%s::%s_path' % (VOL, g), [p], xs, g + ' path')
                    text('%s::%s_path_bytes' % (VOL, g), [p], xs, g + ' path')
                    fb = '%s::%s_block' % (VOL, g)
                    for s3, o in lab.call(s2, fb, [p]):
                        for s4, x in optional(lab, s3, o):
                            rep.ob((x is None) == (b is None) and (b is None or lab.same(s4, x, b)), '%s block|%s' % (g, key), '%s gives %r, the line has %r' % (fb, x, b), fb)
                text(VOL + '::hash_type', [p], w['hash_type'], 'hash type')
                text(VOL + '::hash', [p], [L(c) for c in w['hash']], 'hash')
                st = st2


def error_is(lab, st, got, payload, name, p):
    """the error of the code is the expected one"""
    if got != name:
        return False
    if name == 'MissingKeyword':
        return content(lab, st, payload[0]) is code(lins(p))
    if name == 'OutOfOrderVolume':
        return lab.same(st, payload[0], p)
    if name == 'ParseInt':
        return lab.E.argterm(st, payload[0]) is lab.E.argterm(st, p)
    if name == 'Io':
        x = payload[0]
        c = lab.E.argterm(st, x)
        if p[0] == 'reader':
            return c is mk('ioerr', mk('line', p[1]))
        return c.op == 'ioerror' and c.args[0] is eof_kind(lab)
    return True


def eof_kind(lab):
    ty = lab.adt('std::io::ErrorKind')
    return lab.E.argterm(lab.state(), Agg(ty, lab.vidx(ty, 'UnexpectedEof'), {}))


def judge(P, rep, key, lines, errors=False):
    t = Text(P, rep, lines, errors)
    lab = t.lab
    ref = Reference(t, lines)
    for s, v in t.run():
        for s2, n, p in lab.variants(s, v):
            for s3, (want, x) in ref.run(s2):
                if n == 'Ok':
                    rep.ob(want == 'Ok', 'accepted|' + key, 'a manifest is accepted that should be refused with %s' % want, PARSE)
                    if want == 'Ok':
                        s3 = s3.copy()
                        observed(rep, t, s3, lab.obj(s3, 'manifest', p[0].ty, p[0]), x, key)
                    continue
                for s4, en, ep in lab.variants(s3, p[0]):
                    rep.ob(want == en, 'refused|' + key, 'a manifest is refused with %s, expected is %s' % (en, want), PARSE)
                    if want == en:
                        rep.ob(error_is(lab, s4, en, ep, want, x), 'error|' + key, 'the payload of the error %s is not the expected one' % en, PARSE)
    rep.engine(lab.E)
    return lab.E.steps


HEAD = [[b'Hostname ', Word('host', 2), b'\n'], [b'Localdir ', Word('dir', 2), b'\n']]


def volume(k, hash=b'0aff', sb=0, eb=0, num=1, indent=b'    ', eol=b'\n', colon=b':', gap=b' ', n=2, quoted=False):
    """the lines of a volume; sb, eb: length of the block numbers, none when zero"""
    v = 'v%d.' % k
    q = b'"' if quoted else b''
    return [[b'Volume ', num if isinstance(num, bytes) else Word(v + 'num', num), colon, eol],
            [indent, b'StartingPath', gap, q, Word(v + 'start', n), q] + ([gap, Word(v + 'sb', sb)] if sb else [gap]) + [eol],
            [indent, b'EndingPath', gap, q, Word(v + 'end', n), q] + ([gap, Word(v + 'eb', eb)] if eb else []) + [eol],
            [indent, b'Hash', gap, Word(v + 'type', n), gap, hash, eol]]


KEYS = (b'Hostname', b'Localdir', b'Volume', b'StartingPath', b'EndingPath', b'Hash')


def shapes(tier):
    """(name, lines, does the reader fail somewhere)"""
    deep = tier == 'thorough'
    one = HEAD + volume(1)
    yield 'no volume', HEAD, True
    yield 'one volume', one, True
    yield 'two volumes', one + volume(2, b'01'), False
    yield 'three volumes', one + volume(2, b'01', num=2) + volume(3, b'c3d4'), False
    for i in (0, 1, 2):
        for j in (0, 1, 2):
            yield 'blocks of %d and %d characters' % (i, j), HEAD + volume(1, sb=i, eb=j), False
    yield 'blocks in the second volume', one + volume(2, b'01', sb=1, eb=1), False
    yield 'number without colon', HEAD + volume(1, colon=b''), False
    yield 'number of two characters', HEAD + volume(1, num=2, colon=b''), False
    yield 'numbered one and two', HEAD + volume(1, num=b'1') + volume(2, num=b'2'), False
    yield 'numbered one, two and three', HEAD + volume(1, num=b'1') + volume(2, num=b'2', sb=1) + volume(3, num=b'3', eb=1), False
    yield 'numbered zero', HEAD + volume(1, num=b'0'), False
    yield 'numbered two first', HEAD + volume(1, num=b'2') + volume(2, num=b'1'), False
    yield 'numbered one twice', HEAD + volume(1, num=b'1') + volume(2, num=b'1'), False
    yield 'second number left out', HEAD + volume(1, num=b'1') + volume(2, num=b'3'), False
    yield 'not indented', HEAD + volume(1, indent=b''), False
    yield 'wide gaps', [[b'  Hostname   ', Word('host', 2), b'  \n'], [b'Localdir  ', Word('dir', 1), b' \n']] + volume(1, gap=b'   ', sb=1, eb=1), False
    yield 'carriage returns', [[b'Hostname ', Word('host', 2), b'\r\n'], [b'Localdir ', Word('dir', 2), b'\r\n']] + volume(1, eol=b'\r\n', eb=1), False
    yield 'last line not ended', HEAD + volume(1)[:3] + [volume(1)[3][:-1]], False
    yield 'quoted paths', [HEAD[0], [b'Localdir "', Word('dir', 2), b'"\n']] + volume(1, quoted=True, sb=1), False
    yield 'hash of twenty bytes', HEAD + volume(1, hash=b'2fd4e1c67a2d28fced849ee1bb76e7391b93eb12'), False
    yield 'long words', [[b'Hostname ', Word('host', 5), b'\n'], [b'Localdir ', Word('dir', 5), b'\n']] + volume(1, n=5), False
    yield 'words of one character', [[b'Hostname ', Word('host', 1), b'\n'], [b'Localdir ', Word('dir', 1), b'\n']] + volume(1, n=1, sb=1), False
    # a line cut short, left out, empty, or of another keyword
    for k, w in enumerate(KEYS):
        text = w.decode()
        if k != 2:
            yield 'ends before %s' % text, one[:k], False
            yield 'empty line for %s' % text, one[:k] + [[b'\n']] + one[k + 1:], False
        yield '%s left out' % text, one[:k] + one[k + 1:], False
        yield 'blank line for %s' % text, one[:k] + [[b'  \n']] + one[k + 1:], False
        yield 'nothing after %s' % text, one[:k] + [[w, b'\n']] + one[k + 1:], False
        rest = [p for p in one[k] if p not in (b'Hostname ', b'Localdir ', b'Volume ', b'StartingPath', b'EndingPath', b'Hash')]
        for n in sorted({1, len(w) - 1, len(w), len(w) + 1}):
            yield 'a word of %d for %s' % (n, text), one[:k] + [[Word('kw', n), b' '] + rest] + one[k + 1:], False
    yield 'no hash', HEAD + volume(1)[:3] + [[b'Hash ', Word('type', 2), b'\n']], False
    yield 'second volume cut short', one + volume(2)[:2], False
    yield 'second volume without hash', one + volume(2)[:3], False
    yield 'second volume with nothing after Hash', one + volume(2)[:3] + [[b'Hash\n']], False
    if deep:
        yield 'five volumes', one + volume(2, b'01') + volume(3, sb=1) + volume(4, eb=1) + volume(5, sb=2, eb=2), False
        yield 'reader failing in the second volume', one + volume(2), True
        for n in (3, 4, 8):
            yield 'words of %d characters' % n, [[b'Hostname ', Word('host', n), b'\n'], [b'Localdir ', Word('dir', n), b'\n']] + volume(1, n=n, sb=n, eb=n, num=n), False
        for k in range(1, 9):
            yield 'eight volumes numbered', HEAD + [l for i in range(1, 9) for l in volume(i, num=b'%d' % i)], False
            yield 'volume %d numbered differently' % k, HEAD + [l for i in range(1, 9) for l in volume(i, num=b'%d' % i if i != k else 1)], False
            yield 'volumes from %d' % k, HEAD + [l for i in range(1, 9) for l in volume(i, num=b'%d' % (i + k))], False


def structure(P, rep):
    each(rep, list(shapes(rep.tier)), lambda x, r: judge(P, r, *x))
    for k in ('accepted', 'refused', 'error', 'host name', 'local directory', 'number of volumes', 'no such volume', 'volume there', 'start path', 'start block', 'end path', 'end block', 'hash type', 'hash'):
        rep.floor(k, 20)


# ---------------------------------------------------------------- which volumes hold a path
FIRST, LAST = MAN + '::first_volume_of_path', MAN + '::last_volume_of_path'
APART, ZERO, SPLIT = 'apart', 'apart with block zero', 'split'


def following(n):
    """ways in which n volumes follow each other: how each one starts"""
    if n == 0:
        return [()]
    out = [(a,) for a in (APART, ZERO)]
    for _ in range(n - 1):
        out = [o + (x,) for o in out for x in (APART, ZERO, SPLIT)]
    return out


def holding(P, rep, how):
    n = len(how)
    key = '%d volumes: %s' % (n, ', '.join(how))
    lines = list(HEAD)
    start = [Word('s%d' % i, 2) for i in range(n)]
    end = [Word('e%d' % i, 2) for i in range(n)]
    for i in range(n):
        if how[i] == SPLIT:
            start[i] = end[i - 1]
        cont = i + 1 < n and how[i + 1] == SPLIT
        lines += [[b'Volume %d:\n' % (i + 1)],
                  [b'StartingPath ', start[i]] + ([b' 0'] if how[i] == ZERO else [b' ', Word('sb%d' % i, 1)] if how[i] == SPLIT else []) + [b'\n'],
                  [b'EndingPath ', end[i]] + ([b' ', Word('eb%d' % i, 1)] if cont else []) + [b'\n'],
                  [b'Hash T 00\n']]
    t = Text(P, rep, lines)
    lab = t.lab
    E = lab.E
    E.ranks = True
    ref = Reference(t, lines)

    def rank(w):
        return models.rank_of('path', code(lins(t.words[w.name])))
    for i in range(n):
        t.st.cons = t.st.cons.add(rank(end[i]) - rank(start[i]))
        if i and how[i] != SPLIT:
            t.st.cons = t.st.cons.add(rank(start[i]) - rank(end[i - 1]) - 1)
    u8 = P.u8
    pref = lab.obj(t.st, 'path', None, Seq(mk('arg', 'path'), L(mk('arg', 'pathlen', ty='len')), u8))
    t.st.cons = t.st.cons.add(L(mk('arg', 'pathlen', ty='len')))
    path = lab.seq(t.st, pref)
    p = models.rank_of('path', mk('arg', 'path'))
    done = 0
    for s, v in t.run():
        for s2, name, x in lab.variants(s, v):
            if name != 'Ok':
                continue
            s2 = s2.copy()
            # the number of the first block of a volume that continues a path
            ok = [s2]
            for i in range(n):
                if how[i] == SPLIT:
                    ok = [s4 for s3 in ok for s4, b, e in ref.number(s3, lins(t.words['sb%d' % i])) if b is not None for s4 in lab.when(s4, fge(b.lin - 1))]
            for s3 in ok:
                s3 = s3.copy()
                mref = lab.obj(s3, 'manifest', x[0].ty, x[0])
                done += 1
                # where the path lies
                cases = [(s3, [])]
                for i in range(n):
                    cases = [(s5, ins + [b]) for s4, ins in cases for b in (True, False) for s5 in lab.when(s4, fand(fge(p - rank(start[i])), fge(rank(end[i]) - p)), b)]
                for s4, ins in cases:
                    holds = [i + 1 for i in range(n) if ins[i]]
                    for f, want, what in ((FIRST, holds[:1], 'first'), (LAST, holds[-1:], 'last')):
                        for s5, r in lab.call(s4.copy(), f, [mref, path]):
                            for s6, got in optional(lab, s5, r):
                                good = got is None if not want else got is not None and s6.cons.proves_eq(got.lin - want[0])
                                rep.ob(good, '%s volume|%s' % (what, key), '%s gives %s where the path is in the volumes %s' % (f, 'none' if got is None else got.lin, holds), f)
    rep.ob(done > 0, 'manifests|' + key, 'no such manifest is accepted', PARSE)
    rep.engine(E)


def volumes(P, rep):
    top = 3 if rep.tier == 'quick' else 5
    each(rep, [h for n in range(top + 1) for h in following(n)], lambda h, r: holding(P, r, h))
    rep.floor('first volume', 60)
    rep.floor('last volume', 60)


# ---------------------------------------------------------------- quotes, escapes, hash digits
QUOTE, BACK, X = 34, 92, 120


def digit(lab, st, b):
    """[(state, value)] of a hexadecimal digit, zero for every other byte"""
    out = []
    for lo, hi, base in ((0, 47, None), (48, 57, 48), (58, 96, None), (97, 102, 87), (103, 255, None)):
        for s in lab.when(st, fand(fge(b - lo), fge(L(hi) - b))):
            out.append((s, b - base if base is not None else L(0)))
    return out


def unescaped(lab, st, xs):
    """[(state, bytes)]: what a word without quotes stands for"""
    todo, out = [(st, 0, [])], []
    while todo:
        s, i, got = todo.pop()
        if i == len(xs):
            out.append((s, got))
            continue
        for s1 in lab.when(s, feq(xs[i] - BACK), False):
            todo.append((s1, i + 1, got + [xs[i]]))
        for s1 in lab.when(s, feq(xs[i] - BACK), True):
            esc = feq(xs[i + 1] - X) if len(xs) - i >= 4 else False
            for s2 in lab.when(s1, esc, False):
                todo.append((s2, i + 1, got))
            for s2 in lab.when(s1, esc, True):
                for s3, a in digit(lab, s2, xs[i + 2]):
                    for s4, b in digit(lab, s3, xs[i + 3]):
                        todo.append((s4, i + 4, got + [a.scale(16) + b]))
    return out


def shows(rep, lab, st, v, xs, key, what, f):
    """the bytes of a text or path"""
    q = lab.seq(st, v)
    good = q is not None and st.cons.proves_eq(q.len - len(xs)) and all(st.cons.proves_eq(lab.E.num(st, lab.E.elem_at(st, q, L(i))) - x) for i, x in enumerate(xs))
    rep.ob(good, '%s|%s' % (what, key), '%s does not show what the word stands for' % f, f)


def escape(P, rep, job):
    n, quoted, where = job
    key = '%s of %d bytes%s' % (where, n, ' in quotes' if quoted else '')
    no = b' \n\r'
    w = Word('word', n, no)
    q = b'"' if quoted else b''
    if where == 'local directory':
        lines = [[b'Hostname h\n'], [b'Localdir ', q, w, q, b'\n']]
    elif where == 'host name':
        lines = [[b'Hostname ', q, w, q, b'\n'], [b'Localdir d\n']]
    else:
        lines = [[b'Hostname h\n'], [b'Localdir d\n'], [b'Volume 1:\n'], [b'StartingPath ', q, w, q, b'\n'] if where == 'start path' else [b'StartingPath a\n'],
                 [b'EndingPath ', q, w, q, b'\n'] if where == 'end path' else [b'EndingPath z\n'], [b'Hash T ', w if where == 'hash' else b'00', b'\n']]
    t = Text(P, rep, lines)
    lab = t.lab
    ws = lins(t.words['word'])
    if not quoted and where != 'hash' and n > 0:
        # a word that starts with a quote is a quoted one
        t.st.cons = t.st.cons.add_ne(ws[0] - QUOTE)
    seen = 0
    for s, v in t.run():
        for s2, name, x in lab.variants(s, v):
            if name != 'Ok':
                for s3, en, ep in lab.variants(s2, x[0]):
                    rep.ob(where == 'host name' and en == 'Utf8', 'refused|' + key, 'a manifest is refused with %s' % en, PARSE)
                continue
            seen += 1
            s2 = s2.copy()
            ref = lab.obj(s2, 'manifest', x[0].ty, x[0])
            if where == 'hash':
                want = [(s2, [])]
                for i in range(n // 2):
                    want = [(s5, got + [a.scale(16) + b]) for s3, got in want for s4, a in digit(lab, s3, ws[2 * i]) for s5, b in digit(lab, s4, ws[2 * i + 1])]
            else:
                want = unescaped(lab, s2, ws)
            for s3, xs in want:
                s3 = s3.copy()
                if where == 'local directory':
                    for s4, r in lab.call(s3, MAN + '::local_dir', [ref]):
                        for s5, p in optional(lab, s4, r):
                            rep.ob(p is not None, 'path there|' + key, 'no path', MAN + '::local_dir')
                            if p is not None:
                                shows(rep, lab, s5, p, xs, key, 'path', MAN + '::local_dir')
                elif where == 'host name':
                    for s4, r in lab.call(s3, MAN + '::hostname', [ref]):
                        shows(rep, lab, s4, r, xs, key, 'text', MAN + '::hostname')
                else:
                    f, what = {'start path': ('start_path_bytes', 'path'), 'end path': ('end_path_bytes', 'path'), 'hash': ('hash', 'hash value')}[where]
                    for s4, r in lab.call(s3, MAN + '::volume', [ref, Num(L(1), 'usize')]):
                        for s5, p in optional(lab, s4, r):
                            for s6, b in lab.call(s5, VOL + '::' + f, [p]):
                                shows(rep, lab, s6, b, xs, key, what, VOL + '::' + f)
    rep.ob(seen > 0, 'read|' + key, 'no such manifest is accepted', PARSE)
    rep.engine(lab.E)


def escapes(P, rep):
    deep = rep.tier == 'thorough'
    jobs = [(n, q, 'local directory') for n in range(1, 9 if deep else 7) for q in (True, False)]
    jobs += [(0, True, 'local directory')]
    jobs += [(n, q, w) for w in ('host name', 'start path', 'end path') for n in ((1, 4, 5) if deep else (4,)) for q in (True, False)]
    jobs += [(n, False, 'hash') for n in range(1, 6 if deep else 5)]
    jobs.sort(key=lambda j: -j[0])
    each(rep, jobs, lambda j, r: escape(P, r, j))
    rep.floor('path', 100)
    rep.floor('text', 10)
    rep.floor('hash value', 20)
