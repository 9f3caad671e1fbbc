"""The Backup facade: what its snapshots are, what they read, when, and what is kept."""
from lab import *
import exact
import models

NEW, SNAPSHOTS, INTO, NEXT = 'Backup::<B>::new', 'Backup::<B>::snapshots', "<Snapshots<'a> as std::iter::IntoIterator>::into_iter", "<SnapshotsIter<'a> as std::iter::Iterator>::next"
ENTRIES, MANIFEST = "Snapshot::<'a>::entries", "Snapshot::<'a>::manifest"
LOAD, PARSE, NAMES = 'signatures::Chain::from_sigchain', 'manifest::Manifest::parse', 'collections::Collections::from_filenames'
SHAPES = [((), 0), ((0,), 1), ((2,), 1), ((0, 1), 1), ((1, 0), 2), ((1, 2, 0), 2)]


def seqof(n, el, f):
    return Seq(mk('empty', el), L(n), el, {L(k): f(k) for k in range(n)})


class Facade:
    """a backup with the given number of increments per chain and the given number of signature chains"""

    def __init__(self, P, rep, shape, nsig):
        lab = self.lab = Lab(P, rep, joinlim=400, retlim=400, maxsteps=600000)
        E = lab.E
        E.exact = E.ranks = True
        self.shape, self.nsig = shape, nsig
        colty, bcty, sct = (lab.adt('collections::' + n) for n in ('Collections', 'BackupChain', 'SignatureChain'))
        self.i_b, _ = lab.fby(colty, lambda s: 'BackupChain' in s)
        self.i_s, _ = lab.fby(colty, lambda s: 'SignatureChain' in s)
        self.i_inc, _ = lab.fby(bcty, lambda s: s.startswith('std::vec::Vec'))
        self.i_full, setty = lab.fby(bcty, lambda s: s.endswith('BackupSet'))
        chain = lambda k: Agg(bcty, 0, {self.i_full: E.mkval(mk('arg', 'full%d' % k), setty),
                                        self.i_inc: seqof(shape[k], setty, lambda j: E.mkval(mk('arg', 'inc%d of %d' % (j, k)), setty))}, mk('arg', 'chain%d' % k))
        self.col = Agg(colty, 0, {self.i_b: seqof(len(shape), bcty, chain), self.i_s: seqof(nsig, sct, lambda k: E.mkval(mk('arg', 'signatures%d' % k), sct))}, mk('arg', 'collections'))
        E.stop[NAMES] = self.names
        E.stop[LOAD] = self.load
        E.stop[PARSE] = self.parse
        E.hooks['open'] = self.opened
        E.hooks['list'] = self.listed
        self.st = lab.state()
        for n in ('opens', 'lists', 'loads', 'parses'):
            self.st.mem[('G', n)] = Num(L(0), 'usize')
        self.given = []
        self.names_opened = {}

    # counters in the state, so that every path has its own
    def count(self, st, n):
        return st.mem[('G', n)].lin.k

    def inc(self, st, n):
        k = self.count(st, n)
        st.mem[('G', n)] = Num(L(k + 1), 'usize')
        return k

    def names(self, E, st, fr, c, args, dty):
        self.given.append(E.argterm(st, models.deref_all(E, st, args[0])))
        return [(st, self.col)]

    def load(self, E, st, fr, c, args, dty):
        st = st.copy()
        k = self.inc(st, 'loads')
        models.advance(st)
        return [(st, E.mkval(mk('loaded', k, E.argterm(st, models.deref_all(E, st, args[0])), E.argterm(st, models.deref_all(E, st, args[1]))), dty))]

    def parse(self, E, st, fr, c, args, dty):
        st = st.copy()
        k = self.inc(st, 'parses')
        models.advance(st)
        return [(st, E.mkval(mk('parsed', k, E.argterm(st, models.deref_all(E, st, args[0]))), dty))]

    def opened(self, E, st, fr, backend=None, name=None):
        k = self.inc(st, 'opens')
        st.mem[('G', 'name%d' % k)] = name
        st.mem[('G', 'backend%d' % k)] = models.deref_all(E, st, backend)

    def listed(self, E, st, fr, **k):
        self.inc(st, 'lists')

    def make(self):
        """[(state, reference to the backup)]"""
        lab = self.lab
        out = []
        self.backend = lab.sym('backend', lab.argty(NEW, 0))
        for s, v in lab.call(self.st, NEW, [self.backend]):
            for s2, n, p in lab.variants(s, v):
                if n == 'Ok':
                    s2 = s2.copy()
                    out.append((s2, lab.obj(s2, 'backup', p[0].ty, p[0])))
        if not out:
            raise Missing('a backup that can be made')
        return out

    def navigate(self, st, bref):
        """[(state, [snapshot references], ended)]"""
        lab = self.lab
        out = []
        for s, r in lab.call(st, SNAPSHOTS, [bref]):
            for s2, n, p in lab.variants(s, r):
                if n != 'Ok':
                    continue
                for s3, it in lab.call(s2, INTO, [p[0]]):
                    s3 = s3.copy()
                    ref = self.iter = lab.obj(s3, 'iter', it.ty, it, mut=True)
                    todo = [(s3, [])]
                    for k in range(sum(self.shape) + len(self.shape) + 1):
                        nxt = []
                        for s4, got in todo:
                            for s5, x in lab.call(s4, NEXT, [ref]):
                                for s6, n, p in lab.variants(s5, x):
                                    if n == 'None':
                                        out.append((s6, got, True))
                                    else:
                                        s6 = s6.copy()
                                        nxt.append((s6, got + [lab.obj(s6, 'snapshot%d' % k, p[0].ty, p[0])]))
                        todo = nxt
                    out.extend((s, got, False) for s, got in todo)
        return out

    def places(self, bref):
        """[(chain number, position in the chain)] of the snapshots"""
        return [(c, j) for c, n in enumerate(self.shape) for j in range(n + 1)]

    def chain(self, st, bref, c):
        lab = self.lab
        bty = lab.E.tyof_value(lab.E.load(st, bref.p))
        i_col, _ = lab.fby(bty, lambda s: s.endswith('Collections'))
        return lab.nth(lab.seq(st, lab.sub(st, lab.sub(st, bref, i_col), self.i_b)), c)

    def sigchain(self, st, bref, k):
        lab = self.lab
        bty = lab.E.tyof_value(lab.E.load(st, bref.p))
        i_col, _ = lab.fby(bty, lambda s: s.endswith('Collections'))
        return lab.nth(lab.seq(st, lab.sub(st, lab.sub(st, bref, i_col), self.i_s)), k)

    def set(self, st, bref, c, j):
        lab = self.lab
        ch = self.chain(st, bref, c)
        if j == 0:
            return lab.sub(st, ch, self.i_full)
        return lab.nth(lab.seq(st, lab.sub(st, ch, self.i_inc)), j - 1)

    def name(self):
        return 'chains with %s increments' % (', '.join(map(str, self.shape)) or 'no chains, no')


def creation(P, rep):
    """a backup is made of the one listing of its backend, and of nothing else"""
    f = Facade(P, rep, (1, 0), 1)
    lab, E = f.lab, f.lab.E
    b = lab.sym('backend', lab.argty(NEW, 0))
    n = 0
    for s, v in lab.call(f.st, NEW, [b]):
        for s2, vn, p in lab.variants(s, v):
            n += 1
            rep.ob(f.count(s2, 'lists') == 1, 'one listing|' + vn, 'the files are listed %d times' % f.count(s2, 'lists'), NEW)
            rep.ob(f.count(s2, 'opens') == f.count(s2, 'loads') == 0, 'nothing opened|new', 'making a backup opens files', NEW)
            r = [t for t in s2.vs if t.op == 'listres']
            ok = len(r) == 1
            rep.ob(ok and s2.vs[r[0]] == frozenset([0 if vn == 'Ok' else 1]), 'listing error|' + vn, 'a listing that %s makes a backup that is %s' % ('fails' if vn == 'Ok' else 'succeeds', vn), NEW)
            if not ok:
                continue
            if vn == 'Err':
                rep.ob(E.argterm(s2, p[0]) is mk('fld', r[0], 1, 0), 'listing error kept|new', 'the error is not the one of the listing', NEW)
            else:
                rep.ob(f.given and all(g is mk('fld', r[0], 0, 0) for g in f.given), 'names used|new', 'the collections are not made of the listed names', NEW)
                s2 = s2.copy()
                bref = lab.obj(s2, 'backup', p[0].ty, p[0])
                for s3, w in lab.call(s2, 'Backup::<B>::into_inner', [p[0]]):
                    rep.ob(E.argterm(s3, w) is E.argterm(s3, b), 'backend kept|new', 'the backend that is given back is another one', NEW)
    rep.ob(n >= 2, 'cases|new', 'only %d outcomes' % n, NEW)
    rep.engine(E)


OBS = [('time', 'end_time'), ('is_full', 'is_full'), ('is_incremental', 'is_incremental'), ('num_volumes', 'num_volumes')]


def navigation(P, rep):
    """the snapshots are the full set and the increments of every chain, in order, and nothing is opened"""
    for shape, nsig in SHAPES:
        f = Facade(P, rep, shape, nsig)
        lab, E = f.lab, f.lab.E
        want = f.places(None)
        n = 0
        for s0, bref in f.make():
            for s1, got, ended in f.navigate(s0, bref):
                n += 1
                if ended:
                    for s2, v in lab.call(s1, NEXT, [f.iter]):
                        for _, xn, _ in lab.variants(s2, v):
                            rep.ob(xn == 'None', 'stays ended|' + f.name(), 'the iteration goes on after its end', NEXT)
                rep.ob(ended and len(got) == len(want), 'number of snapshots|' + f.name(), '%s%d snapshots are given for %d backup sets' % ('' if ended else 'more than ', len(got), len(want)), NEXT)
                for (c, j), sn in zip(want, got):
                    ref = f.set(s1, bref, c, j)
                    for s2, v in lab.call(s1, "Snapshot::<'a>::as_backup_set", [sn]):
                        rep.ob(isinstance(v, Ref) and v.p == ref.p, 'set of a snapshot|' + f.name(), 'set %d of chain %d is not the set of its snapshot' % (j, c), NEXT)
                    for a, b in OBS:
                        for s2, v in lab.call(s1, "Snapshot::<'a>::" + a, [sn]):
                            for s3, w in lab.call(s2, 'collections::BackupSet::' + b, [ref]):
                                rep.ob(lab.same(s3, v, w), '%s of a snapshot|%s' % (a, f.name()), '%s of a snapshot is not the one of its set' % a, "Snapshot::<'a>::" + a)
                                rep.ob(f.count(s3, 'opens') == f.count(s3, 'loads') == 0, 'nothing opened|' + a, 'a file is opened by looking at a snapshot', "Snapshot::<'a>::" + a)
                rep.ob(f.count(s1, 'opens') == f.count(s1, 'loads') == 0, 'nothing opened|navigation', 'a file is opened by iterating over the snapshots', NEXT)
                rep.ob(f.count(s1, 'lists') == 1, 'one listing|navigation', 'the files are listed again by iterating over the snapshots', NEXT)
        rep.ob(n > 0, 'navigation|' + f.name(), 'nothing was decided', NEXT)
        rep.engine(E)
    rep.floor('set of a snapshot', 10)


class Outcome:
    pass


def expect_entries(f, rep, st, bref, c, j, sn, held, tag):
    """call entries() and judge it; held: {chain: term of the loaded chain}; returns [(state, held)]"""
    lab, E = f.lab, f.lab.E
    out = []
    before = f.count(st, 'loads')
    opens = f.count(st, 'opens')
    name = '%s|%s' % (tag, f.name())
    for s0, v in lab.call(st, ENTRIES, [sn]):
        # the signature chain that belongs to the backup chain: the first with its start time
        for s1, t in lab.call(s0, 'collections::BackupChain::start_time', [f.chain(s0, bref, c)]):
            cases = [(s1, None)]
            for k in range(f.nsig):
                nxt = []
                for s2, m in cases:
                    if m is not None:
                        nxt.append((s2, m))
                        continue
                    for s3, w in lab.call(s2, 'collections::SignatureChain::start_time', [f.sigchain(s2, bref, k)]):
                        g = lab.eqf(s3, t, w)
                        nxt.extend((x, k) for x in lab.when(s3, g, True))
                        nxt.extend((x, None) for x in lab.when(s3, g, False))
                cases = nxt
            for s2, m in cases:
                for s3, vn, p in lab.variants(s2, v):
                    loads = f.count(s3, 'loads') - before
                    rep.ob(f.count(s3, 'opens') == opens, 'reads signatures only|' + name, 'listing a snapshot opens other files than its signatures', ENTRIES)
                    if c in held:
                        rep.ob(loads == 0, 'kept chain|' + name, 'a signature chain is read again although it was read before', ENTRIES)
                        cur = held[c]
                    elif m is None:
                        rep.ob(loads == 0 and vn == 'Err', 'no signatures|' + name, 'a chain without signatures is %s' % ('listed' if vn == 'Ok' else 'read'), ENTRIES)
                        if vn == 'Err':
                            t2 = E.argterm(s3, p[0])
                            rep.ob(t2.op == 'ioerror' and errkind(E, t2) == 'NotFound', 'no signatures|kind|' + name, 'the error for missing signatures is not of the kind NotFound', ENTRIES)
                            out.append((s3, held))
                        continue
                    else:
                        rep.ob(loads == 1, 'chain read once|' + name, 'the signatures are read %d times' % loads, ENTRIES)
                        if loads != 1:
                            continue
                        cur = mk('loaded', before, E.argterm(s3, models.deref_all(E, s3, f.sigchain(s3, bref, m))), E.argterm(s3, f.backend))
                        r = s3.vs.get(cur)
                        rep.ob(r is not None and len(r) == 1, 'own signatures|' + name, 'other signatures are read than those that start with the chain', ENTRIES)
                        if r is None or len(r) != 1:
                            continue
                        if 1 in r:
                            rep.ob(vn == 'Err' and E.argterm(s3, p[0]) is mk('fld', cur, 1, 0), 'signature error|' + name, 'an error while reading the signatures is not returned', ENTRIES)
                            out.append((s3, held))
                            continue
                    now = {**held, c: cur}
                    # the snapshot of the same position in the loaded chain
                    s3 = s3.copy()
                    cty = E.T[lab.argty("signatures::Chain::snapshots", 0)]['t']
                    cref = lab.obj(s3, 'loaded', cty, E.mkval(mk('fld', cur, 0, 0), cty))
                    for s4, it in lab.call(s3, 'signatures::Chain::snapshots', [cref]):
                        s4 = s4.copy()
                        iref = lab.obj(s4, 'chainiter', it.ty, it, mut=True)
                        for s5, x in lab.call(s4, "<signatures::Snapshots<'a> as std::iter::Iterator>::nth", [iref, Num(L(j), 'usize')]):
                            for s6, xn, xp in lab.variants(s5, x):
                                rep.ob((xn == 'Some') is (vn == 'Ok'), 'complete chain|' + name, 'a snapshot that the signatures %s is %s' % ('have' if xn == 'Some' else 'lack', vn), ENTRIES)
                                if vn == 'Err':
                                    out.append((s6, now))
                                    continue
                                s6 = s6.copy()
                                e = lab.obj(s6, 'entries%d_%d_%s' % (c, j, tag), p[0].ty, p[0])
                                if xn != 'Some':
                                    # the entries of a snapshot that is not there must still be usable without a panic
                                    lab.call(s6, "SnapshotEntries::<'a>::as_signature", [e])
                                    continue
                                xr = lab.obj(s6, 'snap', xp[0].ty, xp[0])
                                for s7, a in lab.call(s6, "SnapshotEntries::<'a>::as_signature", [e]):
                                    for s8, b in lab.call(s7, "signatures::Snapshot::<'a>::files", [xr]):
                                        rep.ob(lab.same(s8, a, b), 'snapshot listed|' + name, 'snapshot %d of a chain lists another snapshot of the signatures' % j, ENTRIES)
                                        out.append((s8, now))
    return out


def errkind(E, t):
    k = t.args[0]
    if k.op == 'agg':
        return E.T[k.args[0]]['vs'][k.args[1]]['n']


def listings(P, rep):
    """every snapshot lists the same position of the signature chain that starts with its backup chain, read once"""
    for shape, nsig in [((1,), 0), ((1,), 2), ((1, 0), 1), ((0, 2), 2)]:
        f = Facade(P, rep, shape, nsig)
        lab = f.lab
        want = f.places(None)
        for s0, bref in f.make():
            for s1, got, ended in f.navigate(s0, bref):
                if len(got) != len(want):
                    raise Missing('a snapshot for every set')
                for x in range(len(want)):
                    rs = expect_entries(f, rep, s1, bref, want[x][0], want[x][1], got[x], {}, 'first')
                    rep.ob(bool(rs), 'listing|' + f.name(), 'nothing was decided', ENTRIES)
                    for y in range(len(want)):
                        for s2, held in rs:
                            expect_entries(f, rep, s2, bref, want[y][0], want[y][1], got[y], held, 'then')
        rep.engine(lab.E)
    rep.floor('snapshot listed', 20)
    rep.floor('kept chain', 10)
    rep.floor('signature error', 10)


def expect_manifest(f, rep, st, bref, x, want, sn, held, tag):
    lab, E = f.lab, f.lab.E
    out = []
    name = '%s|%s' % (tag, f.name())
    o, q = f.count(st, 'opens'), f.count(st, 'parses')
    for s0, v in lab.call(st, MANIFEST, [sn]):
        for s, vn, p in lab.variants(s0, v):
            no, nq = f.count(s, 'opens') - o, f.count(s, 'parses') - q
            rep.ob(f.count(s, 'loads') == 0, 'reads the manifest only|' + name, 'signatures are read for a manifest', MANIFEST)
            if x in held:
                rep.ob(no == nq == 0, 'kept manifest|' + name, 'a manifest is read again although it was read before', MANIFEST)
                rep.ob(vn == 'Ok', 'kept manifest|given|' + name, 'a manifest that was read is not given', MANIFEST)
                cur = held[x]
            else:
                rep.ob(no == 1, 'manifest opened|' + name, '%d files are opened for one manifest' % no, MANIFEST)
                if no != 1:
                    continue
                nm = s.mem[('G', 'name%d' % o)]
                ok = False
                for s2, w in lab.call(s, 'collections::BackupSet::manifest_path', [f.set(s, bref, *want[x])]):
                    ok = E.cterm(s2, models.sref(E, s2, nm)) is E.cterm(s2, models.sref(E, s2, w))
                rep.ob(ok, 'own manifest|' + name, 'the file opened is not the manifest of the set of the snapshot', MANIFEST)
                rep.ob(E.argterm(s, s.mem[('G', 'backend%d' % o)]) is E.argterm(s, f.backend), 'backend|' + name, 'the manifest is opened in another backend', MANIFEST)
                r = [(t, g) for t, g in s.vs.items() if t.op == 'openres']
                res = [t for t, g in r if t not in held.get('opens', ())]
                rep.ob(len(res) == 1, 'outcome of opening|' + name, 'whether the manifest could be opened is ignored', MANIFEST)
                if len(res) != 1:
                    continue
                now = {**held, 'opens': tuple(held.get('opens', ())) + (res[0],)}
                if s.vs[res[0]] == frozenset([1]):
                    rep.ob(vn == 'Err' and nq == 0, 'open error|' + name, 'a manifest that cannot be opened is %s' % vn, MANIFEST)
                    if vn == 'Err':
                        rep.ob(inside(E, s, p[0], mk('fld', res[0], 1, 0)), 'open error|kept|' + name, 'the error is not the one of opening the manifest', MANIFEST)
                    out.append((s, now))
                    continue
                rep.ob(nq == 1, 'manifest parsed|' + name, 'the manifest is parsed %d times' % nq, MANIFEST)
                ps = [t for t in s.vs if t.op == 'parsed' and t.args[0] == q]
                if not rep.ob(nq == 1 and len(ps) == 1 and len(s.vs[ps[0]]) == 1, 'outcome of parsing|' + name, 'whether the manifest could be parsed is ignored', MANIFEST):
                    continue
                cur = ps[0]
                rep.ob(has(cur, mk('fld', res[0], 0, 0)), 'content parsed|' + name, 'something else than the opened file is parsed', MANIFEST)
                if s.vs[cur] == frozenset([1]):
                    rep.ob(vn == 'Err' and inside(E, s, p[0], mk('fld', cur, 1, 0)), 'parse error|' + name, 'an error in the manifest is not returned', MANIFEST)
                    out.append((s, now))
                    continue
                rep.ob(vn == 'Ok', 'manifest given|' + name, 'a manifest that can be parsed is not given', MANIFEST)
                held2 = {**now, x: cur}
            if vn != 'Ok':
                continue
            s = s.copy()
            m = lab.obj(s, 'manifest%d_%s' % (x, tag), p[0].ty, p[0])
            for s2, d in lab.call(s, "<ManifestRef<'a> as std::ops::Deref>::deref", [m]):
                rep.ob(E.argterm(s2, models.deref_all(E, s2, d)) is mk('fld', cur, 0, 0), 'own content|' + name, 'the manifest given is not the one of the snapshot', MANIFEST)
                out.append((s2, held if x in held else held2))
    return out


def has(t, want):
    """a term occurs in another"""
    if t is want:
        return True
    if isinstance(t, Term):
        return any(has(a, want) for a in t.args)
    if isinstance(t, tuple):
        return any(has(a, want) for a in t)
    return False


def inside(E, st, v, want):
    return has(E.argterm(st, v), want)


def manifests(P, rep):
    """every snapshot gives the manifest of its own set, opened and parsed once"""
    for shape in [(1,), (0, 1), (2, 0)]:
        f = Facade(P, rep, shape, 1)
        lab = f.lab
        want = f.places(None)
        for s0, bref in f.make():
            for s1, got, ended in f.navigate(s0, bref):
                if len(got) != len(want):
                    raise Missing('a snapshot for every set')
                for x in range(len(want)):
                    rs = expect_manifest(f, rep, s1, bref, x, want, got[x], {}, 'first')
                    rep.ob(bool(rs), 'manifest|' + f.name(), 'nothing was decided', MANIFEST)
                    for y in range(len(want)):
                        for s2, held in rs:
                            expect_manifest(f, rep, s2, bref, y, want, got[y], held, 'then')
        rep.engine(lab.E)
    rep.floor('own content', 20)
    rep.floor('kept manifest', 5)
    rep.floor('open error', 10)
