"""Signature archives: names of members, size hints, attributes, listing."""
from lab import Lab, Missing
from vals import *
from terms import L, mk
import exact
import models
from models import split, field

PSP = 'signatures::parse_snapshot_path'
LITERALS = {'Signature': b'signature', 'Snapshot': b'snapshot', 'Deleted': b'deleted'}


def member_names(P, rep):
    """a member is one of the three kinds exactly when its name starts with the literal and a separator"""
    for kind, lit in LITERALS.items():
        lit = lit + b'/'
        n = len(lit)
        for case in ('nothing follows', 'trailing separator', 'no trailing separator'):
            lab = Lab(P, rep)
            E = lab.E
            st = lab.state()
            a = lab.sym('path', lab.argty(PSP, 0))
            sr = lab.seq(st, a)
            sq = E.seq_at(st, sr)
            for i, b in enumerate(lit):
                st.cons = st.cons.add_eq(E.elem_at(st, sr, L(i)).lin - b)
            if case == 'nothing follows':
                st.cons = st.cons.add_eq(sr.len - n)
                last = None
            else:
                st.cons = st.cons.add(sr.len - n - 1)
                last = E.elem_at(st, sr, sr.len - 1).lin - 47
                st.cons = st.cons.add_eq(last) if case == 'trailing separator' else st.cons.add_ne(last)
            E.watch = {sq.t: [L(i) for i in range(n)]}
            end = sr.len - (1 if case == 'trailing separator' else 0)
            for s, v in lab.call(st, PSP, [a]):
                for s2, vn, pl in lab.variants(s, v):
                    got = None
                    if vn == 'Some':
                        k, real = lab.part(s2, pl[0], 0), lab.part(s2, pl[0], 1)
                        r = lab.seq(s2, real)
                        for s3, kn, _ in lab.variants(s2, k):
                            okk = kn == kind
                            okp = r.p == sr.p and s3.cons.proves_eq(r.off - sr.off - n) and s3.cons.proves_eq(r.off + r.len - sr.off - end)
                            if not okp and s3.cons.proves_eq(r.len) and s3.cons.proves_eq(end - n):
                                okp = True
                            rep.ob(okk, 'kind of a member|%s, %s' % (kind, case), 'a member named "%s…" (%s) is taken as %s' % (lit.decode(), case, kn), PSP)
                            rep.ob(okp, 'path of a member|%s, %s' % (kind, case), 'the path of a member named "%s…" (%s) is bytes %r to %r of the name' % (lit.decode(), case, r.off, r.off + r.len), PSP)
                    else:
                        rep.ob(False, 'kind of a member|%s, %s' % (kind, case), 'a member named "%s…" (%s) is ignored' % (lit.decode(), case), PSP)
            rep.engine(E)
    # nothing else is taken
    lab = Lab(P, rep)
    E = lab.E
    st = lab.state()
    a = lab.sym('path', lab.argty(PSP, 0))
    sr = lab.seq(st, a)
    for s, v in lab.call(st, PSP, [a]):
        for s2, vn, pl in lab.variants(s, v):
            if vn != 'Some':
                continue
            for s3, kn, _ in lab.variants(s2, lab.part(s2, pl[0], 0)):
                lit = LITERALS.get(kn, b'?') + b'/'
                good = s3.cons.prove(sr.len - len(lit)) and all(lab.elem_is(s3, sr, i, b) for i, b in enumerate(lit))
                rep.ob(good, 'prefix of a member|%s' % kn, 'a name that need not start with "%s" is taken as %s' % (lit.decode(), kn), PSP)
    rep.engine(E)
    rep.floor('kind of a member', 9)
    rep.floor('prefix of a member', 3)


# ---------------------------------------------------------------- size hints
MAGIC = 0x72730136


def stop_kind(lab, kind):
    """the member has the given kind (None: it is none of them)"""
    P, E = lab.P, lab.E
    oty = lab.fn(PSP)['locals'][0][0]
    tt = P.T[oty]['vs'][1]['f'][0][1]
    kty = P.T[tt]['ts'][0]

    def h(E, st, fr, c, args, dty):
        if kind is None:
            return [(st, Agg(oty, 0, {}))]
        return [(st, Agg(oty, 1, {0: Agg(tt, 0, {0: Agg(kty, lab.vidx(kty, kind), {}), 1: args[0]})}))]
    return h


def ok_value(lab, st, v):
    """[(state, value)] where a Result (or Option) has a value, and [state] where it has none"""
    yes, no = [], []
    for s, n, p in lab.variants(st, v):
        if n in ('Ok', 'Some'):
            yes.append((s, p[0]))
        else:
            no.append(s)
    return yes, no


def size_hints(P, rep):
    path = 'signatures::compute_size_hint'
    for kind in ('Deleted', None):
        lab = Lab(P, rep)
        lab.E.stop[PSP] = stop_kind(lab, kind)
        st = lab.state()
        a = lab.refto(st, path, 0, 'file')
        for s, v in lab.call(st, path, [a]):
            for s2, n, p in lab.variants(s, v):
                rep.ob(n == 'None', 'no size hint|%s' % (kind or 'other'), 'a member that is not a file contents has a size hint', path)
    for kind in ('Snapshot', 'Signature'):
        lab = Lab(P, rep)
        E = lab.E
        E.stop[PSP] = stop_kind(lab, kind)
        st = lab.state()
        a = lab.refto(st, path, 0, 'file')
        ent = E.argterm(st, lab.deref(st, a))
        u32, u64 = P.ty_by_s['u32'], P.ty_by_s['u64']
        head = mk('call', 'header', ent)
        size_r = mk('call', 'size', mk('*', head))
        size = L(mk('fld', size_r, 0, 0, ty='u64'))
        rd = [mk('call', 'read_u32:BigEndian', ent, L(i)) for i in (0, 4, 8)]
        magic, blen, slen = [L(mk('fld', t, 0, 0, ty='u32')) for t in rd]
        good = [('var', size_r, frozenset([0]), 2)]
        if kind == 'Signature':
            good += [('var', t, frozenset([0]), 2) for t in rd]
            good += [feq(magic - MAGIC), fge(size - 8)]
        nsome = 0
        for s, v in lab.call(st, path, [a]):
            for s2, n, p in lab.variants(s, v):
                if n == 'None':
                    # only when something is missing, wrong, or too large for the system
                    left = [s2]
                    for g in good:
                        left = [y for x in left for y in E.assume(x, g, True)]
                    out = left
                    if kind == 'Signature':
                        left = [y for x in left for y in E.assume(x, fge(size - HEADER), True)]
                        for rest in RESTS:
                            out = []
                            for x in left:
                                x, hi = blocks(E, x, size, blen, slen, rest)
                                out.extend(E.assume(x, fge(L((1 << 64) - 1) - hi), True))
                            if not out:
                                break
                    rep.ob(not out, 'missing size hint|%s' % kind, 'a well formed %s has no size hint' % kind.lower(), path)
                    continue
                nsome += 1
                lo, hi = lab.part(s2, p[0], 0), lab.part(s2, p[0], 1)
                rep.ob(E.decide(s2, good[0]) is True, 'size read|%s' % kind, 'the size hint does not come from the size of the member', path)
                if kind == 'Snapshot':
                    rep.ob(s2.cons.proves_eq(lo.lin - size) and s2.cons.proves_eq(hi.lin - size), 'exact size|%s' % kind, 'the size hint of a snapshot is %r to %r, not its size' % (lo, hi), path)
                    continue
                rep.ob(all(E.decide(s2, g) is True for g in good), 'checked header|Signature', 'a size hint is given without a valid header', path)
                for rest in RESTS:
                    s3, top = blocks(E, s2, size, blen, slen, rest)
                    if s3.cons.proves_eq(hi.lin - top):
                        break
                rep.ob(s3.cons.proves_eq(hi.lin - top), 'upper bound|Signature', 'the upper bound of the size is %r, not the block length times the number of blocks' % (hi,), path)
                cases = [s3]
                for t in {t for t, _ in top.v if t.op == 'mul'}:
                    cases = [y for x in cases for y in E.factors(x, t)]
                more = [y for x in cases for y in E.assume(x, fge(top - blen - 1), True)]
                less = [y for x in cases for y in E.assume(x, fge(top - blen - 1), False)]
                rep.ob(all(x.cons.proves_eq(lo.lin - (top - blen + 1)) for x in more), 'lower bound|several blocks', 'the lower bound of the size is %r' % (lo,), path)
                rep.ob(all(x.cons.proves_eq(lo.lin) for x in less), 'lower bound|one block', 'the lower bound of the size of a single block is %r' % (lo,), path)
        rep.ob(nsome > 0, 'has size hint|%s' % kind, 'a %s never has a size hint' % kind.lower(), path)
        rep.engine(E)
    rep.floor('lower bound', 2)


HEADER = 12
# the checksums are a number of whole blocks, longer than four bytes: whether the last four bytes of the header
# are taken for a part of them makes no difference
RESTS = (HEADER - 4, HEADER)


def blocks(E, st, size, blen, slen, rest):
    """the block length times the number of whole blocks of the signature"""
    st, n = E.arith(st, 'Div', size - rest, slen + 4, 'usize')
    return E.arith(st, 'Mul', blen, n, 'usize')


# ---------------------------------------------------------------- what a snapshot lists
CHAIN, SNAP, ENTRIES, ENTRY = 'signatures::Chain', 'signatures::Snapshot', 'signatures::SnapshotEntries', 'signatures::Entry'
FILES = "signatures::Snapshot::<'a>::files"
NEXT = "<signatures::SnapshotEntries<'a> as std::iter::Iterator>::next"


class Listing:
    """a signature chain with the given number of recorded versions of every path, and one of its snapshots"""

    def __init__(self, lab, shape, known=0):
        """shape: number of versions per path; None: any number, of which the last `known` are looked at"""
        self.lab, self.shape = lab, shape
        E = lab.E
        pss, ps = lab.adt('signatures::PathSnapshots'), lab.adt('signatures::PathSnapshot')
        cty, sty, ety = lab.adt(CHAIN), lab.adt(SNAP), lab.adt(ENTRY)
        i_files, _ = lab.fby(cty, lambda s: 'PathSnapshots' in s)
        i_snaps, _ = lab.fby(pss, lambda s: 'PathSnapshot>' in s)
        i_path, _ = lab.fby(pss, lambda s: s.endswith('RawPath'))
        i_info, _ = lab.fby(ps, lambda s: s.startswith('std::option::Option'))
        i_index, ity = lab.fby(ps, 'usize')
        self.e_path, _ = lab.fby(ety, lambda s: s.endswith('RawPath'))
        self.e_info, _ = lab.fby(ety, lambda s: s.endswith('PathInfo'))
        self.e_ug, _ = lab.fby(ety, lambda s: s.endswith('UserGroupMap'))
        c_ug, _ = lab.fby(cty, lambda s: s.endswith('UserGroupMap'))
        st = lab.state()
        self.chain = lab.obj(st, 'chain', cty)
        self.index = lab.sym('snapshot', ity)
        i_chain, _ = lab.fby(sty, lambda s: s.startswith('&'))
        i_idx, _ = lab.fby(sty, 'usize')
        self.snap = lab.obj(st, 'snap', sty, Agg(sty, 0, {i_chain: self.chain, i_idx: self.index}))
        self.ug = lab.sub(st, self.chain, c_ug)
        vals = []
        for k, m in enumerate(shape):
            pt = mk('arg', 'file%d' % k)
            n = L(m) if m is not None else L(mk('arg', 'number%d' % k, ty='usize'))
            if m is None:
                st.cons = st.cons.add(n - known)
            q = Seq(mk('arg', 'versions%d' % k), n, ps)
            if m is None:
                E.watch = {**E.watch, q.t: [n - j for j in range(1, known + 1)]}
            vals.append(Agg(pss, 0, {i_snaps: q}, pt))
        st.mem[('X', 'chain')] = Agg(cty, 0, {i_files: Seq(mk('arg', 'files'), L(len(shape)), pss, {L(k): v for k, v in enumerate(vals)})}, mk('arg', 'chain'))
        files = lab.seq(st, lab.sub(st, self.chain, i_files))
        self.paths = []
        for k, m in enumerate(shape):
            el = lab.nth(files, k)
            sn = lab.seq(st, lab.sub(st, el, i_snaps))
            vs, last = [], None
            for j in range(m) if m is not None else range(-known, 0):
                v = lab.nth(sn, j if m is not None else sn.len + j)
                x = lab.deref(st, lab.sub(st, v, i_index)).lin
                if last is not None:        # recorded in the order of the snapshots
                    st.cons = st.cons.add(x - last)
                last = x
                vs.append((x, lab.sub(st, v, i_info)))
            self.paths.append((lab.sub(st, el, i_path), vs))
        self.st = st

    def visible(self, st):
        """[(state, [(path, info)])]: what the snapshot has to list"""
        lab = self.lab
        out = [(st, [])]
        for path, vs in self.paths:
            nxt = []
            for s, got in out:
                open_ = [s]
                for x, info in reversed(vs):
                    rest = []
                    for s2 in open_:
                        for s3 in lab.when(s2, fge(self.index.lin - x), True):
                            for s4, n, p in lab.variants(s3, lab.deref(s3, info)):
                                nxt.append((s4, got + [(path, p[0])] if n == 'Some' else got))
                        rest.extend(lab.when(s2, fge(self.index.lin - x), False))
                    open_ = rest
                if len(vs) == self.shape[self.paths.index((path, vs))]:
                    nxt.extend((s2, got) for s2 in open_)
            out = nxt
        return out


def listing(P, rep):
    """a snapshot lists, in the order of the paths, the last version of every path up to it, but deleted ones"""
    for shape, known in [((), 0), ((0,), 0), ((1,), 0), ((2,), 0), ((3,), 0), ((1, 1), 0), ((2, 1), 0), ((1, 2), 0), ((2, 2), 0), ((1, 1, 1), 0), ((None,), 3), ((None, 1), 2)]:
        lab = Lab(P, rep, joinlim=300, retlim=300, maxsteps=400000)
        lab.E.exact = None not in shape
        ls = Listing(lab, shape, known)
        name = 'paths with %s versions' % (', '.join('any number of' if m is None else str(m) for m in shape) or 'no')
        s0, ents = lab.call1(ls.st, FILES, [ls.snap])
        n0 = 0
        for s1, want in ls.visible(s0):
            s1 = s1.copy()
            ref = lab.obj(s1, 'entries', ents.ty, ents, mut=True)
            todo = [s1]
            for k in range(len(want) + 1):
                nxt = []
                for s in todo:
                    for s2, v in lab.call(s, NEXT, [ref]):
                        for s3, n, p in lab.variants(s2, v):
                            n0 += 1
                            if k == len(want):
                                rep.ob(n == 'None', 'end of the listing|' + name, 'the snapshot lists more than the visible paths', NEXT)
                                continue
                            if n != 'Some':
                                rep.ob(False, 'missing entry|' + name, 'the snapshot omits path %d of %d visible ones' % (k + 1, len(want)), NEXT)
                                continue
                            e = p[0]
                            path, info = want[k]
                            rep.ob(lab.same(s3, lab.deref(s3, lab.part(s3, e, ls.e_path)), lab.deref(s3, path)), 'path of an entry|' + name, 'entry %d has the path of another one' % (k + 1), NEXT)
                            rep.ob(lab.same(s3, lab.deref(s3, lab.part(s3, e, ls.e_info)), info), 'version of an entry|' + name, 'entry %d has not the last version up to the snapshot' % (k + 1), NEXT)
                            rep.ob(lab.same(s3, lab.deref(s3, lab.part(s3, e, ls.e_ug)), lab.deref(s3, ls.ug)), 'owner names of an entry|' + name, 'entry %d does not use the owner names of its chain' % (k + 1), NEXT)
                            nxt.append(s3)
                todo = nxt
        rep.ob(n0 > 0, 'listing|' + name, 'nothing was decided', NEXT)
        rep.engine(lab.E)
    rep.floor('version of an entry', 30)


NAMES = {'Snapshot': b'snapshot/', 'Signature': b'signature/', 'Deleted': b'deleted/', 'other': b'other/'}


# ---------------------------------------------------------------- attributes of a listed entry
def attributes(P, rep):
    """what an entry shows is what the header of its member says"""
    acc = "signatures::Entry::<'a>::"
    for kind, arch in (('Snapshot', 'S0'), ('Signature', 'G0')):
        p = Pipeline(P, rep, archives(arch), pin=False, errors=False)
        lab, E = p.lab, p.lab.E
        rty = lambda s: lab.ty('std::result::Result<%s, std::io::Error>' % s)
        n = 0
        for s1, snap in p.snapshots(0):
            sref = lab.obj(s1, 'snap', snap.ty, snap)
            s1, ents = lab.call1(s1, FILES, [sref])
            s1 = s1.copy()
            eref = lab.obj(s1, 'entries', ents.ty, ents, mut=True)
            for s2, x in lab.call(s1, NEXT, [eref]):
                for s3, kn, q in lab.variants(s2, x):
                    if kn != 'Some':
                        rep.ob(False, 'listed|' + kind, 'a member is not listed by the snapshot of its archive', NEXT)
                        continue
                    n += 1
                    s3 = s3.copy()
                    e = lab.obj(s3, 'entry', q[0].ty, q[0])
                    entry_shows(lab, rep, s3, e, p, kind, acc, p.header(0, 0), rty)
        rep.ob(n > 0, 'listed|' + kind, 'no member is listed', NEXT)
        rep.engine(E)
    rep.floor('user id', 20)
    rep.floor('user name', 4)
    rep.floor('link', 20)


def entry_shows(lab, rep, st, e, m, kind, acc, h, rty):
    E = lab.E

    def opt(name, s, fn, res, key, what):
        """the accessor gives the value that can be read, and nothing otherwise"""
        for s1, rn, rp in lab.variants(s, res):
            for s2, v in lab.call(s1, acc + fn, [e]):
                for s3, vn, vp in lab.variants(s2, v):
                    rep.ob((vn == 'Some') is (rn == 'Ok'), '%s|%s' % (key, kind), '%s is %s when the header %s it' % (what, 'given' if vn == 'Some' else 'missing', 'has' if rn == 'Ok' else 'lacks'), acc + fn)
                    if vn == 'Some' and rn == 'Ok':
                        rep.ob(lab.same(s3, vp[0], rp[0]), '%s|%s' % (key, kind), '%s is not the one of the header' % what, acc + fn)
    uid = E.mkval(mk('call', 'uid', h), rty('u64'))
    gid = E.mkval(mk('call', 'gid', h), rty('u64'))
    opt('uid', st, 'userid', uid, 'user id', 'the user id')
    opt('gid', st, 'groupid', gid, 'group id', 'the group id')
    opt('mode', st, 'mode', E.mkval(mk('call', 'mode', h), rty('u32')), 'mode', 'the mode')
    # modification time
    for s1, rn, rp in lab.variants(st, E.mkval(mk('call', 'mtime', h), rty('u64'))):
        for s2, v in lab.call(s1, acc + 'mtime', [e]):
            t = v.ty
            sec, nsec = lab.part(s2, v, lab.fidx(t, 'Timespec', 'sec')[0]), lab.part(s2, v, lab.fidx(t, 'Timespec', 'nsec')[0])
            if rn == 'Ok':
                ok = lab.same(s2, sec, rp[0])
            else:
                ok = s2.cons.proves_eq(sec.lin)
            rep.ob(ok and s2.cons.proves_eq(nsec.lin), 'modification time|' + kind, 'the modification time is not the one of the header', acc + 'mtime')
    # names of the owners
    for fn, idv, nm, key in (('username', uid, 'username', 'user name'), ('groupname', gid, 'groupname', 'group name')):
        t = mk('call', nm, h)
        for s1, rn, rp in lab.variants(st, idv):
            for s2, v in lab.call(s1, acc + fn, [e]):
                for s3, vn, vp in lab.variants(s2, v):
                    if rn != 'Ok':
                        rep.ob(vn == 'None', '%s|%s' % (key, kind), 'the %s of an entry without id is given' % key, acc + fn)
                        continue
                    f = fand(('var', t, frozenset([0]), 2), ('var', mk('fld', t, 0, 0), frozenset([1]), 2))
                    for s4 in lab.when(s3, f, True):
                        ok = vn == 'Some'
                        if ok:
                            sr = lab.seq(s4, vp[0])
                            ok = E.cterm(s4, sr) is mk('*', mk('fld', mk('fld', t, 0, 0), 1, 0))
                        rep.ob(ok, '%s|%s' % (key, kind), 'the %s is not the one of the header' % key, acc + fn)
    # type, size and path
    for s1, v in lab.call(st, acc + 'entry_type', [e]):
        b = Num(L(mk('call', 'as_byte', mk('call', 'entry_type', h), ty='u8')), 'u8')
        for s2, w in lab.call(s1, 'signatures::EntryType::new', [b]):
            rep.ob(lab.same(s2, v, w), 'type|' + kind, 'the type is not the one of the header', acc + 'entry_type')
    for s1, v in lab.call(st, acc + 'size_hint', [e]):
        rep.ob(lab.same(s1, v, E.mkval(mk('hint', 0, 0), v.ty)), 'size|' + kind, 'the size hint is not the one of the member', acc + 'size_hint')
    for s1, v in lab.call(st, acc + 'path_bytes', [e]):
        rep.ob(s1.cons.proves_eq(m.rank_of(s1, v) - m.rank(s1, 0)), 'path|' + kind, 'the path is not the one of the member', acc + 'path_bytes')
    # link target
    t = mk('call', 'link_name_bytes', mk('member', 0, 0))
    for s1, v in lab.call(st, acc + 'linked_path', [e]):
        for s2, vn, vp in lab.variants(s1, v):
            for has in (True, False):
                for s3 in lab.when(s2, ('var', t, frozenset([1]), 2), has):
                    ok = (vn == 'Some') is has
                    if ok and has:
                        ok = E.cterm(s3, lab.seq(s3, vp[0])) is mk('*', mk('bytes', mk('fld', t, 1, 0)))
                    rep.ob(ok, 'link|' + kind, 'the link target is not the one of the member', acc + 'linked_path')


# ---------------------------------------------------------------- a whole signature chain, from its files to the listings
FROM = 'signatures::Chain::from_sigchain'


class Pipeline:
    """a signature chain of the given archives, each a list of (kind of member, number of its name); names of an archive in order"""

    def __init__(self, P, rep, archives, pin=True, errors=True):
        lab = self.lab = Lab(P, rep, joinlim=400, retlim=400, maxsteps=900000)
        E = lab.E
        E.exact = E.ranks = True
        self.archives = archives
        st = self.st = lab.state()
        E.stop["<tar::Entries<'a, R> as std::iter::Iterator>::next"] = self.next
        E.stop["tar::Entry::<'a, R>::path_bytes"] = self.path_bytes
        E.stop['signatures::compute_size_hint'] = self.hint
        E.hooks['open'] = self.opened
        sct, sft = lab.adt('collections::SignatureChain'), lab.adt('collections::SignatureFile')
        i_full, _ = lab.fby(sct, lambda s: s.endswith('SignatureFile'))
        i_incs, _ = lab.fby(sct, lambda s: s.startswith('std::vec::Vec'))
        self.i_name, _ = lab.fidx(sft, 'SignatureFile', 'file_name')
        self.i_gz, _ = lab.fidx(sft, 'SignatureFile', 'compressed')
        n = len(archives) - 1
        self.coll = lab.obj(st, 'signatures', sct, Agg(sct, 0, {i_full: E.mkval(mk('arg', 'file0'), sft),
                            i_incs: Seq(mk('empty', sft), L(n), sft, {L(k): E.mkval(mk('arg', 'file%d' % (k + 1)), sft) for k in range(n)})}, mk('arg', 'signatures')))
        incs = lab.seq(st, lab.sub(st, self.coll, i_incs))
        self.files = [lab.sub(st, self.coll, i_full)] + [lab.nth(incs, k) for k in range(n)]
        self.fnames = [E.cterm(st, lab.seq(st, lab.sub(st, r, self.i_name))) for r in self.files]
        st.mem[('G', 'opens')] = Num(L(0), 'usize')
        for k in range(n + 1):
            st.mem[('G', 'member%d' % k)] = Num(L(0), 'usize')
        u8 = P.u8
        self.names, self.refs = {}, {}
        for k, ms in enumerate(archives):
            last = None
            for kind, i in ms:
                if kind == 'error':
                    continue
                pre = NAMES[kind]
                # the path is shared by all members with this name: the member name is the prefix and the path
                if i not in self.refs:
                    q = Seq(mk('arg', 'path%d' % i), L(mk('arg', 'pathlen%d' % i, ty='len')), u8)
                    r = lab.obj(st, 'path%d' % i, None, q)
                    st.cons = st.cons.add(q.len - 1)
                    sr = lab.seq(st, r)
                    st.cons = st.cons.add_ne(E.elem_at(st, sr, sr.len - 1).lin - 47)
                    self.refs[i] = sr
                    self.names[i] = q
                if kind != 'other':
                    if last is not None:
                        st.cons = st.cons.add(self.rank(st, i) - last - 1)
                    last = self.rank(st, i)
                # what follows the prefix in the name of the member is the path
                nr = lab.seq(st, lab.obj(st, 'name%d%s' % (i, kind), None, self.full(kind, i)))
                tail = SRef(nr.p, nr.off + len(pre), nr.len - len(pre), nr.el)
                st.cons = st.cons.add_eq(models.rank_of('path', E.cterm(st, tail)) - self.rank(st, i))
                st.cons = st.cons.add_ne(E.elem_at(st, nr, nr.len - 1).lin - 47)
        if pin:
            for k, ms in enumerate(archives):
                for j in range(len(ms)):
                    h = self.header(k, j)
                    for m in ('uid', 'gid', 'mode', 'mtime', 'size'):
                        st.vs[mk('call', m, h)] = frozenset([0])
                    for m in ('username', 'groupname'):
                        st.vs[mk('call', m, h)] = frozenset([0])
                        st.vs[mk('fld', mk('call', m, h), 0, 0)] = frozenset([0])
                    st.vs[mk('call', 'link_name_bytes', mk('member', k, j))] = frozenset([0])
        for k, ms in enumerate(archives):
            for j in range(len(ms)):
                st.cons = st.cons.add(L((1 << 63) - 1) - self.mtime(k, j))
        if not errors:      # files that can be read, and are not compressed
            E.stop['backend::Backend::open_file'] = self.succeed(models.m_open)
            E.stop['tar::Archive::<R>::entries'] = self.succeed(models.m_entries)
            for r in self.files:
                g = lab.deref(st, lab.sub(st, r, self.i_gz))
                (st,) = lab.when(st, g.f, False)
            self.st = st

    def succeed(self, model):
        def f(E, st, fr, c, args, dty):
            st = st.copy()
            r = model(E, st, fr, c, args, dty)
            if r is not None:
                for s, v in r:
                    s.vs[v.t] = frozenset([0])
            return r
        return f

    def header(self, k, j):
        return mk('*', mk('call', 'header', mk('member', k, j)))

    def mtime(self, k, j):
        return L(mk('fld', mk('call', 'mtime', self.header(k, j)), 0, 0, ty='u64'))

    def rank(self, st, i):
        return models.rank_of('path', self.lab.E.cterm(st, self.refs[i]))

    def rank_of(self, st, v):
        return models.rank_of('path', self.lab.E.cterm(st, self.lab.seq(st, v)))

    def opened(self, E, st, fr, backend=None, name=None):
        k = st.mem[('G', 'opens')].lin.k
        st.mem[('G', 'opens')] = Num(L(k + 1), 'usize')
        st.mem[('G', 'open%d' % k)] = name
        st.mem[('G', 'backend%d' % k)] = models.deref_all(E, st, backend)

    def source(self, t):
        """(number of the file a reader reads, decoders it goes through)"""
        dec = []
        while isinstance(t, Term):
            if t.op == 'openres':
                return (self.fnames.index(t.args[2]) if t.args[2] in self.fnames else None), dec
            if t.op == 'wrap':
                dec.append(t.args[0].split('::')[-1])
            t = t.args[-1] if t.op in ('wrap', 'call', '*', 'adv') else t.args[0] if t.args else None
        return None, dec

    def next(self, E, st, fr, c, args, dty):
        v = E.read(st, args[0].p)
        k, _ = self.source(E.argterm(st, v))
        if k is None:
            raise Missing('the file whose members are read')
        n = st.mem[('G', 'member%d' % k)].lin
        if not n.is_const() or n.k >= len(self.archives[k]):
            return [(st, models.none(dty))]
        st = st.copy()
        st.mem[('G', 'member%d' % k)] = Num(n + 1, 'usize')
        st.mem[('G', 'from%d' % k)] = v
        models.advance(st)
        rty = models.payload_ty(E, dty, 1)
        if self.archives[k][n.k][0] == 'error':
            return [(st, models.some(dty, Agg(rty, 1, {0: E.mkval(mk('bad', k, n.k), E.T[rty]['vs'][1]['f'][0][1])})))]
        return [(st, models.some(dty, Agg(rty, 0, {0: Sym(mk('member', k, n.k), E.T[rty]['vs'][0]['f'][0][1])})))]

    def member(self, E, st, v):
        t = E.argterm(st, models.deref_all(E, st, v))
        return (t.args[0], t.args[1]) if t.op == 'member' else None

    def path_bytes(self, E, st, fr, c, args, dty):
        m = self.member(E, st, args[0])
        if m is None:
            return None
        kind, i = self.archives[m[0]][m[1]]
        return [(st, Agg(dty, self.lab.vidx(dty, 'Owned'), {0: self.full(kind, i)}))]

    def full(self, kind, i):
        pre, q = NAMES[kind], self.names[i]
        return Seq(mk('cat', pre, q.t), q.len + len(pre), self.lab.P.u8, {L(x): Num(L(b), 'u8') for x, b in enumerate(pre)})

    def hint(self, E, st, fr, c, args, dty):
        m = self.member(E, st, args[0])
        return [(st, E.mkval(mk('hint', *m), dty))] if m else None

    def snapshots(self, k):
        """[(state, snapshot k of the chain)]"""
        lab = self.lab
        out = []
        bk = lab.refto(self.st, FROM, 1, 'backend')
        for s0, v in lab.call(self.st, FROM, [self.coll, bk]):
            for s, vn, pl in lab.variants(s0, v):
                if vn != 'Ok':
                    continue
                s = s.copy()
                cref = lab.obj(s, 'chain', pl[0].ty, pl[0])
                for s1, it in lab.call(s, 'signatures::Chain::snapshots', [cref]):
                    s1 = s1.copy()
                    iref = lab.obj(s1, 'iter', it.ty, it, mut=True)
                    for s2, x in lab.call(s1, "<signatures::Snapshots<'a> as std::iter::Iterator>::nth", [iref, Num(L(k), 'usize')]):
                        for s3, xn, xp in lab.variants(s2, x):
                            if xn == 'Some':
                                out.append((s3.copy(), xp[0]))
        return out

    def expected(self, st, upto):
        """[(state, [(name, archive, member)])]: what snapshot `upto` lists, in any order"""
        lab = self.lab
        vs = [(i, k, j, kind) for k, ms in enumerate(self.archives) if k <= upto for j, (kind, i) in enumerate(ms) if kind in LITERALS]
        out = [(st, [])]
        for a, (i, k, j, kind) in enumerate(vs):
            nxt = []
            for s, got in out:
                live = [s]
                for i2, k2, j2, kind2 in vs:
                    if k2 <= k:
                        continue
                    keep = []
                    for s2 in live:
                        f = feq(self.rank(s2, i) - self.rank(s2, i2)) if i != i2 else True
                        keep.extend(lab.when(s2, f, False))
                        nxt.extend((s3, got) for s3 in lab.when(s2, f, True))
                    live = keep
                nxt.extend((s2, got + [(i, k, j)] if kind != 'Deleted' else got) for s2 in live)
            out = nxt
        return out


def archives(text):
    """'S0 S1 / G2 D3': the members of each archive, with the numbers of their names"""
    kinds = dict(S='Snapshot', G='Signature', D='Deleted', o='other', e='error')
    return [[(kinds[m[0]], int(m[1:])) for m in a.split()] for a in text.split('/')]


NUMBERING = ['', 'S0', 'S0 / G1', 'S0 / / G0', 'S0 / D0 / S0', 'S0 / S1 / S2']
MERGING = ['', 'S0 S1 S2', 'S0 / S1', 'S0 / D1', 'S0 S1 / G2', 'S0 S1 / S2 D3', 'S0 / G1 S2 S3', 'S0 S1 S2 / S3 G4', 'S0 S1 / D2 S3 D4', 'S0 / o1 S2', 'S0 / G1 o2', 'S0 / e1 G2', 'S0 S1 / D2 e3 S4',
           'S0 S1 S2 S3 / D4', '/ S0 S1', 'S0 / S1 / S2', 'S0 S1 / D2 / S3', 'S0 / S1 S2 / D3']


def pipeline(P, rep, shapes, errors=True):
    acc = "signatures::Entry::<'a>::"
    for shape in shapes:
        p = Pipeline(P, rep, archives(shape), errors=errors)
        lab, E = p.lab, p.lab.E
        name = 'archives ' + ' / '.join(' '.join('%s %s' % (k, 'ABCDEFG'[i]) for k, i in ms) or 'empty' for ms in p.archives)
        bk = lab.refto(p.st, FROM, 1, 'backend')
        nok = 0
        for s0, v in lab.call(p.st, FROM, [p.coll, bk]):
            for s, vn, pl in lab.variants(s0, v):
                loading(rep, p, s, vn, pl, bk, name)
                if vn != 'Ok':
                    continue
                nok += 1
                s = s.copy()
                cref = lab.obj(s, 'chain', pl[0].ty, pl[0])
                for s1, it in lab.call(s, 'signatures::Chain::snapshots', [cref]):
                    for s2, ln in lab.call(s1, "<signatures::Snapshots<'a> as std::iter::ExactSizeIterator>::len", [lab.obj(s1, 'it', it.ty, it)]):
                        rep.ob(s2.cons.proves_eq(ln.lin - len(p.archives)), 'number of snapshots|' + name, 'a chain of %d archives has another number of snapshots' % len(p.archives), FROM)
                    for k in range(len(p.archives)):
                        for s2, want in p.expected(s1, k):
                            s2 = s2.copy()
                            iref = lab.obj(s2, 'iter', it.ty, it, mut=True)
                            for s3, x in lab.call(s2, "<signatures::Snapshots<'a> as std::iter::Iterator>::nth", [iref, Num(L(k), 'usize')]):
                                for s4, xn, xp in lab.variants(s3, x):
                                    rep.ob(xn == 'Some', 'snapshot present|' + name, 'snapshot %d of the chain is missing' % k, FROM)
                                    if xn == 'Some':
                                        walk(rep, p, s4, xp[0], want, k, name, acc)
        rep.ob(nok > 0, 'pipeline|' + name, 'the chain is never read', FROM)
        rep.engine(E)
        if rep.bad:
            # the larger shapes would only repeat it
            break


def walk(rep, p, st, snap, want, k, name, acc):
    lab, E = p.lab, p.lab.E
    st = st.copy()
    sref = lab.obj(st, 'snap', snap.ty, snap)
    for s0, ents in lab.call(st, FILES, [sref]):
        s0 = s0.copy()
        eref = lab.obj(s0, 'entries', ents.ty, ents, mut=True)
        todo = [(s0, [], None)]
        for n in range(len(want) + 1):
            nxt = []
            for s, got, last in todo:
                for s1, x in lab.call(s, NEXT, [eref]):
                    for s2, xn, xp in lab.variants(s1, x):
                        if xn == 'None':
                            rep.ob(len(got) == len(want), 'missing paths|' + name, 'snapshot %d lists %d paths instead of %d' % (k, len(got), len(want)), NEXT)
                            continue
                        if not rep.ob(n < len(want), 'too many paths|' + name, 'snapshot %d lists more than %d paths' % (k, len(want)), NEXT):
                            continue
                        s2 = s2.copy()
                        e = lab.obj(s2, 'entry', xp[0].ty, xp[0])
                        for s3, pb in lab.call(s2, acc + 'path_bytes', [e]):
                            r = p.rank_of(s3, pb)
                            if last is not None:
                                rep.ob(s3.cons.prove(r - last - 1), 'order of the paths|' + name, 'the paths of snapshot %d are not listed in order' % k, NEXT)
                            at = [w for w in want if s3.cons.proves_eq(p.rank(s3, w[0]) - r)]
                            rep.ob(len(at) == 1 and at[0] not in got, 'listed path|' + name, 'snapshot %d lists a path that it should not list' % k, NEXT)
                            if len(at) != 1:
                                continue
                            for s4, t in lab.call(s3, acc + 'mtime', [e]):
                                sec = lab.part(s4, t, lab.fidx(t.ty, 'Timespec', 'sec')[0])
                                rep.ob(s4.cons.proves_eq(sec.lin - p.mtime(at[0][1], at[0][2])), 'version listed|' + name, 'snapshot %d lists another version of a path' % k, NEXT)
                                nxt.append((s4, got + [at[0]], r))
            todo = nxt


def loading(rep, p, st, vn, pl, bk, name):
    """what was opened, in which order, and what became of errors"""
    lab, E = p.lab, p.lab.E
    n = st.mem[('G', 'opens')].lin.k
    errs = []
    for k in range(n):
        nm = E.cterm(st, models.sref(E, st, st.mem[('G', 'open%d' % k)]))
        ok = k < len(p.fnames) and nm is p.fnames[k]
        rep.ob(ok, 'opened files|' + name, 'file %d that is opened is not signature file %d of the chain' % (k, k), FROM)
        rep.ob(E.argterm(st, st.mem[('G', 'backend%d' % k)]) is E.argterm(st, models.deref_all(E, st, bk)), 'backend|' + name, 'a file of another backend is opened', FROM)
        if not ok:
            continue
        r = [t for t in st.vs if t.op == 'openres' and t.args[2] is nm and len(st.vs[t]) == 1]
        rep.ob(len(r) == 1, 'outcome of opening|' + name, 'whether file %d could be opened is ignored' % k, FROM)
        if len(r) != 1:
            continue
        if st.vs[r[0]] == frozenset([1]):
            errs.append(mk('fld', r[0], 1, 0))
            rep.ob(k == n - 1, 'open error|stop|' + name, 'reading goes on after a file could not be opened', FROM)
        a = [t for t in st.vs if t.op == 'call' and t.args[0] == 'tar_entries' and p.source(t.args[1])[0] == k]
        if a and st.vs[a[0]] == frozenset([1]):
            errs.append(mk('fld', a[0], 1, 0))
            rep.ob(k == n - 1, 'archive error|stop|' + name, 'reading goes on after an archive could not be read', FROM)
        fr = st.mem.get(('G', 'from%d' % k))
        if fr is not None:
            _, dec = p.source(E.argterm(st, fr))
            gz = lab.deref(st, lab.sub(st, p.files[k], p.i_gz))
            rep.ob(lab.truth(st, gz) is ('GzDecoder' in dec) and len([d for d in dec if d != 'Archive' and d != 'BufReader']) <= 1, 'decompression|' + name, 'a file is%s decompressed although it is%s compressed' % (('', ' not') if 'GzDecoder' in dec else (' not', '')), FROM)
    if vn == 'Err':
        rep.ob(bool(errs) and E.argterm(st, pl[0]) is errs[0], 'error returned|' + name, 'the error returned is not the first that occurred', FROM)
    else:
        rep.ob(not errs, 'error returned|' + name, 'an error while reading the signatures is not returned', FROM)
        rep.ob(n == len(p.fnames), 'all files|' + name, '%d of %d signature files are read' % (n, len(p.fnames)), FROM)


def numbering(P, rep):
    """archives are read in order, each is one snapshot"""
    pipeline(P, rep, NUMBERING)
    rep.floor('opened files', 20)
    rep.floor('decompression', 20)
    rep.floor('error returned', 20)
    rep.floor('version listed', 20)


def merging(P, rep):
    """what the snapshots of a chain list, of archives with paths in every relative order"""
    pipeline(P, rep, MERGING, errors=False)
    rep.floor('order of the paths', 100)
    rep.floor('listed path', 200)
    rep.floor('version listed', 200)


# ---------------------------------------------------------------- the iterator over the snapshots of a chain
IT = "<signatures::Snapshots<'a> as std::iter::%s>::%s"


def iterator(P, rep):
    """next, nth, len and size_hint agree, at every position of every chain"""
    ity, cty, sty = 'signatures::Snapshots', CHAIN, SNAP

    def setup():
        lab = Lab(P, rep)
        t, c, s = lab.adt(ity), lab.adt(cty), lab.adt(sty)
        i_chain, _ = lab.fby(t, lambda x: x.startswith('&'))
        i_pos, pty = lab.fby(t, 'usize')
        st = lab.state()
        chain = lab.obj(st, 'chain', c)
        st, it0 = lab.call1(st, 'signatures::Chain::snapshots', [chain])
        st = st.copy()
        first = lab.obj(st, 'fresh', it0.ty, it0)
        st, n = lab.call1(st, IT % ('ExactSizeIterator', 'len'), [first])
        pos = lab.sym('position', pty)
        st = st.copy()
        st.cons = st.cons.add(n.lin - pos.lin)
        ref = lab.obj(st, 'iterator', t, Agg(t, 0, {i_chain: chain, i_pos: pos}), mut=True)
        return lab, st, ref, n.lin, pos.lin, lab.fby(s, 'usize')[0], lab.fby(s, lambda x: x.startswith('&'))[0], chain, (i_chain, i_pos)

    def after(lab, st, ref, rest, what):
        for s, n in lab.call(st, IT % ('ExactSizeIterator', 'len'), [ref]):
            rep.ob(s.cons.proves_eq(n.lin - rest), 'remaining|' + what, 'after %s the number of remaining snapshots is wrong' % what, IT % ('ExactSizeIterator', 'len'))
        for s, h in lab.call(st, IT % ('Iterator', 'size_hint'), [ref]):
            lo, hi = lab.part(s, h, 0), lab.part(s, h, 1)
            for s2, vn, p in lab.variants(s, hi):
                rep.ob(s2.cons.proves_eq(lo.lin - rest) and vn == 'Some' and s2.cons.proves_eq(p[0].lin - rest), 'size hint|' + what, 'after %s the size hint is not the number of remaining snapshots' % what, IT % ('Iterator', 'size_hint'))

    def judge(lab, st, v, ref, n, pos, step, i_idx, i_chain, chain, fn, what):
        """step: snapshots skipped before the one that is given"""
        for s, vn, p in lab.variants(st, v):
            for inside in (True, False):
                for s2 in lab.when(s, fge(n - pos - step - 1), inside):
                    rep.ob((vn == 'Some') is inside, 'end|' + what, '%s gives %s at a position %s the end' % (what, 'a snapshot' if vn == 'Some' else 'nothing', 'before' if inside else 'after'), fn)
                    if vn == 'Some' and inside:
                        rep.ob(s2.cons.proves_eq(lab.part(s2, p[0], i_idx).lin - pos - step), 'snapshot given|' + what, '%s gives another snapshot than the one at its position' % what, fn)
                        rep.ob(lab.same(s2, lab.part(s2, p[0], i_chain), chain), 'chain of the snapshot|' + what, '%s gives a snapshot of another chain' % what, fn)
                        after(lab, s2, ref, n - pos - step - 1, what)
                    elif vn == 'None' and not inside:
                        after(lab, s2, ref, L(0), what)

    lab, st, ref, n, pos, i_idx, i_chain, chain, _ = setup()
    after(lab, st, ref, n - pos, 'nothing')
    rep.engine(lab.E)
    for s, v in lab.call(st, IT % ('Iterator', 'next'), [ref]):
        judge(lab, s, v, ref, n, pos, L(0), i_idx, i_chain, chain, IT % ('Iterator', 'next'), 'next')
    lab, st, ref, n, pos, i_idx, i_chain, chain, _ = setup()
    k = lab.sym('n', lab.argty(IT % ('Iterator', 'nth'), 1))
    for s, v in lab.call(st, IT % ('Iterator', 'nth'), [ref, k]):
        judge(lab, s, v, ref, n, pos, k.lin, i_idx, i_chain, chain, IT % ('Iterator', 'nth'), 'nth')
    for o in lab.E.obl:
        rep.ob(o['ok'], 'arithmetic|%s' % o['kind'], 'the iterator can panic: %s' % o['detail'], o['fn'])
    rep.engine(lab.E)
    lab, st, ref, n, pos, i_idx, i_chain, chain, (ic, ip) = setup()
    st, it0 = lab.call1(st, 'signatures::Chain::snapshots', [chain])
    rep.ob(st.cons.proves_eq(lab.part(st, it0, ip).lin) and lab.same(st, lab.part(st, it0, ic), chain), 'start|snapshots', 'the iteration does not start with the first snapshot of the chain', 'signatures::Chain::snapshots')
    st, c0 = lab.call1(st, 'signatures::Chain::new', [])
    st = st.copy()
    cr = lab.obj(st, 'empty', c0.ty, c0)
    st, it0 = lab.call1(st, 'signatures::Chain::snapshots', [cr])
    st = st.copy()
    st, n = lab.call1(st, IT % ('ExactSizeIterator', 'len'), [lab.obj(st, 'emptyit', it0.ty, it0)])
    rep.ob(st.cons.proves_eq(n.lin), 'start|empty chain', 'a new chain has snapshots', 'signatures::Chain::new')
    for k in ('end', 'snapshot given', 'remaining', 'size hint'):
        rep.floor(k, 2)
