"""Backup sets and chains: which files belong together, how sets are linked."""
from lab import Lab, Missing
from vals import *
from terms import L
from models import split, field

SET = 'collections::BackupSet'
CHAIN = 'collections::BackupChain'
INFO = 'collections::file_naming::Info'
FNI = 'collections::file_naming::FileNameInfo'
TYPE = 'collections::file_naming::Type'

FULLS = ('Full', 'FullManifest', 'FullSig')
INCS = ('Inc', 'IncManifest', 'NewSig')


class Info:
    """a parsed file name of one kind, with unknown contents"""

    def __init__(self, lab, st, kind, name='pr'):
        self.kind = kind
        ity, tty = lab.adt(INFO), lab.adt(TYPE)
        i_tp, _ = lab.fidx(ity, 'Info', 'tp')
        i_c, _ = lab.fidx(ity, 'Info', 'compressed')
        i_e, _ = lab.fidx(ity, 'Info', 'encrypted')
        vi = lab.vidx(tty, kind)
        fs = lab.P.T[tty]['vs'][vi]['f']
        vals = {n: lab.sym('%s.%s' % (name, n), ft) for n, ft in fs}
        tp = Agg(tty, vi, {i: vals[n] for i, (n, _) in enumerate(fs)})
        self.__dict__.update(vals)
        self.vals = vals
        b = lab.P.ty_by_s['bool']
        self.compressed = lab.sym(name + '.compressed', b)
        self.encrypted = lab.sym(name + '.encrypted', b)
        self.val = Agg(ity, 0, {i_tp: tp, i_c: self.compressed, i_e: self.encrypted})
        if kind in FULLS:
            self.start = self.end = vals['time']
        else:
            self.start, self.end = vals['start_time'], vals['end_time']
        self.partial = vals.get('partial', BoolV(False))
        self.ref = lab.obj(st, name, ity, self.val)

    def named(self, lab, st, name='fni'):
        """the file name information carrying it"""
        t = lab.adt(FNI)
        i_n, nt = lab.fidx(t, 'FileNameInfo', 'file_name')
        i_i, _ = lab.fidx(t, 'FileNameInfo', 'info')
        self.name = lab.sym(name + '.file_name', nt)
        return lab.obj(st, name, t, Agg(t, 0, {i_n: self.name, i_i: self.val}))


OBS = ['is_full', 'is_incremental', 'start_time', 'end_time', 'is_compressed', 'is_encrypted', 'is_partial', 'is_complete', 'manifest_path', 'num_volumes']


def observe(lab, st, ref, what=OBS):
    """[(state, {observer: value})]"""
    out = [(st, {})]
    for o in what:
        n = []
        for s, d in out:
            for s2, v in lab.call(s, SET + '::' + o, [ref]):
                n.append((s2, dict(d, **{o: v})))
        out = n
    return out


def kinds_of_set(lab, st, ref):
    """[(state, 'full'/'inc', start, end)] of a set of unknown contents"""
    out = []
    for s, v in lab.call(st, SET + '::is_full', [ref]):
        for s2, b in lab.bools(s, v):
            for s3, a in lab.call(s2, SET + '::start_time', [ref]):
                for s4, e in lab.call(s3, SET + '::end_time', [ref]):
                    out.append((s4, 'full' if b else 'inc', a, e))
    return out


def expected_member(lab, st, kind, a, e, info):
    """[(state, does the file belong to the set)]"""
    if (kind == 'full') != (info.kind in FULLS):
        return [(st, False)]
    f = lab.eqf(st, e, info.end)
    if kind == 'inc':
        f = fand(lab.eqf(st, a, info.start), f)
    out = []
    for b in (True, False):
        for s in lab.when(st, f, b):
            out.append((s, b))
    return out


def membership(P, rep):
    """BackupSet::is_same_set, BackupSet::new, BackupSet::add_filename"""
    for kind in FULLS + INCS:
        lab = Lab(P, rep)
        st = lab.state()
        info = Info(lab, st, kind)
        sref = lab.obj(st, 'set', lab.adt(SET))
        for s, sk, a, e in kinds_of_set(lab, st, sref):
            if sk == 'full':
                rep.ob(lab.same(s, a, e), 'full-set-times|%s' % kind, 'start_time and end_time of a full set differ', SET + '::start_time')
            for s2, want in expected_member(lab, s, sk, a, e, info):
                for s3, r in lab.call(s2, SET + '::is_same_set', [sref, info.ref]):
                    rep.ob(lab.truth(s3, r) is want, 'is_same_set|%s set, %s file, times %s' % (sk, kind, 'agree' if want else 'differ or kind differs'),
                           'is_same_set is %s for a %s set and a %s file whose times %s' % (show_b(r), sk, kind, 'agree' if want else 'do not all agree'), SET + '::is_same_set')
        rep.engine(lab.E)
        construction(P, rep, kind)
        addition(P, rep, kind)
    rep.floor('is_same_set', 18)
    rep.floor('new set', 40)
    rep.floor('add_filename', 60)


def show_b(v):
    return fshow(v.f) if isinstance(v, BoolV) else repr(v)


def volume_ok(lab, rep, s, ref, key, num, want_name):
    """the set maps the volume number to that file name"""
    for s2, v in lab.call(s, SET + '::volume_path', [ref, num]):
        for s3, n, p in lab.variants(s2, v):
            rep.ob(n == 'Some' and lab.same(s3, p[0], want_name), key, 'volume_path does not give back the file of the volume', SET + '::volume_path')


def construction(P, rep, kind):
    lab = Lab(P, rep)
    st = lab.state()
    info = Info(lab, st, kind)
    fni = info.named(lab, st)
    for s, v in lab.call(st, SET + '::new', [fni]):
        ref = lab.obj(s, 'made', lab.adt(SET), v)
        for s2, o in observe(lab, s, ref):
            k = 'new set|%s|' % kind
            full = kind in FULLS
            rep.ob(lab.truth(s2, o['is_full']) is full, k + 'is_full', 'is_full of a set made from a %s file' % kind, SET + '::new')
            rep.ob(lab.truth(s2, o['is_incremental']) is (not full), k + 'is_incremental', 'is_incremental of a set made from a %s file' % kind, SET + '::new')
            rep.ob(lab.same(s2, o['start_time'], info.start), k + 'start_time', 'start time is not the one in the file name', SET + '::new')
            rep.ob(lab.same(s2, o['end_time'], info.end), k + 'end_time', 'end time is not the one in the file name', SET + '::new')
            rep.ob(lab.same(s2, o['is_compressed'], info.compressed), k + 'compressed', 'compression is not the one in the file name', SET + '::new')
            rep.ob(lab.same(s2, o['is_encrypted'], info.encrypted), k + 'encrypted', 'encryption is not the one in the file name', SET + '::new')
            rep.ob(lab.same(s2, o['is_partial'], info.partial), k + 'partial', 'partial flag is not the one in the file name', SET + '::new')
            man = kind in ('FullManifest', 'IncManifest')
            vol = kind in ('Full', 'Inc')
            mp = lab.seq(s2, o['manifest_path'])
            if man:
                rep.ob(lab.same(s2, o['manifest_path'], info.name), k + 'manifest', 'manifest path is not the file name of the manifest', SET + '::new')
            else:
                rep.ob(mp is not None and s2.cons.proves_eq(mp.len), k + 'manifest', 'manifest path set by a file that is not a manifest', SET + '::new')
                rep.ob(lab.truth(s2, o['is_complete']) is False, k + 'complete', 'set without manifest reported as complete', SET + '::is_complete')
            n = o['num_volumes'].lin
            if vol:
                rep.ob(s2.cons.proves_eq(n - 1), k + 'volumes', 'number of volumes', SET + '::new')
                volume_ok(lab, rep, s2, ref, k + 'volume', info.volume_number, info.name)
            else:
                rep.ob(s2.cons.proves_eq(n), k + 'volumes', 'a volume recorded for a file that is not a volume', SET + '::new')
    rep.engine(lab.E)


def addition(P, rep, kind):
    lab = Lab(P, rep)
    st = lab.state()
    info = Info(lab, st, kind)
    fni = info.named(lab, st)
    sref = lab.obj(st, 'set', lab.adt(SET), mut=True)
    other = lab.sym('other', P.ty_by_s['usize'])
    for s, sk, a, e in kinds_of_set(lab, st, sref):
        for s2, want in expected_member(lab, s, sk, a, e, info):
            for s3, o in observe(lab, s2, sref):
                before = s3.mem[sref.p.root]
                for s4, r in lab.call(s3, SET + '::add_filename', [sref, fni]):
                    k = 'add_filename|%s to %s set|%s|' % (kind, sk, 'member' if want else 'not a member')
                    rep.ob(lab.truth(s4, r) is want, k + 'result', 'add_filename does not report whether the file belongs to the set', SET + '::add_filename')
                    if not want:
                        rep.ob(lab.same(s4, before, s4.mem[sref.p.root]), k + 'untouched', 'a file of another set changes the set', SET + '::add_filename')
                        continue
                    for s5, n in observe(lab, s4, sref):
                        for f in ('is_full', 'is_incremental', 'start_time', 'end_time', 'is_compressed', 'is_partial'):
                            rep.ob(lab.same(s5, o[f], n[f]), k + f, '%s of the set changes when a file is added' % f, SET + '::add_filename')
                        # a partial set becomes encrypted with its first encrypted file
                        for s6, was in lab.bools(s5, o['is_encrypted']):
                            for s7, part in lab.bools(s6, o['is_partial']):
                                for s8, enc in lab.bools(s7, info.encrypted):
                                    rep.ob(lab.truth(s8, n['is_encrypted']) is (was or (part and enc)), k + 'encrypted', 'encryption flag of the set after the addition', SET + '::add_filename')
                        if kind in ('FullManifest', 'IncManifest'):
                            rep.ob(lab.same(s5, n['manifest_path'], info.name), k + 'manifest', 'manifest path is not the added file', SET + '::add_filename')
                        else:
                            rep.ob(lab.same(s5, n['manifest_path'], o['manifest_path']), k + 'manifest', 'manifest path changed by a file that is not a manifest', SET + '::add_filename')
                        if kind in ('Full', 'Inc'):
                            volume_ok(lab, rep, s5, sref, k + 'volume', info.volume_number, info.name)
                            # the other volumes stay
                            for s6 in lab.when(s5, feq(other.lin - info.volume_number.lin), False):
                                for s7, v in lab.call(s6, SET + '::volume_path', [sref, other]):
                                    keep = s7.mem[sref.p.root]
                                    s7.mem[sref.p.root] = before
                                    for s8, w in lab.call(s7, SET + '::volume_path', [sref, other]):
                                        rep.ob(same_opt(lab, s8, v, w), k + 'other volumes', 'adding a volume changes another one', SET + '::add_filename')
                        else:
                            rep.ob(lab.same(s5, n['num_volumes'], o['num_volumes']), k + 'volumes', 'volumes changed by a file that is not a volume', SET + '::add_filename')
    rep.engine(lab.E)


def same_opt(lab, st, v, w):
    for s, n, p in lab.variants(st, v):
        for s2, m, q in lab.variants(s, w):
            if n != m or (p and not lab.same(s2, p[0], q[0])):
                return False
    return True


# ---------------------------------------------------------------- chains
def chain_parts(lab, st, ref):
    """[(state, full set, inc sets as SRef, start, end)]"""
    out = []
    for s, f in lab.call(st, CHAIN + '::full_set', [ref]):
        for s2, it in lab.call(s, CHAIN + '::inc_sets', [ref]):
            sr = iter_range(lab, s2, it)
            for s3, a in lab.call(s2, CHAIN + '::start_time', [ref]):
                for s4, e in lab.call(s3, CHAIN + '::end_time', [ref]):
                    out.append((s4, f, sr, a, e))
    return out


def iter_range(lab, st, it):
    """the elements a slice iterator is going to yield, in order"""
    if isinstance(it, Lib) and it.kind == 'SliceIter':
        return SRef(it['p'], it['lo'], it['hi'] - it['lo'], it['el'])
    raise Missing('iterator over the elements of a list (got %r)' % (it,))


def snap(lab, st, sr):
    """the sequence behind a range, as a value"""
    v = lab.E.seq_at(st, sr)
    return v


def linking(P, rep):
    """BackupChain::new and BackupChain::add_inc"""
    lab = Lab(P, rep)
    # a new chain
    st = lab.state()
    t = lab.adt(SET)
    full = lab.sym('fullset', t)
    fref = lab.obj(st, 'fs', t, full)
    for s, sk, a, e in kinds_of_set(lab, st, fref):
        if sk != 'full':
            continue
        for s2, ch in lab.call(s, CHAIN + '::new', [full]):
            cref = lab.obj(s2, 'chain', lab.adt(CHAIN), ch)
            for s3, f, sr, ca, ce in chain_parts(lab, s2, cref):
                rep.ob(lab.same(s3, lab.deref(s3, f), full), 'new chain|full', 'full set of a new chain', CHAIN + '::new')
                rep.ob(s3.cons.proves_eq(sr.len), 'new chain|inc', 'a new chain has incremental sets', CHAIN + '::new')
                rep.ob(lab.same(s3, ca, e), 'new chain|start', 'start time of a new chain', CHAIN + '::new')
                rep.ob(lab.same(s3, ce, e), 'new chain|end', 'end time of a new chain', CHAIN + '::new')
    # linking
    st = lab.state()
    cref = lab.obj(st, 'chain', lab.adt(CHAIN), mut=True)
    inc = lab.sym('incset', t)
    iref = lab.obj(st, 'is', t, inc)
    site = CHAIN + '::add_inc'
    for s, f0, sr0, a0, e0 in chain_parts(lab, st, cref):
        full0 = lab.deref(s, f0)
        n0 = sr0.len
        for s2, sk, a, e in kinds_of_set(lab, s, iref):
            for s3, case in link_cases(lab, s2, sk, a, e, sr0, e0):
                before = s3.mem[cref.p.root]
                for s4, r in lab.call(s3, site, [cref, inc]):
                    k = 'add_inc|%s|' % case
                    for s5, n, p in lab.variants(s4, r):
                        if case.startswith('reject'):
                            rep.ob(n == 'Some' and lab.same(s5, p[0], inc), k + 'given back', 'a set that does not fit is not given back', site)
                            rep.ob(lab.same(s5, s5.mem[cref.p.root], before), k + 'chain untouched', 'a rejected set changes the chain', site)
                            continue
                        rep.ob(n == 'None', k + 'accepted', 'a set that continues the chain is not accepted', site)
                        for s6, f, sr, ca, ce in chain_parts(lab, s5, cref):
                            rep.ob(lab.same(s6, lab.deref(s6, f), full0), k + 'full', 'the full set changes', site)
                            rep.ob(lab.same(s6, ca, a0), k + 'start', 'the start time of the chain changes', site)
                            rep.ob(lab.same(s6, ce, e), k + 'end', 'the end time of the chain is not the one of its last set', site)
                            keep = n0 if case == 'append' else n0 - 1
                            rep.ob(s6.cons.proves_eq(sr.len - keep - 1), k + 'count', 'number of incremental sets after linking', site)
                            if s6.cons.proves_eq(sr.len - keep - 1):
                                last = lab.E.elem_at(s6, sr, sr.len - 1)
                                rep.ob(lab.same(s6, lab.deref(s6, last), inc), k + 'last', 'the linked set is not the last of the chain', site)
                                # every earlier set stays where it was
                                j = L(lab.E.num(s6, lab.sym('j', P.ty_by_s['usize'])).single())
                                c = s6.cons.add(keep - 1 - j)
                                if c is not None:
                                    s7 = s6.copy()
                                    s7.cons = c
                                    x = lab.deref(s7, lab.E.elem_at(s7, sr, j))
                                    s7.mem[cref.p.root] = before
                                    y = lab.deref(s7, lab.E.elem_at(s7, sr0, j))
                                    rep.ob(lab.same(s7, x, y), k + 'earlier sets', 'linking changes an earlier set of the chain', site)
    rep.floor('new chain', 4)
    rep.floor('add_inc', 25)
    rep.engine(lab.E)


def link_cases(lab, st, sk, a, e, sr, ce):
    """partition by the linking rule"""
    if sk == 'full':
        return [(st, 'reject full set')]
    out = []
    for s, d in lab.cmps(st, a, ce):
        if d == 0:
            out.append((s, 'append'))
            continue
        for s2 in lab.when(s, fge(sr.len - 1), False):
            out.append((s2, 'reject, no link'))
        for s2 in lab.when(s, fge(sr.len - 1)):
            last = lab.E.elem_at(s2, sr, sr.len - 1)
            lref = lab.obj(s2, 'last', lab.adt(SET), lab.deref(s2, last))
            for s3, lk, la, le in kinds_of_set(lab, s2, lref):
                for s4, d1 in lab.cmps(s3, a, la):
                    if d1 != 0:
                        out.append((s4, 'reject, no link'))
                        continue
                    for s5, d2 in lab.cmps(s4, e, le):
                        out.append((s5, 'replace' if d2 > 0 else 'reject, not longer'))
    return out
