"""Collections made from a listing of file names: which sets and chains there are, in which order."""
from itertools import product
from base import each
from lab import *
import models
from props.sets import FULLS, INCS, INFO, FNI, TYPE, SET, CHAIN, iter_range

COL = 'collections::Collections'
FROM = COL + '::from_filenames'
PARSE = 'collections::file_naming::FileNameParser::parse'
SIGCHAIN, SIGFILE = 'collections::SignatureChain', 'collections::SignatureFile'
MANS, VOLS = ('FullManifest', 'IncManifest'), ('Full', 'Inc')


class Drop(Exception):
    """the order of what is listed is not determined by the rule"""


class Listing:
    """file names of the given kinds ('bad': not a backup file; 'raw': not text), everything else arbitrary"""

    def __init__(self, P, rep, kinds, without=None):
        lab = self.lab = Lab(P, rep, joinlim=20000, retlim=20000, maxsteps=3000000)
        E = lab.E
        E.exact = E.ranks = True
        self.kinds = kinds
        st = self.st = lab.state()
        self.usize, self.bool = P.ty_by_s['usize'], P.ty_by_s['bool']
        self.infos = {}
        E.stop[PARSE] = self.parse
        E.stop['std::path::Path::to_str'] = self.to_str
        E.stop['std::iter::IntoIterator::into_iter'] = self.into_iter
        E.stop['std::iter::Iterator::next'] = self.next
        # what is not asked for: the result of a function that reads its arguments only may be anything
        for i, f in P.fns.items():
            T = P.T
            if without and f['local'] and T[f['locals'][0][0]]['s'] == 'std::vec::Vec<%s>' % without and not any(T[a[0]]['k'] == 'ref' and T[a[0]].get('m') for a in f['locals'][1:f['argc'] + 1]):
                E.stop[f['path']] = self.anything
        ity = lab.argty(FROM, 0)
        self.files = Seq(mk('arg', 'names'), L(len(kinds)), ity, {})

    def file(self, t):
        """number of the file a term is about"""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x.op == 'elem' and x.args[0] is self.files.t:
                i = x.args[1]
                return i.k if hasattr(i, 'k') else i
            todo.extend(x.args)
        return None

    def anything(self, E, st, fr, c, args, dty):
        return [(st, E.mkval(fresh('unused'), dty))]

    def into_iter(self, E, st, fr, c, args, dty):
        v = args[0]
        if isinstance(v, Seq) and v.t is self.files.t:
            return [(st, Lib('IntoIter', seq=v, lo=L(0), hi=v.len, el=v.el))]

    def next(self, E, st, fr, c, args, dty):
        v = E.read(st, args[0].p) if isinstance(args[0], Ref) else None
        if isinstance(v, Lib) and v.kind == 'IntoIter':
            return models.m_next(E, st, fr, c, args, dty)

    def to_str(self, E, st, fr, c, args, dty):
        k = self.file(E.argterm(st, models.deref_all(E, st, args[0])))
        if k is None:
            raise Missing('the file name a path stands for %r' % E.argterm(st, models.deref_all(E, st, args[0])))
        if self.kinds[k] == 'raw':
            return [(st, models.none(dty))]
        st = st.copy()
        return [(st, models.some(dty, self.name(st, k)))]

    def name(self, st, k):
        u8 = self.lab.P.u8
        r = self.lab.obj(st, 'name%d' % k, None, Seq(mk('arg', 'name%d' % k), L(mk('arg', 'namelen%d' % k, ty='len')), u8))
        return self.lab.seq(st, r)

    def parse(self, E, st, fr, c, args, dty):
        st = st.copy()
        s = models.sref(E, st, args[1])
        t = E.cterm(st, s)
        for k, kind in enumerate(self.kinds):
            if t is mk('arg', 'name%d' % k):
                if kind == 'bad':
                    return [(st, models.none(dty))]
                return [(st, models.some(dty, self.info(k)))]
        raise Missing('the file name that is parsed')

    def info(self, k):
        lab, kind = self.lab, self.kinds[k]
        ity, tty = lab.adt(INFO), lab.adt(TYPE)
        i_tp, _ = lab.fidx(ity, 'Info', 'tp')
        vi = lab.vidx(tty, kind)
        fs = {n: lab.sym('file%d.%s' % (k, n), ft) for n, ft in lab.P.T[tty]['vs'][vi]['f']}
        self.infos[k] = fs
        return Agg(ity, 0, {i_tp: Agg(tty, vi, {i: fs[n] for i, (n, _) in enumerate(lab.P.T[tty]['vs'][vi]['f'])})}, mk('arg', 'info%d' % k))

    def time(self, k, which):
        fs = self.infos[k]
        return fs['time'] if 'time' in fs else fs[which + '_time']

    def run(self):
        lab = self.lab
        out = []
        for s, v in lab.call(self.st, FROM, [self.files]):
            s = s.copy()
            out.append((s, lab.obj(s, 'collections', v.ty, v)))
        return out

    # ---- the rule, on the numbers of the files; every question about times splits the state
    def cases(self, st, a, b):
        return [(s, d) for s, d in self.lab.cmps(st, a, b)]

    def sets(self, st):
        """[(state, sets in order of their end)]; a set: (class, start, end, files)"""
        out = [(st, [])]
        for k, kind in enumerate(self.kinds):
            if kind in ('bad', 'raw'):
                continue
            cls = 'full' if kind in FULLS else 'inc'
            a, e = self.time(k, 'start'), self.time(k, 'end')
            nxt = []
            for s, sets in out:
                todo = [(s, 0)]
                while todo:
                    s1, i = todo.pop()
                    if i == len(sets):
                        nxt.append((s1, sets + [(cls, a, e, [k])]))
                        continue
                    c2, a2, e2, ks = sets[i]
                    for s2, d in (self.cases(s1, a, a2) if cls == c2 else [(s1, 1)]):
                        for s3, d2 in (self.cases(s2, e, e2) if d == 0 else [(s2, 1)]):
                            if d == 0 and d2 == 0:
                                nxt.append((s3, sets[:i] + [(c2, a2, e2, ks + [k])] + sets[i + 1:]))
                            else:
                                todo.append((s3, i + 1))
            out = nxt
        return [x for s, sets in out for x in self.order(s, sets, lambda x: x[2])]

    def order(self, st, xs, key):
        """[(state, in increasing order)]; states where two are equal are left out"""
        out = [(st, [])]
        for x in xs:
            nxt = []
            for s, ys in out:
                todo = [(s, len(ys))]
                while todo:
                    s1, i = todo.pop()
                    if i == 0:
                        nxt.append((s1, [x] + ys))
                        continue
                    for s2, d in self.cases(s1, key(ys[i - 1]), key(x)):
                        if d < 0:
                            nxt.append((s2, ys[:i] + [x] + ys[i:]))
                        elif d > 0:
                            todo.append((s2, i - 1))
            out = nxt
        return out

    def chains(self, st):
        """[(state, chains in order of their end)]; a chain: (full set, [incremental sets], end)"""
        out = []
        for s, sets in self.sets(st):
            todo = [(s, 0, [])]
            while todo:
                s1, i, ch = todo.pop()
                if i == len(sets):
                    out.extend(self.order(s1, ch, lambda x: x[2]))
                    continue
                x = sets[i]
                if x[0] == 'full':
                    todo.append((s1, i + 1, ch + [(x, [], x[2])]))
                    continue
                for s2, ch2 in self.link(s1, ch, x, 0):
                    todo.append((s2, i + 1, ch2))
        return out

    def link(self, st, ch, x, i):
        if i == len(ch):
            return [(st, ch)]
        full, incs, end = ch[i]
        out = []
        for s, d in self.cases(st, x[1], end):
            if d == 0:
                out.append((s, ch[:i] + [(full, incs + [x], x[2])] + ch[i + 1:]))
                continue
            if not incs:
                out.extend(self.link(s, ch, x, i + 1))
                continue
            for s2, d2 in self.cases(s, x[1], incs[-1][1]):
                for s3, d3 in (self.cases(s2, x[2], incs[-1][2]) if d2 == 0 else [(s2, -1)]):
                    if d2 == 0 and d3 > 0:
                        out.append((s3, ch[:i] + [(full, incs[:-1] + [x], x[2])] + ch[i + 1:]))
                    else:
                        out.extend(self.link(s3, ch, x, i + 1))
        return out

    def sigchains(self, st):
        """[(state, signature chains in order of their start)]; a chain: numbers of its files"""
        fulls = [k for k, kind in enumerate(self.kinds) if kind == 'FullSig']
        incs = [k for k, kind in enumerate(self.kinds) if kind == 'NewSig']
        out = []
        for s, fs in self.order(st, fulls, lambda k: self.time(k, 'start')):
            for s2, ns in self.order(s, incs, lambda k: self.time(k, 'start')):
                todo = [(s2, 0, 0, [[k] for k in fs])]
                while todo:
                    s3, i, j, ch = todo.pop()
                    if i == len(ns):
                        out.append((s3, ch))
                        continue
                    if j == len(ch):
                        todo.append((s3, i + 1, 0, ch))
                        continue
                    for s4, d in self.cases(s3, self.time(ch[j][-1], 'end'), self.time(ns[i], 'start')):
                        if d == 0:
                            todo.append((s4, i + 1, 0, ch[:j] + [ch[j] + [ns[i]]] + ch[j + 1:]))
                        else:
                            todo.append((s4, i, j + 1, ch))
        return out


def elements(lab, st, it):
    """[references to the elements a slice iterator yields], or None"""
    sr = iter_range(lab, st, it)
    if not sr.len.is_const():
        return None
    return [lab.nth(sr, k) for k in range(sr.len.k)]


def bytes_are(lab, st, v, k):
    return lab.E.cterm(st, lab.seq(st, v)) is mk('arg', 'name%d' % k)


def set_is(li, rep, st, ref, want, key):
    """a backup set has the kind, the times and the files of the rule"""
    lab = li.lab
    cls, a, e, ks = want
    ok = True

    def ob(c, what, text):
        nonlocal ok
        ok = ok and c
        rep.ob(c, what + key, text, SET)
    for s, v in lab.call(st, SET + '::is_full', [ref]):
        ob(lab.truth(s, v) is (cls == 'full'), 'kind of a set', 'a set of another kind than the rule gives at this place')
        if not ok:
            return
        for s2, x in lab.call(s, SET + '::start_time', [ref]):
            ob(lab.same(s2, x, a) or proved_equal(lab, s2, x, a), 'times of a set', 'start time of the set at this place')
        for s2, x in lab.call(s, SET + '::end_time', [ref]):
            ob(lab.same(s2, x, e) or proved_equal(lab, s2, x, e), 'times of a set', 'end time of the set at this place')
        mans = [k for k in ks if li.kinds[k] in MANS]
        for s2, x in lab.call(s, SET + '::manifest_path', [ref]):
            if mans:
                ob(any(bytes_are(lab, s2, x, k) for k in mans), 'manifest of a set', 'the manifest of the set is not one of its manifest files')
            else:
                sr = lab.seq(s2, x)
                ob(s2.cons.proves_eq(sr.len), 'manifest of a set', 'a set without a manifest file has one')
        vols = [k for k in ks if li.kinds[k] in VOLS]
        for k in vols:
            n = li.infos[k]['volume_number']
            for s2, x in lab.call(s, SET + '::volume_path', [ref, n]):
                for s3, vn, p in lab.variants(s2, x):
                    ob(vn == 'Some' and any(bytes_are(lab, s3, p[0], j) for j in vols if not s3.cons.proves_ne(li.infos[j]['volume_number'].lin - n.lin)), 'volumes of a set',
                       'a volume of the set has not the name of one of its files with that number')
        if len(vols) < 2:
            for s2, x in lab.call(s, SET + '::num_volumes', [ref]):
                ob(s2.cons.proves_eq(x.lin - len(vols)), 'volumes of a set', 'number of volumes of the set')


def proved_equal(lab, st, a, b):
    f = lab.eqf(st, a, b)
    return lab.holds(st, f)


BACKUP = [(), ('bad', 'raw'), ('Full', 'FullManifest', 'Full'), ('Inc', 'FullSig', 'IncManifest'), ('FullManifest', 'Inc', 'Inc'), ('Inc', 'IncManifest', 'Full'),
          ('NewSig', 'FullSig', 'Inc'), ('FullManifest', 'bad', 'Full', 'IncManifest'), ('Inc', 'Full', 'Inc'), ('Full', 'Full', 'Inc')]
SIGS = [('FullSig', 'NewSig'), ('FullSig', 'NewSig', 'NewSig', 'NewSig'), ('FullSig', 'NewSig', 'FullSig', 'NewSig'), ('NewSig', 'FullSig', 'NewSig'), ('FullSig', 'Full', 'FullSig', 'NewSig'), ('NewSig', 'NewSig', 'FullSig'), ('Inc', 'NewSig', 'FullManifest')]

BACKUP_MORE = [('Full', 'Inc', 'Inc', 'Inc'), ('Inc', 'Inc', 'Inc'), ('Inc', 'Full', 'Full', 'Inc'), ('Full', 'Inc', 'Full', 'Inc'), ('Full', 'Full', 'Full', 'Inc'), ('Inc', 'Full', 'Inc', 'IncManifest')]
SIGS_MORE = [('NewSig', 'FullSig', 'NewSig', 'FullSig', 'NewSig'), ('FullSig', 'NewSig', 'NewSig', 'NewSig', 'NewSig')]


def show(kinds):
    return '+'.join(kinds) or 'nothing'


def backup(P, rep):
    """the chains of a listing"""
    rep.fns.add(FROM)
    each(rep, BACKUP + (BACKUP_MORE if rep.tier == 'thorough' else []), lambda kinds, r: backup1(P, r, kinds))
    rep.floor('number of chains', 100)


def backup1(P, rep, kinds):
    li = Listing(P, rep, kinds, SIGCHAIN)
    lab = li.lab
    key = '|%s' % show(kinds)
    n = 0
    for s, ref in li.run():
        for k in range(len(kinds)):
            if kinds[k] not in ('bad', 'raw'):
                li.info(k)
        for s1, chains in li.chains(s):
            n += 1
            for s2, it in lab.call(s1, COL + '::backup_chains', [ref]):
                got = elements(lab, s2, it)
                if not rep.ob(got is not None and len(got) == len(chains), 'number of chains' + key, 'from files %s: %s chains instead of %d' % (show(kinds), got and len(got), len(chains)), FROM):
                    continue
                for c, (full, incs, end) in zip(got, chains):
                    for s3, f in lab.call(s2, CHAIN + '::full_set', [c]):
                        set_is(li, rep, s3, f, full, key)
                    for s3, i in lab.call(s2, CHAIN + '::inc_sets', [c]):
                        x = elements(lab, s3, i)
                        if not rep.ob(x is not None and len(x) == len(incs), 'number of increments' + key, 'from files %s: %s increments in a chain instead of %d' % (show(kinds), x and len(x), len(incs)), FROM):
                            continue
                        for r, w in zip(x, incs):
                            set_is(li, rep, s3, r, w, key)
                    for s3, t in lab.call(s2, CHAIN + '::end_time', [c]):
                        rep.ob(proved_equal(lab, s3, t, end), 'end of a chain' + key, 'end time of a chain', FROM)
                    for s3, t in lab.call(s2, CHAIN + '::start_time', [c]):
                        rep.ob(proved_equal(lab, s3, t, full[1]), 'start of a chain' + key, 'start time of a chain', FROM)
            for s2, x in lab.call(s1, COL + '::num_snapshots', [ref]):
                rep.ob(lab.holds(s2, feq(x.lin - sum(1 + len(c[1]) for c in chains))), 'number of snapshots' + key, 'number of snapshots of the collections', COL + '::num_snapshots')
    rep.ob(n > 0, 'chains reached' + key, 'no order of times can be analysed', FROM)
    rep.engine(lab.E)


def signatures(P, rep):
    """the signature chains of a listing"""
    rep.fns.add(FROM)
    each(rep, SIGS + (SIGS_MORE if rep.tier == 'thorough' else []), lambda kinds, r: signatures1(P, r, kinds))
    rep.floor('number of signature chains', 20)


def signatures1(P, rep, kinds):
    li = Listing(P, rep, kinds, CHAIN)
    lab = li.lab
    key = '|%s' % show(kinds)
    sft = lab.adt(SIGFILE)
    i_name, _ = lab.fidx(sft, 'SignatureFile', 'file_name')
    i_time, _ = lab.fidx(sft, 'SignatureFile', 'time')
    flags = [(lab.fidx(sft, 'SignatureFile', f)[0], lab.fidx(lab.adt(INFO), 'Info', f)[0], f) for f in ('compressed', 'encrypted')]
    n = 0
    for s, ref in li.run():
        for k in range(len(kinds)):
            if kinds[k] not in ('bad', 'raw'):
                li.info(k)
        for s1, chains in li.sigchains(s):
            n += 1
            for s2, it in lab.call(s1, COL + '::signature_chains', [ref]):
                got = elements(lab, s2, it)
                if not rep.ob(got is not None and len(got) == len(chains), 'number of signature chains' + key, 'from files %s: %s signature chains instead of %d' % (show(kinds), got and len(got), len(chains)), FROM):
                    continue
                for c, ks in zip(got, chains):
                    for s3, f in lab.call(s2, SIGCHAIN + '::full_signature', [c]):
                        for s4, i in lab.call(s3, SIGCHAIN + '::inc_signatures', [c]):
                            x = elements(lab, s4, i)
                            if not rep.ob(x is not None and len(x) == len(ks) - 1, 'number of signatures' + key, 'from files %s: %s incremental signatures in a chain instead of %d' % (show(kinds), x and len(x), len(ks) - 1), FROM):
                                continue
                            for r, k in zip([f] + x, ks):
                                rep.ob(bytes_are(lab, s4, lab.sub(s4, r, i_name), k), 'signature file' + key, 'a signature file other than the rule gives at this place', FROM)
                                rep.ob(proved_equal(lab, s4, lab.deref(s4, lab.sub(s4, r, i_time)), li.time(k, 'end')), 'signature time' + key, 'time of a signature file', FROM)
                                pr = lab.obj(s4, 'info', lab.adt(INFO), li.info(k))
                                for i_f, i_n, f in flags:
                                    rep.ob(lab.same(s4, lab.deref(s4, lab.sub(s4, r, i_f)), lab.deref(s4, lab.sub(s4, pr, i_n))), 'signature %s%s' % (f, key), 'a signature file is not %s as its name says' % f, FROM)
    rep.ob(n > 0, 'signature chains reached' + key, 'no order of times can be analysed', FROM)
    rep.engine(lab.E)
