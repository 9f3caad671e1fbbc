"""Times as text, and what is displayed."""
import re

from base import each
from lab import *
from terms import L, mk, fresh

import models

PARSE = 'timefmt::parse_time_str'
TD = '<time::Timespec as timefmt::TimeDisplay>::'
YEAR1, YEAR9999 = -62135596800, 253402300799


def expand(f):
    """a time format with the composite items written out"""
    for a, b in (('%R', '%H:%M'), ('%T', '%H:%M:%S'), ('%F', '%Y-%m-%d'), ('%D', '%m/%d/%y'), ('%h', '%b')):
        f = f.replace(a, b)
    return f


def text_of(t):
    return t.args[0].decode('latin1') if isinstance(t, Term) and t.op == 'const' else None


def reading(P, rep):
    """parse_time_str: the time that the format of duplicity names, as UTC"""
    lab = Lab(P, rep)
    E = lab.E
    st = lab.state()
    asked = []

    def strptime(E, st, fr, c, args, dty):
        a, b = models.sref(E, st, args[0]), models.sref(E, st, args[1])
        asked.append((E.cterm(st, a), E.cterm(st, b)))
        return [(st, E.mkval(mk('arg', 'parsed'), dty))]

    def to_timespec(E, st, fr, c, args, dty):
        return [(st, E.mkval(mk('timespec', E.argterm(st, models.deref_all(E, st, args[0]))), dty))]
    E.stop['time::strptime'] = strptime
    E.stop['time::Tm::to_timespec'] = to_timespec
    u8 = P.u8
    ref = lab.obj(st, 'text', None, Seq(mk('arg', 'text'), L(mk('arg', 'textlen', ty='len')), u8))
    st.cons = st.cons.add(L(mk('arg', 'textlen', ty='len')))
    text = lab.seq(st, ref)
    src = E.cterm(st, text)
    n = 0
    for s, v in lab.call(st, PARSE, [text]):
        rep.ob(len(asked) == 1 and asked[0][0] is src, 'text read|of a time', 'what is read is not the text that was given', PARSE)
        rep.ob(len(asked) == 1 and expand(text_of(asked[0][1]) or '?') == '%Y%m%dt%H%M%S%Z', 'format|of a time', 'the format is %r' % (text_of(asked[0][1]) if asked else None), PARSE)
        for s2, name, p in lab.variants(s, v):
            res = s2.vs.get(mk('arg', 'parsed'))
            n += 1
            if name == 'None':
                rep.ob(res == frozenset([1]), 'no time|of a time', 'no time although the text is one', PARSE)
                continue
            got = E.argterm(s2, p[0])
            want = mk('timespec', mk('fld', mk('arg', 'parsed'), 0, 0))
            rep.ob(res == frozenset([0]) and got is want, 'time|of a time', 'the time is %s' % (got,), PARSE)
    rep.floor('time', 1)
    rep.floor('no time', 1)
    rep.engine(E)


def showing(P, rep):
    """a time: in the asked zone, clamped, with the year when it is not the current one"""
    for zone, f, at in (('UTC', 'into_utc_display', 'time::at_utc'), ('local', 'into_local_display', 'time::at')):
        lab = Lab(P, rep)
        E = lab.E
        E.trace_out = True
        st = lab.state()
        calls = []

        def calendar(which):
            def go(E, st, fr, c, args, dty):
                st = st.copy()
                st.mem[('X', 'shown')] = args[0]
                return [(st, E.mkval(mk('arg', which), dty))]
            return go

        def now(E, st, fr, c, args, dty):
            return [(st, E.mkval(mk('arg', 'now'), dty))]

        def strftime(tm, fmt):
            def go(E, st, fr, c, args, dty):
                q = models.sref(E, st, args[fmt])
                t = mk('shown', E.cterm(st, q), E.argterm(st, models.deref_all(E, st, args[tm])))
                return [(st, models.ok(dty, E.mkval(t, models.payload_ty(E, dty, 0))))]
            return go
        E.stop['time::at'] = calendar('time::at')
        E.stop['time::at_utc'] = calendar('time::at_utc')
        E.stop['time::now_utc'] = now
        E.stop['time::strftime'] = strftime(1, 0)
        E.stop['time::Tm::strftime'] = strftime(0, 1)
        tty = lab.ty('time::Timespec')
        time = lab.sym('time', tty)
        i_sec, _ = lab.fidx(tty, 'Timespec', 'sec')
        i_ns, _ = lab.fidx(tty, 'Timespec', 'nsec')
        sec, nsec = lab.part(st, time, i_sec), lab.part(st, time, i_ns)
        tmty = lab.ty('time::Tm')
        i_year, yty = lab.fidx(tmty, 'Tm', 'tm_year')
        y1, y2 = (lab.part(st, E.mkval(mk('arg', x), tmty), i_year).lin for x in ('now', at))
        n = 0
        for s, v in lab.call(st, TD + f, [time]):
            s = s.copy()
            got = s.mem.get(('X', 'shown'))
            if got is None:
                rep.ob(False, 'zone|' + zone, 'the %s display does not ask for the %s calendar' % (zone, zone), TD + f)
                continue
            gs, gn = lab.part(s, got, i_sec), lab.part(s, got, i_ns)
            for s2 in lab.when(s, fand(fge(sec.lin - YEAR1), fge(L(YEAR9999) - sec.lin))):
                rep.ob(s2.cons.proves_eq(gs.lin - sec.lin) and s2.cons.proves_eq(gn.lin - nsec.lin), 'time shown|' + zone, 'another time is shown', TD + f)
            for lim, side in ((fge(L(YEAR1 - 1) - sec.lin), YEAR1), (fge(sec.lin - YEAR9999 - 1), YEAR9999)):
                for s2 in lab.when(s, lim):
                    rep.ob(s2.cons.proves_eq(gs.lin - side), 'time out of range|' + zone, 'a time out of range is not shown as the nearest one', TD + f)
            ref = lab.obj(s, 'display', v.ty, v)
            fmt = '<%s as std::fmt::Display>::fmt' % P.T[v.ty]['s']
            fm = lab.refto(s, fmt, 1, 'f')
            for s2, r in lab.call(s, fmt, [ref, fm]):
                out = s2.gh.get('out', ())
                x = out[0][1] if len(out) == 1 and out[0][0] == 'val' else None
                while x is not None and x.op in ('fld', 'call') and x.op != 'shown' and isinstance(x.args[0], Term):
                    x = x.args[0]
                rep.ob(x is not None and x.op == 'shown' and out[0][2] is None, 'one text|' + zone, 'the display writes %r' % (out,), fmt)
                if x is None or x.op != 'shown':
                    continue
                rep.ob(x.args[1] is mk('arg', at), 'zone|' + zone, 'the calendar shown is not the %s one' % zone, fmt)
                form = expand(text_of(x.args[0]) or '?')
                for b in (True, False):
                    for s3 in lab.when(s2, feq(y1 - y2), b):
                        n += 1
                        want = '%b %d %H:%M' if b else '%b %d  %Y'
                        rep.ob(form == want, 'form|%s, %s year' % (zone, 'this' if b else 'another'), 'a time of %s year is shown as %s' % ('this' if b else 'another', form), fmt)
        rep.engine(E)
    rep.floor('form', 4)
    rep.floor('time shown', 2)
    rep.floor('time out of range', 4)


# ---------------------------------------------------------------- lines of a listing
ENTRY = "signatures::Entry::<'a>"
ENTRYD = "<signatures::Entry<'a> as std::fmt::Display>::fmt"


def flat(out):
    """pieces of a text, the pieces of texts made earlier written out, adjacent literals joined"""
    r = []
    for x in out:
        xs = [x]
        if x[0] == 'val' and x[1].op == 'fmt' and (len(x) < 3 or x[2] is None):
            xs = flat(x[1].args[0])
        for y in xs:
            if y[0] == 'lit':
                if not y[1]:
                    continue
                if r and r[-1][0] == 'lit':
                    r[-1] = ('lit', r[-1][1] + y[1])
                    continue
            r.append(tuple(y[:2]) if y[0] == 'val' and (len(y) < 3 or y[2] is None) else tuple(y))
    return r


def piece(kind):
    """a display that counts as one piece of text"""
    def go(E, st, fr, c, args, dty):
        t = E.argterm(st, models.deref_all(E, st, args[0]))
        spec = args[1]
        return [(models.emit(E, st, ('disp', kind, t, None if spec is None or spec[1:] == (None, None, None) else spec)), None)]
    return go


def displayed(lab, st, f, ref):
    """[(state, pieces)] of what a display writes; a formatter error may cut it short"""
    out = []
    st = st.copy()
    st.gh.pop('out', None)
    st.gh['fmtw'] = None
    fm = lab.refto(st, f, 1, 'f')
    for s, r in lab.call(st, f, [ref, fm]):
        o = flat(s.gh.get('out', ()))
        s = s.copy()
        s.gh.pop('out', None)
        for s2, n, p in lab.variants(s, r):
            s2 = s2.copy()
            lost = s2.gh.pop('fmtbad', False) | (not models.went_well(s2))
            s2.gh.pop('fmtw', None)
            lab.rep.ob(n != 'Ok' or not lost, 'formatter error|' + f, 'an error of the formatter is not returned', f)
            out.append((s2, o, n == 'Ok'))
    return out


def lined(lab):
    """displays that are told apart only by the value"""
    E = lab.E
    E.trace_out = True
    E.stop['<signatures::EntryType as std::fmt::Display>::fmt'] = piece('type')
    E.stop['<signatures::ModeDisplay as std::fmt::Display>::fmt'] = piece('mode')
    E.stop['<timefmt::PrettyDisplay as std::fmt::Display>::fmt'] = piece('time')

    def local(E, st, fr, c, args, dty):
        return [(st, E.mkval(mk('localtime', E.argterm(st, args[0])), dty))]
    E.stop[TD + 'into_local_display'] = local
    E.stop[TD + 'into_utc_display'] = lambda E, st, fr, c, args, dty: [(st, E.mkval(mk('utctime', E.argterm(st, args[0])), dty))]


def entry_line(P, rep):
    lab = Lab(P, rep, joinlim=2000, retlim=2000)
    lined(lab)
    E = lab.E
    st = lab.state()
    ref = lab.refto(st, ENTRYD, 0, 'entry')
    mdty = lab.adt('signatures::ModeDisplay')
    n = 0
    for s, out, whole in displayed(lab, st, ENTRYD, ref):
        # what the entry itself says
        says = [(s, {})]
        for o in ('entry_type', 'mode', 'username', 'groupname', 'size_hint', 'mtime', 'path_bytes'):
            says = [(s2, dict(d, **{o: v})) for s1, d in says for s2, v in lab.call(s1, ENTRY + '::' + o, [ref])]
        for s1, d in says:
            for s2, user in optional(lab, s1, d['username']):
                for s3, group in optional(lab, s2, d['groupname']):
                    for s4, hint in optional(lab, s3, d['size_hint']):
                        for s5, path in shown_path(lab, s4, d['path_bytes']):
                            n += 1
                            want = flat([('disp', 'type', E.argterm(s5, d['entry_type']), None), ('disp', 'mode', E.argterm(s5, Agg(mdty, 0, {0: d['mode']})), None), TAB, name(lab, s5, user), TAB, name(lab, s5, group), TAB,
                                         ('lit', b'?') if hint is None else ('val', E.argterm(s5, lab.part(s5, hint, 1)), None), TAB, ('disp', 'time', mk('localtime', E.argterm(s5, d['mtime'])), None), TAB, path])
                            compare(rep, out, want, whole, 'line', ENTRYD)
    rep.floor('line', 16)
    rep.engine(E)


TAB = ('lit', b'\t')
PARTS = ('type', 'mode', 'separator', 'user', 'separator', 'group', 'separator', 'size', 'separator', 'time', 'separator', 'path')


def compare(rep, out, want, whole, what, f):
    if out == want:
        rep.ob(True, what + '|written')
        return
    # a failing formatter ends the text early, and is reported
    if not whole and begins(out, want):
        rep.ob(True, what + ' cut short|reported')
        return
    i = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
    rep.ob(False, '%s|piece %d' % (what, i), 'the text shows %s where %s is expected' % (short(out, i), short(want, i)), f)


def begins(out, want):
    if len(out) > len(want):
        return False
    if not out:
        return True
    n = len(out) - 1
    a, b = out[n], want[n]
    return out[:n] == want[:n] and (a == b or a[0] == b[0] == 'lit' and b[1].startswith(a[1]))


def short(xs, i):
    return repr(xs[i])[:160] if i < len(xs) else 'nothing'


def name(lab, st, v):
    if v is None:
        return ('lit', b'?')
    return ('val', lab.E.cterm(st, lab.seq(st, v)), None)


def shown_path(lab, st, v):
    """[(state, piece)] for the path of an entry: a dot for the root, a question mark when it is no text"""
    q = lab.seq(st, v)
    E = lab.E
    out = [(s, ('lit', b'.')) for s in lab.when(st, feq(q.len))]
    for s in lab.when(st, feq(q.len), False):
        f = models.utf8_atom(E, s, q)
        out.extend((s2, ('val', E.cterm(s2, q), None)) for s2 in lab.when(s, f, True))
        out.extend((s2, ('lit', b'?')) for s2 in lab.when(s, f, False))
    return out


def optional(lab, st, v):
    return [(s, p[0] if n == 'Some' else None) for s, n, p in lab.variants(st, v)]


# ---------------------------------------------------------------- the whole listing
NEXT = "<signatures::SnapshotEntries<'a> as std::iter::Iterator>::next"
TW = 'tabwriter::TabWriter'


def listing(P, rep):
    fs = ["<signatures::SnapshotEntriesDisplay<'a> as std::fmt::Display>::fmt", "<signatures::Snapshot<'a> as std::fmt::Display>::fmt", "<SnapshotEntries<'a> as std::fmt::Display>::fmt"]
    each(rep, [(f, n) for f in fs for n in range(4 if rep.tier == 'quick' else 7)], lambda x, r: table(P, r, *x))
    rep.floor('table', 12)


def table(P, rep, f, n):
    lab = Lab(P, rep, joinlim=4000, retlim=4000, maxsteps=1000000)
    E = lab.E
    E.exact = True
    E.trace_out = True
    E.stop[ENTRYD] = piece('entry')
    st = lab.state()
    st.gh = dict(st.gh, taken=0, tab=(), flushed=())

    def nxt(E, st, fr, c, args, dty):
        k = st.gh['taken']
        st = st.copy()
        if k >= n:
            return [(st, models.none(dty))]
        st.gh['taken'] = k + 1
        return [(st, models.some(dty, E.mkval(mk('arg', 'entry%d' % k), models.payload_ty(E, dty, 1))))]

    def is_tab(E, st, a):
        t = E.tyof_value(models.deref_all(E, st, a))
        return t is not None and E.T[t]['s'].startswith(TW)

    def write(pieces):
        def go(E, st, fr, c, args, dty):
            if not is_tab(E, st, args[0]):
                return None
            out = []
            for s, ps in pieces(E, st, fr, args):
                for good in (True, False):
                    s2 = s.copy()
                    if good:
                        s2.gh['tab'] = s2.gh['tab'] + tuple(ps)
                    pt = models.payload_ty(E, dty, 0 if good else 1)
                    v = E.mkval(fresh('written'), pt)
                    out.append((s2, models.ok(dty, v) if good else models.err(dty, v)))
            return out
        return go

    def from_args(E, st, fr, args):
        s = st.copy()
        saved = s.gh.pop('out', None)
        out = []
        for s2 in models.format_effects(E, s, fr, args[1]):
            s2 = s2.copy()
            o = s2.gh.pop('out', ())
            if saved is not None:
                s2.gh['out'] = saved
            out.append((s2, o))
        return out

    def from_bytes(E, st, fr, args):
        q = models.sref(E, st, args[1])
        t = E.cterm(st, q)
        return [(st, (('lit', t.args[0]) if t.op == 'const' else ('val', t, None),))]

    def flush(E, st, fr, c, args, dty):
        out = []
        for good in (True, False):
            s = st.copy()
            if good:
                s.gh['flushed'] = s.gh['tab']
            out.append((s, (models.ok if good else models.err)(dty, E.mkval(fresh('flushed'), models.payload_ty(E, dty, 0 if good else 1)))))
        return out

    def inner(E, st, fr, c, args, dty):
        t = mk('aligned', st.gh['flushed'])
        st = st.copy()
        st.cons = st.cons.add(L(mk('len', t, ty='len'))) or st.cons
        pt = models.payload_ty(E, dty, 0)
        return [(st, models.ok(dty, Seq(t, L(mk('len', t, ty='len')), P.u8)) if pt is not None and P.seq_el(pt) == P.u8 else E.mkval(mk('inner', t), dty))]

    def new(E, st, fr, c, args, dty):
        return [(st, E.mkval(mk('arg', 'tabwriter'), dty))]
    E.stop[NEXT] = nxt
    E.stop['tabwriter::TabWriter::<W>::new'] = new
    for a in ('std::io::Write::', '<tabwriter::TabWriter<W> as std::io::Write>::'):
        E.stop[a + 'write_fmt'] = write(from_args)
        E.stop[a + 'write_all'] = write(from_bytes)
        E.stop[a + 'flush'] = flush
    E.stop['tabwriter::TabWriter::<W>::into_inner'] = inner
    if f.startswith('<SnapshotEntries'):
        sub = "SnapshotEntries::<'a>::as_signature"
        lab.fn(sub)
        E.stop[sub] = lambda E, st, fr, c, args, dty: [(st, E.mkval(mk('arg', 'listed'), dty))]
    key = '%d files, %s' % (n, f.split(' as ')[0].strip('<').split('<')[0])
    ref = lab.refto(st, f, 0, 'listing')
    want = flat([x for k in range(n) for x in (('disp', 'entry', mk('arg', 'entry%d' % k), None), ('lit', b'\n'))])
    whole = 0
    for s, out, good in displayed(lab, st, f, ref):
        shown = []
        for x in out:
            t = x[1] if x[0] == 'val' else None
            shown.extend(flat(t.args[0]) if t is not None and t.op == 'aligned' and len(x) == 2 else [x])
        whole += good
        compare(rep, shown, want, good, 'table', f)
    rep.ob(whole > 0, 'table|' + key, 'the listing is never displayed', f)
    rep.engine(E)


# ---------------------------------------------------------------- the summary of the collections


def facts(out):
    """words, values and ends of lines of a text in their order, and where blanks part them; how many blanks is not told"""
    r = []

    def put(x):
        if x == ' ' and (not r or r[-1] in (' ', ('line end',))):
            return
        if x == ('line end',) and r and r[-1] == ' ':
            r.pop()
        if x[0] == 'word' and r and r[-1][0] == 'word':
            r[-1] = ('word', r[-1][1] + x[1])
        else:
            r.append(x)

    def words(b):
        for c in re.findall(rb'\n|[ \t]+|[^ \t\n]+', b):
            put(('line end',) if c == b'\n' else ' ' if c[:1] in b' \t' else ('word', c))

    def walk(out):
        for x in out:
            if x[0] == 'lit':
                words(x[1])
            elif x[0] == 'val' and x[1].op == 'const' and isinstance(x[1].args[0], bytes):
                words(x[1].args[0])
            elif x[0] == 'val' and x[1].op == 'fmt':
                walk(flat(x[1].args[0]))
            else:
                put(x[:1] + ((x[2],) if x[0] == 'disp' else (x[1],)))
    walk(out)
    return r


def template(*xs):
    """the facts of a text given by literals and values"""
    return [('lit', x) if isinstance(x, bytes) else x for x in xs]


def summary(P, rep):
    from props import chains as ch
    shapes = [(), ('Full',), ('Full', 'Inc', 'FullManifest'), ('Full', 'FullManifest', 'Full'), ('Full', 'Inc', 'Inc')]
    if rep.tier == 'thorough':
        shapes += [('Full', 'Inc', 'Inc', 'Inc'), ('Full', 'Full', 'Inc', 'Inc'), ('Full', 'Full', 'Full')]
    sigs = [('FullSig', 'NewSig'), ('FullSig', 'NewSig', 'NewSig'), ('FullSig', 'FullSig')]
    each(rep, [(k, summary1) for k in shapes] + [(k, signature_summary) for k in sigs], lambda x, r: x[1](P, r, x[0]))
    rep.floor('summary', 10)
    rep.floor('signature summary', 3)


def local(lab, v, st):
    return ('disp', 'time', mk('localtime', lab.E.argterm(st, v)))


def compare_facts(rep, got, want, whole, what, f):
    if got == want:
        rep.ob(True, what + '|written')
    elif not whole and got == want[:len(got)]:
        rep.ob(True, what + ' cut short|reported')
    else:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        rep.ob(False, '%s|value %d' % (what, i), 'the text shows %s where %s is expected' % (short(got, i), short(want, i)), f)


def summary1(P, rep, kinds):
    from props import chains as ch
    li = ch.Listing(P, rep, kinds, ch.SIGCHAIN)
    lab = li.lab
    E = lab.E
    f = '<collections::Collections as std::fmt::Display>::fmt'
    runs = li.run()
    lined(lab)
    for s, ref in runs:
        cases = []
        for s2, it in lab.call(s, ch.COL + '::backup_chains', [ref]):
            cs = ch.elements(lab, s2, it)
            if not rep.ob(cs is not None, 'chains known|' + ch.show(kinds), 'the chains of the collections', f):
                continue
            cases.append((s2, cs))
        for s2, cs in cases:
            want, st = [], s2
            total = True
            for c in cs:
                (st, a), = lab.call(st, ch.CHAIN + '::start_time', [c])
                (st, e), = lab.call(st, ch.CHAIN + '::end_time', [c])
                (st, full), = lab.call(st, ch.CHAIN + '::full_set', [c])
                (st, it), = lab.call(st, ch.CHAIN + '::inc_sets', [c])
                sets = [full] + ch.elements(lab, st, it)
                lines, vols = [], L(0)
                for k, x in enumerate(sets):
                    (st, t), = lab.call(st, ch.SET + '::end_time', [x])
                    (st, n), = lab.call(st, ch.SET + '::num_volumes', [x])
                    vols = vols + n.lin
                    lines += template(b'Incremental ' if k else b'Full ', local(lab, t, st), b' ', ('val', E.argterm(st, n)), b'\n')
                want += template(b'Chain start time: ', local(lab, a, st), b'\nChain end time: ', local(lab, e, st),
                                 b'\nNumber of contained backup sets: ', ('val', E.argterm(st, Num(L(len(sets)), 'usize'))),
                                 b'\nTotal number of contained volumes: ', ('val', E.argterm(st, Num(vols, 'usize'))),
                                 b'\nType of backup set: Time: Num volumes:\n') + lines
            for s3, out, whole in displayed(lab, st, f, ref):
                compare_facts(rep, facts(out), facts(want), whole, 'summary', f)
    rep.engine(E)


def signature_summary(P, rep, kinds):
    from props import chains as ch
    li = ch.Listing(P, rep, kinds, ch.CHAIN)
    lab = li.lab
    E = lab.E
    sft = lab.adt(ch.SIGFILE)
    i_name, _ = lab.fidx(sft, 'SignatureFile', 'file_name')
    f = '<collections::SignatureChain as std::fmt::Display>::fmt'
    runs = li.run()
    lined(lab)
    for s, ref in runs:
        for st, it in lab.call(s, ch.COL + '::signature_chains', [ref]):
            for c in ch.elements(lab, st, it):
                (st, a), = lab.call(st, ch.SIGCHAIN + '::start_time', [c])
                (st, e), = lab.call(st, ch.SIGCHAIN + '::end_time', [c])
                (st, full), = lab.call(st, ch.SIGCHAIN + '::full_signature', [c])
                (st, it), = lab.call(st, ch.SIGCHAIN + '::inc_signatures', [c])
                want = template(b'start time: ', local(lab, a, st), b', end time: ', local(lab, e, st), b'\n ')
                for x in [full] + ch.elements(lab, st, it):
                    want += template(('val', E.cterm(st, lab.seq(st, lab.sub(st, x, i_name)))), b'\n ')
                for s3, out, whole in displayed(lab, st, f, c):
                    compare_facts(rep, facts(out), facts(want), whole, 'signature summary', f)
    rep.engine(E)


# what the text of an error has to say, by the kind of the error
SAYS = {'Io': [], 'MissingKeyword': [rb'missing'], 'MissingHash': [rb'missing', rb'\bhash\b'], 'MissingHashType': [rb'missing', rb'\btype\b'], 'MissingPath': [rb'missing', rb'\bpath\b'],
        'OutOfOrderVolume': [rb'volume'], 'ParseInt': [], 'Utf8': []}


def errors(P, rep):
    """the text of an error of a manifest: what kind it is, and what it is about"""
    lab = Lab(P, rep)
    E = lab.E
    E.trace_out = True
    f = '<manifest::ParseError as std::fmt::Display>::fmt'
    ty = lab.adt('manifest::ParseError')
    vs = P.T[ty]['vs']
    st = lab.state()
    ref = lab.obj(st, 'error', ty)
    texts = {}
    for s, out, whole in displayed(lab, st, f, ref):
        w = s.vs.get(mk('arg', 'error'))
        if not rep.ob(w is not None and len(w) == 1, 'kinds told apart|error', 'kinds of errors share a text', f):
            continue
        w, = w
        name = vs[w]['n']
        shown = [str(x[1]) for x in out if x[0] == 'val']
        lits = b''.join(x[1] if x[0] == 'lit' else b'\0' for x in out)
        want = [str(mk('fld', mk('arg', 'error'), w, i)) for i in range(len(vs[w]['f']))]
        if not whole:
            rep.ob(shown == want[:len(shown)] and all(x[0] in ('lit', 'val') for x in out), 'cut short|' + name, 'the text has %s' % (shown,), f)
            continue
        rep.ob(all(x[0] in ('lit', 'val') for x in out) and len(shown) == len(want) and set(shown) == set(want), 'value shown|' + name, 'the text shows %s, not %s' % (shown, want), f)
        for r in SAYS.get(name, []):
            rep.ob(re.search(r, lits.lower()) is not None, 'kind named|%s|%s' % (name, r.decode()), 'the text is %r' % lits, f)
        texts.setdefault(name, set()).add(lits)
    for name in texts:
        alone = not any(texts[name] & texts[o] for o in texts if o != name) or not vs_lits(texts[name])
        rep.ob(alone, 'kinds told apart|' + name, 'another kind of error has the same text', f)
    rep.floor('value shown', len(vs))
    rep.floor('kind named', 7)
    rep.engine(E)


def vs_lits(ts):
    """do these texts have words of their own"""
    return any(t.strip(b'\0 ') for t in ts)


def writes(P, rep):
    """the small displays return the errors of the formatter"""
    for ty in ('signatures::EntryType', 'signatures::ModeDisplay', 'timefmt::PrettyDisplay'):
        lab = Lab(P, rep, joinlim=2000, retlim=2000)
        E = lab.E
        E.trace_out = True
        E.stop['time::now_utc'] = lambda E, st, fr, c, args, dty: [(st, E.mkval(mk('arg', 'now'), dty))]

        def strftime(E, st, fr, c, args, dty):
            return [(st, models.ok(dty, E.mkval(fresh('shown'), models.payload_ty(E, dty, 0))))]
        E.stop['time::strftime'] = E.stop['time::Tm::strftime'] = strftime
        t = lab.adt(ty)
        vals = [None]
        if ty.endswith('ModeDisplay'):
            oty = P.T[t]['vs'][0]['f'][0][1]
            vals = [Agg(t, 0, {0: Agg(oty, 0, {})})] + [Agg(t, 0, {0: Agg(oty, 1, {0: Num(L(k), 'u32')})}) for k in (0, 0o1, 0o7777, 0o5252)]
        for v in vals:
            st = lab.state()
            ref = lab.obj(st, 'shown', t, v)
            n = len(displayed(lab, st, '<%s as std::fmt::Display>::fmt' % ty, ref))
            rep.ob(n > 0, 'displays|' + ty)
        rep.engine(E)
    rep.floor('formatter error', 20)
