"""File names of a backup: which names are recognised, as what."""
from lab import *
import models
import regexa
from props.sets import INFO, TYPE

NEW = 'collections::file_naming::FileNameParser::new'
PARSE = 'collections::file_naming::FileNameParser::parse'
TIME = 'timefmt::parse_time_str'

# the names duplicity gives its files; names are compared without case
FORMS = {
    'Full': (r'^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?($|\.)', dict(time='time', volume_number='num')),
    'FullManifest': (r'^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?($|\.)', dict(time='time', partial='partial')),
    'Inc': (r'^duplicity-inc\.(?P<start>.*?)\.to\.(?P<end>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)', dict(start_time='start', end_time='end', volume_number='num')),
    'IncManifest': (r'^duplicity-inc\.(?P<start>.*?)\.to\.(?P<end>.*?)\.manifest(?P<partial>(\.part))?(\.|$)', dict(start_time='start', end_time='end', partial='partial')),
    'FullSig': (r'^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)', dict(time='time', partial='partial')),
    'NewSig': (r'^duplicity-new-signatures\.(?P<start>.*?)\.to\.(?P<end>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)', dict(start_time='start', end_time='end', partial='partial')),
}
SUFFIXES = dict(compressed=(b'.gz', b'.z'), encrypted=(b'.gpg', b'.g'))


def group_of(t):
    """(captures term, group) of the text a term stands for"""
    while isinstance(t, Term):
        if t.op == 'group':
            c = t.args[0]
            return (c.args[0] if c.op == 'fld' else c), t.args[1]
        if t.op not in ('*', 'mstr', 'fld', 'call', 'time of', 'parsenum', 'wrap') or not t.args:
            return None
        nxt = [a for a in t.args if isinstance(a, Term)]
        t = nxt[0] if nxt else None
    return None


def grammar(P, rep):
    lab = Lab(P, rep, joinlim=6000, retlim=6000, maxsteps=600000)
    E = lab.E
    E.stop[TIME] = lambda E, st, fr, c, args, dty: [(st, E.mkval(mk('time of', E.cterm(st, models.sref(E, st, args[0]))), dty))]
    st = lab.state()
    n = lab.obj(st, 'name', None, Seq(mk('arg', 'name'), L(mk('arg', 'namelen', ty='len')), P.u8))
    name = lab.seq(st, n)
    ity, tty = lab.adt(INFO), lab.adt(TYPE)
    i_tp, _ = lab.fidx(ity, 'Info', 'tp')
    flags = {f: lab.fidx(ity, 'Info', f)[0] for f in SUFFIXES}
    used = {}          # kind -> set of (captures term)
    nones = []
    total = 0
    for s, v in lab.call(st, NEW, []):
        s = s.copy()
        ref = lab.obj(s, 'parser', v.ty, v)
        for s2, r in lab.call(s, PARSE, [ref, name]):
            for s3, vn, p in lab.variants(s2, r):
                if vn == 'None':
                    nones.append(s3)
                    continue
                for s4, kind, fs in lab.variants(s3, lab.part(s3, p[0], i_tp)):
                    total += 1
                    vs = [x for x in P.T[tty]['vs'] if x['n'] == kind][0]
                    c = fields(lab, rep, s4, kind, dict(zip([f for f, _ in vs['f']], fs)))
                    if c is not None:
                        used.setdefault(kind, set()).add(c)
                    for flag, sufs in SUFFIXES.items():
                        suffix(lab, rep, s4, name, flag, lab.part(s4, p[0], flags[flag]), sufs)
    for kind in FORMS:
        rep.ob(kind in used, 'form recognised|%s' % kind, 'no name is recognised as %s' % kind, PARSE)
    # no name of a form is left out, whatever else is asked about it
    pats = {k: cs for k, cs in used.items()}
    for s in nones:
        for kind, cs in pats.items():
            for c in cs:
                ok = not only(E, s, c, [x for k2, xs in pats.items() for x in xs if x is not c])
                if not rep.ob(ok, 'form accepted|%s' % kind, 'a name of the form %s with readable times and number is not recognised' % kind, PARSE):
                    break
    rep.floor('form accepted', 100)
    rep.floor('part of the name', 12)
    rep.engine(E)


def only(E, st, c, others):
    """is a name possible that matches this pattern, can be read, and matches no other one"""
    todo = [st.copy()]
    conds = [(c, 1)] + [(x, 0) for x in others]
    for t in list(st.vs):
        g = group_of(t)
        if g is not None and g[0] is c and t.op in ('time of', 'call', 'parsenum'):
            conds.append((t, None))
    for t, v in conds:
        nxt = []
        for s in todo:
            if v is None:
                good = 0 if s.vs.get(t) is not None and t.op != 'time of' else 1
                good = readable(t)
                nxt.extend(E.assume(s, ('var', t, frozenset([good]), 2)))
            else:
                nxt.extend(E.assume(s, ('var', t, frozenset([v]), 2)))
        todo = nxt
    return bool(todo)


def readable(t):
    """variant that means the text could be read (an Option or a Result)"""
    return 1 if t.op == 'time of' else 0


def fields(lab, rep, s, kind, vals):
    """every part of the name is taken from its place; gives the captures that were used"""
    E = lab.E
    ref, want = FORMS[kind]
    got, caps = {}, set()
    text = mk('to_ascii_lowercase', mk('arg', 'name'))
    for f, v in vals.items():
        if f == 'partial':
            t = v.f[1] if isinstance(v, BoolV) and isinstance(v.f, tuple) and v.f[0] == 'var' else None
            if t is None:
                # decided on this path: look for the group the path has asked about
                b = lab.truth(s, v)
                if b is None:
                    rep.ob(False, 'part of the name|%s %s' % (kind, f), 'not a part of the name', PARSE)
                    return None
                got[f] = ('flag', b)
                continue
            if 1 not in v.f[2]:
                rep.ob(False, 'part of the name|%s %s' % (kind, f), 'the flag is turned round', PARSE)
                return None
        elif isinstance(v, Num):
            t = v.lin.single()
        else:
            t = E.argterm(s, v)
        g = group_of(t) if t is not None else None
        if not rep.ob(g is not None and (f == 'partial' or any(o in ops(t) for o in (('time of',) if f.endswith('time') else ('call', 'parsenum')))), 'part of the name|%s %s' % (kind, f), '%s is not read from a part of the name' % f, PARSE):
            return None
        if f == 'volume_number' and not rep.ob(wide(lab.P, t), 'number|%s' % kind, 'the number in a name is read as a type that is too small for the numbers there are, or in another base', PARSE):
            return None
        got[f] = g[1]
        caps.add(g[0])
    if not rep.ob(len(caps) == 1, 'one form|%s' % kind, 'the parts of a name come from different readings of it', PARSE):
        return None
    c = caps.pop()
    pat = c.args[0].args[0] if c.op == 'captures' and c.args[0].op == 'regex' else None
    if not rep.ob(pat is not None and pat.op == 'const' and c.args[1] is text, 'case ignored|%s' % kind, 'the name is not read by a pattern that is known, without case', PARSE):
        return None
    pat = pat.args[0].decode()
    flag = None
    for f, g in list(got.items()):
        if isinstance(g, tuple):
            flag = g[1]
            names = [x.args[1] for x in s.vs if x.op == 'group' and group_of(x)[0] is c and s.vs[x] == frozenset([1 if flag else 0]) and x.args[1] not in got.values()]
            if not rep.ob(len(names) >= 1, 'part of the name|%s %s' % (kind, f), 'the flag does not follow a part of the name', PARSE):
                return None
            got[f] = names[0]
    order = sorted(got)
    ok, why = equal(pat, [got[f] for f in order], ref, [want[f] for f in order])
    rep.ob(ok, 'form of the name|%s' % kind, 'the names read as %s are not the ones of that form: %s' % (kind, why), PARSE)
    return c


def wide(P, t):
    """the term is a decimal number read as a wide type"""
    while isinstance(t, Term):
        if t.op == 'call' and t.args[0] in ('parse', 'parse_radix'):
            ok = any('<%s,' % x in P.T[t.args[1]]['s'] for x in ('usize', 'u64', 'u128', 'i128'))
            if t.args[0] == 'parse_radix':
                x = t.args[3]
                ok = ok and ('n(10)' in repr(x) or repr(x) in ('10', 'num(10)'))
            return ok
        nxt = [a for a in t.args if isinstance(a, Term)]
        t = nxt[0] if nxt else None
    return False


CACHE = {}


def equal(pa, wa, pb, wb):
    k = (pa, tuple(wa), pb, tuple(wb))
    if k not in CACHE:
        r = regexa.same_captures(pa, wa, pb, wb)
        CACHE[k] = (r[0], '' if r[0] else '%s for %r' % (r[2], r[1]))
    return CACHE[k]


def ops(t):
    out = set()
    while isinstance(t, Term):
        out.add(t.op)
        nxt = [a for a in t.args if isinstance(a, Term)]
        t = nxt[0] if nxt else None
    return out


def suffix(lab, rep, s, name, flag, v, sufs):
    E = lab.E
    n = name.len
    low = Seq(mk('to_ascii_lowercase', mk('arg', 'name')), n, lab.P.u8)
    f = for_(*[fand(fge(n - len(x)), *[feq(E.elem(s, low, n - len(x) + i).lin - b) for i, b in enumerate(x)]) for x in sufs])
    for b in (True, False):
        bad = [s3 for s2 in lab.when(s, v.f, b) for s3 in lab.when(s2, f, not b)]
        rep.ob(not bad, 'suffix|%s' % flag, 'a name is reported as %s%s %s one of the endings %s' % ('' if b else 'not ', flag, 'without' if b else 'with', ', '.join(x.decode() for x in sufs)), PARSE)
