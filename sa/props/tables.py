"""Finite decision tables: entry types, mode display, hexadecimal digits."""
import multiprocessing as mp

from lab import Lab, Missing
from vals import *
from terms import L, mk
from models import split, field

ETY = 'signatures::EntryType'
ETY_TABLE = {0: 'File', 0x30: 'File', 0x35: 'Dir', 0x31: 'HardLink', 0x32: 'SymLink', 0x36: 'Fifo'}
ETY_CHAR = {'File': b'-', 'HardLink': b'-', 'Dir': b'd', 'SymLink': b'l', 'Fifo': b'p', 'Unknown': b'?'}


def byte_classes(named):
    """partition of the byte values: every named one, and the intervals between them"""
    out = []
    lo = 0
    for b in sorted(named):
        if lo < b:
            out.append((lo, b - 1))
        out.append((b, b))
        lo = b + 1
    if lo <= 255:
        out.append((lo, 255))
    return out


def between(lab, st, num, lo, hi):
    out = []
    for s in lab.when(st, fge(num.lin - lo)):
        out.extend(lab.when(s, fge(L(hi) - num.lin)))
    return out


def printed(st):
    """what a formatting function wrote, as one literal (None when not a constant)"""
    o = st.gh.get('out', ())
    if all(x[0] == 'lit' for x in o):
        return b''.join(x[1] for x in o)
    return None


def entry_type(P, rep):
    lab = Lab(P, rep)
    lab.E.trace_out = True
    ty = lab.adt(ETY)
    f_new, f_fmt = ETY + '::new', '<%s as std::fmt::Display>::fmt' % ETY
    for lo, hi in byte_classes(ETY_TABLE):
        st = lab.state()
        b = lab.sym('byte', P.u8)
        for s in between(lab, st, b, lo, hi):
            for s2, v in lab.call(s, f_new, [b]):
                for s3, n, p in lab.variants(s2, v):
                    want = ETY_TABLE.get(lo, 'Unknown') if lo == hi else 'Unknown'
                    rep.ob(n == want, 'entry type|bytes %d to %d' % (lo, hi), 'entry type byte %d to %d becomes %s, not %s' % (lo, hi, n, want), f_new)
                    if n == 'Unknown':
                        rep.ob(bool(p) and lab.same(s3, p[0], b), 'unknown byte|bytes %d to %d' % (lo, hi), 'an unknown entry type does not carry its byte', f_new)
    for i, v in enumerate(P.T[ty]['vs']):
        st = lab.state()
        val = Agg(ty, i, {k: lab.sym('p%d' % k, ft) for k, (_, ft) in enumerate(v['f'])})
        ref = lab.obj(st, 'et', ty, val)
        fm = lab.refto(st, f_fmt, 1, 'f')
        for s, r in lab.call(st, f_fmt, [ref, fm]):
            want = ETY_CHAR.get(v['n'])
            rep.ob(ok_or_err(lab, s, printed(s), want), 'entry type letter|%s' % v['n'], 'entry type %s is displayed as %r, not %r' % (v['n'], printed(s), want), f_fmt)
    rep.floor('entry type', 9)
    rep.floor('entry type letter', 6)
    rep.engine(lab.E)


def ok_or_err(lab, s, got, want):
    return want is not None and got == want


# ---------------------------------------------------------------- mode bits
def mode_text(m):
    out = ''
    for i in (2, 1, 0):
        out += 'r' if m >> (3 * i + 2) & 1 else '-'
        out += 'w' if m >> (3 * i + 1) & 1 else '-'
        x, sp = m >> (3 * i) & 1, m >> (9 + i) & 1
        out += ({(1, 0): 'x', (0, 0): '-', (1, 1): 't', (0, 1): 'T'} if i == 0 else {(1, 0): 'x', (0, 0): '-', (1, 1): 's', (0, 1): 'S'})[(x, sp)]
    return out.encode()


_P = {}


def mode_chunk(ks):
    P = _P['P']
    path = '<signatures::ModeDisplay as std::fmt::Display>::fmt'
    lab = Lab(P, joinlim=40)
    lab.E.trace_out = True
    ty = lab.adt('signatures::ModeDisplay')
    oty = P.T[ty]['vs'][0]['f'][0][1]
    bad, n = [], 0
    for k in ks:
        st = lab.state()
        if k is None:
            opt = Agg(oty, 0, {})
        else:
            hi = lab.sym('hi', P.ty_by_s['u32'])
            st.cons = st.cons.add(L((1 << 20) - 1) - hi.lin)
            opt = Agg(oty, 1, {0: Num(hi.lin.scale(4096) + k, 'u32')})
        ref = lab.obj(st, 'md', ty, Agg(ty, 0, {0: opt}))
        fm = lab.refto(st, path, 1, 'f')
        want = b'?' if k is None else mode_text(k)
        got, cut = [], []
        for s, r in lab.call(st, path, [ref, fm]):
            for s2, name, p in lab.variants(s, r):
                (got if name == 'Ok' else cut).append(printed(s2))
        n += 1
        # a formatter error may end the text early
        if not got or any(g != want for g in got) or any(g is None or not want.startswith(g) for g in cut):
            bad.append((k, [repr(g) for g in got + cut if g != want], want.decode()))
            if len(bad) > 3:
                break
    return n, bad, lab.E.steps


def mode_display(P, rep):
    lab = Lab(P, rep)
    lab.fn('<signatures::ModeDisplay as std::fmt::Display>::fmt')
    _P['P'] = P
    ks = [None] + list(range(4096))
    with mp.get_context('fork').Pool(8) as pool:
        for n, bad, _ in pool.imap(mode_chunk, [ks[i::16] for i in range(16)]):
            for k, got, want in bad:
                rep.ob(False, 'mode|%s' % ('none' if k is None else oct(k)), 'mode %s is displayed as %s, not %s' % ('none' if k is None else oct(k), ', '.join(got[:3]), want), 'signatures::ModeDisplay')
            for _ in range(n - len(bad)):
                rep.ob(True, 'mode|low bits')
    rep.floor('mode', 4097)


# ---------------------------------------------------------------- hexadecimal
def nibble(P, rep):
    lab = Lab(P, rep)
    path = 'manifest::nibble'
    t = lab.argty(path, 0)
    for lo, hi, base in ((0, 47, None), (48, 57, 48), (58, 96, None), (97, 102, 87), (103, 255, None)):
        st = lab.state()
        b = lab.sym('b', t)
        for s in between(lab, st, b, lo, hi):
            for s2, v in lab.call(s, path, [b]):
                d = v.lin - (b.lin - base) if base is not None else v.lin
                rep.ob(s2.cons.proves_eq(d), 'hexadecimal digit|bytes %d to %d' % (lo, hi), 'value of the digits %d to %d' % (lo, hi), path)
    rep.floor('hexadecimal digit', 5)
    rep.engine(lab.E)
