"""The local backend and the effects of the library."""
from lab import Lab, Missing
from terms import L, mk
from vals import Agg, Lib, Num, Place, Ref, SRef, Seq, Sym, feq
import models
from base import each

LB = 'backend::local::LocalBackend'
LIST = '<%s as backend::Backend>::file_names' % LB
OPEN = '<%s as backend::Backend>::open_file' % LB


def outcome(E, st, dty, good, bad):
    """a result that is either"""
    return [(st.copy(), models.ok(dty, E.mkval(good, models.payload_ty(E, dty, 0)))), (st.copy(), models.err(dty, E.mkval(bad, models.payload_ty(E, dty, 1))))]


def path_term(E, st, v):
    """content of what is given as a path"""
    q = models.sref(E, st, v)
    if q is None:
        q = models.sref(E, st, models.deref_all(E, st, v))
    return E.cterm(st, q) if q is not None else E.argterm(st, v)


def backend(lab, st):
    """(backend made for a directory, content term of the directory)"""
    E = lab.E
    given = lab.sym('directory', lab.argty(LB + '::new', 0))
    out = []
    for s, v in lab.call(st, LB + '::new', [given]):
        out.append((s, lab.obj(s, 'backend', v.ty if isinstance(v, Agg) else E.tyof_value(v), v)))
    return given, out


def system(lab):
    """the calls of the file system, with the paths they are given"""
    E = lab.E

    def record(kind, arg=0):
        def go(E, st, fr, c, args, dty):
            t = path_term(E, st, args[arg])
            k = len(st.gh['asked'])
            st = st.copy()
            st.gh['asked'] = st.gh['asked'] + ((kind, t),)
            return outcome(E, st, dty, mk(kind, t), mk('ioerr', kind, k))
        return go
    E.stop['std::fs::File::open'] = record('file')
    E.stop['std::fs::read_dir'] = record('dir')
    E.stop['std::path::Path::read_dir'] = record('dir')

    def options(E, st, fr, c, args, dty):
        return [(st, E.mkval(mk('openoptions'), dty))]

    def reading(E, st, fr, c, args, dty):
        return [(st, args[0])]
    E.stop['std::fs::OpenOptions::new'] = options
    E.stop['std::fs::File::options'] = options
    E.stop['std::fs::OpenOptions::read'] = reading
    E.stop['std::fs::OpenOptions::open'] = record('file', 1)


def opening(P, rep):
    """open_file opens the named file below the directory, and says what the system says"""
    lab = Lab(P, rep)
    E = lab.E
    system(lab)
    st = lab.state()
    st.gh = dict(st.gh, asked=())
    base, made = backend(lab, st)
    n = 0
    for st, ref in made:
        rep.ob(st.gh['asked'] == (), 'nothing asked|new', 'making a backend asks the file system', LB + '::new')
        name = lab.refto(st, OPEN, 1, 'name')
        bt, nt = E.argterm(st, models.deref_all(E, st, base)), path_term(E, st, name)
        for s, r in lab.call(st, OPEN, [ref, name]):
            got = s.gh['asked']
            if not rep.ob(len(got) == 1 and got[0][0] == 'file', 'file opened|one', 'opening a file asks the file system %d times' % len(got), OPEN):
                continue
            t = got[0][1]
            rep.ob(t is mk('join', base_term(E, st, base), nt), 'file opened|path', 'the file opened is not the named one below the directory', OPEN)
            for s2, what, p in lab.variants(s, r):
                n += 1
                x = E.argterm(s2, p[0])
                if what == 'Ok':
                    rep.ob(x is mk('file', t), 'outcome|file', 'what is returned is not the file that was opened', OPEN)
                else:
                    rep.ob(x is mk('ioerr', 'file', 0), 'outcome|error', 'what is returned is not the error of the system', OPEN)
    rep.floor('outcome', 2)
    rep.engine(E)


def base_term(E, st, v):
    return path_term(E, st, v)


def names(P, rep):
    """file_names lists the names of the entries that can be read, in order"""
    top = 3 if rep.tier == 'quick' else 6
    each(rep, list(range(top + 1)), lambda n, r: names_of(P, r, n))
    rep.floor('names listed', 2 ** (top + 1) - 1)
    rep.floor('error listing', 1)


def names_of(P, rep, n):
    lab = Lab(P, rep, joinlim=2000, retlim=2000)
    E = lab.E
    E.exact = True
    system(lab)

    def nxt(E, st, fr, c, args, dty):
        k = len(st.gh['read'])
        d = E.argterm(st, models.deref_all(E, st, args[0]))
        rep.ob(d.op == 'dir', 'names listed|of the directory', 'the names are not those of the directory', LIST)
        if k >= n:
            st = st.copy()
            st.gh['ended'] = True
            return [(st, models.none(dty))]
        rt = models.payload_ty(E, dty, 1)
        out = []
        for s, v in outcome(E, st, rt, mk('direntry', k), mk('ioerr', 'entry', k)):
            s.gh['read'] = s.gh['read'] + (v.var == 0,)
            out.append((s, models.some(dty, v)))
        return out
    E.stop['<std::fs::ReadDir as std::iter::Iterator>::next'] = nxt

    def entry(E, st, v):
        t = E.argterm(st, models.deref_all(E, st, v))
        return t

    def name_of(E, st, fr, c, args, dty):
        t = mk('name', entry(E, st, args[0]))
        return [(st, Seq(t, L(mk('len', t, ty='len')), P.u8))]

    def path_of(E, st, fr, c, args, dty):
        t = mk('join', mk('thedir'), mk('name', entry(E, st, args[0])))
        return [(st, Seq(t, L(mk('len', t, ty='len')), P.u8))]

    def last_of(E, st, fr, c, args, dty):
        t = path_term(E, st, args[0])
        if t.op != 'join' or t.args[1].op != 'name':
            return None
        x = t.args[1]
        root = ('R', x, dty)
        st = st.copy()
        st.mem[root] = Seq(x, L(mk('len', x, ty='len')), P.u8)
        return [(st, models.some(dty, SRef(Place(root), L(0), L(mk('len', x, ty='len')), P.u8)))]
    E.stop['std::fs::DirEntry::file_name'] = name_of
    E.stop['std::fs::DirEntry::path'] = path_of
    E.stop['std::path::Path::file_name'] = last_of
    st = lab.state()
    st.gh = dict(st.gh, asked=(), read=())
    base, made = backend(lab, st)
    for st, ref in made:
        bt = base_term(E, st, base)
        for s, r in lab.call(st, LIST, [ref]):
            for s2, what, p in lab.variants(s, r):
                got = s2.gh['asked']
                if not rep.ob(got == (('dir', bt),), 'directory read|once', 'listing the names does not read the directory of the backend, and only it', LIST):
                    continue
                if what == 'Err':
                    rep.ob(E.argterm(s2, p[0]) is mk('ioerr', 'dir', 0), 'error listing|returned', 'the error returned is not the one of the system', LIST)
                    continue
                for s3, ts in drain(lab, s2, p[0], n + 1):
                    read = s3.gh['read']
                    want = [mk('name', mk('direntry', k)) for k, good in enumerate(read) if good]
                    rep.ob(len(read) == n and ts == want, 'names listed|%s' % ''.join('01'[x] for x in read), 'the names are not those of the entries that can be read, in order', LIST)
    rep.engine(E)


def drain(lab, st, it, most):
    """[(state, content terms of the items)] of an iterator taken to its end"""
    E = lab.E
    ty = E.tyof_value(it)
    nx = E.T[ty].get('next')
    if nx is None:
        raise Missing('the names are no iterator: ' + E.T[ty]['s'])
    ref = lab.obj(st, 'iterator', ty, it, True)
    live, done = [(st, [])], []
    for k in range(most + 1):
        nlive = []
        for s, ts in live:
            for s2, v in lab.call(s, nx.get('rp') or nx['p'], [ref]):
                for s3, what, p in lab.variants(s2, v):
                    if what == 'None':
                        done.append((s3, ts))
                    else:
                        nlive.append((s3, ts + [path_term(E, s3, p[0])]))
        live = nlive
    return done + live


# ---------------------------------------------------------------- effects
READS = ('std::fs::File::open', 'std::fs::File::options', 'std::fs::File::metadata', 'std::fs::read_dir', 'std::fs::read', 'std::fs::read_to_string', 'std::fs::read_link', 'std::fs::metadata',
         'std::fs::symlink_metadata', 'std::fs::canonicalize', 'std::fs::exists', 'std::fs::OpenOptions::new', 'std::fs::OpenOptions::read', 'std::fs::OpenOptions::open',
         'std::fs::DirEntry::', 'std::fs::Metadata::', 'std::fs::FileType::', 'std::fs::Permissions::readonly')
READ_TRAITS = ('std::iter::', 'std::fmt::', 'std::clone::Clone', 'std::cmp::', 'std::io::Read', 'std::io::Seek', 'std::io::BufRead', 'std::hash::', 'std::convert::', 'std::default::', 'std::os::unix::fs::MetadataExt',
               'std::os::unix::fs::DirEntryExt', 'std::os::unix::fs::FileTypeExt', 'std::os::fd::', 'std::borrow::')
OUTSIDE = ('std::process::', 'std::net::', 'std::os::unix::net::', 'std::os::unix::process::', 'std::os::unix::fs::symlink', 'std::os::unix::fs::chown', 'std::os::unix::fs::lchown', 'std::os::unix::fs::fchown',
           'std::os::unix::fs::chroot', 'std::os::unix::fs::mkfifo', 'std::env::set_var', 'std::env::remove_var', 'std::env::set_current_dir', 'std::io::_print', 'std::io::_eprint', 'std::io::stdout', 'std::io::stderr',
           'std::panic::set_hook')
OUTSIDE_TRAITS = ('std::os::unix::process::', 'std::os::unix::fs::OpenOptionsExt', 'std::os::unix::fs::PermissionsExt', 'std::os::unix::fs::DirBuilderExt', 'std::os::unix::fs::FileExt')
CRATES = {'std', 'core', 'alloc', 'byteorder', 'flate2', 'regex', 'tabwriter', 'tar', 'time'}


def effect_of(c):
    """what a function that is named can change outside of the library, or None"""
    if c.get('foreign'):
        return 'calls a function that is not written in Rust'
    if c.get('local') or c.get('rlocal'):
        return None
    krate = c.get('rkrate') or c.get('krate')
    if krate not in CRATES or c.get('krate') not in CRATES:
        return 'calls into another library'
    tr = c.get('trait') or ''
    for p in {c['p'], c.get('rp') or c['p']}:
        q = plain(p)
        if q.startswith('std::fs::') and not q.startswith(READS) and not tr.startswith(READ_TRAITS):
            return 'changes the file system'
        if q.startswith(OUTSIDE) or tr.startswith(OUTSIDE_TRAITS):
            return 'acts on the system'
        if 'std::fs::File' in q and tr.startswith('std::io::Write'):
            return 'writes to a file'
        if krate == 'tar' and q.split('::')[-1] in ('unpack', 'unpack_in'):
            return 'unpacks an archive into the file system'
        if krate == 'time' and q.split('::')[-1] == 'tzset':
            return 'sets the time zone of the process'
    return None


def plain(p):
    """path of a function without its generic arguments; of a method of a trait, the type's path"""
    if p.startswith('<'):
        p = p[1:]
        while p.startswith(('&', "'", 'mut ')):
            p = p.split(' ', 1)[1] if p.startswith(("'", 'mut ', "&'")) and ' ' in p else p[1:]
    return p


def functions_named(x):
    """every function that a piece of the program names: calls and functions used as values"""
    if isinstance(x, dict):
        if isinstance(x.get('p'), str) and ('krate' in x or 'kind' in x):
            yield x
        for v in x.values():
            yield from functions_named(v)
    elif isinstance(x, list):
        for v in x:
            yield from functions_named(v)


KNOWN = {'goto', 'switch', 'return', 'unreachable', 'drop', 'call', 'assert', 'resume'}


def effects(P, rep):
    """no function of the library names one that changes anything outside of it"""
    for f in P.d['fns']:
        if not f['local']:
            continue
        rep.fns.add(f['path'])
        for c in functions_named(f['blocks']):
            rep.sites += 1
            what = effect_of(c)
            rep.ob(what is None, 'effects of a call|%s|%s' % (f['path'], c.get('rp') or c['p']), '%s %s' % (c.get('rp') or c['p'], what), f['path'])
        for b in f['blocks']:
            rep.ob(b['t']['k'] in KNOWN, 'effects of a statement|' + f['path'], 'a statement of unknown effect (%s)' % b['t']['k'], f['path'])
    rep.floor('effects of a call', 300)
    rep.floor('effects of a statement', 300)
