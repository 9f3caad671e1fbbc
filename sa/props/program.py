"""What the whole program is made of: unchecked code, sources of chance, ways of reading, and what its types allow."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import base
import modular
from base import VERIF, each
from lab import Missing
from props.local import functions_named, plain


def unchecked(P, rep):
    """no place of the library is exempt from the checks of the compiler"""
    if 'unsafe' not in P.d:
        raise Missing('list of unsafe places')
    for u in P.d['unsafe']:
        rep.ob(False, 'unchecked|%s|%s' % (u['kind'], u['path']), '%s in %s, which the compiler does not check' % (u['kind'], u['path']), '%s (%s)' % (u['path'], u['span']))
    for f in P.d['fns']:
        if not f['local']:
            continue
        rep.fns.add(f['path'])
        for c in functions_named(f['blocks']):
            rep.sites += 1
            rep.ob(not c.get('foreign'), 'foreign call|%s|%s' % (f['path'], c['p']), 'calls %s, which is not written in Rust' % c['p'], f['path'])
    for k in range(P.d['bodies']):
        rep.ob(True, 'body')
    rep.floor('body', 150)
    rep.floor('foreign call', 300)


# ---------------------------------------------------------------- sources of chance
CLOCK = ('time::now', 'time::now_utc', 'time::get_time', 'time::precise_time_ns', 'time::precise_time_s', 'std::time::SystemTime::now', 'std::time::Instant::now', 
         'std::time::SystemTime::elapsed', 'std::time::Instant::elapsed', 'time::PreciseTime::now', 'time::SteadyTime::now')
ZONE = ('time::at', 'time::Tm::to_local', 'time::now')
CHANCE = ('std::env::', 'std::thread::', 'std::process::id', 'std::any::type_name', 'std::collections::hash_map::RandomState::', 'std::hash::RandomState::', 'std::hash::BuildHasher', 'std::hash::DefaultHasher',
          'std::collections::hash_map::DefaultHasher', 'std::io::stdin', 'std::sync::mpsc::', 'std::backtrace::', 'std::panic::Location::caller', 'std::os::unix::fs::MetadataExt', 'std::os::unix::fs::DirEntryExt',
          'std::fs::Metadata::modified', 'std::fs::Metadata::accessed', 'std::fs::Metadata::created')
KEYED = ('insert', 'get', 'get_mut', 'get_key_value', 'contains_key', 'contains', 'remove', 'remove_entry', 'entry', 'len', 'is_empty', 'clear', 'reserve', 'new', 'default', 'with_capacity', 'clone', 'clone_from',
         'eq', 'ne', 'index', 'from_iter', 'extend', 'from', 'capacity', 'try_insert', 'replace', 'take', 'shrink_to_fit', 'try_reserve', 'with_hasher', 'with_capacity_and_hasher', 'get_or_insert_with', 'drop', 'borrow', 'borrow_mut',
         'as_ref', 'as_mut', 'or_insert', 'or_insert_with', 'or_default', 'and_modify', 'key', 'or_insert_entry', 'is_subset', 'is_superset', 'is_disjoint')
TABLE = re.compile(r'collections::(hash::(map|set)::)?(HashMap|HashSet)\b')
TABLE_ITER = re.compile(r'collections::(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Difference|Intersection|SymmetricDifference)\b')


def named(f):
    for c in functions_named(f['blocks']):
        yield c
        if isinstance(c.get('fmt'), dict):
            yield c['fmt']


def chance(P, c):
    """a source of what does not follow from the arguments: 'clock', 'zone' (both may be asked for), or what it is"""
    ps = {plain(x) for x in (c['p'], c.get('rp') or c['p'])} | {x for x in (c['p'], c.get('rp') or c['p'])}
    tr = c.get('trait') or ''
    krate = c.get('rkrate') or c.get('krate')
    if c.get('local') or c.get('rlocal'):
        return None
    if ps & set(CLOCK):
        return 'clock'
    if ps & set(ZONE):
        return 'zone'
    if any(p.startswith(CHANCE) for p in ps) or tr.startswith(CHANCE):
        return 'takes %s, which is not part of what it was given' % c['p']
    if krate not in ('std', 'core', 'alloc'):
        return None
    name = c['p'].split('::')[-1]
    types = [P.T[a]['s'] for a in (c.get('ra') or c.get('a') or []) if isinstance(a, int)]
    if any('OnceLock<' in s['ty'] for s in P.d['statics']) and any(p.startswith('std::sync::OnceLock') for p in ps) and name in ('set', 'get_or_init', 'try_insert', 'get_mut_or_init') and not constant(P, c):
        return 'keeps what the first call was given for the later ones'
    if any(TABLE_ITER.search(t) for t in types) or any(TABLE_ITER.search(p) for p in ps):
        return 'walks over a hash table, whose order is left to chance'
    if any(TABLE.search(p) for p in ps) or (types and TABLE.search(types[0].lstrip('&').replace('mut ', ''))):
        if name not in KEYED:
            return 'walks over a hash table, whose order is left to chance'
    return None


ONCE = re.compile(r'^std::sync::(LazyLock|OnceLock)<')
def constant(P, c):
    """the value is made by a closure that captures nothing"""
    ks = [P.T[a] for a in (c.get('ra') or c.get('a') or []) if isinstance(a, int)]
    cl = [k for k in ks if k['k'] == 'closure']
    fs = [k for k in ks if k['k'] in ('fndef', 'fn')]
    return bool(cl or fs) and all(k.get('f') in P.fns and not P.fns[k['f']].get('upvars') for k in cl)


SHOWS = ('std::fmt::Display', 'std::fmt::Debug')


def fn_of(P, r):
    return P.root_fn(r['path'])


def determined(P, rep):
    """what the library computes follows from what it is given; only what is shown of times may look at the clock and the zone"""
    of = {}         # path of a function or closure -> the functions it names
    uses = {}       # path -> sources of the clock and the zone
    local = [f for f in P.d['fns'] if f['local']]
    owner = {f['id']: f for f in local}
    for f in local:
        rep.fns.add(f['path'])
        derived = any(r.get('derived') and r['path'] == f['path'] for r in [P.root_by_path.get(f['path'])] if r)
        for c in named(f):
            rep.sites += 1
            x = chance(P, c)
            if x in ('clock', 'zone'):
                uses.setdefault(f['path'], {}).setdefault(x, c['p'])
            elif derived and (P.root_by_path[f['path']].get('trait') == 'std::fmt::Debug'):
                pass
            else:
                rep.ob(x is None, 'source|%s|%s' % (f['path'], c['p']), '%s' % x, f['path'])
            for q in (c.get('rp'), c['p']):
                if q in P.by_path and any(g['local'] for g in P.by_path[q]):
                    of.setdefault(f['path'], set()).add(q)
        for t, nm in f['locals']:
            k = P.T[t]
            if k['k'] == 'closure' and k.get('f') in owner:
                of.setdefault(f['path'], set()).add(owner[k['f']]['path'])
        for b in f['blocks']:
            for s in b['s']:
                rep.ob(not exposes(s), 'address|' + f['path'], 'an address is turned into a number', f['path'])
    back = {}
    for a, bs in of.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    for p, kinds in sorted(uses.items()):
        seen, todo = set(), [p]
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            r = P.root_by_path.get(q)
            if r is not None and asks(P, r):
                rep.ob(True, 'asked for|' + q)
                continue
            todo += back.get(q, ())
            if r is not None and (r['reachable'] or r['exported'] or not back.get(q)):
                rep.ob(False, 'depends|%s|%s' % (q, ' and '.join(sorted(kinds))), '%s looks at the %s (%s)' % (q, ' and the '.join(sorted(kinds)), ', '.join(sorted(kinds.values()))), q)
    for s in P.d['statics']:
        rep.ob(not s['mut'] or ONCE.search(s['ty']) is not None, 'memory between calls|' + s['path'], 'a value that is shared by all uses of the library can change (%s)' % s.get('ty'), '%s (%s)' % (s['path'], s['span']))
    rep.floor('source', 300)
    rep.floor('asked for', 2)
    rep.floor('address', 300)


def asks(P, r):
    """functions whose result is meant to depend on the clock or the zone: displays, and the choice of a zone"""
    return (r.get('trait') or '').startswith(SHOWS) or r['path'].endswith('as timefmt::TimeDisplay>::into_local_display')


def exposes(s):
    if isinstance(s, dict):
        if s.get('k') == 'cast' and 'Expose' in str(s.get('c') or s.get('kind') or s.get('ck') or ''):
            return True
        return any(exposes(v) for v in s.values())
    if isinstance(s, list):
        return any(exposes(v) for v in s)
    return False


# ---------------------------------------------------------------- ways of reading
PIECE = ('read', 'read_vectored', 'read_buf', 'fill_buf', 'buffer', 'read_array', 'read_at', 'poll_read')
RULED = ('std::io::Read', 'std::io::BufRead', 'std::os::unix::fs::FileExt')


def succ(t):
    out = []
    for k in ('to', 'else'):
        if isinstance(t.get(k), int):
            out.append(t[k])
    if t['k'] == 'switch':
        out += [x[1] for x in t['vs']]
    return out


def reaches(f, a, b):
    """can the end of block a lead to block b"""
    seen, todo = set(), list(succ(f['blocks'][a]['t']))
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += succ(f['blocks'][x]['t'])
    return False


def places(x):
    """locals that an operand or a value is read from"""
    if isinstance(x, dict):
        if isinstance(x.get('p'), list) and x['p'] and isinstance(x['p'][0], int):
            yield x['p'][0]
        for v in x.values():
            yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def carries(P, f, l):
    """may this local hold the number of bytes that were read (and not merely a truth about it)"""
    return P.T[f['locals'][l][0]]['s'] != 'bool'


def told_by(P, f, at):
    """how the number of bytes that the call in block `at` gave decides when its loop is left: offending block or None"""
    t = f['blocks'][at]['t']
    taint, truth = {t['dst'][0]}, set()
    n = -1
    while n != (len(taint), len(truth)):
        n = (len(taint), len(truth))
        for b in f['blocks']:
            for s in b['s']:
                if s.get('k') != 'assign' and 'r' not in s:
                    continue
                r, dst = s.get('r'), s.get('p') or s.get('dst')
                if r is None or not dst:
                    continue
                src = set(places(r))
                if r.get('k') == 'bin':
                    if r['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and src & taint and not any(zero(o) for o in (r.get('a'), r.get('b'))):
                        truth.add(dst[0])
                    continue
                if src & taint and carries(P, f, dst[0]):
                    taint.add(dst[0])
                if src & truth:
                    truth.add(dst[0])
            t = b['t']
            if t['k'] == 'call' and t.get('dst') and set(places(t['args'])) & taint and carries(P, f, t['dst'][0]) and not set(places(t['args'])) - taint:
                taint.add(t['dst'][0])
    for i, b in enumerate(f['blocks']):
        t = b['t']
        if t['k'] != 'switch' or not reaches(f, at, i):
            continue
        d = set(places(t['d']))
        ty = P.T[t['t']]['s'] if isinstance(t.get('t'), int) else ''
        if d & truth or (d & taint and ty == 'usize' and any(v[0] != 0 for v in t['vs'])):
            outs = [x for x in succ(t) if x != at and not reaches(f, x, at)]
            if outs and len(outs) < len(succ(t)):
                return i
    return None


def zero(o):
    return isinstance(o, dict) and o.get('k') == 'const' and o.get('v') == 0 and not isinstance(o.get('v'), bool)


def pieces(P, rep):
    """nothing depends on how many bytes a stream gives at once"""
    for f in P.d['fns']:
        if not f['local']:
            continue
        rep.fns.add(f['path'])
        r = P.root_by_path.get(f['path'])
        adapter = r is not None and (r.get('trait') or '').startswith(RULED)
        for i, b in enumerate(f['blocks']):
            t = b['t']
            for c in functions_named(b):
                tr = c.get('trait') or ''
                q = plain(c.get('rp') or c['p'])
                if not (tr.startswith(RULED) or q.startswith('std::io::')) or c.get('local'):
                    continue
                rep.sites += 1
                name = c['p'].split('::')[-1]
                key = 'reading|%s|%s' % (f['path'], c['p'])
                if name not in PIECE or adapter:
                    rep.ob(True, key)
                    continue
                called = t['k'] == 'call' and t['f'].get('p') == c['p']
                if not called or not reaches(f, i, i):
                    rep.ob(False, key, 'takes what one read happens to give for all there is', '%s (%s)' % (f['path'], t.get('sp')))
                    continue
                at = told_by(P, f, i) if name == 'read' else None
                rep.ob(at is None, key, 'takes a short read for the end', '%s (%s)' % (f['path'], t.get('sp')))
    rep.floor('reading', 5)


# ---------------------------------------------------------------- what the types allow
def built(d):
    """the library, type-checked as cargo does: (its metadata, folders of its dependencies)"""
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json', '--target-dir', os.path.join(d, 'target')], cwd=base.REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    files = []
    for line in r.stdout.decode('utf-8', 'replace').splitlines():
        if line.startswith('{'):
            m = json.loads(line)
            if m.get('reason') == 'compiler-artifact':
                files += [(m['target']['name'], f) for f in m['filenames'] if f.endswith('.rmeta')]
    own = [f for n, f in files if n == 'ruplicity']
    if r.returncode != 0 or not own:
        raise base.Unavailable('the library does not type-check:\n' + r.stderr.decode('utf-8', 'replace')[-3000:])
    return own[-1], sorted({os.path.dirname(f) for n, f in files})


def judge(d, lib, dirs, src, cfgs=()):
    """what the compiler refuses in a program that uses the library: [(line, code, message)]"""
    cmd = ['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '--cap-lints=allow', '-o', os.path.join(d, 'out.rmeta'), '--extern', 'ruplicity=' + lib]
    for x in dirs:
        cmd += ['-L', 'dependency=' + x]
    for c in cfgs:
        cmd += ['--cfg', c]
    r = subprocess.run(cmd + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    out = []
    for line in r.stderr.decode('utf-8', 'replace').splitlines():
        if not line.startswith('{'):
            continue
        m = json.loads(line)
        if m.get('level') == 'error' and not m['message'].startswith('aborting due to'):
            at = [s['line_start'] for s in m['spans'] if s['is_primary']]
            out.append((at[0] if at else 0, (m.get('code') or {}).get('code') or '', m['message']))
    if r.returncode != 0 and not out:
        raise base.Unavailable('the compiler gave no answer: ' + r.stderr.decode('utf-8', 'replace')[-500:])
    return out


def functions_of(src):
    """[(first line, name)] of the functions of a program, in order"""
    return [(i, m.group(1)) for i, line in enumerate(open(src), 1) for m in [re.match(r'fn (\w+)', line)] if m]


MEANS = {'shared': 'can no longer be shared between threads', 'sent': 'can no longer be given to another thread', 'kept': 'no longer lives as long as what it was read from',
         'together': 'requests can no longer be alive together', 'error': 'the error can no longer be passed on', 'any': 'is no longer taken'}


def witnesses(P, rep):
    """programs that share, keep and combine what the library gives out are accepted"""
    d = tempfile.mkdtemp(prefix='sa-witness-')
    try:
        lib, dirs = built(d)
        src = os.path.join(VERIF, 'witness', 'accepted.rs')
        fs = functions_of(src)
        bad = {}
        for line, code, msg in judge(d, lib, dirs, src):
            name = ([n for i, n in fs if i <= line] or ['(the names it uses)'])[-1]
            bad.setdefault(name, '%s %s' % (code, msg))
        for i, n in fs:
            if n in ('shared', 'sent', 'owned'):
                continue
            rep.sites += 1
            rep.ob(n not in bad, 'accepted|' + n, '%s: %s' % (MEANS.get(n.split('_')[0], 'is refused'), bad.get(n)), 'witness/accepted.rs: ' + n)
        for n in bad:
            if n not in [x for i, x in fs] or n in ('shared', 'sent', 'owned'):
                rep.ob(False, 'accepted|' + n, 'programs that use the library are refused: ' + bad[n], 'witness/accepted.rs')
        src = os.path.join(VERIF, 'witness', 'refused.rs')
        for i, n in functions_of(src):
            if n == 'owned':
                continue
            rep.ob(len(judge(d, lib, dirs, src, [n])) > 0, 'refused|' + n, 'the compiler does not refuse what it must', 'witness/refused.rs: ' + n)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rep.floor('accepted', 35)
    rep.floor('refused', 3)
