"""Shared parts of the checks: obtaining the type-checked program of /repo, verdicts and evidence."""
import json
import os
import pickle
import select
import signal
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')


class Unavailable(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def sysroot():
    rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc != 0:
        raise Unavailable('no nightly toolchain: ' + o[-300:])
    return o.strip()


def driver():
    """the compiler driver that writes out the resolved program (built on demand)"""
    tgt = os.path.join(VERIF, 'driver', 'target')
    exe = os.path.join(tgt, 'debug', 'mirdump')
    src = [os.path.join(VERIF, 'driver', 'Cargo.toml')] + [os.path.join(VERIF, 'driver', 'src', f) for f in os.listdir(os.path.join(VERIF, 'driver', 'src'))]
    if not os.path.exists(exe) or os.path.getmtime(exe) < max(map(os.path.getmtime, src)):
        env = dict(os.environ, CARGO_NET_OFFLINE='true')
        env.pop('RUSTC_WORKSPACE_WRAPPER', None)
        rc, o = sh(['cargo', '+nightly', 'build', '--target-dir', tgt], env, os.path.join(VERIF, 'driver'))
        if rc != 0 or not os.path.exists(exe):
            raise Unavailable('the driver does not build: ' + o[-2000:])
    return exe


def dump(repo=None, keep=None, crate='ruplicity'):
    """type-check the library as cargo builds it and return the path of the written program"""
    repo = repo or REPO
    exe = driver()
    d = tempfile.mkdtemp(prefix='sa-dump-')
    out = keep or os.path.join(d, 'program.json')
    try:
        env = dict(os.environ, CARGO_NET_OFFLINE='true', LD_LIBRARY_PATH=sysroot() + '/lib', MIRDUMP_CRATE=crate, MIRDUMP_OUT=out,
                   RUSTC_WORKSPACE_WRAPPER=exe)
        env.pop('RUSTFLAGS', None)
        rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--target-dir', os.path.join(d, 'target')], env, repo)
        if rc != 0 or not os.path.exists(out):
            raise Unavailable('the library does not type-check:\n' + o[-3000:])
        return out, d
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise


def load(repo=None):
    from prog import Program
    pre = os.environ.get('SA_DUMP')
    if pre:
        return Program(pre)
    out, d = dump(repo)
    try:
        return Program(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PANIC = 'no panic'       # kind of the obligations that a place does not panic


class Report:
    """obligations of one property; a violation is keyed by what it is about, not by where"""

    def __init__(self, pid):
        self.pid = pid
        self.n = 0
        self.good = 0
        self.kinds = {}
        self.bad = []
        self.samples = []
        self.fns = set()
        self.sites = 0
        self.notes = []
        self.assumptions = []
        self.tier = 'quick'
        self.only = None        # kinds of obligations that concern the property; None: all

    def ob(self, ok, key, text='', site=''):
        k = key.split('|')[0]
        if self.only is not None and k not in self.only and k not in ('anchor', 'analysis'):
            return ok
        self.n += 1
        a = self.kinds.setdefault(k, [0, 0])
        a[0] += 1
        if ok:
            self.good += 1
            a[1] += 1
            if a[1] <= 3:
                self.samples.append('%s%s' % (key, (' @ ' + site) if site else ''))
        else:
            self.bad.append(dict(key=key, text=text, site=site))
        return ok

    def floor(self, kind, n, why=''):
        """fewer instances than were counted by hand means the anchor is gone"""
        if self.only is not None and kind not in self.only:
            return
        have = self.kinds.get(kind, [0, 0])[0]
        if have < n:
            self.ob(False, 'anchor|%s' % kind, 'only %d instances of "%s" found, at least %d expected %s' % (have, kind, n, why))

    def engine(self, E):
        for i in E.fns_seen:
            f = E.P.fns[i]
            if f['local']:
                self.fns.add(f['path'])
        self.sites += len(E.calls_seen)
        if self.only is not None and PANIC in self.only:
            self.panics(E)

    def panics(self, E):
        """every place that can panic, as met on the paths analysed"""
        for o in E.obl:
            if o['kind'] in ('loop',):
                continue
            self.ob(o['ok'], '%s|%s|%s|%s' % (PANIC, o['fn'], o['kind'], o['detail'] or ''), 'may panic: %s %s' % (o['kind'], (o['why'] or o['detail'] or '')[:200]), '%s (%s)' % (o['fn'], o['span']))

    def merge(self, r):
        self.n += r.n
        self.good += r.good
        for k, (n, g) in r.kinds.items():
            a = self.kinds.setdefault(k, [0, 0])
            if a[1] < 3:
                self.samples.extend(x for x in r.samples if x.split('|')[0] == k)
            a[0] += n
            a[1] += g
        self.bad.extend(r.bad)
        self.fns |= r.fns
        self.sites += r.sites
        self.notes.extend(x for x in r.notes if x not in self.notes)
        self.assumptions.extend(x for x in r.assumptions if x not in self.assumptions)


def each(rep, items, fn):
    """fn(item, report) for every item, in parallel; the reports are merged in order"""
    items = list(items)
    n = min(len(items), int(os.environ.get('SA_PROCS', os.cpu_count() or 1)))
    if n <= 1:
        for x in items:
            fn(x, rep)
        return
    todo, running, done = list(range(len(items))), {}, {}
    try:
        while todo or running:
            while todo and len(running) < n:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    child(items[i], rep, fn, w)
                os.close(w)
                running[r] = (i, pid, [])
            for r in select.select(list(running), [], [])[0]:
                b = os.read(r, 1 << 16)
                i, pid, got = running[r]
                if b:
                    got.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                done[i] = pickle.loads(b''.join(got)) if got else RuntimeError('no result (memory?)')
    finally:
        for i, pid, _ in running.values():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    for i in range(len(items)):
        if isinstance(done[i], Exception):
            raise done[i]
        rep.merge(done[i])


def child(x, rep, fn, w):
    try:
        mine = Report(rep.pid)
        mine.tier, mine.only = rep.tier, rep.only
        try:
            fn(x, mine)
            out = pickle.dumps(mine)
        except BaseException as e:
            import traceback
            where = ' < '.join('%s:%d' % (t.name, t.lineno) for t in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
            cls = type(e).__name__
            out = pickle.dumps(Failed(cls, '%s (%s)' % (str(e)[:300], where)))
        with os.fdopen(w, 'wb') as f:
            f.write(out)
    finally:
        os._exit(0)


class Failed(Exception):
    """an exception of a child"""

    def __init__(self, cls, text):
        Exception.__init__(self, cls, text)
        self.cls, self.text = cls, text

    def __str__(self):
        return self.text
