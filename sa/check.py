"""check.py ID [--tier quick|thorough]: decide one property on the current source of /repo."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base
from base import Report, VERIF

# property -> [(module, function)], the rule applied
REGISTRY = {}


def prop(pid, rule, *fns):
    REGISTRY[pid] = (rule, fns)


prop('C12', 'case analysis of the membership test and of the two ways a file enters a set, against the decision table', 'sets.membership')
prop('C11', 'equality of the languages and captures of the patterns that decide each form, with the dataflow from their groups to the parts of the result', 'naming.grammar')
prop('C13', 'abstract run of listings of up to five files over every order of their times, against the linking rules', 'chains.backup', 'chains.signatures')
prop('C20', 'abstract run of every line template over arbitrary words, against the grammar of manifests and the accessors', 'manifest.structure')
prop('C21', 'abstract search of manifests of every way in which volumes follow each other, over every position of the path', 'manifest.volumes')
prop('C22', 'abstract run of words of arbitrary bytes, from the line to the accessors, against the rule for quotes, escapes and digits', 'manifest.escapes')
prop('C23', 'tables of entry types and permission letters, by partition of the input', 'tables.entry_type', 'tables.mode_display')
prop('C19', 'case analysis of the member name dispatch, both directions', 'sig.member_names')
prop('C25', 'case analysis of the size hint of a member against the formula', 'sig.size_hints')
prop('C16', 'partition of the recorded versions by snapshot number, iterating the listing to its end', 'sig.listing')
prop('C17', 'abstract run of a chain of archives over every relative order of their paths, from the files to the listings',
     'sig.merging:number of snapshots,snapshot present,missing paths,too many paths,order of the paths,listed path,version listed,pipeline')
prop('C18', 'provenance of every attribute, from the header of the member to the accessor of the entry', 'sig.attributes')
prop('C15', 'abstract navigation of every shape of collections, and dataflow from the chains to what the snapshots list',
     'facade.navigation:number of snapshots,set of a snapshot,time of a snapshot,is_full of a snapshot,is_incremental of a snapshot,num_volumes of a snapshot,navigation',
     'facade.listings:own signatures,snapshot listed,listing', 'facade.manifests:content parsed,own content,manifest', 
     'sig.numbering:number of snapshots,snapshot present,missing paths,too many paths,version listed,decompression,pipeline')
prop('C08', 'effect analysis: every call of the backend on every path, with the provenance of the name it is given',
     'facade.creation:one listing,nothing opened,names used,backend kept', 'facade.navigation:one listing,nothing opened', 'facade.listings:reads signatures only', 'facade.manifests:reads the manifest only,own manifest,backend',
     'sig.numbering:opened files,backend,all files')
prop('C09', 'typestate of the cells that keep what was read, over every order of two requests',
     'facade.listings:chain read once,kept chain', 'facade.manifests:manifest opened,manifest parsed,kept manifest')
prop('C10', 'dataflow of every error result to the result of the operation',
     'facade.creation:listing error,listing error kept', 'facade.listings:no signatures,signature error,complete chain', 'facade.manifests:outcome of opening,open error,outcome of parsing,parse error,manifest given',
     'sig.numbering:outcome of opening,open error,archive error,error returned', 'display.writes:formatter error', 'display.errors:formatter error', 'display.entry_line:formatter error', 'display.listing:formatter error', 'display.summary:formatter error')
prop('C24', 'case analysis of every method of the iterator at an arbitrary position', 'sig.iterator')
prop('C26', 'dataflow of the text and of the time to the functions of the calendar, by partition of the times', 'display.reading', 'display.showing')
prop('C28', 'abstract display of every entry and of listings, against the accessors', 'display.entry_line', 'display.listing')
prop('C29', 'abstract display of the collections of listings, against their accessors', 'display.summary')
prop('C06', 'every loop has a quantity that gets nearer to a bound each time around, and no function calls itself', 'safety.terminates')
prop('C07', 'effect analysis: every function that the library names, against the effects allowed', 'local.effects')
prop('C30', 'dataflow between the backend and the calls of the file system, over every outcome of them', 'local.opening', 'local.names')
prop('C31', 'list of what the compiler does not check, over every item and body of the library', 'program.unchecked')
prop('C32', 'type-level witnesses: programs that must be accepted, judged by the type and borrow checker', 'program.witnesses')
prop('C33', 'abstract display of every kind of error, against the kind and what it carries', 'display.errors')
prop('C34', 'every way of reading from a stream, with the dataflow of the sizes it reports', 'program.pieces')
prop('C35', 'effect analysis: every source of values other than the arguments, with the functions that reach it', 'program.determined')
prop('C01', 'every operation that may panic, on every path of the functions of manifests with arbitrary arguments, shown not to', 'safety.manifests')
prop('C02', 'every operation that may panic, on every path of the functions of collections with arbitrary arguments, shown not to', 'safety.collections')
prop('C03', 'every operation that may panic, on every path of the functions of signatures with arbitrary arguments, shown not to', 'safety.signatures', 'sig.iterator:no panic')
prop('C04', 'every operation that may panic in the navigation of a backup, over every shape of collections and every order of requests, shown not to',
     'facade.creation:no panic', 'facade.navigation:no panic', 'facade.listings:no panic', 'facade.manifests:no panic')
prop('C05', 'every operation that may panic while something is displayed, or a time is read, shown not to', 'safety.times', 'display.showing:no panic',
     'display.entry_line:no panic', 'display.listing:no panic', 'display.summary:no panic', 'tables.mode_display:no panic')
prop('C14', 'case analysis of chain construction and linking, against the linking rule', 'sets.linking')


def known(pid):
    """{key: text} of the findings listed for a property"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                key, _, text = rest.partition(' :: ')
                out[key] = text
    return out


class Late(BaseException):
    pass


# seconds after which what is not decided counts as not decidable
LIMIT = 700


def late(sig, frame):
    raise Late('no answer in time')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    rule, fns = REGISTRY[pid]
    rep = Report(pid)
    rep.tier = 'thorough' if a.tier == 'thorough' else 'quick'
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT if rep.tier == 'quick' else LIMIT * 6)
    try:
        P = base.load()
        for f in fns:
            f, _, only = f.partition(':')
            rep.only = frozenset(only.split(',')) if only else None
            m, n = f.rsplit('.', 1)
            try:
                getattr(importlib.import_module('props.' + m), n)(P, rep)
            except (Exception, Late) as e:
                if os.environ.get('SA_DEBUG'):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                where = ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(tb[-4:]))
                cls = e.cls if isinstance(e, base.Failed) else type(e).__name__
                kind = 'anchor' if cls == 'Missing' else 'analysis'
                rep.ob(False, '%s|%s' % (kind, f), 'the rule cannot be applied to the current source: %s: %s (%s)' % (cls, str(e)[:300], where))
                continue
            for k in sorted(rep.only or ()):
                if k != base.PANIC:
                    rep.floor(k, 1)
        rep.only = None
    except Late as e:
        rep.ob(False, 'build|program', 'the program could not be obtained: %s' % e)
    except base.Unavailable as e:
        rep.ob(False, 'build|program', 'the program could not be obtained: %s' % str(e)[-1500:])
    kn = known(pid)
    viol, seen = [], set()
    for b in rep.bad:
        if b['key'] in seen:
            continue
        seen.add(b['key'])
        if b['key'] in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[b['key']]))
        else:
            viol.append(b)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', pid + '.report.txt')
    with open(rp, 'w') as f:
        f.write('property %s: %s\n%d obligations, %d discharged\n' % (pid, rule, rep.n, rep.good))
        for b in viol:
            f.write('VIOLATED %s\n    at %s\n    %s\n' % (b['key'], b['site'], b['text']))
        for k, (n, g) in sorted(rep.kinds.items()):
            f.write('  %-40s %d of %d\n' % (k, g, n))
        f.write('functions analysed:\n' + ''.join('  %s\n' % x for x in sorted(rep.fns)))
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof',
              coverage=dict(obligations=max(rep.n, 0), discharged=rep.good, checker_cmd='bash /verif/check.sh %s' % pid,
                            trusted_base=['rustc nightly (type checking, MIR construction, callee resolution)', 'sa/engine.py, joins.py, terms.py, fm.c: abstract interpreter and linear domain',
                                          'sa/models.py: summaries of library functions', 'sa/props: the rules'],
                            rule=rule, obligations_by_kind={k: dict(found=n, discharged=g) for k, (n, g) in sorted(rep.kinds.items())},
                            functions_analysed=sorted(rep.fns), call_sites=rep.sites, samples=rep.samples[:12], notes=rep.notes[:40]),
              assumptions=rep.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for b in viol[:40]:
        print('violated: %s' % b['key'])
        print('    at %s: %s' % (b['site'], b['text']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s holds: %d obligations discharged in %d functions (%.1fs)' % (pid, rep.good, len(rep.fns), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
