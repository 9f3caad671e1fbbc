"""writes properties.jsonl and MANIFEST.json from the list below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S, C, M, L, N, R, T, B = ('src/signatures.rs', 'src/collections/mod.rs', 'src/manifest.rs', 'src/lib.rs', 'src/collections/file_naming.rs', 'src/rawpath.rs', 'src/timefmt.rs', 'src/backend/local.rs')
PROPS = []


def P(id, title, statement, over, text, why, files, mech, claim=None, na=None):
    """claim: (technique, note); na: why it is not claimed"""
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), claim, na))


TRUST = 'Sound for the current source up to the trusted base: MIR of the installed nightly, the abstract interpreter and its summaries of library functions.'
CASES = 'abstract interpretation of MIR with case partitioning, against a decision table'

exec(open(os.path.join(HERE, 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, c, na in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=[], not_applicable=[],
           notes='Every check type-checks /repo with the compiler driver in /verif/driver, takes the resolved MIR of the library and decides its rule on it by abstract interpretation; no code of the library is run. See DESIGN.md.')
for p, c, na in PROPS:
    if c:
        tech, note = c
        man['checks'].append(dict(property=p['id'], quick_cmd='bash /verif/check.sh %s quick' % p['id'], thorough_cmd='bash /verif/check.sh %s thorough' % p['id'],
                                  technique=tech, level='proof', level_note=note))
    else:
        man['not_applicable'].append(dict(property=p['id'], reason=na or 'no check has been built for it yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'claimed,', len(man['not_applicable']), 'not')
