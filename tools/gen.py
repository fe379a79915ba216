"""Writes properties.jsonl and MANIFEST.json from props/meta.py:  python3 tools/gen.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)  # noqa
sys.dont_write_bytecode = True
from props import meta  # noqa

TECH = "symbolic execution of the package's current source with z3 (SMT, nonlinear real arithmetic), path-complete within bounds"
NOTE = ("Bounded: holds for every value of the symbolic inputs within the stated sizes, over exact real arithmetic plus inf/nan, "
        "up to relative 1e-9 for float constants; numpy/scipy are replaced by symbolic models that are validated by replaying "
        "witnesses of the explored paths on the real package. ")

props, checks = [], []
for pid in sorted(meta.ALL):
    m = meta.ALL[pid]
    if not os.path.exists(os.path.join(V, 'props', pid.lower() + '.py')):
        continue
    assert len(m['title']) <= 80, (pid, len(m['title']))
    a = dict(files=m['files'], mechanism=[dict(name=n, where=w) for n, w in m['mech']])
    if m['state']:
        a['state'] = [dict(name=n, meaning=t, where=w) for n, t, w in m['state']]
    a['observe_at'] = list(m['observe'])
    a['hook_needed'] = None
    props.append(dict(id=pid, title=m['title'], statement=m['statement'],
                      quantifier=dict(over=m['over'], text=m['text']), why_tests_cant=m['why'], anchors=a))
    checks.append(dict(property=pid, quick_cmd='./check.sh %s quick' % pid, thorough_cmd='./check.sh %s thorough' % pid,
                       technique=m['technique'] or TECH, level='model_checking', level_note=NOTE + m['note']))
for pid, title, statement, over, text, why, files, mech, reason in meta.NOT_APPLICABLE_PROPS:
    assert len(title) <= 80, pid
    props.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=meta.NOT_APPLICABLE,
           notes='No hooks in /repo: the checks read its source and import it as it is. known findings: known_findings.jsonl')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
try:
    import jsonschema
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import jsonschema
s = json.load(open('/root/.vp/MANIFEST.schema.json'))
jsonschema.validate(man, s)
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, s)
print(len(props), 'properties')
