#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from one table.

A property is claimed as soon as props/<id>.py exists and it is not in HOLD.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('bounded symbolic execution of the real Python code '
        '(path conditions and assertions decided by Z3)')
G = 'lambeq/backend/grammar.py'
T = 'lambeq/backend/tensor.py'
Q = 'lambeq/backend/quantum.py'
TK = 'lambeq/backend/converters/tk.py'

P = []


def prop(pid, title, statement, over, text, why, files, mech, note,
         assumes=()):
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech]))
    P.append((d, note))


NA = []      # (dict, reason)


def na(pid, title, statement, over, text, why, files, mech, reason):
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech]))
    NA.append((d, reason))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())


def main():
    lines = [json.dumps(d, ensure_ascii=False) for d, _ in P + NA]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    checks, nas = [], []
    for d, note in P:
        pid = d['id']
        assert len(d['title']) <= 80, pid
        if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')) \
                and pid not in HOLD:
            checks.append(dict(
                property=pid, quick_cmd=f'./run.sh {pid} quick',
                thorough_cmd=f'./run.sh {pid} thorough',
                technique=TECH, level='model_checking', level_note=note))
        else:
            nas.append(dict(property=pid, reason=HOLD.get(
                pid, 'harness not built yet')))
    for d, reason in NA:
        nas.append(dict(property=d['id'], reason=reason))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
             not_applicable=nas,
             notes='No hooks: the harnesses drive the unmodified code.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(P) + len(NA), 'properties,', len(checks), 'claimed')


main()
