#!/usr/bin/env python3
"""Write the per-property part of DESIGN.md (below the marker line)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/design.py -->'


def suite(pid):
    t = ast.parse(open(f'{HERE}/props/{pid.lower()}.py').read())
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) \
                and getattr(n.targets[0], 'id', '') == 'SUITE':
            return {k.arg: ast.literal_eval(k.value)
                    for k in n.value.keywords}


def main():
    ns = {}
    exec(open(f'{HERE}/tools/how.py').read(), ns)
    how = ns['HOW']
    man = json.load(open(f'{HERE}/MANIFEST.json'))
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    kf = [x for x in open(f'{HERE}/known_findings.txt')
          if not x.startswith('#')]
    out = [MARK, '', '## Properties', '']
    for line in open(f'{HERE}/properties.jsonl'):
        p = json.loads(line)
        pid = p['id']
        out += [f'### {pid} {p["title"]}', '']
        if pid in na:
            out += [f'Not applicable: {na[pid]}.', '']
            continue
        s = suite(pid)
        h = how[pid]
        out += [f'* **Executed**: {h[0]}', f'* **Oracle**: {h[1]}.',
                f'* **Bounds**: {s["bounds"]}.']
        if s.get('assumptions'):
            out.append('* **Assumed**: ' + '; '.join(s['assumptions']) + '.')
        if s.get('outside'):
            out.append(f'* **Outside**: {s["outside"]}.')
        out.append(f'* **Beyond the tests**: {h[2]}.')
        n = sum(f'property={pid} ' in x and x.startswith('fixed')
                for x in kf)
        if n:
            out.append(f'* {n} genuine defects found by this check are '
                       'repaired (known_findings.txt).')
        out.append('')
    out += ['## Planted bugs', '',
            'Each was written from the property text and the code, '
            'demonstrated, and passes the stable tests; `caught` is the '
            'quick check of its property.', '',
            '| seed | property | needs | caught |', '|---|---|---|---|']
    res = json.load(open(f'{HERE}/tools/caught.json')) \
        if os.path.exists(f'{HERE}/tools/caught.json') else {}
    for d in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
        m = json.load(open(d))
        sid = os.path.basename(os.path.dirname(d))
        needs = ' '.join(str(m['needs']).split()).replace('|', '/')
        out.append(f'| {sid} | {m["property"]} | {needs} | '
                   f'{res.get(sid, "yes")} |')
    path = f'{HERE}/DESIGN.md'
    head = open(path).read().split(MARK)[0].rstrip() + '\n\n'
    open(path, 'w').write(head + '\n'.join(out) + '\n')


main()
