"""Writes DESIGN.md: design_text.py (prose) plus what can be read off the checks, the findings and the planted bugs."""
import ast
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import design_text as D


def module(pid):
    out = {'SUBS': []}
    with open(os.path.join(V, 'props', pid.lower() + '.py')) as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        if not isinstance(n, ast.Assign) or not isinstance(n.targets[0], ast.Name):
            continue
        name = n.targets[0].id
        if name in ('RULE', 'ASSUMPTIONS'):
            out[name] = ast.literal_eval(n.value)
        if name == 'SUBS':
            for c in n.value.elts:
                if not isinstance(c, ast.Call):
                    continue
                kw = {k.arg: k.value for k in c.keywords}
                val = lambda k, d: ast.literal_eval(kw[k]) if k in kw else d
                try:
                    sh = val('shares', None) or val('shards', (1, 1))
                    out['SUBS'].append((ast.literal_eval(c.args[0]), val('quick', '?'), val('thorough', '?'), sh))
                except ValueError:
                    pass
    return out


props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
findings = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
seeds = []
for p in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(p))
    m['id'] = os.path.basename(os.path.dirname(p))
    seeds.append(m)
notes = dict(D.SEED_NOTES)

w = []
w.append(D.HEAD.strip() + '\n')
w.append('## Properties and how each is decided\n')
for d in props:
    pid = d['id']
    m = module(pid)
    t = D.PROP[pid]
    w.append('### %s %s\n' % (pid, d['title']))
    w.append('*Specified.* ' + d['statement'] + '\n')
    w.append('*Generated and counted.* ' + m['RULE'] + '\n')
    w.append('*Oracle.* ' + t['oracle'] + '\n')
    w.append('*Bounds and assumptions.* ' + '; '.join(m.get('ASSUMPTIONS', []) + t.get('bounds', [])) + '.\n')
    w.append('*Why the tests cannot.* ' + t['why'] + '\n')
    if m['SUBS']:
        w.append('*Cost.* ' + ', '.join('`%s` %s cases x %s shards (thorough %s x %s)' % (n, q, s[0], th, s[1]) for n, q, th, s in m['SUBS'])
                 + (('; ' + t['cost']) if 'cost' in t else '') + '.\n')
    mine = [s for s in seeds if s['property'] == pid]
    if mine:
        w.append('*Planted bugs caught:* ' + ', '.join('`%s`%s' % (s['id'], ' (first missed)' if s['id'] in notes else '') for s in mine) + '.\n')
w.append(D.NA.strip() + '\n')
w.append('## Findings in the code under test\n')
w.append(D.FINDINGS.strip() + '\n')
seen = {}
for f in findings:
    seen.setdefault((f['status'], f['key'], f['what'].split(' ', 3)[-1] if f['status'] == 'fixed' else f['what']), []).append(f['property'])
w.append('| commit | property | what failed |\n|---|---|---|')
for (status, key, what), pp in seen.items():
    w.append('| %s | %s | %s |' % (key if status == 'fixed' else 'not repaired: ' + key, ' '.join(pp), what.replace('|', '/')))
w.append('')
w.append(D.ALARMS.strip() + '\n')
w.append('## Planted bugs\n')
w.append(D.PLANTED.strip() + '\n')
w.append('| planted bug | property (check that catches it) | what it needs | remark |\n|---|---|---|---|')
for s in seeds:
    w.append('| %s | %s | %s | %s |' % (s['id'], s['property'], s['needs'].replace('|', '/'), notes.get(s['id'], '').replace('|', '/')))
w.append('')
w.append(D.MUTATION.strip() + '\n')
w.append(D.TAIL.strip() + '\n')
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(w))
missing = [k for k in notes if k not in [s['id'] for s in seeds]]
if missing:
    print('notes about unknown bugs:', missing)
