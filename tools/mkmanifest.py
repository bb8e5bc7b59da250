"""Writes MANIFEST.json from the property list and the modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': n.get('technique', 'property-based testing (Hypothesis) against an explicit oracle'),
            'level': 'exploration',
            'level_note': n.get('note', 'Random search over generated inputs; no claim of absence beyond the cases tried.'),
        })
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'the check for this property is not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are generated-input searches; see DESIGN.md. No hooks were added to /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
