"""Writes MANIFEST.json from the property list and the drivers that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = f'{V}/harness/props/{p["id"].lower()}.py'
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'The check for this property is not built yet.'})
        continue
    ns = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('TRACE', 'TECHNIQUE', 'NOTE'):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bash check.sh {p["id"]} quick',
        'thorough_cmd': f'bash check.sh {p["id"]} thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': ns.get('TECHNIQUE', 'TLA+ specification checked by TLC; recorded calls of the real code validated against it as traces'),
        'level': 'model_checking',
        'level_note': ns.get('NOTE', 'The specification is checked exhaustively on small instances; the code is bound to it by validating '
                      'recorded traces (spec-generated plus seeded inputs) with TLC, so the verdict on the code covers the inputs driven. '
                      'Trusted: TLC, the recording driver, the TLA+ transcription of the format.') + f' Trace module: spec/{ns["TRACE"]}.tla.',
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. check.sh <ID> [quick|thorough|replay FILE].'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
