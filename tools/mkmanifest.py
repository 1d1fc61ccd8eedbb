"""Regenerates MANIFEST.json from properties.jsonl, specs/ and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
TECH = 'contract-based deductive verification: obligations generated by symbolic execution of the real source, discharged by polynomial normalisation and z3'
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(V, 'specs', i.lower() + '.py')) and not n.get('na'):
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough', evidence_file=f'evidence/{i}.json',
                           technique=n.get('technique', TECH), level=n.get('level', 'proof'),
                           level_note=n.get('note', 'see DESIGN.md; contracts the verifier cannot discharge are labelled bounded in the evidence file')))
    else:
        na.append(dict(property=i, reason=n.get('na', 'no contract built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
