"""Writes MANIFEST.json from properties.jsonl and checks/ (python tools/make_manifest.py)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        t, n = NOTES[i]
        checks.append({
            'property': i, 'quick_cmd': 'bash check.sh ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'property-based testing (Hypothesis): ' + t,
            'level': 'exploration',
            'level_note': n + ' Explored inputs only: no claim about inputs outside the generators.'})
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks run through check.sh -> run.py; cases are JSON, drawn by Hypothesis with VERIF_SEED, shrunk, saved under replays/ and replayed with: bash check.sh ID --replay FILE. Saved cases under corpus/ are replayed first by every run.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
