"""Writes MANIFEST.json from the modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
PYX = '/opt/venv/bin/python'
NOTE = {}
exec(open(V + '/tools/notes.py').read()) if os.path.exists(V + '/tools/notes.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/contracts/%s.py' % (V, i.lower())) and os.path.exists('%s/concrete/%s.py' % (V, i.lower())):
        checks.append({
            'property': i, 'quick_cmd': 'VERIF_TIER=quick %s check.py %s' % (PYX, i),
            'thorough_cmd': 'VERIF_TIER=thorough %s check.py %s' % (PYX, i),
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the translated sources (pyvc; z3, cvc5)',
            'level': 'proof',
            'level_note': NOTE.get(i, 'Sidecar contracts on the real functions, every obligation discharged for all inputs; floats treated as '
            'reals; numpy and other libraries by contract; a bounded counterexample search runs beside the proof.')})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
