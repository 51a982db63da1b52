"""Write MANIFEST.json from fw/props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, os.path.join(V, 'fw'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'property-based testing: structured random generation with shrinking against an error-tracking reference model, over every API form and build configuration; libFuzzer-guided search over the same choice tapes in the thorough tier'
ch = []; na = []
for i in ids:
    if i in props.P:
        P = props.P[i]
        ch.append({'property': i, 'quick_cmd': 'python3 fw/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 fw/check.py %s --tier thorough' % i,
                   'technique': P.get('technique', TECH), 'level': 'exploration', 'level_note': P.get('note', 'Searches generated inputs; no exhaustive claim. Comparisons allow rounding error derived from the reference computation, and skip inputs where overflow or a decision boundary leaves the answer open.')})
    else: na.append({'property': i, 'reason': 'not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 fw/setup.py', 'checks': ch, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ch), 'checks', len(na), 'not applicable')
