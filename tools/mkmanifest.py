"""Write MANIFEST.json and check properties.jsonl against props.py."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks = []
for pid in ids:
    if pid not in props.PROPS:
        continue
    s = props.PROPS[pid]
    th = []
    for m in s.get('modules', []):
        for v in os.listdir(os.path.join(HERE, 'contracts')):
            for t in re.findall(r'proof fn (%s_\w+)' % pid, open(os.path.join(HERE, 'contracts', v)).read()):
                if t not in th:
                    th.append(t)
    c = {'property': pid, 'quick_cmd': 'python3 tools/check.py %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s' % pid,
         'evidence_file': 'evidence/%s.json' % pid, 'technique': s.get('technique', 'contract-based deductive verification (Verus/Z3) of functions extracted from the sources; harness over the real code for witnesses'),
         'level': s.get('level', 'proof'), 'level_note': s['note']}
    if th:
        c['theorems'] = sorted(th)
    checks.append(c)
na = [{'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'contracts for this part are not written yet')} for i in ids if i not in props.PROPS]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo carries only fix: commits. tools/check.py extracts the functions from /repo/src on every run.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
extra = set(props.PROPS) - set(ids)
print(len(checks), 'claimed', len(na), 'not claimed', 'MISSING in properties.jsonl:' if extra else '', sorted(extra) or '')
