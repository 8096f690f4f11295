"""writes MANIFEST.json from properties.jsonl, contracts_meta and the contract modules present"""
import json, os, sys
sys.path.insert(0, '/verif')
import contracts_meta as meta
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists('/verif/contracts/%s.py' % i.lower()):
        na.append({'property': i, 'reason': 'contracts not written yet'})
        continue
    m = meta.META.get(i, {})
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification (obligations generated from /repo\'s bytecode, discharged by z3)',
                   'level': m.get('level', 'proof'),
                   'level_note': m.get('note', 'Contracts on the real functions, every obligation discharged for all inputs and iterations.') +
                   ' Trusted: the VC generator, javac, z3, the JDK contracts in vc/lib.py and models/. The harness on the real classes is a bounded cross-check, never counted as proved.'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': na, 'notes': 'see DESIGN.md'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), [x['property'] for x in na])
