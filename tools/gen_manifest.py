"""Writes MANIFEST.json from the table below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
HOOK = ['b5b5dcd', 'c8a4939']
NA = {
 'C25': 'No contract within reach states it: panic freedom of the whole parser and evaluator needs every function under contract, and most of them use closures over &mut, trait objects, Rc graphs and regular expressions which Verus does not accept. The panics which belong to other properties (indexing, arithmetic, slicing at byte positions) are obligations of C01, C03, C12, C14, C16, C21 and C23.',
 'C26': 'No contract within reach decides it: termination of the mutually recursive parser and evaluator would need decreases clauses on functions which Verus does not accept; loops which are under contract for other properties have decreases clauses there.',
}
# id -> (technique, note)
CLAIMED = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'proof', 'level_note': note})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'Its check is not built yet.')} for p in props if p['id'] not in CLAIMED]
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'papyri_verif', 'enable': 'RUSTFLAGS="--cfg papyri_verif" when the replay crate is built (check.py does this)', 'source_commits': HOOK},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check runs check.py: extraction of the contracted functions from /repo/src, Verus on all obligations, a vacuity run, and a bounded search for a failing input on the compiled code. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
