#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and contracts/properties.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
cfg = json.load(open(os.path.join(here, 'contracts/properties.json')))
na = json.load(open(os.path.join(here, 'tools/not_applicable.json')))
checks, nots = [], []
for p in props:
    i = p['id']
    c = cfg.get(i)
    if c is None:
        nots.append({'property': i, 'reason': na.get(i, 'Not brought under contract.')})
        continue
    bounded = c.get('bounded', [])
    note = ('Every obligation generated from the current source of ' + ', '.join(c['roots']) + ' and of the functions they call is discharged by an SMT solver. ') if c['roots'] else ''
    if c.get('internal'):
        note += 'Proved for every input: the contracts of ' + ', '.join(c['internal']) + ', which compute the parts this property speaks about. '
    note += 'Assumes mathematical integers, no aliasing between distinct parameters, deterministic external functions, goroutines in program order; termination is not proved. '
    if bounded:
        note += 'Bounded, by execution on generated inputs only and not counted as proved: ' + ', '.join(bounded) + '. '
    if c.get('bounded_clauses'):
        note += 'Bounded clauses, checked on generated inputs only and not counted as proved: ' + c['bounded_clauses'] + '. '
    for a in c.get('assumptions', []):
        note += a.rstrip('.') + '. '
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contracts on the real Go functions, verification conditions generated from the current source, discharged by z3/cvc5',
                   'level': 'proof' if c['roots'] else 'exploration', 'level_note': note.strip()})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif with an overlay that adds the contract files; /repo itself carries no hooks', 'source_commits': []},
     'checks': checks, 'not_applicable': nots,
     'notes': 'check.sh builds govc (stdlib-only Go) and verifies /repo\'s current source; contracts are in contracts/, the property to contract table in contracts/properties.json.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(nots), 'not applicable')
