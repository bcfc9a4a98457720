#!/usr/bin/env python3-vt
"""write MANIFEST.json from checks/registry.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('checks', 'conc', 'ortv', 'specs'): sys.path.insert(0, os.path.join(R, d))
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    c = registry.CHECKS.get(p)
    if not c or not (c.get('proofs') or c.get('oracle')) or c.get('na'):
        na.append(dict(property=p, reason=(c or {}).get('na') or 'its contracts and checks are not built yet')); continue
    tech = 'contracts on the real C functions, discharged by the ortv verifier (clang AST, Houdini invariants, Z3)' if c.get('proofs') else 'bounded stand-in'
    tech += '; bounded stand-in: %s' % c['bounded'] if c.get('bounded') and c.get('oracle') else ''
    n = len(c.get('proofs') or [])
    note = c.get('note', '')
    note = ('%d functions or groups of functions under contract, proved for all inputs: %s. ' % (n, ', '.join(c['proofs'])) if n else '') + note
    checks.append(dict(property=p, quick_cmd='./run.py %s --tier quick' % p, thorough_cmd='./run.py %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p, technique=tech, level=c.get('level', 'proof' if n else 'exploration'), level_note=note or 'see DESIGN.md'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='A check proves contracts of functions of /repo (extracted mechanically from the current tree) and runs a labelled bounded stand-in on the built tools for the rest of the property; see DESIGN.md. Nothing in /repo is guarded: no hooks are needed.')
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
