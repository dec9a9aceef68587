#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and sa/table.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(H, 'sa'))
import table
NA = {
    'N01': 'round-trip equality quantifies over whole message histories and the values of Huffman-coded bits and table contents; no sound static argument in reach bounds them for these codecs (C06, C09, C10, C13, C14, C19 decide the structural parts of it)',
    'N02': 'optimality of the code produced by the package-merge and tree-building algorithms is a numeric property of run-time tables; deciding it needs execution or an algorithm proof, not dataflow or lint rules (C17 decides what the tables and end-of-string handling must satisfy)',
    'N03': 'bit-for-bit read-back depends on shifts and masks over unbounded positions and widths; proving it is a solver or proof-assistant task, outside static analysis as studied here (C16 decides widths, bounds checks and resets)',
    'N04': 'processor time is not visible in the source; only where it is sampled is, and that does not establish the claim',
    'N05': 'memory use of the interpreter at run time cannot be bounded from the source; the byte accounting the codecs promise is C08, C11 and C15',
}
checks = []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    if p['id'] in NA:
        continue
    import rules
    tech, level, note = rules.describe(p['id'])
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                   'technique': tech, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
