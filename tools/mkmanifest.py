#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and levels.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(H, 'tools', 'levels.json')))
checks = []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    l = lv.get(p['id'], {})
    checks.append(dict(property=p['id'], quick_cmd='python3-vt /verif/check.py ' + p['id'],
                       thorough_cmd='python3-vt /verif/check.py ' + p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique='contract-based deductive verification: verification conditions generated from the current source, '
                                 'discharged by canonical forms, z3 and cvc5; contracts also evaluated on the real code for replay',
                       level=l.get('level', 'exploration'), level_note=l.get('note', 'Contracts evaluated on the real code on bounded inputs only.')))
m = dict(version=1, setup_cmd='python3-vt /verif/tools/setup.py', checks=checks, not_applicable=[],
         notes='No hooks are used: the checks copy /repo to a scratch directory, rebuild the extensions there and import the real code.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
