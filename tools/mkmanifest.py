#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
PENDING = set()
checks, na = [], []
for p in props:
    i = p['id']
    if i in PENDING:
        na.append(dict(property=i, reason='its part of the specification is not written yet'))
        continue
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        technique='TLA+ specification, TLC model checking, and TLC validation of traces recorded from the library',
        level='model_checking',
        level_note='The TLA+ specification defines every allowed outcome; TLC explores the models of models.py exhaustively within their bounds and '
                   'decides for every recorded call of the real library whether the specification allows it. Calls that were not recorded are not decided. '
                   'Trusted: TLC, java.math.BigInteger behind the BigNum override (compared with its TLA+ definition), the recorder in harness/.'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: the recorder uses the public interface of the crate only. Language: TLA+ (see DESIGN.md). known_findings.txt lists repaired defects.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
