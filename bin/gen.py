#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from suite.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from suite import PROPERTIES
keys = ['id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors']
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPERTIES.values(): f.write(json.dumps({k: p[k] for k in keys}) + '\n')
checks = [dict(property=i, quick_cmd=f'python3 bin/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 bin/check.py {i}', technique='symbolic execution of the whole program (compiler MIR) with an SMT solver (z3)', level='model_checking', level_note=p['note']) for i, p in PROPERTIES.items()]
json.dump(dict(version=1, setup_cmd='python3 bin/check.py setup', checks=checks, not_applicable=[]), open(V + '/MANIFEST.json', 'w'), indent=1)
