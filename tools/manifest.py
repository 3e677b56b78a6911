#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=[], not_applicable=[])
for i in ids:
    if i not in props.PROPS:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
        continue
    P = props.PROPS[i]
    m['checks'].append(dict(
        property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
        technique=P.get('technique', 'TLA+ specification checked with TLC; traces recorded from the library validated against it by TLC'),
        level='model_checking', level_note=P['note']))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
