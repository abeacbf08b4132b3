#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props
R = os.path.dirname(H)
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique=P.get('technique', 'path-sensitive abstract interpretation of the LLVM IR against a rule automaton'),
                           level=P.get('level', 'proof'), level_note=P.get('note', P['rule'])))
    else:
        na.append(dict(property=i, reason=props.NA[i]))
m = dict(version=1, setup_cmd='make -C gsa setup', checks=checks, not_applicable=na,
         notes='No hooks: the analyser reads the unchanged sources. All analyses are static; see DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
