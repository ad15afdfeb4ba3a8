#!/usr/bin/env python3
"""Record a repaired defect: fixed.py PROPERTY COMMIT TEXT."""
import json
import os
import sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
with open(P, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
