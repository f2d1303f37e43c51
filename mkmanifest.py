#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(here, 'techniques.json')))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    if not l.strip(): continue
    i = json.loads(l)['id']
    t = T.get(i)
    if t is None: na.append({'property': i, 'reason': 'check under construction'}); continue
    if 'reason' in t: na.append({'property': i, 'reason': t['reason']}); continue
    checks.append({'property': i, 'quick_cmd': f'./run.sh {i} quick', 'thorough_cmd': f'./run.sh {i} thorough', 'evidence_file': f'evidence/{i}.json', 'technique': t['technique'], 'level': 'exploration', 'level_note': t['note']})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
