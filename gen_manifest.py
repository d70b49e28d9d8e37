#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS, TECHNIQUES, NOTES
props = [json.loads(l) for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='python3 setup_check.py', checks=[], not_applicable=[],
	notes='No hooks in /repo: every monitor observes the public API of the real header, compiled from /repo with sanitizers.')
for p in props:
	c = CHECKS.get(p['id'])
	if not c:
		m['not_applicable'].append(dict(property=p['id'], reason='its monitors are not built yet')); continue
	m['checks'].append(dict(property=p['id'], quick_cmd=f'VERIF_TIER=quick python3 run_check.py {p["id"]}',
		thorough_cmd=f'VERIF_TIER=thorough python3 run_check.py {p["id"]}', technique=TECHNIQUES[p['id']],
		level='exploration', level_note=NOTES.get(p['id'], 'Holds on every execution observed (seeded random, boundary and directed inputs); assumes the long-double reference geometry and the stated tolerances; no claim for inputs not generated.')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
