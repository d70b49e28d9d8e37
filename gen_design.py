#!/usr/bin/env python3
"""Refreshes the generated part of DESIGN.md: the table of seeded bugs (from seeded/*/meta.json) and the list of repairs."""
import glob, json, os, re
s = open('DESIGN.md').read()
rows = []
for d in sorted(glob.glob('seeded/*/')):
    m = json.load(open(d+'meta.json')); rows.append(f"| {d.split('/')[1]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
tab = '| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows)
fx = '\n'.join('- '+l[7:].strip().replace('property=', '') for l in open('known_findings.jsonl') if l.startswith('fixed:'))
for name, body in (('seeded', tab), ('fixes', fx)):
    s = re.sub(f'(<!-- {name} -->\n).*?(\n<!-- /{name} -->)', lambda m: m.group(1)+body+m.group(2), s, flags=re.S)
open('DESIGN.md', 'w').write(s)
