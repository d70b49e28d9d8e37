#!/usr/bin/env python3
"""replay.py replay/<ID>.json [n]: rebuilds the driver of violation n (default: the first that names a case) and reruns that case."""
import json, subprocess, sys, tempfile, shutil, os
import run_check as rc
from checks import CHECKS
d = json.load(open(sys.argv[1])); vs = d['violations']
v = vs[int(sys.argv[2])] if len(sys.argv) > 2 else next((x for x in vs if x['case'] >= 0), vs[0])
print('replaying', v['key'], 'case', v['case'], 'of', v['driver'], v['variant'])
os.makedirs(rc.HERE+'/build', exist_ok=True)
tmp = tempfile.mkdtemp(prefix='replay_', dir=rc.HERE+'/build')
try:
	r = next(r for r in CHECKS[d['property']]['runs']+CHECKS[d['property']].get('thorough_extra', []) if (r['driver'], r['variant']) == (v['driver'], v['variant']))
	c, txt, cmd = rc.compile_one(v['driver'], v['variant'], r.get('flags', []), r.get('libs', CHECKS[d['property']].get('libs', [])), tmp+'/d')
	if c: print(txt); sys.exit(1)
	if v['case'] < 0: print(v['detail']); sys.exit(1)
	sys.exit(subprocess.run([tmp+'/d', '--seed', str(v['seed']), '--section', v['section'], '--case', str(v['case']), '-v'], cwd=tmp, env=dict(os.environ, VERIF_SCRATCH=tmp)).returncode)
finally:
	shutil.rmtree(tmp)
