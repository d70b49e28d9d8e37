#!/usr/bin/env python3
"""Runs the check of one property: builds its monitored drivers from /repo's current tree, runs them in
shards, judges what the monitors reported, writes the evidence file and prints the verdict."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
INC = ['-I'+REPO, '-I'+HERE+'/harness', '-I/usr/include/opencv4', '-I/usr/include/eigen3']
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']

# variant: (compiler, flags)
VARIANTS = {
	'asan':   ('g++', SAN),
	'o3':     ('g++', ['-O3', '-DNDEBUG']),
	'ld':     ('g++', SAN + ['-DHOMOG2D_INUMTYPE=long double']),
	'clang':  ('clang++', ['-O2', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
	'speed':  ('g++', SAN + ['-DHOMOG2D_OPTIMIZE_SPEED']),
	'vrtp':   ('g++', SAN + ['-DHOMOG2D_ENABLE_VRTP']),
	'prtp':   ('g++', SAN + ['-DHOMOG2D_ENABLE_PRTP']),
	'bg':     ('g++', SAN + ['-DHOMOG2D_USE_BOOSTGEOM']),
	'tsan':   ('g++', ['-O1', '-g1', '-fsanitize=thread', '-pthread']),
	'val':    ('g++', ['-O1', '-g1']),
}
from checks import CHECKS   # id -> dict( runs=[(driver, variant, scale_quick, scale_thorough)], thorough_extra=[...], libs, rule )

def log(*a): print(*a, file=sys.stderr, flush=True)

def compile_one(driver, variant, flags, libs, out):
	cxx, vf = VARIANTS[variant.split('+')[0]]   # 'variant+FLAGS' tells apart runs that differ by their flags only
	cmd = [cxx, '-std=c++17', *vf, *flags, *INC, f'{HERE}/harness/{driver}.cpp', '-o', out, *libs]
	p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
	return p.returncode, p.stdout, ' '.join(cmd)

def sanitizer_kind(text):
	m = re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+(?: [\w-]+)?)', text)
	if m:
		return m.group(1)+':'+m.group(2).strip().replace(' ', '-')
	m = re.search(r'runtime error: ([^\n]*)', text)
	if m:
		return 'UBSan:'+re.sub(r'[^A-Za-z]+', '-', m.group(1))[:60].strip('-')
	m = re.search(r"Assertion .([^\n]{0,80})", text)
	if m:
		return 'assertion'
	if 'terminate called' in text: return 'terminate'
	if 'MON-WATCHDOG' in text: return 'watchdog'
	return 'abnormal-exit'

def run_shard(binp, driver, variant, seed, scale, shard, nsh, tmp, deadline, watchdog, sections=None):
	"""Run one shard; a crash is recorded and the shard is restarted without the crashing section."""
	res = []; skip = []; crashes = []
	while True:
		tag = f'{driver}_{variant}_{shard}_{len(skip)}'
		out, hsh, prg, err = (f'{tmp}/{tag}.{e}' for e in ('json', 'hash', 'prog', 'err'))
		cmd = [binp, '--seed', str(seed), '--scale', str(scale), '--shard', f'{shard}/{nsh}', '--out', out,
			'--hashes', hsh, '--progress', prg, '--watchdog', str(watchdog)]
		if sections: cmd += ['--section', sections]
		if skip: cmd += ['--skip', ','.join(skip)]
		env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1',
			UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=0:exitcode=66:second_deadlock_stack=1', VERIF_SCRATCH=tmp)
		left = max(5, deadline-time.time())
		with open(err, 'wb') as ef:
			try:
				rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=env, timeout=left, cwd=tmp).returncode
			except subprocess.TimeoutExpired:
				rc = 'timeout'
		if rc in (0, 3) and os.path.exists(out):
			res.append((out, hsh)); break
		text = open(err, errors='replace').read()
		if os.path.exists(out) and rc in (66, 23, 1) :  # leak or race report after a complete run
			res.append((out, hsh))
			crashes.append(dict(section='(exit)', case=-1, input='', kind=sanitizer_kind(text), text=text[-6000:], driver=driver, variant=variant))
			break
		sec, idx, inp = '?', -1, ''
		try:
			raw = open(prg, 'rb').read()
			sec = raw[:128].split(b'\0')[0].decode(); idx = struct.unpack('Q', raw[128:136])[0]
			inp = raw[136:].split(b'\0')[0].decode(errors='replace')
		except Exception: pass
		if rc == 'timeout':
			crashes.append(dict(section=sec, case=idx, input=inp, kind='budget-exceeded', text='', driver=driver, variant=variant)); break
		k = re.search(r'(ERROR: |runtime error|Assertion|terminate called)', text)
		at = max(0, k.start()-200) if k else max(0, len(text)-6000)
		crashes.append(dict(section=sec, case=idx, input=inp, kind=sanitizer_kind(text), text=text[at:at+6000], driver=driver, variant=variant, rc=rc))
		if sec in skip or sec in ('?', ''): break
		skip.append(sec)
	return res, crashes

def load_known():
	known, fn = [], HERE+'/known_findings.jsonl'
	for l in open(fn):
		l = l.strip()
		if l and not l.startswith('#') and not l.startswith('fixed:'):
			known.append(json.loads(l))
	return known

def main():
	pid = sys.argv[1]
	chk = CHECKS[pid]
	tier = os.environ.get('VERIF_TIER', 'quick')
	if tier not in ('quick', 'thorough'): tier = 'quick'
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	t0 = time.time()
	budget = 780 if tier == 'quick' else 6*3600
	deadline = t0 + budget
	bdir = f'{HERE}/build'; os.makedirs(bdir, exist_ok=True)
	tmp = tempfile.mkdtemp(prefix=pid+'_', dir=bdir)
	os.makedirs(f'{HERE}/evidence', exist_ok=True); os.makedirs(f'{HERE}/replay', exist_ok=True)
	try:
		return check(pid, chk, tier, seed, t0, deadline, tmp)
	finally:
		shutil.rmtree(tmp, ignore_errors=True)

def check(pid, chk, tier, seed, t0, deadline, tmp):
	runs = list(chk['runs']) + (list(chk.get('thorough_extra', [])) if tier == 'thorough' else [])
	viol = []   # dict(key, section, case, input, detail, driver, variant)
	bins = {}
	def comp(r):
		d, v = r['driver'], r['variant']
		out = f'{tmp}/{d}_{v}'
		return (d, v), out, *compile_one(d, v, r.get('flags', []), r.get('libs', chk.get('libs', [])), out)
	todo = {}
	for r in runs: todo.setdefault((r['driver'], r['variant']), r)
	with ThreadPoolExecutor(8) as ex:
		for key, out, rc, txt, cmd in ex.map(comp, todo.values()):
			if rc == 0: bins[key] = out; continue
			# the driver does not build: an API this property needs is gone, or the header is broken altogether
			probe = f'{tmp}/probe.cpp'
			open(probe, 'w').write('#include "homog2d.hpp"\nint main(){ h2d::Point2d p(1,2); return p.getX()>5; }\n')
			prc = subprocess.run(['g++', '-std=c++17', *INC, '-fsyntax-only', probe], capture_output=True).returncode
			if prc != 0 or 'homog2d' not in txt:
				log(txt[-3000:]); log(f'ERROR: cannot build {key}'); return 2
			errs = [l for l in txt.splitlines() if 'error' in l][:5]
			viol.append(dict(key=f'compile/{key[0]}_{key[1]}', section='compile', case=-1, input=cmd, detail='\n'.join(errs), driver=key[0], variant=key[1]))
	log(f'[{pid}] built {len(bins)} drivers in {time.time()-t0:.1f} s')
	jobs = []
	for r in runs:
		k = (r['driver'], r['variant'])
		if k not in bins: continue
		sc = r.get('scale', 1) * (chk.get('tscale', 8) if tier == 'thorough' else 1)
		nsh = r.get('shards', 8)
		wd = r.get('watchdog', 60)
		sd = seed + 7919*runs.index(r)   # every configuration explores inputs of its own
		for s in range(nsh): jobs.append((bins[k], k[0], k[1], sd, sc, s, nsh, wd, r.get('sections')))
	tot = dict(cases={}, nontrivial={}, oracles={}, classes={}, skipped={})
	samples, hashes, crashes = [], set(), []
	perrun = {}
	with ThreadPoolExecutor(chk.get('parallel', 8)) as ex:
		fut = [(j, ex.submit(run_shard, j[0], j[1], j[2], j[3], j[4], j[5], j[6], tmp, deadline, j[7], j[8])) for j in jobs]
		outs = [(j, f.result()) for j, f in fut]
	for j, (res, cr) in outs:
		crashes += [dict(c, seed=j[3]) for c in cr]
		for out, hsh in res:
			d = json.load(open(out))
			for nm in tot:
				for a, b in d[nm].items(): tot[nm][a] = tot[nm].get(a, 0)+b
			perrun[f'{j[1]}/{j[2]}'] = perrun.get(f'{j[1]}/{j[2]}', 0) + sum(d['cases'].values())
			if len(samples) < 40: samples += [s for s in d['samples'] if not any(s.split(':')[0] == t.split(':')[0] for t in samples)]
			raw = open(hsh, 'rb').read(); hashes.update(struct.unpack(f'{len(raw)//8}Q', raw))
			for v in d['violations']: viol.append(dict(v, driver=j[1], variant=j[2], seed=j[3]))
	for c in crashes:
		viol.append(dict(key=f'crash:{c["section"]}/{c["kind"]}', section=c['section'], case=c['case'], input=c['input'],
			detail=c['text'], driver=c['driver'], variant=c['variant'], seed=c['seed']))
	known = [k for k in load_known() if k['property'] == pid]
	hit, fresh = {}, []
	for v in viol:
		for k in known:
			if re.fullmatch(k['key'], v['key']) and re.search(k.get('input', ''), v['input'], re.S) and re.search(k.get('detail', ''), v.get('detail', ''), re.S):
				hit.setdefault(k['what'], v); break
		else: fresh.append(v)
	for w in hit: print(f'KNOWN-FINDING: property={pid} {w}')
	rc = 0
	if fresh:
		rc = 1
		bykey = {}
		for v in fresh: bykey.setdefault(v['key'], v)
		path = f'replay/{pid}.json'
		with open(f'{HERE}/{path}', 'w') as f:
			json.dump(dict(property=pid, seed=seed, tier=tier, violations=list(bykey.values()),
				howto=f'python3 replay.py {path}  (rebuilds the driver from /repo and reruns the failing case)'), f, indent=1)
		for v in list(bykey.values())[:12]:
			print(f'  {v["driver"]}/{v["variant"]} {v["key"]} case {v["case"]}\n    input: {v["input"][:600]}\n    detail: {v.get("detail","")[:1500]}')
		if len(bykey) > 12: print(f'  ... and {len(bykey)-12} more kinds')
		print(f'VIOLATION property={pid} replay={path}')
	ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time()-t0, 2), violations=len(fresh),
		assumptions=chk.get('assumptions', []) + ['the reference geometry in harness/ref.hpp and the per-property oracles are correct', 'tolerances and skipped near-degenerate cases are as counted in coverage.skipped'],
		coverage=dict(evaluations=sum(tot['cases'].values()), distinct_nontrivial=len(hashes), rule=chk['rule'],
			samples=samples[:40], oracle_evaluations=sum(tot['oracles'].values()), oracles={k: tot['oracles'][k] for k in sorted(tot['oracles'])},
			cases_per_section=tot['cases'], nontrivial_per_section=tot['nontrivial'], classes=tot['classes'], skipped=tot['skipped'],
			runs=perrun, known_findings_seen=sorted(hit)))
	with open(f'{HERE}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
	print(f'{pid}: {"VIOLATED" if rc else "held"}: {ev["coverage"]["evaluations"]} cases, {len(hashes)} distinct non-trivial, {ev["coverage"]["oracle_evaluations"]} oracle evaluations, {ev["wall_s"]} s')
	# vacuity guard: monitors that observed nothing decide nothing
	if rc == 0 and (len(hashes) == 0 or not tot['oracles']):
		log('ERROR: no oracle was evaluated'); return 2
	return rc

if __name__ == '__main__':
	sys.exit(main())
