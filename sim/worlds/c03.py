# coding: utf-8
"""C03: running generated C gives the outputs of this very realization, or an error.

Simulated: several processes, each with one or two threads, that generate, compile (real cc behind a shim), load and run
realizations in the same directory, one at a time between yield points (every file-system access, program start and dlopen);
processes are killed there; the compiler and the disk fail there; stale artefacts lie in the directory.  Reference: an
independent double-precision simulation of the matrices that the realization has at that moment.
"""
import errno
import os
import random
import shutil
import stat
import subprocess

import numpy as np

from sim import gen as G, procs
from sim.core import Violation
from sim.env import setup

PROP = 'C03'
PRIVATE = True          # every worker process has its own source root (the generated code goes in it)
RUNS = {'quick': 1000, 'thorough': 20000}
BUDGET = {'quick': 150, 'thorough': 1800}
CPU_LIMIT = 120
RULE = ("One run: 1 to 3 simulated processes (1 or 2 threads each), each with 1 to 3 realizations and 2 to 7 jobs (run, update then run, quantize then run, wrong input), "
	"interleaved by the seed at every file-system access, program start and library loading, with faults and kills at drawn yield points and stale artefacts in the directory.")
TIME_UNIT = "the simulated steps are the scheduling points of the simulated processes"
STATE_MEASURE = "abstract states (yield point, job, number of processes, fault, outcome)"
REAL = ["fixif.SIF.Realization (implementCdouble, makeCdouble, runCdouble), fixif.SoP, the template", "cc, the linker and dlopen", "the file system of the sandbox (scratch directory)", "processes and threads"]
STUBS = ["a shim before cc on the PATH (makes the compiler fail)", "fixif.WCPG, fixif.FxP"]
SHRINK_LISTS = ('faults', 'artefacts', 'procs')
SHRINK_BUDGET = 90

SHIM = """#!/bin/sh
mode=ok
if [ -f "$SIM_CC_PLAN" ]; then mode=$(cat "$SIM_CC_PLAN"); rm -f "$SIM_CC_PLAN"; fi
out=
prev=
for a in "$@"; do
	[ "$prev" = "-o" ] && out="$a"
	prev="$a"
done
case "$mode" in
	fail) echo "error: injected" >&2; exit 1;;
	partial) @CC@ "$@"; head -c 700 "$out" > "$out.t"; mv "$out.t" "$out"; echo "injected" >&2; exit 1;;
	full-fail) @CC@ "$@"; echo "injected" >&2; exit 4;;
	killed) head -c 300 /dev/zero > "$out"; kill -9 $$;;
	killed-late) @CC@ "$@"; kill -9 $$;;
	ok-missing) exit 0;;
	ok-empty) : > "$out"; exit 0;;
	ok-garbage) echo "not a library" > "$out"; exit 0;;
	warn) @CC@ "$@"; r=$?; printf 'warning: injected \\351\\n' >&2; exit $r;;
	*) exec @CC@ "$@";;
esac
"""
CC_MODES = ['fail', 'partial', 'full-fail', 'killed', 'killed-late', 'ok-missing', 'ok-empty', 'ok-garbage', 'warn', 'nocc', 'ldfull']
_env = {}


def prepare():
	"""in the parent process: the shim, and a library of another realization used as a stale artefact"""
	lib = setup()
	d = os.path.join(lib.root, 'bin')
	os.makedirs(d, exist_ok=True)
	real = shutil.which('cc')
	with open(os.path.join(d, 'cc'), 'w') as f:
		f.write(SHIM.replace('@CC@', real))
	os.chmod(os.path.join(d, 'cc'), 0o755)
	for n in ('gcc', 'clang', 'c99'):
		os.symlink('cc', os.path.join(d, n))
	src = os.path.join(d, 'decoy.c')
	with open(src, 'w') as f:
		f.write("double implementCdouble(double u, double *x) { (void)u; (void)x; return 12345.; }\n")
	subprocess.run([real, '-fPIC', '-shared', '-o', os.path.join(d, 'decoy.so'), src], check=True)
	_env.update(bin=d, cc=real, decoy=os.path.join(d, 'decoy.so'), src=src)


def gen_real(rng):
	siso = rng.random() < 0.5
	return {'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 2, 3]), 'n': rng.randint(1, 4), 'p': 1 if siso else rng.randint(1, 3),
		'q': 1 if siso else rng.randint(1, 3), 'sparse': rng.random() < 0.3, 'near': 0}


def gen(rng, index, tier):
	ps = []
	twins = rng.random() < 0.5
	near = rng.random() < 0.3
	base = gen_real(rng)
	if rng.random() < 0.03:
		base.update(l=rng.choice([0, 1]), n=rng.randint(32, 40), p=1, q=1)
	for _ in range(rng.choice([1, 1, 2, 2, 3])):
		# realizations of the same size are the easiest to mix up, above all when their coefficients are almost the same
		if twins and near:
			reals = [dict(base, near=k) for k in range(rng.randint(1, 3))]
		else:
			reals = [dict(base, seed=rng.randrange(10 ** 6)) if twins else gen_real(rng) for _ in range(rng.randint(1, 3))]
		ths = []
		for _t in range(1 if rng.random() < 0.75 else 2):
			jobs = []
			for _j in range(rng.randint(2, 6)):
				k = rng.choices(['run', 'set', 'quantize', 'badshape', 'make', 'copyrun', 'badvalue'], [8, 3, 2, 1, 1, 1, 1])[0]
				jobs.append({'job': k, 'r': rng.randrange(4), 'seed': rng.randrange(10 ** 6), 'N': rng.choice([1, 2, 5, 12]), 'form': rng.choice(['matrix', 'array', 'list', 'fortran', 'int', 'slice']),
					'name': rng.choice('KLMNPQRSZ'), 'w': rng.choice([8, 12, 20])})
			ths.append(jobs)
		ps.append({'reals': reals, 'threads': ths})
	faults = []
	for _ in range(rng.choices([0, 1, 2, 4], [3, 4, 3, 2])[0]):
		at = rng.choice(['open-write', 'subprocess.Popen', 'subprocess.Popen', 'subprocess.Popen', 'ctypes.dlopen', 'tempfile.mkdtemp', 'os.mkdir', 'any', 'shutil.rmtree', 'os.remove'])
		nth = rng.randint(0, 5)
		x = rng.random()
		if x < 0.2:
			f = {'kind': 'kill'}
		elif at == 'subprocess.Popen' and x < 0.9:
			m = rng.choice(CC_MODES)
			f = {'kind': 'nocc'} if m == 'nocc' else {'kind': 'fsize', 'size': rng.choice([0, 100, 3000, 9000])} if m == 'ldfull' else {'kind': 'cc', 'mode': m}
		elif at == 'open-write' and x < 0.6:
			f = {'kind': 'fsize', 'size': rng.choice([0, 1, 50, 200, 500, 900, 1500])}
		elif x < 0.85:
			f = {'kind': 'errno', 'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EMFILE, errno.EACCES])}
		else:
			f = {'kind': 'exc', 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		faults.append(dict(f, at=at, nth=nth))
	arts = []
	for _ in range(rng.choice([0, 0, 1, 2, 3])):
		arts.append(rng.choice(['runC.c', 'runC.so', 'runC.so-garbage', 'runC.so-dir', 'nodir', 'leftovers']))
	return {'procs': ps, 'faults': faults, 'artefacts': arts, 'sched_seed': rng.randrange(10 ** 6), 'swap': rng.choice([0.1, 0.5, 0.9])}


def simplify(sc):
	for i, p in enumerate(sc['procs']):
		def rep(**k):
			return dict(sc, procs=sc['procs'][:i] + [dict(p, **k)] + sc['procs'][i + 1:])
		if len(p['threads']) > 1:
			yield rep(threads=p['threads'][:1])
			yield rep(threads=p['threads'][1:])
		for t, jobs in enumerate(p['threads']):
			for j in range(len(jobs)):
				if len(jobs) > 1:
					yield rep(threads=p['threads'][:t] + [jobs[:j] + jobs[j + 1:]] + p['threads'][t + 1:])
		for k, r in enumerate(p['reals']):
			for key in ('l', 'n', 'p', 'q'):
				if r[key] > (key != 'l'):
					yield rep(reals=p['reals'][:k] + [dict(r, **{key: r[key] - 1})] + p['reals'][k + 1:])


def coefs(r):
	rnd = G.rs('c03', r['seed'])
	Z = G.sif(rnd, r['l'], r['n'], r['p'], r['q'], sparse=r['sparse'])
	Z = G.special(rnd, Z, near=46, tiny=60) if rnd.uniform() < 0.3 else Z
	if rnd.uniform() < 0.3:
		Z = G.rescale(rnd, Z, extreme=.15)
	if r.get('near'):
		# one coefficient is slightly different
		rnd = G.rs('c03n', r['seed'], r['near'])
		X = Z[rnd.choice([5, 6, 7, 8])]
		X[rnd.randint(0, X.shape[0]), rnd.randint(0, X.shape[1])] *= 1. + 2. ** -rnd.randint(24, 32)
	return Z


def inputs(job, q):
	r = G.rs('c03u', job['seed'])
	u = r.uniform(-2, 2, (q, job['N']))
	if job['form'] == 'int':
		u = np.round(u * 3).astype(int)
		return u, u
	if job['form'] == 'list':
		return u.tolist(), u
	if job['form'] == 'fortran':
		return np.asfortranarray(u), u
	if job['form'] == 'array':
		return u, u
	if job['form'] == 'slice':
		big = np.zeros((q, 2 * job['N']))
		big[:, ::2] = u
		return big[:, ::2], u
	return np.matrix(u), u


class Main:
	"""what a simulated process does (child side)"""
	def __init__(self, spec):
		from fixif.SIF import Realization
		# each thread has its own realizations, and some are shared (these are run by several threads, but not updated)
		def make(t):
			return [Realization(None, coefs(dict(r, seed=r['seed'] + 7919 * t)), structureName='proc') for r in spec['reals']]
		self.shared = make(0) if len(spec['threads']) > 1 else []
		self.own = [make(t + 1) for t in range(len(spec['threads']))]

	def model(self, R):
		return [np.array(X, dtype=float).tolist() for X in R.JtoS]

	def __call__(self, job):
		k = job['job']
		own = self.own[job['t']]
		pool = own if k in ('set', 'quantize') else own + self.shared
		R = pool[job['r'] % len(pool)]
		if k == 'make':
			R.makeCdouble()
			return {'made': True}
		if k == 'set':
			rnd = G.rs('c03s', job['seed'])
			name = job['name']
			new = [np.matrix(X) for X in G.sif(rnd, R.l, R.n, R.p, R.q)]
			if name in 'KPMZ':
				J, K, Lm, M, N, P, Q, Rm, S = new
				R.Z = np.vstack([np.hstack([-J, M, N]), np.hstack([K, P, Q]), np.hstack([Lm, Rm, S])])
			else:
				setattr(R, name, new['JKLMNPQRS'.index(name)])
		elif k == 'quantize':
			R = R.quantize(job['w'])
			if len(own) < 5:
				own.append(R)
		elif k == 'copyrun':
			import copy
			R = copy.deepcopy(R) if getattr(R, '_Cdouble', None) is None else R.quantize(50)
		given, u = inputs(job, R.q)
		if k == 'badshape':
			u = np.zeros((R.q + 1 + job['seed'] % 2, job['N']))
			given = u
		if k == 'badvalue':
			# a value that is not a number, somewhere
			given = np.array(u, dtype=object)
			given[job['seed'] % R.q, job['N'] - 1 - (job['seed'] // 7) % 2 * (job['N'] > 1)] = 'x'
			R.runCdouble(given)
			return {'made': True}
		keep = np.array(u)
		y = R.runCdouble(given)
		y = np.array(y, dtype=float)
		return {'y': y.tolist(), 'shape': list(y.shape), 'Z': self.model(R), 'u': u.tolist(), 'same': bool(np.array_equal(np.array(given), keep))}


def run(sc, ctx):
	lib = setup()
	code = lib.farm.code_dir
	lib.farm.clean_generated()
	for a in sc['artefacts']:
		ctx.fault('stale artefact:' + a)
		if a == 'nodir':
			if os.path.isdir(code) and not os.listdir(code):
				os.rmdir(code)
			continue
		os.makedirs(code, exist_ok=True)
		if a == 'runC.c':
			shutil.copy(_env['src'], os.path.join(code, 'runC.c'))
		elif a == 'runC.so' and not os.path.isdir(os.path.join(code, 'runC.so')):
			shutil.copy(_env['decoy'], os.path.join(code, 'runC.so'))
		elif a == 'runC.so-garbage' and not os.path.isdir(os.path.join(code, 'runC.so')):
			with open(os.path.join(code, 'runC.so'), 'wb') as f:
				f.write(b'\x7fELF garbage')
		elif a == 'runC.so-dir' and not os.path.lexists(os.path.join(code, 'runC.so')):
			os.mkdir(os.path.join(code, 'runC.so'))
		elif a == 'leftovers':
			os.makedirs(os.path.join(code, 'runC-old'), exist_ok=True)
			shutil.copy(_env['decoy'], os.path.join(code, 'runC-old', 'runC.so'))
	os.environ['SIM_CC_PLAN'] = os.path.join(lib.root, 'tmp', 'cc_plan')
	if os.path.exists(os.environ['SIM_CC_PLAN']):
		os.unlink(os.environ['SIM_CC_PLAN'])
	os.environ['PATH'] = _env['bin'] + os.pathsep + os.environ.get('PATH', '/usr/bin:/bin')
	os.environ['TMPDIR'] = os.path.join(lib.root, 'tmp')
	import tempfile
	tempfile.tempdir = None

	faults = [dict(f) for f in sc['faults']]
	procs_ = []
	try:
		_simulate(sc, ctx, faults, procs_, random.Random(sc['sched_seed']))
	finally:
		for p in procs_:
			p.stop()


def _spawn(spec, name, procs_):
	p = procs.Proc(name, spec['threads'], lambda: Main(spec))
	p.spec = spec
	p.queue = [list(jobs) for jobs in spec['threads']]
	procs_.append(p)
	for t, c in enumerate(p.chan):
		c['state'] = 'ready'
		c['t'] = t
		c['faulted'] = False
	return p


def check_result(ctx, job, m, fault_near, where):
	"""the answer of a job"""
	if 'error' in m:
		ctx.probe('jobs that raised')
		if job['job'] == 'badvalue':
			return
		if job['job'] == 'badshape':
			ctx.check(m['value'] or fault_near, 'wrong-error', lambda: "%s: inputs of the wrong size: %s instead of ValueError" % (where, m['error']))
			return
		ctx.check(fault_near, 'unexpected-error', lambda: "%s: raised %s (%s) although nothing failed" % (where, m['error'], m.get('msg')))
		return
	res = m['result']
	ctx.check(job['job'] != 'badvalue', 'bad-value-accepted', lambda: "%s: an input that is not a number is accepted" % where)
	if 'made' in res:
		return
	ctx.check(job['job'] != 'badshape', 'bad-size-accepted', lambda: "%s: inputs of the wrong size are accepted" % where)
	Z = [np.array(X, dtype=float).reshape(s) for X, s in zip(res['Z'], _shapes(res['Z']))]
	ctx.check(res['same'], 'input-modified', lambda: "%s: the inputs given have been modified" % where)
	Y, TT, X = G.sif_sim(Z, res['u'])
	y = np.array(res['y'])
	if max(float(np.abs(V).max(initial=0.)) for V in (Y, TT, X)) > 1e120:
		return              # (an assignment has made the realization unstable)
	ctx.check(tuple(res['shape']) == Y.shape and G.within(y, Y, G.rounding(Z, res['u'], TT, X)[0]), 'wrong-output',
		lambda: "%s: the outputs are not the ones of this realization\ngot      %r\nexpected %r" % (where, y, Y))
	ctx.probe('runs of compiled code compared')


def _shapes(Z):
	n = len(Z[5])
	q = len(Z[8][0])
	p = len(Z[8])
	l = len(Z[0])
	return [(l, l), (n, l), (p, l), (l, n), (l, q), (n, n), (n, q), (p, n), (p, q)]


def _simulate(sc, ctx, faults, procs_, rng):
	seen = {}
	for i, spec in enumerate(sc['procs']):
		_spawn(spec, 'p%d' % i, procs_)
	last = None
	step = 0
	restarts = 0
	while True:
		live = [c for p in procs_ for c in p.chan if c['state'] == 'yield' or (c['state'] == 'ready' and p.queue[c['t']])]
		if not live:
			break
		step += 1
		ctx.step()
		if step > 6000:
			raise Violation('no-progress', "the jobs are not finished after 6000 scheduling points")
		if last in live and rng.random() >= sc['swap']:
			c = last
		else:
			c = rng.choice(live)
		last = c
		p = c['proc']
		who = "%s/%d" % (p.name, c['t'])
		if c['state'] == 'ready':
			c['job'] = p.queue[c['t']].pop(0)
			c['faulted'] = False
			msg = {'job': dict(c['job'], t=c['t'])}
		else:
			# is there a fault for this yield point ?
			msg = {}
			for f in faults:
				if f.get('used'):
					continue
				if f['at'] == c['ev'] or f['at'] == 'any':
					if f['nth'] > 0:
						f['nth'] -= 1
						continue
					f['used'] = True
					if f['kind'] == 'kill':
						ctx.fault('process killed at ' + c['ev'])
						ctx.event('kill', who, c['ev'])
						p.kill()
						# restarted: only the files survive; its jobs that are not done are done again
						restarts += 1
						spec = dict(p.spec, threads=[([x['job']] if x.get('job') else []) + q for x, q in zip(p.chan, p.queue)])
						_spawn(spec, p.name + "'", procs_)
						msg = None
						break
					msg = {'fault': f}
					ctx.fault({'errno': 'I/O error', 'exc': f.get('exc'), 'fsize': 'full disk', 'nocc': 'compiler missing', 'cc': 'compiler:' + f.get('mode', '')}[f['kind']] + ' at ' + c['ev'])
					c['faulted'] = True
					# (its effect ends at the next yield point of this task: the other tasks do not see it)
					break
			if msg is None:
				last = None
				continue
		try:
			m = procs.resume(c, msg)
		except procs.Died as e:
			raise Violation('crash', "process %s died (wait status %d) while doing %r" % (who, e.status, c.get('job')))
		if m['ev'] == 'done':
			where = "process %s, job %r" % (who, c['job'])
			check_result(ctx, c['job'], m, c['faulted'], where)
			ctx.event('done', who, c['job']['job'], m.get('error') or G.digest(m['result'].get('y')))
			ctx.state('done', c['job']['job'], m.get('error'), len(procs_), c['faulted'])
			if 'error' in m and c['faulted'] and c['job']['job'] not in ('badshape', 'badvalue', 'set', 'quantize') and not c['job'].get('again'):
				# after a failure, a later call without fault succeeds
				p.queue[c['t']].insert(0, dict(c['job'], again=True))
			c['faulted'] = False
			c['state'] = 'ready'
			c['job'] = None
		else:
			c['state'] = 'yield'
			c['ev'] = m['ev']
			ctx.event('yield', who, m['ev'])
			ctx.state(m['ev'], c['job']['job'], len([1 for x in procs_ if x.alive]), sum(1 for x in p.chan if x['state'] == 'yield'))
	ctx.probe('restarts', restarts)
