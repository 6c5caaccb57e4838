# coding: utf-8
"""C12: generated algorithms and code depend on the realization only.

Simulated: one process holding several realizations; a history of generations (text, LaTeX, C, all options), with a simulated
clock that jumps between and during the generations, generations aborted at any line or by a failing template or clock, and
other operations in between.  Reference: the same generation done alone in a pristine process (forked before anything ran, or
a new interpreter with another hash seed), and an independent interpreter of the generated text.
"""
import ctypes
import datetime
import json
import os
import pickle
import re
import struct
import subprocess
import sys
import tempfile

import numpy as np

from sim import gen as G, faults, algo, clock as simclock
from sim.core import Violation
from sim.env import setup

PROP = 'C12'
RUNS = {'quick': 700, 'thorough': 20000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 4 realizations (random SIF, structured realization of a filter, quantized copy), then 6 to 30 operations: generation of text, LaTeX or C with drawn options, clock jumps, updates of coefficients, simulations, aborted generations."
TIME_UNIT = "the clock is simulated (starts between 1971 and 2099, jumps of up to years, in both directions); simulated steps are the sampling periods executed by the interpreter of the generated text"
STATE_MEASURE = "abstract states (kind and dimensions of the realization, generation, options, what was generated before)"
REAL = ["fixif.SIF.Realization, Realization_algorithms, Realization_implementation, templates", "fixif.SoP", "jinja2, latex, pylatexenc", "fixif.Structures"]
STUBS = ["the clock (datetime and time)", "fixif.WCPG, fixif.FxP"]

DATE = re.compile(r'\d{4}[-/]\d\d[-/]\d\d(?:[T\s-]+)\d\d:\d\d:\d\d(?:\.\d+)?')
NAMES = ['noname', 'a_b', 'x%y', 'é à', 'F&G #1', 'RandomFilter-3/1/1-42', '2026/01/02', '$x$', 'tab\tname']
FORMATS = [None, None, None, '%.17g', '%.30e', '%4.2f']
STRUCTS = ['State-Space', 'Direct Form I', 'Direct Form II', 'rho Direct Form II']


def gen(rng, index, tier):
	reals = []
	for _ in range(rng.randint(1, 3)):
		kind = rng.choice(['sif', 'sif', 'struct', 'struct', 'quant'])
		siso = kind == 'struct' or rng.random() < 0.4
		reals.append({'kind': kind, 'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 1, 2, 3]), 'n': rng.randint(1, 4), 'p': 1 if siso else rng.randint(1, 3),
			'q': 1 if siso else rng.randint(1, 3), 'sparse': rng.random() < 0.5, 'short': rng.random() < 0.4, 'pnut': rng.choice(['upper', 'full', 'any', 'lower']),
			'name': rng.choice(NAMES), 'pick': rng.randrange(1000), 'zeroR': rng.random() < 0.3})
	ops = []
	for _ in range(rng.randint(6, 30)):
		k = rng.choices(['gen', 'clock', 'set', 'other', 'quant'], [10, 3, 1.5, 2, 0.5])[0]
		op = {'op': k, 'r': rng.randrange(4)}
		if k == 'gen':
			op.update(method=rng.choices(['txt', 'latex', 'c'], [4, 3, 3])[0], fmt=rng.choice(FORMATS), time=rng.random() < 0.5, surname=rng.random() < 0.3,
				comments=rng.random() < 0.7, name=rng.choice(['f', 'step', 'implementCdouble']), label=rng.choice([None, 'lab']), caption=rng.choice([None, 'cap']), fault=None)
			x = rng.random()
			if x < 0.2:
				op['fault'] = {'kind': 'line', 'k': int(2 ** rng.uniform(0, 9)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
			elif x < 0.26:
				op['fault'] = {'kind': 'template', 'errno': rng.choice(['ENOENT', 'EMFILE', 'EIO'])}
			elif x < 0.30:
				op['fault'] = {'kind': 'clock'}
		elif k == 'clock':
			op.update(dt=rng.choice([1, -1]) * 10 ** rng.uniform(-6, 9), tick=rng.choice([0, 0, 0, 1e-6, 1, 86400, -3600]))
		elif k in ('set',):
			op.update(name=rng.choice(['K', 'M', 'N', 'Q', 'R', 'S', 'L']), seed=rng.randrange(10 ** 6))
		elif k == 'quant':
			op.update(w=rng.choice([4, 8, 20]))
		else:
			op.update(what=rng.choice(['simulate', 'str', 'exact', 'msb', 'tf']))
		ops.append(op)
	return {'reals': reals, 'ops': ops, 'start': [rng.randint(1971, 2099), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, rng.randrange(10 ** 6)])],
		'newproc': rng.random() < 0.025, 'compile': rng.random() < 0.25}


def simplify(sc):
	if sc.get('newproc'):
		yield dict(sc, newproc=False)
	for i, r in enumerate(sc['reals']):
		for k in ('l', 'n', 'p', 'q'):
			if r[k] > (k != 'l'):
				yield dict(sc, reals=sc['reals'][:i] + [dict(r, **{k: r[k] - 1})] + sc['reals'][i + 1:])


SHRINK_LISTS = ('ops', 'reals')


# ---------------------------------------------------------------- realizations (also executed in the reference processes)

def coefs(r):
	Z = G.sif(G.rs('c12', r['seed']), r['l'], r['n'], r['p'], r['q'], pnut='upper' if r['pnut'] in ('upper', 'lower') else r['pnut'], sparse=r['sparse'], zeroR=r['zeroR'])
	if r['pnut'] == 'lower':
		Z[5] = Z[5].T.copy()
		m = max(abs(np.linalg.eigvals(G.sif_ss(Z)[0])))
		if m > 0.9:
			Z[1], Z[5] = Z[1] * (0.9 / m), Z[5] * (0.9 / m)
	if r['short']:
		Z = [np.matrix(np.round(np.asarray(X) * 2) / 2 + 0.) if i not in (1, 5) else np.matrix(np.round(np.asarray(X) * 4) / 4 + 0.) for i, X in enumerate(Z)]
		for i in range(r['l']):
			Z[0][i, i] = 1.
	rnd = G.rs('special', r['seed'])
	if rnd.uniform() < 0.4:
		return G.special(rnd, Z, near=46, tiny=60)
	return G.rescale(rnd, Z, graded=.8 if r['zeroR'] else .3, extreme=.15) if rnd.uniform() < (0.7 if r['zeroR'] else 0.4) else Z


def build(r):
	"""the realization described by r"""
	from fixif.SIF import Realization
	from fixif.LTI import Filter, dSS
	if r['kind'] == 'struct':
		from fixif.Structures.Structure import Structure, iterStructuresAndOptions
		num, den = G.filter_poles_tf(G.rs('c12f', r['seed']), r['n'])
		f = Filter(num=num, den=den, stable=True, name=r['name'])
		lst = [(st, o) for st, o in iterStructuresAndOptions(f) if not (o or {}).get('form') == 'balanced' and st.name.startswith(tuple(STRUCTS))]
		st, o = lst[r['pick'] % len(lst)]
		return st.makeRealization(f, **(o or {}))
	Z = coefs(r)
	f = Filter(ss=dSS(*[np.matrix(X) for X in G.sif_ss(Z)]), name=r['name'])
	R = Realization(f, Z, structureName='sim é' if r['seed'] % 2 else 'sim')
	if r['kind'] == 'quant':
		R = R.quantize(12)
	return R


def build_version(r, mats):
	"""an identical realization, built directly with the matrices `mats`"""
	R = build(r)
	if mats is not None:
		from fixif.SIF import Realization
		vt, vx = R._varNameT, R._varNameX
		R2 = Realization(R.filter, [np.matrix(m, dtype=float).reshape(s) for m, s in mats], structureName=R.structureName, shortName=R.shortName)
		R2._varNameT, R2._varNameX = vt, vx
		return R2
	return R


def generate(R, op):
	if op['method'] == 'txt':
		return R.algorithmTxt(coefFormat=op['fmt'], withTime=op['time'], withSurname=op['surname'], comments=op['comments'])
	if op['method'] == 'latex':
		return R.algorithmLaTeX(caption=op['caption'], coefFormat=op['fmt'], withTime=op['time'], withSurname=op['surname'], label=op['label'])
	return R.implementCdouble(op['name'])


def answer(r, mats, op):
	try:
		return 'ok', DATE.sub('<DATE>', generate(build_version(r, mats), op))
	except Exception as e:
		return 'error', type(e).__name__


class Reference:
	"""a process forked before anything was generated; every request is answered by a child of it"""
	def __init__(self):
		self.rq, wq = os.pipe()
		rs, self.ws = os.pipe()
		self.pid = os.fork()
		if self.pid == 0:
			try:
				os.close(self.rq)
				os.close(self.ws)
				with os.fdopen(rs, 'rb') as f:
					while True:
						try:
							req = pickle.load(f)
						except EOFError:
							break
						pid = os.fork()
						if pid == 0:
							try:
								data = pickle.dumps(answer(*req))
								data = struct.pack('<I', len(data)) + data
								while data:
									data = data[os.write(wq, data):]
							finally:
								os._exit(0)
						_, st = os.waitpid(pid, 0)
			finally:
				os._exit(0)
		os.close(wq)
		os.close(rs)
		self.cache = {}

	def ask(self, *req):
		data = pickle.dumps(req)
		if data not in self.cache:
			rest = data
			while rest:
				rest = rest[os.write(self.ws, rest):]
			n = struct.unpack('<I', self._read(4))[0]
			self.cache[data] = pickle.loads(self._read(n))
		return self.cache[data]

	def _read(self, n):
		res = b""
		while len(res) < n:
			b = os.read(self.rq, n - len(res))
			if not b:
				raise RuntimeError("the reference process died")
			res += b
		return res


NEWPROC = """
import sys, pickle
sys.path.insert(0, %r)
from sim import env
env.setup()
from sim.worlds import c12
reqs = pickle.load(sys.stdin.buffer)
res = [c12.answer(*r) for r in reqs]
env.teardown()
sys.__stdout__.buffer.write(pickle.dumps(res))
sys.__stdout__.flush()
"""


def new_interpreter(reqs, hashseed):
	here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
	env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
	p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', NEWPROC % here], input=pickle.dumps(reqs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
	if p.returncode:
		raise RuntimeError(p.stderr.decode(errors='replace')[-1500:])
	return pickle.loads(p.stdout)


# ---------------------------------------------------------------- run

def mats_of(R):
	return [(np.array(X, dtype=float).ravel().tolist(), tuple(X.shape)) for X in R.JtoS]


def observe(R):
	f = R.filter
	ss = f.dSS
	return G.digest([list(R.JtoS), list(R.dJtodS) if hasattr(R, 'dJtodS') else None, R.Z, R.AZ, R.BZ, R.CZ, R.DZ, R.name, R.structureName, R.shortName, f.name, ss.A, ss.B, ss.C, ss.D,
		[v.toStr(withSurname=True) for v in R._varNameT + R._varNameX + R._varNameU + R._varNameY]])


def magnitude(Z, u):
	"""the order of magnitude of the states"""
	X = np.abs(np.asarray(G.sif_sim(Z, u)[2], dtype=float)).max(axis=1, initial=0.)
	return np.where(X > 0, X, 1.).clip(0, 1e60)


def reference(Z, u, x0):
	"""the simulation, before its values are too large for the double precision: inputs, outputs, rounding errors"""
	Y, T, X = G.sif_sim(Z, u, x0)
	big = np.vstack([np.abs(np.asarray(V)) for V in (Y, T, X)]).max(axis=0) > 1e120
	k = int(np.argmax(big)) if big.any() else u.shape[1]
	u, Y, T, X = u[:, :k], Y[:, :k], T[:, :k], X[:, :k]
	return k, u, Y, G.rounding(Z, u, T, X, x0)[0] if k else None


def run(sc, ctx):
	L = setup()
	ref = Reference()
	clk = simclock.Clock(datetime.datetime(*sc['start']))
	simclock.install(clk)
	pool = []
	for r in sc['reals']:
		R = build(r)
		pool.append({'r': r, 'R': R, 'mats': None, 'touched': False})
	asked = []
	before = set()

	def interpret(ent, op, out):
		R = ent['R']
		Z = [np.array(X, dtype=float) for X in R.JtoS]
		l, n, p, q = R.size
		rnd = G.rs('c12u', ent['r']['seed'])
		T = 7
		u = rnd.uniform(-1, 1, (q, T))
		x0 = np.zeros(n) if op['surname'] else rnd.uniform(-1, 1, n) * magnitude(Z, u)
		T, u, Yr, scale = reference(Z, u, x0)
		if T == 0:
			return
		timed = op['time']
		try:
			stmts, swap = (algo.parse_text(out), None) if op['method'] == 'txt' else algo.parse_latex(out)
			Y, X = algo.execute(stmts, l, n, p, q, u.tolist(), list(x0), timed, explicit_swap=swap if not timed else None)
		except (algo.BadAlgorithm, ValueError) as e:
			raise Violation('algorithm-' + op['method'], "the algorithm cannot be executed: %r\noptions %r\n%s" % (e, op, out))
		ctx.step(T)
		ctx.check(G.within(np.array(Y).T.reshape(p, T), Yr, scale), 'algorithm-' + op['method'],
			lambda: "the algorithm executed step by step does not give the outputs of the realization: %r instead of %r\noptions %r\n%s" % (np.array(Y).T, Yr, op, out))
		ctx.probe('algorithms executed')

	def compile_and_run(ent, op, out):
		R = ent['R']
		Z = [np.array(X, dtype=float) for X in R.JtoS]
		l, n, p, q = R.size
		d = tempfile.mkdtemp(dir=os.path.join(L.root, 'tmp'))
		src, so = os.path.join(d, 'a.c'), os.path.join(d, 'a%d_%d.so' % (sc['index'], ctx.n_events))
		with open(src, 'w') as f:
			f.write(out)
		pr = subprocess.run(['cc', '-O0', '-w', '-fPIC', '-shared', '-o', so, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		ctx.check(pr.returncode == 0, 'does-not-compile', lambda: "the generated C does not compile:\n%s\n%s" % (pr.stdout.decode(errors='replace'), out))
		f = getattr(ctypes.CDLL(so), op['name'])
		pd = ctypes.POINTER(ctypes.c_double)
		f.restype = ctypes.c_double if p == 1 else None
		rnd = G.rs('c12u', ent['r']['seed'])
		T = 7
		u = rnd.uniform(-1, 1, (q, T))
		x = rnd.uniform(-1, 1, n) * magnitude(Z, u)
		T, u, Yr, scale = reference(Z, u, x)
		Y = np.zeros((p, T))
		for k in range(T):
			y = np.zeros(p)
			uk = u[:, k].copy()
			args = ([] if p == 1 else [y.ctypes.data_as(pd)]) + [ctypes.c_double(uk[0]) if q == 1 else uk.ctypes.data_as(pd), x.ctypes.data_as(pd)]
			res = f(*args)
			Y[:, k] = [res] if p == 1 else y
		ctx.step(T)
		ctx.check(T == 0 or G.within(Y, Yr, scale), 'algorithm-c', lambda: "the generated C executed step by step gives %r instead of %r\n%s" % (Y, Yr, out))
		ctx.probe('C functions executed')

	for idx, op in enumerate(sc['ops']):
		ent = pool[op['r'] % len(pool)]
		R = ent['R']
		where = "operation %d (%r)" % (idx, op)
		if op['op'] == 'clock':
			clk.jump(datetime.timedelta(seconds=op['dt']))
			clk.tick = datetime.timedelta(seconds=op['tick'])
			ctx.fault('clock jump backwards' if op['dt'] < 0 else 'clock jump forwards')
			continue
		if op['op'] == 'set':
			M = np.array(getattr(R, op['name']), dtype=float)
			if not M.size:
				continue
			r = G.rs('c12s', op['seed'])
			New = np.matrix(np.round(M + r.uniform(-.2, .2, M.shape), 3) * (r.uniform(0, 1, M.shape) < .8))
			setattr(R, op['name'], New)
			ent['mats'] = mats_of(R)
			ent['touched'] = True
			ctx.event('set', op['name'])
			continue
		if op['op'] == 'quant':
			if len(pool) < 5:
				Q = R.quantize(op['w'])
				pool.append({'r': ent['r'], 'R': Q, 'mats': mats_of(Q), 'touched': ent['touched']})
				ctx.event('quant')
			continue
		if op['op'] == 'other':
			w = op['what']
			if w == 'simulate':
				R.simulate(np.matrix(np.ones((R.q, 4))))
			elif w == 'str':
				str(R), repr(R)
			elif w == 'exact':
				R.to_dSSexact()
			elif w == 'msb':
				try:
					R.computeNaiveMSB(np.matrix(np.ones((R.q, 1))))
				except (OverflowError, ValueError):
					pass
			elif R.filter.isSISO():
				R.filter.dTF
			ctx.event('other', w)
			continue
		# generation
		state0 = observe(R)
		clk.given = []
		t0 = clk.t
		fault = op['fault']
		inj = None
		out, exc, fired = None, None, False
		import contextlib
		cm = contextlib.nullcontext()
		if fault and fault['kind'] == 'line':
			inj = cm = faults.LineFault(fault['k'], fault['exc'])
		elif fault and fault['kind'] == 'clock':
			clk.error = OSError("the clock cannot be read")
		elif fault and fault['kind'] == 'template':
			import errno
			import jinja2.loaders
			fl = []

			def bad_open(*a, **k):
				fl.append(1)
				raise OSError(getattr(errno, fault['errno']), os.strerror(getattr(errno, fault['errno'])), a[0])
			jinja2.loaders.open = bad_open
		with cm:
			try:
				out = generate(R, op)
			except BaseException as e:
				if isinstance(e, Violation) or type(e).__name__ == 'Hang':
					raise
				exc = e
		if inj is not None:
			fired = bool(inj.fired)
		elif fault and fault['kind'] == 'clock':
			fired = clk.error is None
			clk.error = None
		elif fault:
			del jinja2.loaders.open
			fired = bool(fl)
		if fired:
			ctx.fault("%s" % fault['kind'])
		ctx.event('gen', op['method'], type(exc).__name__ if exc else G.digest(DATE.sub('', out)))
		ctx.check(observe(R) == state0, 'changed', lambda: "%s: the realization has been changed by the generation" % where)
		key = (op['method'], op['time'], op['surname'], op['fmt'])
		ctx.state(ent['r']['kind'], R.size, key, len(before))
		before.add(key)
		okey = {k: op[k] for k in ('method', 'fmt', 'time', 'surname', 'comments', 'name', 'label', 'caption')}
		st, exp = ref.ask(ent['r'], ent['mats'], okey)
		if exc is not None:
			if not fired:
				if isinstance(exc, ValueError) and op['method'] != 'c' and op['surname'] and not op['time'] and any(not v.toStr(withSurname=True).endswith('(k)') for v in R._varNameT + R._varNameX):
					ctx.probe('surnames without time rejected')
					continue
				ctx.check(False, 'unexpected-error' if st == 'error' else 'depends-on-history', lambda: "%s: raises %r (alone in a new process: %s)" % (where, exc, st))
			continue
		ctx.check(st == 'ok' and DATE.sub('<DATE>', out) == exp, 'depends-on-history',
			lambda: "%s: what is generated is not what is generated alone in a new process for an identical realization\n--- got\n%s\n--- alone\n%s" % (where, out, exp))
		asked.append((ent['r'], ent['mats'], okey, out))
		if op['method'] in ('latex', 'c'):
			# the date of the header; the names used here may also contain a date
			ds = [m.group(0) for m in DATE.finditer(out)]
			times = {t.replace(microsecond=0) for t in clk.given + [clk.t] + [t0]}
			found = []
			for s in ds:
				w = re.split(r'\D+', s)
				try:
					found.append(simclock.REAL(*[int(x) for x in w[:6]]))
				except ValueError:
					pass
			ctx.check(len(found) == 1 and found[0] in times, 'date', lambda: "%s: the date is %r, the current one is in %r\n%s" % (where, ds, sorted(times), out[:400]))
		if op['method'] == 'c':
			if sc['compile']:
				compile_and_run(ent, op, out)
		elif op['fmt'] != '%4.2f' and not (op['surname'] and ent['touched']):
			# (the surnames are those of the structure: they have no meaning any more once coefficients have been replaced)
			interpret(ent, op, out)

	if sc['newproc'] and asked:
		reqs = [a[:3] for a in asked]
		res = new_interpreter(reqs, 1 + sc['index'])
		ctx.fault('new interpreter with another hash seed')
		for a, (st, txt) in zip(asked, res):
			ctx.check(st == 'ok' and DATE.sub('<DATE>', a[3]) == txt, 'depends-on-process', lambda: "what is generated differs from what a new interpreter generates\n--- here\n%s\n--- there\n%s" % (a[3], txt))
	os.close(ref.ws)
