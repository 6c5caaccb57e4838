# coding: utf-8
"""C13: multiprecision simulation can be stopped and resumed at any step.

Simulated: several users of the same multiprecision systems, each simulating its own inputs in pieces of drawn lengths,
interleaved; the state between two pieces is taken from the system extended with the states as outputs, saved (in memory or
serialised), restored after crashes; pieces are aborted at any line and retried from the saved state; the ambient working
precision jumps between the pieces.  Reference: exact rational arithmetic, without interruption.
"""
import pickle
from fractions import Fraction

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C13'
RUNS = {'quick': 2500, 'thorough': 60000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 or 2 multiprecision systems (given, sum, difference, exact state-space of a SIF, controllable form of a transfer function), 1 to 4 users in exact or rounded mode, 5 to 30 operations: simulate the next 1 to 6 steps, save, crash and restore, abort, change of ambient precision, invalid call."
TIME_UNIT = "simulated steps are the sampling periods simulated by the library"
STATE_MEASURE = "abstract states (origin and dimensions of the system, mode, type of the inputs and of the state, operation)"
REAL = ["fixif.LTI.dSSmp, dTFmp", "fixif.SIF.SIF.to_dSSexact", "fixif.func_aux", "mpmath"]
STUBS = ["fixif.WCPG, fixif.FxP (unused here)"]
SHRINK_LISTS = ('ops', 'users', 'systems')


def gen(rng, index, tier):
	systems = []
	for _ in range(rng.randint(1, 2)):
		origin = rng.choice(['given', 'given', 'mp', 'sum', 'diff', 'sif', 'tf'])
		siso = origin == 'tf' or rng.random() < 0.3
		systems.append({'origin': origin, 'seed': rng.randrange(10 ** 6), 'n': rng.randint(1, 3), 'p': 1 if siso else rng.randint(1, 2), 'q': 1 if siso else rng.randint(1, 2),
			'kind': rng.choice(['dense', 'sparse', 'short', 'wide', 'int'])})
	users = []
	for _ in range(rng.randint(1, 4)):
		users.append({'s': rng.randrange(2), 'exact': rng.random() < 0.55, 'x0': rng.choice(['none', 'numpy', 'mp', 'mplong']), 'seed': rng.randrange(10 ** 6), 'u': rng.choice(['numpy', 'mp', 'mplong'])})
	ops = []
	for _ in range(rng.randint(5, 30)):
		k = rng.choices(['run', 'save', 'crash', 'prec', 'bad', 'numpystate', 'rprec'], [12, 2, 2, 2, 1, 1, 1])[0]
		op = {'op': k, 'c': rng.randrange(4)}
		if k == 'run':
			op.update(n=rng.choice([1, 1, 2, 3, 6]), fault=None, scribble=rng.random() < 0.2)
			if rng.random() < 0.15:
				op['fault'] = {'k': int(2 ** rng.uniform(0, 8)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		elif k == 'rprec':
			op.update(bits=rng.choice([2, 5, 12, 24, 53, 60]), n=rng.choice([1, 2, 5]), seed=rng.randrange(10 ** 6))
		elif k == 'prec':
			op['prec'] = rng.choice([2, 10, 24, 53, 53, 100, 1000])
		elif k == 'bad':
			op['kind'] = rng.choice(['u', 'x0', 'utype', 'x0type'])
		ops.append(op)
	return {'systems': systems, 'users': users, 'ops': ops}


def simplify(sc):
	for i, r in enumerate(sc['systems']):
		for k in ('n', 'p', 'q'):
			if r[k] > 1:
				yield dict(sc, systems=sc['systems'][:i] + [dict(r, **{k: r[k] - 1})] + sc['systems'][i + 1:])
		if r['kind'] != 'short':
			yield dict(sc, systems=sc['systems'][:i] + [dict(r, kind='short')] + sc['systems'][i + 1:])


MAXSTEPS = 14


def rd(x):
	"""round a rational to double (nearest, ties to even)"""
	return Fraction(float(x))


def run(sc, ctx):
	L = setup()
	mp = L.mpmath
	from fixif.LTI import dSSmp, dTFmp
	from fixif.SIF import SIF

	def long_mpf(v, r):
		"""a value with more than 53 bits"""
		return mp.fadd(mp.mpf(float(v)), mp.ldexp(mp.mpf(int(r.randint(-2 ** 30, 2 ** 30))), -120), exact=True)

	def tomp(M, r=None):
		X = mp.matrix(M.shape[0], M.shape[1])
		for i in range(M.shape[0]):
			for j in range(M.shape[1]):
				X[i, j] = long_mpf(M[i, j], r) if r is not None else mp.mpf(float(M[i, j]))
		return X

	def base(r, s, n=None):
		n = n or s['n']
		A = G.stable_A(r, n)
		if s['kind'] in ('short', 'int'):
			A = np.matrix(np.round(A * 8) / 8)
		return A, G.mat(r, n, s['q'], s['kind']), G.mat(r, s['p'], n, s['kind']), G.mat(r, s['p'], s['q'], s['kind'])

	def build(s):
		r = G.rs('c13', s['seed'])
		o = s['origin']
		if o == 'tf':
			num, den = G.filter_poles_tf(r, s['n'])
			S = dTFmp(np.matrix(num), np.matrix(den)).to_dSSmp()
		elif o == 'sif':
			S = SIF(G.sif(r, 1, s['n'], s['p'], s['q'])).to_dSSexact()
		else:
			S = dSSmp(*base(r, s))
			if o in ('sum', 'diff'):
				S2 = dSSmp(*base(r, s, 1))
				S = S + S2 if o == 'sum' else S - S2
			elif o == 'mp':
				S = dSSmp(*[tomp(M, r) for M in base(r, s)])
		n, p, q = S.n, S.p, S.q
		C, D = mp.zeros(p + n, n), mp.zeros(p + n, q)
		for i in range(p):
			for j in range(n):
				C[i, j] = S.C[i, j]
			for j in range(q):
				D[i, j] = S.D[i, j]
		for i in range(n):
			C[p + i, i] = mp.mpf(1)
		return {'S': S, 'ext': dSSmp(S.A.copy(), S.B.copy(), C, D), 'F': [G.fmat(M) for M in (S.A, S.B, S.C, S.D)], 'digest': G.digest([S.A, S.B, S.C, S.D]), 'spec': s, 'dims': (n, p, q)}

	# Sollya: exact constants, rounding to nearest (ties to even) to a number of bits
	from sim import engines

	def rn(x, prec, mode):
		x = Fraction(x)
		assert mode == 'RN'
		if x == 0:
			return x
		e = abs(x.numerator).bit_length() - x.denominator.bit_length() - prec - 2
		while abs(x) / Fraction(2) ** e >= 2 ** prec:
			e += 1
		return round(x / Fraction(2) ** e) * Fraction(2) ** e
	engines.SOLLYA_MODULE.SollyaObject = lambda x: Fraction(int(x))
	engines.SOLLYA_MODULE.round = rn
	engines.SOLLYA_MODULE.RN = 'RN'
	mp.mp.prec = 53
	systems = [build(s) for s in sc['systems']]
	users = []
	for us in sc['users']:
		sy = systems[us['s'] % len(systems)]
		n, p, q = sy['dims']
		r = G.rs('c13u', us['seed'])
		U = r.uniform(-1, 1, (q, MAXSTEPS + 1))
		U = np.matrix(np.round(U * 64) / 64 if r.uniform() < 0.3 else U)
		x0 = np.matrix(r.uniform(-1, 1, (n, 1)))
		u = U if us['u'] == 'numpy' else tomp(U, r if us['u'] == 'mplong' else None)
		x = {'none': None, 'numpy': x0, 'mp': tomp(x0), 'mplong': tomp(x0, r)}[us['x0']]
		fx0 = [Fraction(0)] * n if x is None else [v[0] for v in G.fmat(x)]
		Y, _ = G.fss_sim(*sy['F'], G.fmat(u), fx0, None if us['exact'] else rd)
		Y = [list(c) for c in zip(*Y)]
		users.append({'sy': sy, 'u': u, 'x': x, 'k': 0, 'exact': us['exact'], 'Y': Y, 'saved': None, 'Fu': G.fmat(u)})
				# the state after each step
		X, cur = [fx0], fx0
		for k in range(MAXSTEPS):
			_, cur = G.fss_sim(*sy['F'], [[row[k]] for row in users[-1]['Fu']], cur, None if us['exact'] else rd)
			X.append(cur)
		users[-1]['X'] = X

	def freeze(k, x):
		"""durable copy of the state of a user (exact whatever the ambient precision)"""
		if x is None or isinstance(x, np.matrix):
			return pickle.dumps((k, x))
		return pickle.dumps((k, [[int(t) for t in v._mpf_] for v in x]))

	def thaw(data):
		k, x = pickle.loads(data)
		if isinstance(x, list):
			X = mp.matrix(len(x), 1)
			for i, t in enumerate(x):
				X[i, 0] = mp.mp.make_mpf((t[0], mp.libmp.MPZ(t[1]), t[2], t[3]))
			x = X
		return k, x

	def cols(u, a, b):
		"""columns a..b-1 (new object)"""
		if isinstance(u, np.matrix):
			return u[:, a:b].copy()
		X = mp.matrix(u.rows, b - a)
		for i in range(u.rows):
			for j in range(a, b):
				X[i, j - a] = u[i, j]
		return X

	def call(S, u, x, exact):
		return S.simulate(u, exact=exact, x0=x) if x is not None else S.simulate(u, exact=exact)

	for us in users:
		us['saved'] = freeze(0, us['x'])

	for idx, op in enumerate(sc['ops']):
		us = users[op['c'] % len(users)]
		sy = us['sy']
		n, p, q = sy['dims']
		where = "operation %d (%r), %s mode, step %d" % (idx, op, 'exact' if us['exact'] else 'rounded', us['k'])
		k = op['op']
		if k == 'prec':
			mp.mp.prec = op['prec']
			ctx.fault('ambient precision changed')
		elif k == 'save':
			us['saved'] = freeze(us['k'], us['x'])
		elif k == 'crash':
			us['k'], us['x'] = thaw(us['saved'])
			ctx.fault('crash and restart from the saved state')
		elif k == 'numpystate':
			if not us['exact'] and us['x'] is not None and not isinstance(us['x'], np.matrix) and us['k'] > 0:
				us['x'] = np.matrix([[float(v)] for v in us['x']])        # exact: the state is made of doubles
		elif k == 'rprec':
			# states and outputs rounded to a given precision (defined for one output)
			if p != 1:
				continue
			r = G.rs('c13r', op['seed'])
			u = np.matrix(r.uniform(-1, 1, (q, op['n'])))
			d0 = G.digest(u)
			y = sy['S'].simulate_rounded(u, op['bits']) if op['bits'] != 53 else sy['S'].simulate_rounded(u)
			Fu, cur, Y = G.fmat(u), [Fraction(0)] * n, []
			for i in range(op['n']):
				yi, cur = G.fss_sim(*sy['F'], [[row[i]] for row in Fu], cur, lambda x: Fraction(float(rn(x, op['bits'], 'RN'))))
				Y.append(rn(yi[0][0], op['bits'], 'RN'))
			ctx.step(op['n'])
			ctx.check([Fraction(v) for v in y] == Y, 'rounded-to-precision', lambda: "%s: the outputs are %r instead of %r" % (where, [float(v) for v in y], [float(v) for v in Y]))
			ctx.check(G.digest(u) == d0, 'argument-modified', lambda: "%s: the inputs have been modified" % where)
			ctx.probe('rounded to a given precision')
		elif k == 'bad':
			uu, xx = cols(us['u'], 0, 1), us['x']
			if op['kind'] == 'u':
				uu = mp.zeros(q + 1, 2)
			elif op['kind'] == 'x0':
				xx = mp.zeros(n + 1, 1)
			elif op['kind'] == 'utype':
				uu = [[1.]] * q
			else:
				xx = [0.] * n
			try:
				call(sy['S'], uu, xx, us['exact'])
			except ValueError:
				ctx.checks += 1
			except Exception as e:
				raise Violation('wrong-error', "%s: %r instead of ValueError" % (where, e))
			else:
				raise Violation('bad-arguments-accepted', "%s: simulate accepts arguments of the wrong size or type" % where)
		else:
			a = us['k']
			b = min(a + op['n'], MAXSTEPS)
			if a == b:
				continue
			uu = cols(us['u'], a, b)
			ue = cols(us['u'], a, b + 1)
			x = us['x']
			d0 = G.digest([uu, ue, x])
			ctx.state(sy['spec']['origin'], sy['dims'], us['exact'], type(us['u']).__name__, type(x).__name__, op['fault'] and op['fault']['exc'], b - a)
			y = None
			if op['fault']:
				with faults.LineFault(op['fault']['k'], op['fault']['exc']) as lf:
					try:
						y = call(sy['S'], uu, x, us['exact'])
					except (MemoryError, KeyboardInterrupt):
						pass
				if lf.fired:
					ctx.fault('aborted simulation: ' + op['fault']['exc'])
			if y is None:
				y = call(sy['S'], uu, x, us['exact'])
			ctx.step(b - a)
			Y = G.fmat(y)
			exp = [row[a:b] for row in us['Y']]
			ctx.event('run', op['c'], a, b, G.digest(y))
			ctx.check(Y == exp, 'outputs-exact' if us['exact'] else 'outputs-rounded', lambda: "%s: the outputs are not those of the uninterrupted simulation\ngot      %r\nexpected %r" % (
				where, [[float(v) for v in r] for r in Y], [[float(v) for v in r] for r in exp]))
			ye = call(sy['ext'], ue, x, us['exact'])
			xn = mp.matrix(n, 1)
			for i in range(n):
				xn[i, 0] = ye[p + i, b - a]
			ctx.check([v[0] for v in G.fmat(xn)] == us['X'][b], 'state-exact' if us['exact'] else 'state-rounded',
				lambda: "%s: the state after step %d is %r instead of %r" % (where, b, xn, [float(v) for v in us['X'][b]]))
			ctx.check([r[:-1] for r in G.fmat(ye)[:p]] == exp, 'outputs-exact' if us['exact'] else 'outputs-rounded', lambda: "%s: the outputs of the extended system differ" % where)
			ctx.check(G.digest([uu, ue, x]) == d0, 'argument-modified', lambda: "%s: the inputs or the initial state given by the caller have been modified" % where)
			ctx.check(G.digest([sy['S'].A, sy['S'].B, sy['S'].C, sy['S'].D]) == sy['digest'], 'system-modified', lambda: "%s: the matrices of the system have been modified" % where)
			us['k'], us['x'] = b, xn
			if op['scribble']:
				# the caller re-uses its objects and the result
				for M in (y, ye, uu):
					if isinstance(M, np.matrix):
						M += 1
					else:
						M[0, 0] = mp.mpf(7)
	mp.mp.prec = 53
