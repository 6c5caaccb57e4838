# coding: utf-8
"""C15: fixed-point formats: no overflow, and output error within the budget.

Simulated: a deployment of the formats given by the library.  The simulator plays the part of the environment: it chooses the
inputs (within their bounds) and the rounding errors (at most half a unit in the last place of each variable, at every
variable and every step), at random and adversarially, and executes the realization step by step.  The formats are asked at
any point of a history of updates, other queries, failing or aborted computations, under any ambient mpmath precision.
"""
import math
import os
import tempfile

import numpy as np

from sim import gen as G, faults, wl
from sim.core import Violation
from sim.env import setup

PROP = 'C15'
RUNS = {'quick': 800, 'thorough': 20000}
BUDGET = {'quick': 200, 'thorough': 1500}
CPU_LIMIT = 120
RULE = "One run: 1 or 2 realizations (random, short coefficients, or built by the structures of the library), 3 to 10 operations drawn by the seed (formats asked for a bound, uniform word-length asked for a budget, update, query, ambient precision, failing computation); each answer is deployed against random and worst-case histories."
TIME_UNIT = "sampling steps of the deployed realizations"
STATE_MEASURE = "abstract states (dimensions, kind of realization, kind of bound, msb-vs-threshold situation, fault)"
REAL = ["fixif.SIF.Realization_FxP, SIF (Hzeta, Hepsilon)", "fixif.Structures (when the realization is built by them)"]
STUBS = ["fixif.WCPG (reference summation)"]
SHRINK_LISTS = ('ops', 'reals')


def gen(rng, index, tier):
	reals = []
	for _ in range(rng.randint(1, 2)):
		k = rng.choices(['rand', 'short', 'struct', 'fir'], [5, 3, 2, 2])[0]
		r = {'kind': k, 'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 2, 3]), 'n': rng.randint(1, 4), 'p': rng.choice([1, 1, 2, 3]), 'q': rng.choice([1, 1, 2, 3])}
		if k == 'struct':
			r.update(struct=rng.randrange(1000), order=rng.randint(2, 4))
		reals.append(r)
	ops = []
	for _ in range(rng.randint(3, 10)):
		k = rng.choices(['msb', 'wl', 'wls', 'set', 'query', 'prec', 'fault'], [6, 8, 4, 3, 1, 2, 3])[0]
		op = {'op': k, 'r': rng.randrange(2), 'seed': rng.randrange(10 ** 6)}
		if k in ('msb', 'wl', 'wls', 'fault'):
			op['ub'] = rng.choice(['any', 'pow2', 'exact', 'near', 'tiny', 'big'])
			op['eps'] = rng.choice(['any', 'pow2', 'exact', 'coarse', 'fine', 'thr', 'thr'])
		if k == 'fault':
			op.update(kind=rng.choice(['wcpg', 'line', 'line']), k=int(2 ** rng.uniform(0, 9)) - 1, exc=rng.choice(['MemoryError', 'KeyboardInterrupt']), what=rng.choice(['msb', 'wl']))
		elif k == 'set':
			op['name'] = rng.choice(['J', 'K', 'M', 'N', 'P', 'Q', 'R', 'S', 'L'])
		elif k == 'prec':
			op['prec'] = rng.choice([10, 24, 53, 53, 100, 1000])
		ops.append(op)
	return {'reals': reals, 'ops': ops}


def simplify(sc):
	for i, r in enumerate(sc['reals']):
		for k in ('l', 'n', 'p', 'q'):
			if r[k] > (k != 'l'):
				yield dict(sc, reals=sc['reals'][:i] + [dict(r, **{k: r[k] - 1})] + sc['reals'][i + 1:])
	for i, op in enumerate(sc['ops']):
		for k, v in (('ub', 'any'), ('eps', 'any')):
			if op.get(k) not in (None, v):
				yield dict(sc, ops=sc['ops'][:i] + [dict(op, **{k: v})] + sc['ops'][i + 1:])


NAMES = 'JKLMNPQRS'


def coefs(r):
	rn = G.rs('c15', r['seed'])
	Z = G.sif(rn, r['l'], r['n'], r['p'], r['q'])
	if r['kind'] in ('short', 'fir'):
		Z = [np.matrix(np.round(np.asarray(X) * 4) / 4 + 0.) for X in Z]
		for i in range(r['l']):
			Z[0][i, i] = 1.
	if r['kind'] == 'fir':
		# nilpotent: everything is exactly representable (worst cases that are exact powers of two are frequent)
		Z[5] = np.matrix(np.triu(Z[5], 1))
		Z[1] = Z[1] * 0.
	return Z


def build(L, r):
	"""(realization, Z as lists of doubles) or None"""
	from fixif.SIF import Realization
	if r['kind'] != 'struct':
		Z = coefs(r)
		return Realization(None, [X.copy() for X in Z], structureName='sim'), Z
	from fixif.LTI import Filter
	rn = G.rs('c15t', r['seed'])
	num, den = G.filter_poles_tf(rn, r['order'], 0.8)
	F = Filter(num=num, den=den)
	np.random.seed(rn.randint(0, 2 ** 31))
	lst = list(F.iterAllRealizations())
	R = lst[r['struct'] % len(lst)]
	return R, [np.matrix(X) for X in (R.J, R.K, R.L, R.M, R.N, R.P, R.Q, R.R, R.S)]


class Ana:
	"""reference analysis of a realization"""
	def __init__(self, Z):
		self.ok = False
		self.Z = [np.asarray(X, dtype=float) for X in Z]
		J, K, Lm, M, N, P, Q, R, S = self.Z
		self.l, self.n, self.p, self.q = J.shape[0], P.shape[0], S.shape[0], S.shape[1]
		if self.l and np.abs(np.linalg.inv(J)).max() > 1e3:
			return
		A = G.sif_ss(Z)[0]
		self.rho = max(abs(np.linalg.eigvals(A))) if A.size else 0.
		if self.rho > 0.93:
			return
		self.T = wl.horizon(Z)
		self.Wz, self.hz = wl.wcpg(wl.zeta_ss(Z), self.T)
		self.We, self.he = wl.wcpg(wl.eps_ss(Z), self.T)
		self.ok = True


def fix_sim(Z, u, E=None, lsb=None):
	"""step by step execution; E: errors ((l+n+p) x T), or lsb: units in the last place (every variable is rounded to the nearest
	multiple of its lsb when computed)"""
	J, K, Lm, M, N, P, Q, R, S = [np.asarray(X, dtype=np.longdouble) for X in Z]
	l, n, p = J.shape[0], P.shape[0], S.shape[0]
	T = u.shape[1]
	u = np.asarray(u, dtype=np.longdouble)
	V = np.zeros((l + n + p, T), np.longdouble)
	x = np.zeros(n, np.longdouble)

	def rnd(v, i, k):
		if lsb is not None:
			d = lsb[i]
			return np.floor(v / d + np.longdouble(0.5)) * d
		if E is not None:
			return v + E[i, k]
		return v
	for k in range(T):
		rhs = M @ x + N @ u[:, k]
		t = np.zeros(l, np.longdouble)
		for i in range(l):
			t[i] = rnd((rhs[i] - J[i, :i] @ t[:i]) / J[i, i], i, k)
		xn = K @ t + P @ x + Q @ u[:, k]
		y = Lm @ t + R @ x + S @ u[:, k]
		for i in range(n):
			xn[i] = rnd(xn[i], l + i, k)
		for i in range(p):
			y[i] = rnd(y[i], l + n + i, k)
		x = xn
		V[:l, k], V[l:l + n, k], V[l + n:, k] = t, x, y
	return V


def run(sc, ctx):
	L = setup()
	from sim import stubs
	mp = L.mpmath.mp
	reals = []
	for r in sc['reals']:
		R, Z = build(L, r)
		reals.append({'R': R, 'Z': Z, 'kind': r['kind'], 'ana': Ana(Z)})

	def bounds(op, ana, rn):
		"""input bounds and budgets; several kinds are built around the special values"""
		q, p = ana.q, ana.p
		k = op['ub']
		ub = rn.uniform(0.2, 12, (q, 1))
		if k == 'pow2':
			ub = 2. ** rn.randint(-3, 5, (q, 1))
		elif k == 'tiny':
			ub = rn.uniform(0.5, 1, (q, 1)) * 2. ** -30
		elif k == 'big':
			ub = rn.uniform(0.5, 1, (q, 1)) * 2. ** 40
		elif k in ('exact', 'near'):
			# one variable exactly at (or next to) a power of two
			i = rn.randint(0, ana.Wz.shape[0])
			z = float(ana.Wz[i] @ ub.ravel())
			if z > 1e-6:
				ub = ub * (2. ** rn.randint(-2, 6) / z)
				if k == 'near':
					ub = ub * (1 + rn.choice([-1, 1]) * 2. ** -rn.randint(3, 28))
		return np.matrix(ub)

	def budget(op, ana, rn, z, m):
		p = ana.p
		k = op['eps']
		eps = 10. ** rn.uniform(-6, 0, (p, 1)) * float(np.abs(z).max())
		Em = (ana.We * 2. ** np.asarray(m, dtype=float)).sum(axis=1)
		if k == 'pow2':
			eps = 2. ** rn.randint(-16, 2, (p, 1))
		elif k == 'coarse':
			eps = rn.uniform(0.1, 4, (p, 1)) * float(z.max())
		elif k == 'fine':
			eps = eps * 2. ** -40
		elif k == 'exact':
			# exactly the error for a given word-length
			eps = Em.reshape(p, 1) * 2. ** -float(rn.randint(2, 20))
		elif k == 'thr':
			# word-length close to the threshold of one of the variables
			i = rn.randint(0, len(z))
			lo, hi = wl.wtilde_range(z[i], m[i])
			if math.isfinite(hi):
				eps = Em.reshape(p, 1) * 2. ** -(hi - 1.) * (1 + rn.uniform(0, .9, (p, 1)) * rn.randint(0, 2))
		return np.matrix(eps)

	def check_msb(ent, ub, msb, where, rn):
		ana = ent['ana']
		z = ana.Wz @ np.asarray(ub).ravel()
		N = ana.l + ana.n + ana.p
		ctx.check(len(msb) == N, 'number-of-formats', lambda: "%s: %d formats for %d variables" % (where, len(msb), N))
		T = ana.T
		ubv = np.asarray(ub).ravel()
		# worst case of every variable
		for i in range(N):
			u = np.sign(ana.hz[i][:, ::-1])
			u[u == 0] = 1
			u = u * ubv.reshape(-1, 1)
			V = fix_sim(ana.Z, u)
			ctx.step(T)
			V = V.astype(float)
			for j in range(N):
				v = np.abs(V[j]).max()
				ctx.check(v <= 2. ** msb[j] * (1 + 1e-9), 'overflow', lambda: "%s: variable %d reaches %r, its format (msb %d) goes up to %r; bounds of the inputs %r, history of %d inputs that reaches it (last ones) %r" % (
					where, j, v, msb[j], 2. ** msb[j], ubv.tolist(), T, u[:, -12:].tolist()))
			v = np.abs(V[i]).max()
			ctx.check(v > 2. ** (msb[i] - 1) * (1 - 1e-9), 'msb-not-smallest', lambda: "%s: variable %d never exceeds %r, but its msb is %d (bounds %r)" % (where, i, z[i], msb[i], ubv.tolist()))
		# random histories, with jumps between the bounds
		u = rn.uniform(-1, 1, (ana.q, 200))
		u[:, 50:120] = np.sign(u[:, 50:120])
		u[:, 120:150] = 1
		V = np.abs(fix_sim(ana.Z, u * ubv.reshape(-1, 1))).astype(float).max(axis=1)
		ctx.step(200)
		for j in range(N):
			ctx.check(V[j] <= 2. ** msb[j] * (1 + 1e-9), 'overflow', lambda: "%s: variable %d reaches %r, msb %d" % (where, j, V[j], msb[j]))
		ctx.probe('formats deployed')

	def check_wl(ent, ub, eps, w, m, where, rn):
		ana = ent['ana']
		N = ana.l + ana.n + ana.p
		z = ana.Wz @ np.asarray(ub).ravel()
		e = np.asarray(eps).ravel()
		delta = np.zeros(N)
		amb = False
		for i in range(N):
			lo, hi = wl.wtilde_range(z[i], m[i])
			if w < lo:
				delta[i] = 1
			elif w < hi:
				amb = True
		ulp2 = 2. ** (np.asarray(m, dtype=float) + delta - w)       # half of a unit in the last place
		ctx.state(ent['kind'], int(delta.sum()), N, amb)
		if delta.any():
			ctx.probe('deployed with additional most significant bits')
		T = ana.T
		for o in range(ana.p):
			s = np.sign(ana.he[o][:, ::-1])
			E = s * ulp2.reshape(-1, 1)
			Y = fix_sim(ana.Z, np.zeros((ana.q, T)), E=E)[ana.l + ana.n:].astype(float)
			ctx.step(T)
			for j in range(ana.p):
				v = np.abs(Y[j]).max()
				ctx.check(v <= e[j] * (1 + 1e-9), 'budget-exceeded', lambda: "%s: with word-length %r, the error of output %d reaches %r, more than the budget %r (rounding errors of at most half a unit in the last place: %r; msb %r, additional bits %r)" % (
					where, w, j, v, e[j], ulp2.tolist(), m, delta.tolist()))
		# real rounding of random inputs
		u = rn.uniform(-1, 1, (ana.q, 150)) * np.asarray(ub)
		if max(ulp2) < 1e12 * max(1e-300, min(ulp2)):
			Y = (fix_sim(ana.Z, u, lsb=2 * ulp2) - fix_sim(ana.Z, u))[ana.l + ana.n:].astype(float)
			ctx.step(300)
			for j in range(ana.p):
				v = np.abs(Y[j]).max()
				ctx.check(v <= e[j] * (1 + 1e-9) + 1e-13 * z.max(), 'budget-exceeded', lambda: "%s: with word-length %r and rounding to nearest, the error of output %d is %r, more than the budget %r" % (where, w, j, v, e[j]))
		# at most one bit more than the smallest (the same errors with two bits less exceed the budget)
		Em = (ana.We * 2. ** np.asarray(m, dtype=float)).sum(axis=1) * 2. ** (2. - w)
		ctx.check(any(Em > e * (1 - 1e-9)), 'wl-not-smallest', lambda: "%s: word-length %r, although %r is enough (errors %r, budget %r)" % (where, w, w - 2, Em.tolist(), e.tolist()))
		ctx.probe('word-lengths deployed')

	def check_wls(ent, ub, eps, ws, m, where, rn):
		"""one word-length for each variable"""
		ana = ent['ana']
		N = ana.l + ana.n + ana.p
		z = ana.Wz @ np.asarray(ub).ravel()
		e = np.asarray(eps).ravel()
		ctx.check(len(ws) == N, 'number-of-formats', lambda: "%s: %d word-lengths for %d variables" % (where, len(ws), N))
		delta = np.array([1. if w < wl.wtilde_range(z[i], m[i])[0] else 0. for i, w in enumerate(ws)])
		ulp2 = 2. ** (np.asarray(m, dtype=float) + delta - np.asarray(ws, dtype=float))
		ctx.state(ent['kind'], 'individual', int(delta.sum()), N)
		for o in range(ana.p):
			E = np.sign(ana.he[o][:, ::-1]) * ulp2.reshape(-1, 1)
			Y = fix_sim(ana.Z, np.zeros((ana.q, ana.T)), E=E)[ana.l + ana.n:].astype(float)
			ctx.step(ana.T)
			for j in range(ana.p):
				v = np.abs(Y[j]).max()
				ctx.check(v <= e[j] * (1 + 1e-9), 'budget-exceeded', lambda: "%s: with the word-lengths %r, the error of output %d reaches %r, more than the budget %r (rounding errors of at most half a unit in the last place: %r; msb %r, additional bits %r)" % (
					where, list(ws), j, v, e[j], ulp2.tolist(), m, delta.tolist()))
		# not absurdly long: each could not be 3 bits shorter without taking more than its part of the budget of some output
		for i, w in enumerate(ws):
			part = ana.We[:, i] * 2. ** (m[i] + 3. - w)
			ctx.check(any(part > e / N * (1 - 1e-9)), 'wl-not-smallest', lambda: "%s: word-length %r for variable %d, although %r is enough" % (where, w, i, w - 3))
		ctx.probe('individual word-lengths deployed')

	for idx, op in enumerate(sc['ops']):
		ent = reals[op['r'] % len(reals)]
		R = ent['R']
		ana = ent['ana']
		rn = G.rs('c15o', op['seed'])
		where = "operation %d (%r)" % (idx, op)
		k = op['op']
		if k == 'prec':
			mp.prec = op['prec']
			ctx.event('prec', op['prec'])
			continue
		if k == 'query':
			R.Hzeta, R.Hepsilon
			if ana.ok:
				R.dSS.Wo
			continue
		if k == 'set':
			i = NAMES.index(op['name'])
			M = np.asarray(ent['Z'][i])
			if not M.size:
				continue
			D = rn.uniform(-.3, .3, M.shape)
			if ent['kind'] in ('short', 'fir'):
				D = np.round(D * 4) / 4
			if op['name'] == 'J':
				D = np.tril(D, -1)
			Z2 = list(ent['Z'])
			Z2[i] = np.matrix(M + D)
			a2 = Ana(Z2)
			if a2.ok:
				setattr(R, op['name'], Z2[i].copy())
				ent['Z'], ent['ana'] = Z2, a2
				ctx.event('set', op['name'])
			continue
		if not ana.ok:
			continue
		ub = bounds(op, ana, rn)
		z = ana.Wz @ ub.A1
		if z.min() < 1e-9 * max(1e-300, z.max()):
			continue            # a variable that is always zero has no format
		zs = [wl.msb_range(x) for x in z]
		mref = [min(s) for s in zs]
		eps = budget(op, ana, rn, z, mref)
		prec = mp.prec
		ub0, eps0 = ub.copy(), eps.copy()
		ctx.event(k, G.digest(ub), mp.prec)
		if k == 'fault':
			inj = None
			try:
				if op['kind'] == 'wcpg':
					stubs.FAULTS.arm('wcpg', ValueError("WCPG: cannot compute WCPG"), after=op['k'] % 3)
					f0 = dict(stubs.FAULTS.fired)
				else:
					inj = faults.LineFault(op['k'], op['exc'])
				try:
					if inj is not None:
						with inj:
							res = R.computeNaiveMSB(ub) if op['what'] == 'msb' else R.optimalUniformWL(ub, eps)
					else:
						res = R.computeNaiveMSB(ub) if op['what'] == 'msb' else R.optimalUniformWL(ub, eps)
					exc = None
				except (Exception, KeyboardInterrupt) as e:
					exc = e
			finally:
				stubs.FAULTS.clear()
			if exc is not None:
				fired = inj.fired if inj is not None else stubs.FAULTS.fired != f0
				if not fired:
					raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
				ctx.fault(op['kind'])
				mp.prec = prec          # (the restoration of the precision is the concern of C02)
			elif op['what'] == 'msb':
				check_msb(ent, ub, res, where, rn)
			else:
				check_wl(ent, ub, eps, res, mref, where, rn)
			continue
		try:
			m = R.computeNaiveMSB(ub)
			w = R.optimalUniformWL(ub, eps) if k == 'wl' else None
			if k == 'wls':
				if (ana.We.max(axis=0) < 1e-12).any():
					continue        # a variable that has no influence on the outputs
				with tempfile.TemporaryDirectory(dir=os.path.join(L.root, 'tmp')) as d:
					w = [int(x) for x in R.optimalWL(ub, eps, AMPLpath=d)]
		except Exception as e:
			raise Violation('unexpected-error', "%s: raises %r" % (where, e))
		mp.prec = prec
		ctx.check(np.array_equal(ub, ub0) and np.array_equal(eps, eps0), 'argument-modified', lambda: "%s: the arguments have been modified" % where)
		ctx.event('formats', [int(x) for x in m], w)
		ctx.state(ent['kind'], (ana.l, ana.n, ana.p, ana.q), op['ub'], op['eps'], any(len(s) > 1 for s in zs))
		check_msb(ent, ub, m, where, rn)
		if k == 'wls':
			check_wls(ent, ub, eps, w, m, where, rn)
		elif k == 'wl':
			check_wl(ent, ub, eps, w, m, where, rn)
