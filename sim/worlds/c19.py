# coding: utf-8
"""C19: the systems of errors give exactly the errors they stand for.

Simulated: a deployment.  The simulator executes a realization step by step twice: exactly, and with the coefficients rounded to a
word-length and/or with a rounding error that it chooses at every variable and every step (random, bursts, constant, worst case).  The
difference of the two executions is what the error systems of the library (computeDeltaSIF, Hepsilon, Hu, Hzeta, SIFH_to_SIFHstar,
WCPG_txy, extended formats) must predict, at any point of a history of assignments, queries, failing or aborted computations.
"""
import contextlib
import io
import math

import numpy as np

from sim import gen as G, faults, wl
from sim.core import Violation
from sim.env import setup

PROP = 'C19'
RUNS = {'quick': 4000, 'thorough': 100000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 or 2 realizations (random, with many coefficients 0/1/-1, short, or built by the structures of the library), 3 to 10 operations drawn by the seed (error systems asked, assignments, queries, ambient precision, failing computations); each system is confronted to histories of inputs and of rounding errors."
TIME_UNIT = "sampling steps of the deployed realizations"
STATE_MEASURE = "abstract states (operation, dimensions null or not, kind of realization, kind of history, fault, outcome)"
REAL = ["fixif.SIF.SIF (computeDeltaSIF, Hepsilon, Hu, Hzeta)", "fixif.SIF.SIF_tilde_error", "fixif.SIF.Realization_FxP_Nastia", "fixif.LTI.dSS"]
STUBS = ["fixif.WCPG (reference summation)", "fixif.FxP.Constant (two's complement, round to nearest)"]
SHRINK_LISTS = ('ops', 'reals')
NAMES = 'JKLMNPQRS'
ASK = ['delta', 'eps', 'hu', 'zeta', 'star', 'txy', 'ext', 'msbw']


def gen(rng, index, tier):
	reals = []
	for _ in range(rng.randint(1, 2)):
		k = rng.choices(['rand', 'ones', 'short', 'struct'], [5, 3, 2, 2])[0]
		r = {'kind': k, 'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 2, 3]), 'n': rng.randint(1, 4), 'p': rng.choice([1, 1, 2, 3]), 'q': rng.choice([1, 1, 2, 3]), 'diag': rng.random() < 0.2, 'special': rng.random() < 0.4}
		if k == 'struct':
			r.update(struct=rng.randrange(1000), order=rng.randint(2, 4))
		reals.append(r)
	ops = []
	for _ in range(rng.randint(3, 10)):
		k = rng.choices(ASK + ['set', 'Z', 'query', 'prec'], [4, 3, 3, 1, 6, 3, 2, 1, 4, 1, 1, 2])[0]
		op = {'op': k, 'r': rng.randrange(2), 'seed': rng.randrange(10 ** 6)}
		if k in ASK:
			op.update(hist=rng.choice(['rand', 'burst', 'const', 'worst', 'impulse']), T=rng.randint(8, 60), fault=None)
			if k == 'star':
				op.update(w=rng.choice([2, 3, 4, 6, 8, 8, 10, 12, 16, 24, 40]), prints=rng.random() < 0.3)
			if rng.random() < 0.3:
				op['fault'] = {'kind': rng.choice(['line', 'line', 'wcpg', 'constant']), 'k': int(2 ** rng.uniform(0, 8)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		elif k == 'set':
			op['name'] = rng.choice(NAMES)
		elif k == 'prec':
			op['prec'] = rng.choice([10, 24, 53, 100, 1000])
		ops.append(op)
	return {'reals': reals, 'ops': ops}


def simplify(sc):
	for i, r in enumerate(sc['reals']):
		for k in ('l', 'n', 'p', 'q'):
			if r[k] > (k != 'l'):
				yield dict(sc, reals=sc['reals'][:i] + [dict(r, **{k: r[k] - 1})] + sc['reals'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])
		if op.get('T', 0) > 8:
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, T=op['T'] // 2)] + sc['ops'][i + 1:])


def coefs(r):
	rn = G.rs('c19', r['seed'])
	Z = G.sif(rn, r['l'], r['n'], r['p'], r['q'])
	if r['kind'] == 'short':
		Z = [np.matrix(np.round(np.asarray(X) * 4) / 4 + 0.) for X in Z]
	elif r['kind'] == 'ones':
		Z = [np.matrix(np.where(rn.uniform(size=X.shape) < 0.5, rn.randint(-1, 2, X.shape), np.asarray(X))) for X in Z]
		Z[0] = np.matrix(np.tril(Z[0]))
	for i in range(r['l']):
		Z[0][i, i] = 1.
	if r.get('special'):
		Z = G.special(rn, Z, near=53, tiny=53) if r['seed'] % 2 else G.special(rn, Z)
	if r['diag']:
		for i in range(r['l']):
			Z[0][i, i] = rn.choice([1., 1., -1., 2., 0.75])
	return Z


def build(L, r, mixed):
	if r['kind'] != 'struct':
		Z = coefs(r)
		return mixed([X.copy() for X in Z]), Z
	from fixif.LTI import Filter
	rn = G.rs('c19t', r['seed'])
	num, den = G.filter_poles_tf(rn, r['order'], 0.8)
	F = Filter(num=num, den=den)
	np.random.seed(rn.randint(0, 2 ** 31))
	lst = list(F.iterAllRealizations())
	R = lst[r['struct'] % len(lst)]
	Z = [np.matrix(X).copy() for X in (R.J, R.K, R.L, R.M, R.N, R.P, R.Q, R.R, R.S)]
	return mixed([X.copy() for X in Z]), Z


def execute(Z, u, E=None):
	"""step by step execution of (J..S), E: errors ((l+n+p) x T).  Returns the variables (t, x(k+1), y) as (l+n+p) x T"""
	J, K, Lm, M, N, P, Q, R, S = [np.asarray(X, dtype=np.longdouble) for X in Z]
	l, n, p = J.shape[0], P.shape[0], S.shape[0]
	T = u.shape[1]
	u = np.asarray(u, dtype=np.longdouble)
	E = np.zeros((l + n + p, T), np.longdouble) if E is None else np.asarray(E, dtype=np.longdouble)
	V = np.zeros((l + n + p, T), np.longdouble)
	x = np.zeros(n, np.longdouble)
	for k in range(T):
		rhs = M @ x + N @ u[:, k] + E[:l, k]
		t = np.zeros(l, np.longdouble)
		for i in range(l):
			t[i] = (rhs[i] - J[i, :i] @ t[:i]) / J[i, i]
		xn = K @ t + P @ x + Q @ u[:, k] + E[l:l + n, k]
		y = Lm @ t + R @ x + S @ u[:, k] + E[l + n:, k]
		x = xn
		V[:l, k], V[l:l + n, k], V[l + n:, k] = t, x, y
	return V


def blocks(S):
	return [np.array(getattr(S, nm), dtype=float) for nm in NAMES]


def snap(S):
	return [np.array(getattr(S, nm), dtype=float) for nm in NAMES + 'Z'] + [np.array(S.dZ), np.array(S.AZ), np.array(S.BZ), np.array(S.CZ), np.array(S.DZ)]


def same(a, b):
	return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def history(kind, rn, rows, T, scale):
	if kind == 'impulse':
		h = np.zeros((rows, T))
		if rows:
			h[rn.randint(rows), rn.randint(0, T)] = 1.
	elif kind == 'const':
		h = np.ones((rows, T)) * rn.uniform(-1, 1, (rows, 1))
	elif kind == 'burst':
		a = rn.randint(0, T)
		h = np.zeros((rows, T))
		h[:, a:a + 1 + T // 4] = rn.uniform(-1, 1, h[:, a:a + 1 + T // 4].shape)
	elif kind == 'worst':
		h = rn.choice([-1., 1.], (rows, T))
	else:
		h = rn.uniform(-1, 1, (rows, T))
	return h * scale


def run(sc, ctx):
	L = setup()
	from sim import stubs
	import fixif.SIF.SIF_tilde_error as TE
	from fixif.SIF import SIF
	from fixif.SIF.Realization_FxP_Nastia import R_FxP_Nastia

	class Mixed(SIF, R_FxP_Nastia):
		pass
	mp = L.mpmath.mp
	reals = []
	for r in sc['reals']:
		S, Z = build(L, r, Mixed)
		reals.append({'S': S, 'Z': Z, 'kind': r['kind']})
	kept = []           # (description, object, snapshot): what has been returned does not change afterwards

	def shot(o):
		return snap(o) if isinstance(o, SIF) else [np.array(X, dtype=float) for X in ((o.A, o.B, o.C, o.D) if hasattr(o, 'B') else (o,))]

	def quantise(Z, w):
		def q(x):
			return x if x in (0., 1., -1.) else float(stubs.Constant(x, w).approx)
		return [np.array([[q(float(X[i, j])) for j in range(X.shape[1])] for i in range(X.shape[0])]).reshape(X.shape) for X in [np.asarray(X) for X in Z]]

	def compare(got, exp, ref, where, what, cond):
		tol = 1e-12 * (1 + np.abs(ref).max(initial=0.)) * cond
		d = np.abs(np.asarray(got, dtype=float) - np.asarray(exp, dtype=float))
		ctx.check(got.shape == exp.shape, 'wrong-dimensions', lambda: "%s: %s has %r outputs x steps, instead of %r" % (where, what, got.shape, exp.shape))
		if d.size:
			i, k = np.unravel_index(np.argmax(d), d.shape)
			ctx.check(d.max() <= tol, 'wrong-error-system', lambda: "%s: %s, output %d at step %d: the system gives %r, the two executions differ by %r (tolerance %r)" % (
				where, what, i, k, float(got[i, k]), float(exp[i, k]), tol))

	def call(op, S, rn, arg):
		k = op['op']
		if k == 'delta':
			return S.computeDeltaSIF()
		if k == 'eps':
			return S.Hepsilon
		if k == 'hu':
			return S.Hu
		if k == 'zeta':
			return S.Hzeta
		if k == 'star':
			with contextlib.redirect_stdout(io.StringIO()):
				return TE.SIFH_to_SIFHstar(S, op['w'], prints=op['prints'] and arg['stable'])
		if k == 'txy':
			return TE.WCPG_txy(S)
		if k == 'ext':
			return S.compute_MSB_allvar_extended(arg['ub'], *arg['lsb'])
		if k == 'msbw':
			return S.computeNaiveMSB(arg['ub']), S.w_tilde(arg['ub'])
		raise AssertionError(k)

	def check(op, ent, res, rn, arg, where):
		k = op['op']
		Z, cond = ent['Z'], arg['cond']
		l, n, p, q = arg['size']
		T = op['T']
		N = l + n + p
		scale = 2. ** rn.randint(-12, 4)
		u = history('rand' if rn.uniform() < 0.5 else op['hist'], rn, q, T, 1.)
		E = history(op['hist'], rn, N, T, scale)
		ctx.step(2 * T)
		if k in ('delta', 'eps'):
			if op['hist'] == 'worst' and arg['stable']:
				# the history of errors that is the worst one for an output
				h = G.impulse(*wl.eps_ss(Z), T)
				E = scale * np.sign(np.asarray(h[rn.randint(p)], dtype=float)[:, ::-1])
			exact = execute(Z, u)
			V = execute(Z, u, E)
			D = (V - exact)
			if k == 'delta':
				ctx.check((res.l, res.n, res.p, res.q) == (l, n, p, N), 'wrong-dimensions', lambda: "%s: the size of the error filter is %r" % (where, (res.l, res.n, res.p, res.q)))
				got = execute(blocks(res), E)
				compare(got, D, V, where, "error filter (t, x and y)", cond)
				y = G.ss_sim(res.dSS.A, res.dSS.B, res.dSS.C, res.dSS.D, E)
				compare(y, D[l + n:], V, where, "state-space of the error filter", cond)
			else:
				y = G.ss_sim(res.A, res.B, res.C, res.D, E)
				compare(y, D[l + n:], V, where, "Hepsilon", cond)
		elif k in ('hu', 'zeta'):
			V = execute(Z, u)
			if k == 'zeta':
				V = V.copy()        # Hzeta gives t(k), x(k), y(k) or t(k), x(k+1), y(k)
				y = np.asarray(G.ss_sim(res.A, res.B, res.C, res.D, u))
				if y.shape == V.shape and np.abs(np.asarray(y[l:l + n, 0], dtype=float)).max(initial=0.) == 0.:
					V[l:l + n, 1:] = V[l:l + n, :-1].copy()
					V[l:l + n, 0] = 0
				compare(y, V, V, where, "Hzeta", cond)
			else:
				compare(np.asarray(G.ss_sim(res.A, res.B, res.C, res.D, u)), V, V, where, "Hu", cond)
		elif k == 'star':
			ctx.check(isinstance(res, tuple) and len(res) == 2, 'wrong-result', lambda: "%s returns %r" % (where, res))
			tilde, err = res
			Zt = arg['Zt']
			for nm, X, Y in zip(NAMES, blocks(tilde), Zt):
				ctx.check(X.shape == Y.shape and np.array_equal(X, Y), 'wrong-quantised-coefficient', lambda: "%s: %s rounded to %d bits is %r, instead of %r" % (where, nm, op['w'], X.tolist(), Y.tolist()))
			if not (np.abs(np.linalg.inv(Zt[0])).max(initial=1.) < 1e6):
				return
			exact = execute(Z, u)
			V = execute(Zt, u, E)
			D = V - exact
			ctx.check((err.p, err.q) == (p, q + N), 'wrong-dimensions', lambda: "%s: the error filter has %d outputs and %d inputs, instead of %d and %d" % (where, err.p, err.q, p, q + N))
			ref = max(np.abs(V).max(), np.abs(exact).max())
			y = execute(blocks(err), np.vstack([u, E]))[err.l + err.n:]
			compare(y, D[l + n:], ref, where, "error filter with %d bits" % op['w'], max(cond, arg['condt']))
			y = np.asarray(G.ss_sim(err.dSS.A, err.dSS.B, err.dSS.C, err.dSS.D, np.vstack([u, E])))
			compare(y, D[l + n:], ref, where, "state-space of the error filter with %d bits" % op['w'], max(cond, arg['condt']))
		elif k == 'txy':
			W, h = wl.wcpg(wl.zeta_ss(Z), wl.horizon(Z))
			W2 = np.asarray(res, dtype=float)
			ctx.check(W2.shape == W.shape and np.allclose(W2, W, rtol=1e-9, atol=1e-12 * W.max(initial=0.)), 'wrong-gain', lambda: "%s: the gains from the inputs to (t, x, y) are %r, instead of %r" % (where, W2.tolist(), W.tolist()))
		elif k == 'msbw':
			m, w = res
			z = arg['W'] @ arg['ub'].A1
			ctx.check(len(m) == N and len(w) == N, 'number-of-formats', lambda: "%s: %d msb and %d thresholds for %d variables" % (where, len(m), len(w), N))
			for i in range(N):
				ctx.check(m[i] in wl.msb_range(z[i]), 'wrong-msb', lambda: "%s: the msb of variable %d is %r for the bound %r" % (where, i, m[i], z[i]))
				lo, hi = wl.wtilde_range(z[i], m[i])
				ctx.check(lo <= w[i] <= hi, 'wrong-threshold', lambda: "%s: the threshold of variable %d is %r, instead of %r, for the bound %r" % (where, i, w[i], lo, z[i]))
		elif k == 'ext':
			m = np.asarray(res, dtype=float).ravel()
			ctx.check(m.size == N, 'number-of-formats', lambda: "%s: %d msb for %d variables" % (where, m.size, N))
			d = 2. ** np.concatenate(arg['lsb'])
			ub = arg['ub'].A1
			z = arg['W'] @ ub
			e = arg['We'] @ d
			for i in range(N):
				lo, hi = math.log2((z[i] + e[i]) * (1 - 1e-9)), math.log2((z[i] + e[i] + (d[i] if i < l + n else 0.)) * (1 + 1e-9))
				ctx.check(m[i] >= math.ceil(lo), 'overflow', lambda: "%s: variable %d reaches %r with the rounding errors %r, its msb is %r" % (where, i, z[i] + e[i], d.tolist(), m[i]))
				ctx.check(m[i] <= math.ceil(hi), 'msb-not-smallest', lambda: "%s: variable %d never exceeds %r, its msb is %r" % (where, i, 2. ** hi, m[i]))
			i = rn.randint(N)
			Tl = arg['T']
			V = execute(Z, np.sign(arg['h'][i][:, ::-1]) * ub.reshape(-1, 1), np.sign(arg['he'][i][:, ::-1]) * d.reshape(-1, 1))
			ctx.step(Tl)
			for j in range(N):
				v = float(np.abs(V[j]).max())
				ctx.check(v <= 2. ** m[j] * (1 + 1e-9), 'overflow', lambda: "%s: variable %d reaches %r, its msb is %r (worst history of inputs and rounding errors for variable %d)" % (where, j, v, m[j], i))
			ctx.probe('extended formats deployed')

	def all_err_ss(Z):
		"""from the rounding errors to (t, x(k+1), y)"""
		J, K, Lm, M, N, P, Q, R, S = [np.asarray(X, dtype=float) for X in Z]
		l, n, p = J.shape[0], P.shape[0], S.shape[0]
		Ji = np.linalg.inv(J) if l else np.zeros((0, 0))
		A, _, C, _ = G.sif_ss(Z)
		B = np.hstack([K @ Ji, np.eye(n), np.zeros((n, p))])
		return A, B, np.vstack([Ji @ M, A, C]), np.vstack([np.hstack([Ji, np.zeros((l, n + p))]), B, np.hstack([Lm @ Ji, np.zeros((p, n)), np.eye(p)])])

	for idx, op in enumerate(sc['ops'] if reals else ()):
		ent = reals[op['r'] % len(reals)]
		S, Z = ent['S'], ent['Z']
		rn = G.rs('c19o', op['seed'])
		where = "operation %d (%r)" % (idx, op)
		k = op['op']
		l, n, p, q = Z[0].shape[0], Z[5].shape[0], Z[8].shape[0], Z[8].shape[1]
		if k == 'prec':
			mp.prec = op['prec']
			continue
		if k == 'query':
			S.Hzeta, S.Hepsilon, S.Hu
			continue
		if k in ('set', 'Z'):
			Z2 = [np.array(X) for X in Z]
			for i in ([NAMES.index(op['name'])] if k == 'set' else range(9)):
				D = rn.uniform(-.3, .3, Z2[i].shape)
				if rn.uniform() < 0.3:
					D = np.round(D)
				if i == 0:
					D = np.tril(D, -1)
				Z2[i] = np.matrix(Z2[i] + D)
			A = G.sif_ss(Z2)[0]
			if A.size and max(abs(np.linalg.eigvals(A))) > 0.95:
				continue
			if k == 'set':
				setattr(S, op['name'], Z2[NAMES.index(op['name'])].copy())
			else:
				S.Z = np.bmat([[-Z2[0], Z2[3], Z2[4]], [Z2[1], Z2[5], Z2[6]], [Z2[2], Z2[7], Z2[8]]])
			ent['Z'] = [np.matrix(X) for X in Z2]
			ctx.event('set', op.get('name'))
			continue
		Ji = np.linalg.inv(np.asarray(Z[0])) if l else np.zeros((0, 0))
		cond = 1. + l * n * np.abs(Ji).max(initial=1.) ** 2 * (1 + sum(float(np.abs(np.asarray(X)).max(initial=0.)) for X in Z)) ** 2
		if cond > 1e7:
			continue
		A = G.sif_ss(Z)[0]
		rho = max(abs(np.linalg.eigvals(A))) if A.size else 0.
		arg = {'cond': cond, 'size': (l, n, p, q), 'stable': rho < 0.95}
		if k in ('txy', 'ext', 'msbw') and not arg['stable']:
			continue
		if k in ('ext', 'msbw'):
			arg['T'] = T = wl.horizon(Z)
			arg['ub'] = np.matrix(rn.uniform(0.2, 12, (q, 1)) * 2. ** rn.choice([0, 0, -20, 20]))
			arg['W'], arg['h'] = wl.wcpg(wl.zeta_ss(Z), T)
			arg['We'], arg['he'] = wl.wcpg(all_err_ss(Z), T)
			z = arg['W'] @ arg['ub'].A1
			if z.min() < 1e-9 * max(1e-300, z.max()):
				continue
			m = np.ceil(np.log2(z))
			if k == 'msbw' and any(not math.isfinite(wl.wtilde_range(x, mm)[1]) for x, mm in zip(z, m)):
				continue        # an exact power of two has no finite threshold
			lsb = (m - rn.choice([1, 2, 4, 8, 16]) + rn.randint(-1, 2, m.shape)).astype(float)
			arg['lsb'] = [lsb[:l], lsb[l:l + n], lsb[l + n:]]
		if k == 'star':
			arg['Zt'] = Zt = quantise(Z, op['w'])
			if l and min(abs(Zt[0][i, i]) for i in range(l)) == 0:
				continue        # J is no longer invertible with so few bits
			At = G.sif_ss(Zt)[0]
			rt = max(abs(np.linalg.eigvals(At))) if At.size else 0.
			if rt > 1.5:
				continue
			arg['stable'] = arg['stable'] and rt < 0.95
			Jt = np.linalg.inv(Zt[0]) if l else np.zeros((0, 0))
			arg['condt'] = 1. + l * n * np.abs(Jt).max(initial=1.) ** 2 * (1 + sum(float(np.abs(X).max(initial=0.)) for X in Zt)) ** 2
			if arg['condt'] > 1e7:
				continue
		before = snap(S)
		prec = mp.prec
		f = op['fault']
		if f:
			inj = None
			exc = res = None
			f0 = dict(stubs.FAULTS.fired)
			try:
				if f['kind'] == 'line':
					inj = faults.LineFault(f['k'], f['exc'])
				else:
					stubs.FAULTS.arm(f['kind'], ValueError("%s: cannot compute" % f['kind']), after=f['k'] % (2 if f['kind'] == 'wcpg' else 12))
				with inj or contextlib.nullcontext():
					res = call(op, S, rn, arg)
			except (Exception, KeyboardInterrupt) as e:
				exc = e
			finally:
				stubs.FAULTS.clear()
			mp.prec = prec
			if exc is not None:
				if not (inj.fired if inj is not None else stubs.FAULTS.fired != f0):
					raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
				ctx.fault(f['kind'])
				ctx.event('failed', k)
			else:
				check(op, ent, res, rn, arg, where + " (no fault met)")
			ctx.check(same(snap(S), before), 'realization-modified', lambda: "%s: the realization has changed" % where)
		try:
			res = call(op, S, rn, arg)
		except Exception as e:
			raise Violation('unexpected-error', "%s: raises %r" % (where, e))
		ctx.check(mp.prec == prec, 'precision-changed', lambda: "%s: the precision of mpmath is %d instead of %d" % (where, mp.prec, prec))
		ctx.check(same(snap(S), before), 'realization-modified', lambda: "%s: the realization has changed" % where)
		check(op, ent, res, rn, arg, where)
		ctx.event(k, G.digest([float(np.abs(x).sum()) for r in (res if isinstance(res, tuple) else (res,)) if not isinstance(r, list) for x in shot(r)]))
		ctx.state(k, l > 0, p > 1, q > 1, ent['kind'], op['hist'], bool(f), op.get('prints'))
		if k in ('delta', 'eps', 'hu', 'zeta', 'star'):
			for o in (res if isinstance(res, tuple) else (res,)):
				kept.append((where, o, shot(o)))
		ctx.probe('error systems confronted to executions')
	for where, o, s in kept:
		ctx.check(same(shot(o), s), 'result-changed', lambda: "the system returned by %s has changed afterwards" % where)
