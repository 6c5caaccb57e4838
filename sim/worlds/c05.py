# coding: utf-8
"""C05: a SIF stays consistent through any history of updates, also failed ones.

Simulated: one object (SIF or Realization), a history of assignments and queries drawn by the seed, with assignments aborted
at any line or in any numerical kernel.  Reference: the matrices given so far (model), a fresh object built from them, and an
independent double-precision computation.
"""
import copy

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C05'
RUNS = {'quick': 2500, 'thorough': 60000}
BUDGET = {'quick': 120, 'thorough': 1500}
CPU_LIMIT = 40
RULE = "One run: a SIF or a Realization (l, n, p, q and sparsity drawn by the seed), then 4 to 26 assignments (valid, wrong size, singular J, aborted by an exception at a drawn line or kernel call) and queries in a drawn order."
TIME_UNIT = "no clock is involved; the number of simulated steps is the number of sampling periods of the simulations compared"
STATE_MEASURE = "abstract states (object class, operation, attribute, outcome, set of derived systems already computed)"
REAL = ["fixif.SIF.SIF, fixif.SIF.Realization (all code)", "fixif.LTI.dSS, dSSmp, dTF", "fixif.func_aux", "numpy/scipy/mpmath solvers"]
STUBS = ["fixif.WCPG (reference summation)", "fixif.FxP (unused here)"]

NAMES = ('J', 'K', 'L', 'M', 'N', 'P', 'Q', 'R', 'S')
QUERIES = ('invJ', 'AZ', 'BZ', 'CZ', 'DZ', 'dSS', 'Wo', 'Wc', 'Hu', 'Hepsilon', 'Hzeta', 'simulate', 'to_dSSexact', 'to_dTF', 'Zcomp',
	'JtoS', 'Z', 'msb', 'wcpg', 'h2', 'tfsens', 'poles', 'lambda')

EXPENSIVE = ('tfsens', 'poles', 'lambda', 'msb', 'wcpg', 'to_dSSexact', 'h2', 'Wo', 'Wc')


def gen_fault(rng):
	x = rng.random()
	if x < 0.65:
		return {'kind': 'line', 'k': int(2 ** rng.uniform(0, 7.2)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
	return {'kind': 'call', 'k': rng.randint(0, 2), 'exc': rng.choice(['LinAlgError', 'MemoryError', 'ValueError'])}


def gen_scenario(rng, i):
	ops = []
	for _ in range(rng.randint(4, 26)):
		if rng.random() < 0.5:
			op = {'op': 'set', 'name': rng.choice(NAMES + ('Z', 'Z', 'J')), 'seed': rng.randrange(10 ** 6), 'sparse': rng.random() < 0.3,
				'kind': rng.choices(['ok', 'shape', 'singular'], [7, 2, 1])[0], 'fault': None, 'after': rng.random() < 0.3, 'look': rng.random() < 0.6,
				'how': rng.choices(['new', 'nudge', 'entry', 'same'], [5, 2, 2, 1])[0]}
			if rng.random() < 0.35:
				op['fault'] = gen_fault(rng)
		else:
			op = {'op': 'get', 'what': rng.choice(QUERIES), 'seed': rng.randrange(10 ** 6), 'fault': None}
			if rng.random() < 0.12:
				op['fault'] = gen_fault(rng)
		ops.append(op)
	return ops


def gen(rng, index, tier):
	siso = rng.random() < 0.3
	return {'cls': rng.choice(['SIF', 'Realization', 'quantized']), 'seed0': rng.randrange(10 ** 6),
		'l': rng.choice([0, 1, 1, 2, 2, 3]), 'n': rng.randint(1, 4), 'p': 1 if siso else rng.randint(1, 3), 'q': 1 if siso else rng.randint(1, 3),
		'sparse': rng.random() < 0.4, 'ops': gen_scenario(rng, index)}


def simplify(sc):
	for k in ('l', 'n', 'p', 'q'):
		if sc[k] > (k != 'l'):
			yield dict(sc, **{k: sc[k] - 1})
	for i, op in enumerate(sc['ops']):
		for key, val in (('sparse', False), ('after', False), ('fault', None), ('kind', 'ok'), ('how', 'new')):
			if op.get(key, val) != val:
				yield dict(sc, ops=sc['ops'][:i] + [dict(op, **{key: val})] + sc['ops'][i + 1:])


def rho(Z):
	A = G.sif_ss(Z)[0]
	return max(abs(np.linalg.eigvals(A))) if A.size else 0.


def new_value(model, name, op, dims):
	"""the value assigned: of the right size and such that the system stays stable"""
	l, n, p, q = dims
	r = G.rs('c05', op['seed'])
	sizes = {'J': (l, l), 'K': (n, l), 'L': (p, l), 'M': (l, n), 'N': (l, q), 'P': (n, n), 'Q': (n, q), 'R': (p, n), 'S': (p, q)}
	kind = 'sparse' if op['sparse'] else 'dense'
	if op.get('how', 'new') != 'new' and op['kind'] == 'ok':
		return close_value(model, name, op, r)
	if name == 'Z':
		vals = G.sif(r, l, n, p, q, sparse=op['sparse'])
		if op['kind'] == 'singular':
			vals[0] = vals[0] * 0.
		return vals
	i = NAMES.index(name)
	v = G.mat(r, sizes[name][0], sizes[name][1], kind)
	if name == 'J':
		v = np.matrix(np.eye(l) + np.tril(v, -1))
		if op['kind'] == 'singular':
			v = v * 0.
			return v
	for _ in range(60):
		Z = list(model)
		Z[i] = v
		if rho(Z) < 0.97:
			break
		v = np.matrix(np.eye(l) + (v - np.eye(l)) * 0.5) if name == 'J' else v * 0.5
		# it may be unstable whatever the value (already so): the previous value is stable
	else:
		v = model[i].copy()
	return v


def close_value(model, name, op, r):
	"""a value that differs from the current one by a small relative change, by a single coefficient, or by nothing"""
	old = [X.copy() for X in model]
	new = [X.copy() for X in model]
	idx = [i for i, nm in enumerate(NAMES) if name in (nm, 'Z') and new[i].size]
	if idx and op['how'] == 'nudge':
		eps = 10. ** -r.randint(2, 8)
		only = None if r.randint(2) else idx[r.randint(len(idx))]
		for i in idx:
			if only in (None, i):
				new[i] = np.matrix(np.multiply(new[i], 1 + eps * r.choice([-1, 1], new[i].shape)))
	elif idx and op['how'] == 'entry':
		i = idx[r.randint(len(idx))]
		a, b = r.randint(new[i].shape[0]), r.randint(new[i].shape[1])
		new[i][a, b] = r.choice([0., 0.5, float(r.uniform(-1, 1))])
	if idx and idx[0] == 0:
		l = new[0].shape[0]
		new[0] = np.matrix(np.tril(new[0], -1) + np.eye(l))
	if rho(new) >= 0.97:
		new = old
	return new if name == 'Z' else new[NAMES.index(name)]


def big(vals):
	J, K, L, M, N, P, Q, R, S = vals
	return np.matrix(np.vstack([np.hstack([-J, M, N]), np.hstack([K, P, Q]), np.hstack([L, R, S])]))


def mats(X):
	return [np.array(M, dtype=float) for M in X]


def sysmats(S):
	return mats((S.A, S.B, S.C, S.D))


def query(obj, what, seed, u):
	"""returns a list of arrays"""
	if what in ('invJ', 'AZ', 'BZ', 'CZ', 'DZ', 'Wo', 'Wc', 'Zcomp', 'Z'):
		return mats([getattr(obj, what)])
	if what in ('dSS', 'Hu', 'Hepsilon', 'Hzeta'):
		return sysmats(getattr(obj, what))
	if what == 'JtoS':
		return mats(obj.JtoS)
	if what == 'simulate':
		return mats([obj.simulate(u)])
	if what == 'to_dSSexact':
		E = obj.to_dSSexact()
		return [np.array([[float(X[i, j]) for j in range(X.cols)] for i in range(X.rows)]).reshape(X.rows, X.cols) for X in (E.A, E.B, E.C, E.D)]
	if what == 'to_dTF':
		tf = obj.to_dTF()
		return mats([tf.num, tf.den])
	if what == 'wcpg':
		return mats([obj.Hzeta.WCPG(), obj.Hepsilon.WCPG()])
	if what == 'h2':
		return mats([np.matrix([[obj.dSS.H2norm()]])])
	if what == 'tfsens':
		m, MX = obj.dTFsensitivity()
		# (rounding may give the square root of a negative number for the norm of a null system)
		MX = np.nan_to_num(np.asarray(MX, dtype=float))
		if np.isfinite(m) and not abs(m - (MX ** 2).sum()) <= 1e-9 * (1 + abs(m)):
			raise Violation('derived-tfsens', "the measure %r is not the one of the sensitivity matrix\n%r" % (m, MX))
		return mats([MX])
	if what in ('poles', 'lambda'):
		m, MX, MXk = obj.poleSensitivity(what == 'poles')
		X = np.asarray(MXk)
		MX = np.asarray(MX, dtype=float)
		tot = np.sqrt((abs(X) ** 2).sum(axis=2))
		if not np.all(abs(MX - tot) <= 1e-9 * (1 + tot)):
			raise Violation('derived-poles', "the sensitivity matrix of the poles\n%r\nis not the norm of those of each pole\n%r" % (MX, X))
		tot = ((MX * np.asarray(obj.dZ)) ** 2).sum()
		if not abs(m - tot) <= 1e-9 * (1 + tot):
			raise Violation('derived-poles', "the measure %r is not the one (%r) of the sensitivity matrix of the poles\n%r" % (m, tot, MX))
		return mats([[[m]], MX]) + [np.array(np.real(X), dtype=float), np.array(np.imag(X), dtype=float)]
	if what == 'msb':
		ub = np.matrix(np.ones((obj.q, 1)) * 1.3)
		return mats([np.matrix(obj.computeNaiveMSB(ub), dtype=float)])
	raise AssertionError(what)


def blocks(Zb, l, n):
	J, M, N = -Zb[:l, :l], Zb[:l, l:l + n], Zb[:l, l + n:]
	return J, Zb[l:l + n, :l], Zb[l + n:, :l], M, N, Zb[l:l + n, l:l + n], Zb[l:l + n, l + n:], Zb[l + n:, l:l + n], Zb[l + n:, l + n:]


def sensitivity(model, l, n, i, j, lam0):
	"""finite differences with respect to the coefficient (i, j) of Z: L2-norm of the derivative of the transfer function, and
	derivatives of the eigenvalues"""
	Zb = np.asarray(big(model), dtype=float)
	h = 1e-6
	H, E = [], []
	for s in (h, -h):
		Zp = Zb.copy()
		Zp[i, j] += s
		S = G.sif_ss(blocks(Zp, l, n))
		H.append(G.impulse(*S, 400))
		e = np.linalg.eigvals(S[0])
		E.append(np.array([e[np.argmin(abs(e - x))] for x in lam0]))
	return float(np.sqrt((((H[0] - H[1]) / (2 * h)) ** 2).sum())), (E[0] - E[1]) / (2 * h)


def run(sc, ctx):
	L = setup()
	from fixif.SIF import SIF, Realization
	from numpy.linalg import LinAlgError, inv
	dims = sc['l'], sc['n'], sc['p'], sc['q']
	l, n, p, q = dims
	model = [np.matrix(X) for X in G.sif(G.rs('c05', sc['seed0']), l, n, p, q, sparse=sc['sparse'])]
	build = SIF if sc['cls'] == 'SIF' else (lambda Z: Realization(None, Z, structureName='test'))
	obj = build([X.copy() for X in model])
	other = None
	if sc['cls'] == 'quantized':
		other = obj
		obj = obj.quantize(60)
		model = [np.matrix(X, dtype=float) for X in obj.JtoS]
		model = [X.copy() for X in model]
	kernels = [inv]
	u = np.matrix(G.rs('c05u', sc['seed0']).uniform(-1, 1, (q, 12)))
	computed = set()

	def fresh():
		return build([X.copy() for X in model])

	def attempt(o, what):
		try:
			return query(o, what, 0, u)
		except Exception as e:
			return e

	def compare(got, what, where, ref=None, dZ=None):
		ref = ref or fresh()
		if what in ('tfsens', 'poles', 'lambda'):
			# (they are weighted by dZ, which belongs to the user: it is not deduced again from the coefficients)
			ref.dZ = np.matrix(dZ)
		exp = attempt(ref, what)
		if isinstance(exp, Exception):
			if not isinstance(got, Exception):
				raise Violation('derived-' + what, "%s: %s of the object gives a value but a new SIF built from the same matrices raises %r" % (where, what, exp))
			ctx.checks += 1
			return
		if isinstance(got, Exception):
			raise Violation('derived-' + what, "%s: %s raises %r, but a new SIF built from the same matrices gives a value" % (where, what, got))
		tol = 1e-6 if what in ('Wo', 'Wc', 'to_dTF', 'h2', 'wcpg', 'tfsens', 'poles', 'lambda') else 1e-9
		ok = len(got) == len(exp) and all(G.close(a, b, tol) for a, b in zip(got, exp))
		ctx.check(ok, 'derived-' + what, lambda: "%s: %s is not the one of the current matrices\ngot      %r\nexpected %r\nmatrices %r" % (where, what, got, exp, model))

	def independent(o, where):
		"""against the double precision reference, written independently"""
		ss = G.sif_ss(model)
		for nm, M in zip(('AZ', 'BZ', 'CZ', 'DZ'), ss):
			ctx.check(G.close(getattr(o, nm), M), 'derived-' + nm, lambda: "%s: %s is %r instead of %r" % (where, nm, getattr(o, nm), M))
		y = G.sif_sim(model, u)[0]
		ctx.step(u.shape[1])
		ctx.check(G.close(o.simulate(u), y), 'derived-simulate', lambda: "%s: simulate gives %r instead of %r" % (where, o.simulate(u), y))

	def spectrum():
		"""eigenvalues, or None when they are not separated enough to be followed"""
		A = G.sif_ss(model)[0]
		e = np.linalg.eig(A)[0]
		gap = min([abs(a - b) for k, a in enumerate(e) for b in e[:k]], default=1.)
		return e if gap > 5e-2 and min(abs(e)) > 5e-2 and np.linalg.cond(np.linalg.eig(A)[1]) < 50 and max(abs(e)) < 0.95 else None

	def wanted(what):
		if what == 'tfsens':
			return l + n + p + q <= 7
		if what in ('poles', 'lambda'):
			return spectrum() is not None
		return not (what == 'to_dTF' and (p, q) != (1, 1)) and not (what == 'msb' and sc['cls'] == 'SIF')

	def sens_reference(o, where):
		r = G.rs('c05s', len(where), sc['seed0'])
		e = spectrum()
		dZ = np.asarray(o.dZ)
		Sm = np.nan_to_num(o.dTFsensitivity()[1]) if wanted('tfsens') else None
		Pm = o.poleSensitivity(True)[2] if e is not None else None
		Pl = o.poleSensitivity(False)[2] if e is not None else None
		for _ in range(2):
			i, j = r.randint(l + n + p), r.randint(l + n + q)
			if e is None and not (Sm is not None and dZ[i, j]):
				continue
			h2, dl = sensitivity(model, l, n, i, j, e if e is not None else [])
			if Sm is not None and dZ[i, j] and rho(model) < 0.95:
				ctx.check(abs(Sm[i, j] - h2) < 1e-4 * (1 + abs(h2)), 'derived-tfsens', lambda: "%s: sensitivity of the transfer function to Z[%d,%d] is %r instead of %r\n%r" % (where, i, j, Sm[i, j], h2, model))
				ctx.probe('sensitivities verified')
			if e is not None:
				ctx.check(np.all(abs(np.asarray(Pl)[i, j] - dl) < 1e-3 * (1 + abs(dl))), 'derived-lambda', lambda: "%s: sensitivity of the poles to Z[%d,%d] is %r instead of %r\n%r" % (where, i, j, np.asarray(Pl)[i, j], dl, model))
				da = np.real(np.conj(e) * dl) / abs(e)
				ctx.check(np.all(abs(np.asarray(Pm)[i, j] - da) < 1e-3 * (1 + abs(da))), 'derived-poles', lambda: "%s: sensitivity of the moduli of the poles to Z[%d,%d] is %r instead of %r\n%r" % (where, i, j, np.asarray(Pm)[i, j], da, model))
				ctx.probe('pole sensitivities verified')

	def full(o, where, expensive=True):
		ref = fresh()
		for nm, M in zip(NAMES, model):
			got = np.array(getattr(o, nm), dtype=float)
			ctx.check(got.shape == M.shape and np.array_equal(got, np.array(M)), 'coefficients', lambda: "%s: matrix %s is %r instead of %r" % (where, nm, got, M))
		for what in QUERIES:
			if not wanted(what):
				continue
			if expensive or what not in EXPENSIVE:
				compare(attempt(o, what), what, where, ref, o.dZ)
		independent(o, where)
		if expensive:
			sens_reference(o, where)

	def faulted(fault, f):
		"""executes f with the fault; returns (result, exception, fired)"""
		if fault is None:
			try:
				return f(), None, False
			except Exception as e:
				return None, e, False
		if fault['kind'] == 'line':
			inj = faults.LineFault(fault['k'], fault['exc'])
		else:
			inj = faults.CallFault(kernels, fault['k'], {'LinAlgError': LinAlgError, 'MemoryError': MemoryError, 'ValueError': ValueError}[fault['exc']]("injected"))
		res = exc = None
		with inj:
			try:
				res = f()
			except BaseException as e:
				if isinstance(e, (Violation, SystemExit)) or type(e).__name__ == 'Hang':
					raise
				exc = e
		if inj.fired:
			ctx.fault("%s:%s" % (fault['kind'], fault['exc']))
		return res, exc, bool(inj.fired)

	for idx, op in enumerate(sc['ops']):
		where = "after operation %d (%r)" % (idx, {k: v for k, v in op.items() if k not in ('seed',)})
		if op['op'] == 'set':
			name = op['name']
			val = new_value(model, name, op, dims)
			newmodel = list(model)
			if name == 'Z':
				newmodel = [np.matrix(X).copy() for X in val]
				val = big(val)
			else:
				newmodel[NAMES.index(name)] = val.copy()
			singular = op['kind'] == 'singular' and name in ('J', 'Z') and l > 0
			if op['kind'] == 'shape':
				r = G.rs('c05s', op['seed'])
				# a size that cannot be broadcast to the right one
				val = np.matrix(r.uniform(-1, 1, (val.shape[0] + 2 + r.randint(2), val.shape[1] + 2 + r.randint(2))))
			given = val.copy()
			_, exc, fired = faulted(op['fault'], lambda: setattr(obj, name, val))
			ctx.event('set', name, op['kind'], type(exc).__name__ if exc else 'ok', G.digest(given))
			ctx.state(sc['cls'], 'set', name, op['kind'], type(exc).__name__ if exc else 'ok', sorted(computed))
			ctx.check(np.array_equal(val, given), 'argument-modified', lambda: "%s: the matrix given has been modified" % where)
			if exc is None:
				ctx.check(op['kind'] != 'shape', 'bad-size-accepted', lambda: "%s: a matrix of the wrong size is accepted for %s" % (where, name))
				ctx.check(not singular, 'singular-accepted', lambda: "%s: a singular J is accepted" % where)
				model = newmodel
				computed.clear()
				ctx.probe('assignments')
			else:
				if not fired and not (op['kind'] == 'shape' or singular):
					raise Violation('unexpected-error', "%s: a valid assignment raises %r" % (where, exc))
				if not fired and not isinstance(exc, (ValueError, LinAlgError, IndexError)):
					raise Violation('wrong-error', "%s: raises %r instead of ValueError or LinAlgError" % (where, exc))
				ctx.probe('failed assignments')
				full(copy.deepcopy(obj), where + " that failed (%r)" % exc, expensive=False)
			if op['after']:
				val += 1.           # the caller re-uses its matrix
			if op['look']:
				full(copy.deepcopy(obj), where, False)
		else:
			what = op['what']
			if what == 'msb' and sc['cls'] == 'SIF':
				what = 'Hzeta'
			if not wanted(what):
				continue
			res, exc, fired = faulted(op['fault'], lambda: query(obj, what, op['seed'], u))
			ctx.event('get', what, type(exc).__name__ if exc else G.digest([np.round(x, 6) + 0. for x in res]))
			ctx.state(sc['cls'], 'get', what, type(exc).__name__ if exc else 'ok', sorted(computed))
			if exc is None:
				compare(res, what, where, None, obj.dZ)
				computed.add(what)
			elif not fired:
				compare(exc, what, where, None, obj.dZ)
	full(obj, "at the end")
	if other is not None:
		f = build([X.copy() for X in G.sif(G.rs('c05', sc['seed0']), l, n, p, q, sparse=sc['sparse'])])
		ctx.check(np.array_equal(np.array(other.Z), np.array(f.Z)) and G.close(other.AZ, f.AZ), 'origin-changed', "the realization it was quantized from has changed")
