# coding: utf-8
"""C16: combinations and conversions of systems represent the right system.

Simulated: a pool of systems of all the classes of the library (state-spaces and transfer functions in double and multiprecision,
filters, realizations) and a history of operations drawn by the seed, whose results are operands of the following ones: sums,
differences, products, scalings, sub-systems, changes of basis, conversions; operands are used several times, with themselves,
after aborted and rejected operations.  Reference: each system is also followed by its impulse response, on which the same operations
are executed by convolution, independently of the library.
"""
import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C16'
RUNS = {'quick': 2000, 'thorough': 60000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 20
RULE = "One run: 2 to 4 systems, then 8 to 36 operations drawn by the seed (sum, difference, product, scaling, sub-system, change of basis, conversion, rejected operation), about a fifth of them aborted by an injected error and done again."
TIME_UNIT = "sampling periods of the impulse responses compared"
STATE_MEASURE = "abstract states (classes of the operands, operation, same operand twice or not, order, fault, outcome)"
REAL = ["matplotlib", "fixif.LTI (dSS, dTF, dSSmp, dTFmp, Filter)", "fixif.SIF.SIF, Realization", "fixif.Structures", "numpy, scipy, mpmath"]
STUBS = ["fixif.WCPG, fixif.FxP (unused here)", "slycot (simulated balanced reduction)", "matplotlib2tikz"]
SHRINK_LISTS = ('ops', 'objects')

T = 26
MAXPOOL = 8
OPS = {
	'dss': ['add', 'add', 'sub', 'sub', 'mul', 'mul', 'slice', 'slice', 'slice', 'variant', 'variant', 'transpose', 'basis', 'balanced', 'simplify', 'simplify', 'tf', 'mp', 'filter', 'close', 'close', 'bad', 'bad'],
	'dtf': ['variant', 'variant', 'near', 'near', 'neg', 'scale', 'rscale', 'addnum', 'raddnum', 'subnum', 'rsubnum', 'add', 'sub', 'rsub', 'mul', 'ss', 'ssobs', 'mp', 'filter', 'scipy', 'bode', 'close', 'close', 'bad'],
	'dssmp': ['add', 'sub', 'dss', 'tfmp', 'variant', 'bad'],
	'dtfmp': ['dtf', 'ssmp'],
	'filter': ['ofss', 'oftf', 'realize', 'coeffs'],
	'real': ['dss', 'tf', 'exact', 'quantize'],
}


def gen(rng, index, tier):
	objects = [{'type': rng.choice(['dss', 'dss', 'dtf', 'dtf', 'dssmp', 'dtfmp', 'filter']), 'n': rng.randint(1, 3), 'p': rng.choice([1, 1, 1, 2, 3]), 'q': rng.choice([1, 1, 1, 2, 3]), 'how': rng.randrange(6), 'gain': rng.choice([0, 0, 0, -1, -14, -36, -48, 8]), 'graded': rng.random() < .15, 'seed': rng.randrange(10 ** 6)}
		for _ in range(rng.randint(2, 4))]
	if rng.random() < 0.5:
		# same dimensions, so that they can be combined
		for o in objects:
			o['p'], o['q'] = objects[0]['p'], objects[0]['q']
	ops = []
	for _ in range(rng.randint(8, 36)):
		op = {'o': rng.randrange(MAXPOOL), 'o2': rng.randrange(MAXPOOL), 'what': rng.randrange(1000), 'seed': rng.randrange(10 ** 6), 'fault': None}
		if rng.random() < 0.2:
			op['fault'] = {'k': int(2 ** rng.uniform(0, 6)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		ops.append(op)
	return {'objects': objects, 'ops': ops, 'slycot': rng.random() < 0.8}


def simplify(sc):
	for i, r in enumerate(sc['objects']):
		for k in ('n', 'p', 'q'):
			if r[k] > 1:
				yield dict(sc, objects=sc['objects'][:i] + [dict(r, **{k: r[k] - 1})] + sc['objects'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])


# ---------------------------------------------------------------- models: impulse responses, p x q x T

def series(H1, H2):
	"""H1 after H2"""
	H = np.zeros((H1.shape[0], H2.shape[1], T), np.longdouble)
	for k in range(T):
		for i in range(k + 1):
			H[:, :, k] += H1[:, :, i] @ H2[:, :, k - i]
	return H


def constant(c, p=1, q=1):
	H = np.zeros((p, q, T), np.longdouble)
	H[:, :, 0] = c
	return H


def tf_response(num, den):
	"""the coefficients may be numbers of any kind"""
	num, den = [G.fr(x) for x in num], [G.fr(x) for x in den]
	a0 = den[0]
	num, den = [np.longdouble(float(x / a0)) + np.longdouble(float(x / a0 - G.fr(float(x / a0)))) for x in num], [np.longdouble(float(x / a0)) + np.longdouble(float(x / a0 - G.fr(float(x / a0)))) for x in den]
	u = np.zeros(T)
	u[0] = 1
	return G.tf_sim(num, den, u).reshape(1, 1, T)


def long(M):
	F = G.fmat(M)
	r, c = G.shape_of(M)
	return np.array([[np.longdouble(float(x)) + np.longdouble(float(x - G.fr(float(x)))) for x in row] for row in F], dtype=np.longdouble).reshape(r, c)


def response(t, o):
	"""impulse response of an object of the library, from its coefficients only"""
	if t in ('dss', 'dssmp'):
		return G.impulse(long(o.A), long(o.B), long(o.C), long(o.D), T)
	if t == 'dtf':
		return tf_response(np.asarray(o.num).ravel(), np.asarray(o.den).ravel())
	if t == 'dtfmp':
		return tf_response(list(o.num), list(o.den))
	if t == 'real':
		Z = [np.asarray(X, dtype=float) for X in o.JtoS]
		q = Z[8].shape[1]
		H = []
		for j in range(q):
			u = np.zeros((q, T))
			u[j, 0] = 1.
			H.append(G.sif_sim(Z, u)[0])
		return np.stack(H, axis=1)
	raise AssertionError(t)


class Ent:
	"""an object, its model, and its accuracy: the error is at most tol * max(unit, abs(H)).
	graded: the states have very different sizes"""
	def __init__(self, type_, obj, H, how, size, tol, unit=1., graded=False):
		self.type, self.obj, self.H, self.how, self.size, self.tol, self.unit, self.graded = type_, obj, H, how, size, tol, unit, graded

	@property
	def siso(self):
		return self.H.shape[:2] == (1, 1)


def run(sc, ctx):
	L = setup()
	import mpmath
	from fixif.LTI import dSS, dTF, dSSmp, dTFmp, Filter
	from fixif.SIF import Realization
	from fixif.Structures.Structure import iterStructuresAndOptions
	from sim import engines
	from matplotlib import pyplot as plt
	(engines.slycot_in if sc.get('slycot') else engines.slycot_out)(L)
	engines.SLYCOT.plan[:] = []
	engines.SLYCOT.on_call = None
	pool = []

	def make(s):
		r = G.rs('c16', s['seed'])
		t, n, p, q = s['type'], s['n'], s['p'], s['q']
		if t in ('dss', 'dssmp') or t == 'filter' and s['how'] >= 3:
			M = [np.matrix(X) for X in G.ss(r, n, p, q, rho=r.uniform(.1, .7))]
			if s['how'] == 1:
				M[3] = M[3] * 0.
			if s['how'] == 5:
				# sparse matrices
				for X in M[1:]:
					X[r.uniform(size=X.shape) < .5] = 0.
			if s['how'] in (2, 4):
				# states that are null, not used, or that only delay the inputs
				for _ in range(r.randint(1, 3)):
					i = r.randint(n)
					for X, k in [[(0, 0), (1, 0)], [(0, 1), (2, 1)], [(0, 0)], [(0, 1)], [(1, 0)], [(2, 1)]][r.randint(6)]:
						if k:
							M[X][:, i] = 0.
						else:
							M[X][i, :] = 0.
			g = 2. ** s.get('gain', 0)
			if r.randint(2):
				M[1], M[3] = M[1] * g, M[3] * g
			else:
				M[2], M[3] = M[2] * g, M[3] * g
			if s.get('graded') and t != 'filter':
				d = 2. ** r.randint(-50, 51, n)
				M[0], M[1], M[2] = np.matrix(np.diag(1 / d)) * M[0] * np.matrix(np.diag(d)), np.matrix(np.diag(1 / d)) * M[1], M[2] * np.matrix(np.diag(d))
			H = G.impulse(*M, T)
			if t == 'filter':
				return Filter(A=M[0], B=M[1], C=M[2], D=M[3], stable=True), H
			return (dSS if t == 'dss' else dSSmp)(*M), H
		num, den = G.filter_poles_tf(r, n, 0.7)
		if s['how'] == 1:
			num[0] = 0.
		if s['how'] == 2 and t == 'dtf':
			num = num[:max(1, n - 1)]                   # shorter numerator
		if s['how'] == 3 and t == 'dtf':
			num = num + [float(r.uniform(-1, 1))]       # longer numerator
		a0 = [1., 2., -0.5, 5., 1., [1 + 2. ** -30, 1 - 2. ** -24, 1 + 2. ** -44, 2. ** -60][r.randint(4)]][s['how']]
		num, den = [x * a0 * 2. ** s.get('gain', 0) for x in num], [x * a0 for x in den]
		H = tf_response(num, den)
		if t == 'dtf':
			return dTF(np.matrix(num), np.matrix(den)), H
		if t == 'filter':
			return Filter(num=np.matrix(num), den=np.matrix(den), stable=True), H
		mp = [mpmath.matrix([[mpmath.mpf(x)] for x in X]) for X in (num, den)]
		return dTFmp(*mp), H

	def verify(t, o, H, tol, where, unit=1.):
		if t == 'filter':
			ctx.check((o.p, o.q) == H.shape[:2] and bool(o.isSISO()) == (H.shape[:2] == (1, 1)), 'dimensions', lambda: "%s: %r outputs and %r inputs, SISO %r, instead of %r" % (where, o.p, o.q, o.isSISO(), H.shape[:2]))
			return
		R = response(t, o)
		ctx.check(R.shape == H.shape, 'dimensions', lambda: "%s: gives a system of %r outputs and inputs instead of %r" % (where, R.shape[:2], H.shape[:2]))
		if t in ('dtf', 'dtfmp'):
			nn, nd = (len(np.ravel(X)) if t == 'dtf' else X.rows * X.cols for X in (o.num, o.den))
			if nn <= nd:
				ctx.check(o.order == nd - 1, 'dimensions', lambda: "%s: order %r with %d coefficients for the denominator" % (where, o.order, nd))
		s = max(unit, float(abs(H).max())) or 1.
		if t in ('dtf', 'dtfmp'):
			# effect of the rounding of the coefficients of the numerator
			num, den = [[float(x) for x in (np.ravel(X).tolist() if t == 'dtf' else list(X))] for X in (o.num, o.den)]
			g = float(abs(tf_response([1.], den)).sum()) * (max(map(abs, num)) / s + max(map(abs, den)) * float(abs(H).max()) / s)
			tol = max(tol, min(1e-15 * g, 1e-4))
		ctx.check(bool(np.all(np.isfinite(R))) and float(abs(R - H).max()) <= tol * s, 'wrong-system', lambda: "%s: the impulse response of the result differs from that of the expected system (error %r, scale %r)" % (where, float(abs(R - H).max()), s))
		ctx.step(T)
		return tol

	def size_of(t, o):
		if t in ('dss', 'dssmp'):
			return o.n
		if t in ('dtf', 'dtfmp'):
			return o.order
		if t == 'filter':
			return o.order
		return o.n + o.l

	def put(t, o, H, how, tol, unit=1., graded=False):
		n = size_of(t, o)
		if n > 10 or n < 1 or float(abs(H).max()) > 1e3:
			return
		if t in ('dtf', 'dtfmp') and float(abs(tf_response([1.], [float(x) for x in (np.ravel(o.den).tolist() if t == 'dtf' else list(o.den))])).max()) > 1e5:
			return              # (unstable, even if its numerator is null)
		if len(pool) >= MAXPOOL:
			pool.pop(0)
		pool.append(Ent(t, o, H, how, n, tol, unit, graded))

	def rejected(f, where):
		"""an operation on incompatible operands: an exception, never a system"""
		try:
			res = f()
		except Exception:
			return
		raise Violation('not-rejected', "%s: gives %r" % (where, res))

	for s in sc['objects']:
		o, H = make(s)
		u = float(abs(H).max())
		verify(s['type'], o, H, 1e-12, "creation of %r" % (s,), u)
		put(s['type'], o, H, 'created', 1e-12, u, bool(s.get('graded')) and s['type'] in ('dss', 'dssmp'))

	shown = []

	def drawing():
		"""the curves drawn in the current figure: for each axes, list of (x, y)"""
		if not plt.get_fignums():
			return None
		return [[(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in ax.get_lines()] for ax in plt.gcf().axes]

	def check_bode(axes, wmin, num, den, where):
		"""the magnitude (dB) and the phase (degrees) of the transfer function are drawn"""
		ctx.check(axes is not None and len(axes) == 2, 'drawing', lambda: "%s: %r" % (where, 'nothing shown' if axes is None else '%d drawings' % len(axes)))
		num, den = [np.array([float(x) for x in X]) for X in (num, den)]
		for k, curves in enumerate(axes):
			curves = [c for c in curves if len(c[0]) > 2]
			ctx.check(len(curves) == 1, 'drawing', lambda: "%s: %d curves" % (where, len(curves)))
			w, y = curves[0]
			ctx.check(len(w) > 50 and abs(w[0] - wmin) < 1e-9 and abs(w[-1] - np.pi) < 1e-3 and bool(np.all(np.diff(w) > 0)), 'drawing', lambda: "%s: drawn from %r to %r (%d points)" % (where, w[0], w[-1], len(w)))
			z = np.exp(-1j * w)
			n, d = (sum(c * z ** i for i, c in enumerate(X)) for X in (num, den))
			ok = (abs(n) > 1e-7 * sum(abs(num)) + 1e-9) & (abs(d) > 1e-7 * sum(abs(den)))
			if k == 0:
				ref = 20 * np.log10(abs(n / d), where=ok, out=np.zeros(len(w)))
				err = abs(y - ref)
			else:
				ref = np.degrees(np.angle(n / np.where(d == 0, 1, d)))
				err = abs((y - ref + 180) % 360 - 180)
			err = np.where(ok, err, 0)
			i = int(err.argmax())
			ctx.check(bool(np.all(np.isfinite(y[ok]))) and err[i] < 1e-3, 'drawing', lambda: "%s: %s %r drawn at the frequency %r instead of %r" % (where, ['gain (dB)', 'phase'][k], y[i], w[i], ref[i]))

	def conversion(o):
		"""accuracy of the characteristic polynomials of A and A-B*C, computed from their eigenvalues"""
		A, B, C = (np.asarray(X, dtype=float) for X in (o.A, o.B, o.C))
		return min(1e-8, 1e-14 * (1 + np.linalg.norm(A) + np.linalg.norm(B) * np.linalg.norm(C)) ** o.n)

	def comparison(e, e2, r):
		"""(function that compares, expected answer: True, False, or None when both are possible)"""
		o, o2, t = e.obj, e2.obj, e.type
		if e2.type != t or e.H.shape != e2.H.shape:
			return None
		if t == 'dss':
			# (documented: the comparison is on D, C*B, C*A*B and C*A*A*B)
			d = max(float(np.linalg.norm(np.asarray(e.H[:, :, k] - e2.H[:, :, k], dtype=float))) for k in range(4))
			eps = [None, 1e-2, .5][r.randint(3)]
			lim = eps or 1e-5
			noise = 100 * (e.tol + e2.tol) * max(e.unit, e2.unit, float(abs(e.H).max()), float(abs(e2.H).max()))
			want = True if d + noise < lim else False if d - noise > lim else None
			return (lambda: o.assert_close(o2) if eps is None else o.assert_close(o2, eps=eps)), want
		if r.randint(2):
			k = r.randint(3)
			# the same coefficients, in another object (with more coefficients, null, for some of them)
			x = dTF(np.matrix(np.ravel(o.num).tolist() + [0.] * k), np.matrix(np.ravel(o.den).tolist() + [0.] * k))
			return ((lambda: o.assert_close(x)) if r.randint(2) else (lambda: x.assert_close(o))), True
		N = max(o.order, o2.order) + 1
		v = [np.ravel(X).tolist() + [0.] * (N - X.size) for X in (o.num, o.den, o2.num, o2.den)]
		if r.randint(2):
			# the same denominator
			o2 = dTF(np.matrix(v[0][:1] + [x + .5 * r.uniform(-1, 1) for x in v[0][1:]]), np.matrix(v[1])) if r.randint(2) else dTF(np.matrix(v[0]), np.matrix(v[1][:1] + [x + .5 * r.uniform(-1, 1) for x in v[1][1:]]))
			v[2:] = [np.ravel(X).tolist() for X in (o2.num, o2.den)]
		d = max(np.linalg.norm(np.subtract(v[0], v[2])), np.linalg.norm(np.subtract(v[1], v[3])))
		eps = [None, 1e-2, 1.][r.randint(3)]
		lim = eps or 1e-7
		want = True if d < lim * .9 else False if d > lim * 1.1 else None
		return (lambda: o.assert_close(o2) if eps is None else o.assert_close(o2, eps=eps)), want

	def operation(op, e, e2):
		"""(name, function, type of the result, model of the result, loss of accuracy), or None"""
		o, o2, H, H2, t = e.obj, e2.obj, e.H, e2.H, e.type
		what = OPS[t][op['what'] % len(OPS[t])]
		if e.graded and what in ('basis', 'balanced', 'tf', 'tfmp', 'filter', 'close'):
			return None
		r = G.rs('c16o', op['seed'])
		same = e2.type == t and H2.shape == H.shape
		c = [int(r.randint(-3, 4)), float(r.uniform(-2, 2)), 0, 0., 1, -1., 2][r.randint(7)]
		tol = max(e.tol, e2.tol) * 4
		if what == 'close':
			x = comparison(e, e2, r)
			return (what, x[0], 'close', x[1], 0) if x else None
		if what == 'bad':
			if t == 'dtf':
				k = r.randint(5)
				x = ["2", None, [1.], o.num, pool[0].obj if pool[0].type != 'dtf' else (1.,)][k]
				return what, [lambda: o * x, lambda: o + x, lambda: o - x][r.randint(3)], 'bad', None, 0
			if e2.type != t:
				return None
			fs = []
			if t in ('dss', 'dssmp'):
				# matrices that do not agree
				M = [np.array([[float(x) for x in row] for row in G.fmat(X)]).reshape(G.shape_of(X)) for X in (o.A, o.B, o.C, o.D)]
				i, ax = r.randint(4), r.randint(2)
				M[i] = np.concatenate([M[i], M[i].take([0], axis=ax)], axis=ax) if r.randint(2) or M[i].shape[ax] < 2 else M[i].take(range(M[i].shape[ax] - 1), axis=ax)
				C = dSS if t == 'dss' else dSSmp
				fs.append(lambda: C(*[np.matrix(X) for X in M]))
			if t == 'dss' and o.q != o2.p:
				fs.append(lambda: o * o2)
			if H.shape != H2.shape:
				fs += [lambda: o + o2, lambda: o - o2]
			if t == 'dss' and not e.siso:
				fs.append(o.to_dTF)
			if t == 'dss':
				fs.append(lambda: o.similarity(np.matrix(np.eye(o.n + 1))))
			if not fs:
				return None
			return what, fs[r.randint(len(fs))], 'bad', None, 0
		if t == 'dss':
			if what in ('add', 'sub'):
				if e2.type != 'dss' or not same:
					return None
				return (what, lambda: o + o2, 'dss', H + H2, tol) if what == 'add' else (what, lambda: o - o2, 'dss', H - H2, tol)
			if what == 'mul':
				if e2.type != 'dss' or o.q != o2.p:
					return None
				return what, lambda: o * o2, 'dss', series(H, H2), tol * 4
			if what in ('variant', 'transpose'):
				# another system built from the matrices of this one
				M = [o.A, o.B, o.C, o.D]
				if what == 'transpose':
					return what, lambda: dSS(o.A.T, o.C.T, o.B.T, o.D.T), 'dss', H.transpose(1, 0, 2), tol
				i = r.randint(1, 4)
				X = np.matrix(M[i]).copy()
				k = r.randint(5)
				if k == 0:
					X[r.randint(X.shape[0]), r.randint(X.shape[1])] += r.choice([-1., .5, 2.])
				elif k == 1:
					X[r.randint(X.shape[0]), :] *= r.choice([-1., 0., .5])
				elif k == 2:
					X[:, r.randint(X.shape[1])] *= r.choice([-1., 0., .5])
				elif k == 3:
					X[r.uniform(size=X.shape) < .5] = 0.
				else:
					X = -X
				M[i] = X
				return what, lambda: dSS(*M), 'dss', G.impulse(*[long(Y) for Y in M], T), 1e-12
			if what == 'slice':
				k = r.randint(9)
				i, j = r.randint(o.p), r.randint(o.q)
				li = [int(x) for x in r.permutation(o.p)[:r.randint(1, o.p + 1)]]
				lj = [int(x) for x in r.permutation(o.q)[:r.randint(1, o.q + 1)]]
				if k == 0:
					return what, lambda: o[i:i + 1, j:j + 1], 'dss', H[i:i + 1, j:j + 1], tol
				if k == 1:
					return what, lambda: o[:, lj], 'dss', H[:, lj], tol
				if k == 2:
					return what, lambda: o[li, :], 'dss', H[li], tol
				if k == 3:
					return what, lambda: o[i:, :j + 1], 'dss', H[i:, :j + 1], tol
				if k == 4:
					return what, lambda: o[::-1, ::-1], 'dss', H[::-1, ::-1], tol
				if k == 5:
					return what, lambda: o[i, j], 'dss', H[i:i + 1, j:j + 1], tol
				if k == 6:
					i2, j2 = i - o.p if r.randint(2) else i, j - o.q if r.randint(2) else j
					return what, lambda: o[i2, j2], 'dss', H[i:i + 1, j:j + 1], tol
				if k == 7:
					return what, lambda: o[np.int64(i), j], 'dss', H[i:i + 1, j:j + 1], tol
				return what, lambda: o[i - o.p:, :], 'dss', H[i:], tol
			if what == 'basis':
				M = np.matrix(np.eye(o.n) + .3 * r.uniform(-1, 1, (o.n, o.n))) if r.randint(3) else np.matrix(np.eye(o.n)[r.permutation(o.n)] * 2.)
				if np.linalg.cond(M) > 30:
					return None
				# (in place: the entries of the pool that are this very object keep their model)
				return what, lambda: o.similarity(M), 'inplace', H, tol * 30
			if what == 'balanced':
				if not sc.get('slycot'):
					return what, o.balanced, 'bad', None, 0
				if max(abs(np.linalg.eigvals(np.asarray(o.A, dtype=float)))) > .98 or float(abs(H[:, :, 1:]).max()) < 1e-4 * max(1., float(abs(H).max())):
					return None
				if r.randint(4) == 0:
					# the solver fails
					engines.SLYCOT.plan[:] = [['ValueError', 'ArithmeticError'][r.randint(2)]]
					return what, o.balanced, 'bad', None, 0
				return what, o.balanced, 'balanced', H, max(tol, 1e-6)
			if what == 'tf':
				return (what, o.to_dTF, 'dtf', H, max(tol, conversion(o))) if e.siso and o.n <= 7 else None
			if what == 'simplify':
				return what, o.simplify, 'dss', H, tol
			if what == 'mp':
				return what, o.to_dSSmp, 'dssmp', H, tol
			k = r.randint(2)
			return what, (lambda: Filter(ss=o, stable=True)) if k else (lambda: Filter(A=o.A, B=o.B, C=o.C, D=o.D)), 'filter', H, tol
		if t == 'dtf' and what == 'near':
			# combined with a system whose coefficients are almost the same
			if e.size > 5:
				return None
			v = [np.ravel(o.num).tolist(), np.ravel(o.den).tolist()]
			for _ in range(r.randint(1, 3)):
				i, d = r.randint(2), 2. ** -r.randint(18, 40)
				k = r.randint(1, len(v[i])) if i and len(v[i]) > 1 else r.randint(len(v[i]))
				v[i][k] *= 1 + d
			if r.randint(3) == 0:
				v[0] = [x + float(r.uniform(-1, 1)) for x in v[0]]
			Hn = tf_response(*v)
			x = dTF(np.matrix(v[0]), np.matrix(v[1]))
			k = r.randint(4)
			if k == 3:
				return what, lambda: o * x, 'dtf', series(H, Hn), tol
			return what, [lambda: o + x, lambda: o - x, lambda: x - o][k], 'dtf', [H + Hn, H - Hn, Hn - H][k], tol
		if t == 'dtf' and what == 'variant':
			# another system with the same numerator or denominator
			v = [np.ravel(o.num).tolist(), np.ravel(o.den).tolist()]
			k = r.randint(5)
			if k == 0:
				v[0] = [x + .5 * r.uniform(-1, 1) for x in v[0]]
			elif k == 1:
				v[0][r.randint(len(v[0]))] = 0.
			elif k == 2:
				v[0] = [float(x) for x in r.uniform(-1, 1, r.randint(1, 5))]
			elif k == 3:
				v[0] = [x * (-2.) ** r.randint(-1, 2) for x in v[0]]
			else:
				v = [[-x for x in v[0]], [x * r.choice([-1., 2.]) for x in v[1]]] if r.randint(2) else [[x * (-1) ** i for i, x in enumerate(y)] for y in v]
			return what, lambda: dTF(np.matrix(v[0]), np.matrix(v[1])), 'dtf', tf_response(*v), 1e-12
		if t == 'dtf':
			if what == 'neg':
				return what, lambda: -o, 'dtf', -H, tol
			if what in ('scale', 'rscale'):
				return what, (lambda: o * c) if what == 'scale' else (lambda: c * o), 'dtf', H * c, tol
			if what in ('addnum', 'raddnum'):
				return what, (lambda: o + c) if what == 'addnum' else (lambda: c + o), 'dtf', H + constant(c), tol
			if what == 'subnum':
				return what, lambda: o - c, 'dtf', H - constant(c), tol
			if what == 'rsubnum':
				return what, lambda: c - o, 'dtf', constant(c) - H, tol
			if what in ('add', 'sub', 'mul', 'rsub'):
				if e2.type != 'dtf' or e.size + e2.size > 10:
					return None
				return {'add': (what, lambda: o + o2, 'dtf', H + H2, max(tol, 1e-12)), 'sub': (what, lambda: o - o2, 'dtf', H - H2, max(tol, 1e-12)),
					'rsub': (what, lambda: o.__rsub__(o2), 'dtf', H2 - H, max(tol, 1e-12)), 'mul': (what, lambda: o * o2, 'dtf', series(H, H2), max(tol, 1e-12))}[what]
			if what == 'ss':
				return what, o.to_dSS, 'dss', H, tol * 4
			if what == 'ssobs':
				return what, lambda: o.to_dSS(form='obs'), 'dss', H, tol * 4
			if what == 'mp':
				return what, o.to_dTFmp, 'dtfmp', H, tol
			if what == 'scipy':
				def f():
					S = o.toTransferFunction()
					return dTF(np.matrix(S.num), np.matrix(S.den)) if len(np.ravel(S.num)) == len(np.ravel(S.den)) else None
				return what, f, 'scipy', H, tol
			if what == 'bode':
				wmin = [1e-3, 1e-2, .5, None][r.randint(4)]
				tikz = bool(r.randint(2))
				kw = {} if wmin is None else {'wmin': wmin}

				def f():
					plt.close('all')
					shown.clear()
					show, plt.show = plt.show, lambda *a, **k: shown.append(drawing())
					try:
						code = o.bode(tikz=tikz, **kw)
					finally:
						plt.show = show
					return code, (drawing() if tikz else shown[0] if shown else None), wmin or 1e-3
				return what, f, 'bode', (np.ravel(o.num), np.ravel(o.den)), tol
			return what, (lambda: Filter(tf=o, stable=True)) if r.randint(2) else (lambda: Filter(num=o.num, den=o.den)), 'filter', H, tol
		if t == 'dssmp' and what == 'variant':
			M = [o.A.copy(), o.B.copy(), o.C.copy(), o.D.copy()]
			i = r.randint(1, 4)
			a, b = r.randint(M[i].rows), r.randint(M[i].cols)
			M[i][a, b] = [mpmath.mpf(0), -M[i][a, b], M[i][a, b] + 1, M[i][a, b] / 2][r.randint(4)]
			return what, lambda: dSSmp(*M), 'dssmp', G.impulse(*[long(Y) for Y in M], T), 1e-12
		if t == 'dssmp':
			if what in ('add', 'sub'):
				if e2.type not in ('dssmp', 'dss') or H.shape != H2.shape:
					return None
				return (what, lambda: o + o2, 'dssmp', H + H2, tol) if what == 'add' else (what, lambda: o - o2, 'dssmp', H - H2, tol)
			if what == 'dss':
				return what, o.to_dSS, 'dss', H, tol
			if not e.siso or o.n > 4:
				return None
			A = np.array([[float(o.A[i, j]) for j in range(o.n)] for i in range(o.n)])
			ev = np.linalg.eig(A)
			gap = min([abs(a - b) for i, a in enumerate(ev[0]) for b in ev[0][:i]], default=1)
			if np.linalg.cond(ev[1]) > 1e3 or gap < 1e-4:
				return None             # (the conversion needs the eigenvectors)
			prec = int(r.choice([64, 100, 200]))
			return what, lambda: o.to_dTFmp(prec), 'dtfmp', H, max(tol, 1e-9)
		if t == 'dtfmp':
			return (what, o.to_dTF, 'dtf', H, tol) if what == 'dtf' else (what, o.to_dSSmp, 'dssmp', H, tol)
		if t == 'filter':
			if what == 'ofss':
				return what, lambda: o.dSS, 'dss', H, tol * 4
			if what == 'oftf':
				if not e.siso:
					return what, lambda: o.dTF, 'bad', None, 0
				return what, lambda: o.dTF, 'dtf', H, max(tol, conversion(o.dSS))
			if what == 'coeffs':
				return what, lambda: Filter(ss=o.dSS), 'filter', H, max(tol, 1e-8)
			lst = [(st, oo or {}) for st, oo in iterStructuresAndOptions(o) if (oo or {}).get('form') != 'balanced' and not st.name.startswith('Li-')]
			if not lst or e.size > 5:
				return None
			st, oo = lst[r.randint(len(lst))]
			if st.name.startswith('rho') and oo.get('scaling'):
				return None             # (C14)
			return what + ' ' + st.name, lambda: st.makeRealization(o, **oo), 'real', H, max(tol, 1e-7)
		if what == 'dss':
			return what, lambda: o.dSS, 'dss', H, tol * 8
		if what == 'tf':
			return (what, o.to_dTF, 'dtf', H, max(tol, 1e-7)) if e.siso and o.n <= 6 else None
		if what == 'exact':
			return what, o.to_dSSexact, 'dssmp', H, tol * 4
		w = int(r.randint(36, 44))
		return what, lambda: o.quantize(w), 'real', H, max(tol, 2. ** (24 - w))

	def unit_of(what, e, e2, H):
		"""size of the numbers that the accuracy of the result is relative to"""
		u, u2 = (max(x.unit, float(abs(x.H).max())) for x in (e, e2))
		if what in ('add', 'sub', 'rsub'):
			return max(u, u2)
		if what == 'near':
			return max(u, u * u, float(abs(H).max()))
		if what == 'mul':
			return u * u2
		if what in ('slice', 'simplify', 'mp', 'neg', 'transpose', 'ss', 'ssobs', 'dss', 'dtf', 'ssmp', 'filter', 'coeffs'):
			return u
		if what in ('scale', 'rscale'):
			return min(u * 2, max(u, float(abs(H).max())))
		if what == 'variant':
			return max(u, float(abs(H).max()))
		return max(1., u)           # (conversions whose accuracy is absolute)

	for idx, op in enumerate(sc['ops']):
		if not pool:
			break
		e = pool[op['o'] % len(pool)]
		e2 = pool[op['o2'] % len(pool)]
		c = operation(op, e, e2)
		if c is None:
			continue
		what, f, ty, H, tol = c
		where = "operation %d (%s on a %s (%s) and a %s (%s)%s)" % (idx, what, e.type, e.how, e2.type, e2.how, ', fault %r' % op['fault'] if op['fault'] else '')
		ctx.probe('%s: %s' % (e.type, what))
		if ty == 'close':
			try:
				f()
				got = True
			except AssertionError:
				got = False
			ctx.check(H is None or got == H, 'comparison', lambda: "%s: says that the systems are %s" % (where, 'close' if got else 'different'))
			ctx.event('close', H, got)
			ctx.state(e.type, what, H)
		elif ty == 'bad':
			rejected(f, where)
			engines.SLYCOT.plan[:] = []
			ctx.event('rejected', what)
			ctx.state(e.type, what, e2.type, 'rejected')
		else:
			done = False
			fired = False
			if op['fault']:
				lf = faults.LineFault(op['fault']['k'], op['fault']['exc'])
				with lf:
					try:
						res = f()
						done = not lf.fired
					except (faults.InjectedMemoryError, faults.InjectedInterrupt):
						if not lf.fired:
							raise
				if lf.fired:
					fired = True
					ctx.fault('abort: ' + op['fault']['exc'])
					# nothing has changed
					for x in pool:
						verify(x.type, x.obj, x.H, x.tol, where + ": after the abort, a %s (%s)" % (x.type, x.how), x.unit)
			if not done:
				try:
					res = f()
				except (ValueError, ArithmeticError) as ex:
					# a numerator that is null, a system without state: not defined
					if ty in ('bode', 'balanced') or float(abs(H).max()) > 1e-9 and e.size >= 1 and ty != 'real':
						raise Violation('unexpected-error', "%s: raises %r" % (where, ex))
					ctx.event('undefined', what)
					continue
			ctx.event(what, e.type, e2.type, fired)
			ctx.state(e.type, what, e2.type, e is e2, e.H.shape[:2], e.size, fired)
			if ty == 'inplace':
				ctx.check(res is None or res is e.obj, 'result', lambda: "%s: returns %r" % (where, res))
				for x in pool:
					if x.obj is e.obj:
						x.tol = tol
						# (the states are mixed up)
						A, B, C = (abs(np.asarray(X, dtype=float)) for X in (x.obj.A, x.obj.B, x.obj.C))
						x.unit = max(x.unit, C.max() * B.max() * max(np.linalg.norm(np.linalg.matrix_power(A, k)) for k in range(6)))
					elif x.type == 'filter' and getattr(x.obj, 'dSS', None) is e.obj:
						x.tol = max(x.tol, tol)
				res = None
			elif ty == 'bode':
				check_bode(res[1], res[2], H[0], H[1], where)
				plt.close('all')
			elif ty == 'balanced':
				verify('dss', res, H, tol, where)
				# both Gramians are diagonal, and equal
				A, B, C = (np.asarray(X, dtype=float) for X in (res.A, res.B, res.C))
				Wc, Wo = engines.ORIG['lyap'](A, B @ B.T), engines.ORIG['lyap'](A.T, C.T @ C)
				g = np.diag(np.diag(Wc))
				x = max(abs(Wc - Wo).max(), abs(Wc - g).max()) if res.n else 0.
				ctx.check(res is not e.obj and x < 1e-4 * max(1e-6, abs(g).max(initial=0)), 'not-balanced', lambda: "%s: the Gramians of the balanced system are\n%r\n%r" % (where, Wc, Wo))
				put('dss', res, H, what, tol)
			elif ty == 'scipy':
				if res is not None:
					verify('dtf', res, H, tol, where, e.unit)
			else:
				u = unit_of(what, e, e2, H)
				tol = max(tol, verify(ty, res, H, tol, where, u) or 0)
				if tol <= 1e-5:
					put(ty, res, H, what, tol, u, e.graded or e2.graded and what in ('add', 'sub', 'mul'))
		for x in {id(e): e, id(e2): e2}.values():
			verify(x.type, x.obj, x.H, x.tol, where + ": its operand, a %s (%s)," % (x.type, x.how), x.unit)

	for x in pool:
		verify(x.type, x.obj, x.H, x.tol, "at the end, a %s (%s)" % (x.type, x.how), x.unit)
