# coding: utf-8
"""C02: the caller's multiprecision working precision is never changed.

Simulated: a caller that sets the working precision of mpmath (directly, by decimal places, in nested contexts), suspends
generators of the library, and makes calls that succeed, that are rejected, or that are aborted: at any line of the library,
at any call of a multiprecision kernel (eigenvalues, inverse, sums...), in the gain computation or in numpy's kernels.
Invariant after every call: the precision is the one that the caller has set.  The results that depend on a requested
precision (transfer function computed on `prec` bits, most significant bits of values next to a power of two) are compared
with exact rational arithmetic, whatever the precision of the caller.
"""
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup, lib_modules

PROP = 'C02'
RUNS = {'quick': 2500, 'thorough': 60000}
BUDGET = {'quick': 200, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 6 to 30 operations drawn by the seed: change of the caller's precision (prec, dps, nested contexts), a call of the library (45 kinds), a step of a suspended generator; half of the calls are aborted by an injected error or are rejected."
TIME_UNIT = "no clock is involved; simulated steps are the calls"
STATE_MEASURE = "abstract states (call, precision of the caller, depth of the contexts, fault, outcome)"
REAL = ["fixif.func_aux (multiprecision functions, MPFMatrix)", "fixif.LTI (dSSmp, dTFmp, dSS, dTF, Filter)", "fixif.SIF (SIF, Realization, word-lengths)", "fixif.Structures", "mpmath"]
STUBS = ["fixif.WCPG (reference summation)", "Sollya (simulated objects)"]

PRECS = [1, 2, 5, 10, 24, 53, 53, 64, 113, 300, 1000]
CALLS = ['fadd', 'fsub', 'fmul', 'lt_inverse', 'p2mpf', 'to_numpy', 'representation', 'mrepresentation', 'poly_product', 'poly_mult',
	'MPF ctor', 'MPF exact', 'MPF ops', 'MPF inv', 'MPF numpy', 'MPF close', 'to_sollya',
	'dSSmp ctor', 'dSSmp.to_dSS', 'dSSmp.to_dTFmp', 'dSSmp.to_dTFmp', 'dSSmp.to_dTFmp', 'dSSmp.to_dTFmp', 'dSSmp add', 'dSSmp sub', 'dSSmp.simulate', 'dSSmp random', 'dTFmp ctor', 'dTFmp.to_dSSmp', 'dTFmp.to_dTF', 'dTFmp random',
	'dSS.to_dSSmp', 'dTF.to_dTFmp', 'dSS.WCPG', 'dSS.H2norm', 'to_dSSexact', 'MSB', 'MSB', 'MSB', 'uniformWL', 'uniformWL', 'optimalWL', 'optimalWL', 'quantize', 'simulate', 'algorithm', 'implementC', 'realize', 'sens', 'delta',
	'MSB pow2', 'MSB pow2', 'wtilde pow2']
BAD = ['fadd', 'fmul', 'lt_inverse', 'p2mpf', 'to_numpy', 'representation', 'poly_product', 'poly_mult', 'MPF ctor', 'MPF exact', 'MPF inv', 'dSSmp ctor', 'dSSmp.to_dTFmp', 'dSSmp.to_dTFmp', 'dSSmp.to_dTFmp', 'dSSmp add', 'dSSmp.simulate', 'dTFmp ctor',
	'MSB', 'MSB', 'uniformWL', 'optimalWL', 'simulate']


def gen(rng, index, tier):
	ops = []
	for _ in range(rng.randint(6, 30)):
		k = rng.choices(['prec', 'dps', 'push', 'pop', 'call', 'bad', 'iter', 'next'], [2, 1, 2, 1, 14, 4, 1, 2])[0]
		op = {'op': k, 'seed': rng.randrange(10 ** 6)}
		if k in ('prec', 'push'):
			op['v'] = rng.choice(PRECS)
		elif k == 'dps':
			op['v'] = rng.choice([1, 5, 15, 50, 200])
		elif k in ('call', 'bad'):
			op['what'] = rng.choice(CALLS if k == 'call' else BAD)
			op['n'] = rng.choice([1, 2, 2, 3, 4])
			op['p'] = rng.choice([1, 1, 2])
			op['q'] = rng.choice([1, 1, 2])
			op['want'] = rng.choice([20, 53, 64, 64, 100, 200, 400])
			op['fault'] = None
			if k == 'call' and rng.random() < 0.45:
				x = rng.choice(['line', 'line', 'line', 'call', 'call', 'wcpg'])
				op['fault'] = {'kind': x, 'k': int(2 ** rng.uniform(0, 7)) - 1 if x == 'line' else rng.choice([0, 0, 0, 1, 2, 5]), 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'] if x == 'line' else ['ValueError', 'ZeroDivisionError', 'NoConvergence', 'MemoryError', 'KeyboardInterrupt'])}
		elif k in ('iter', 'next'):
			op['k'] = rng.randrange(3)
			op['kind'] = rng.choice(['dSSmp', 'dTFmp', 'realizations', 'random_filter'])
		ops.append(op)
	return {'ops': ops}


def simplify(sc):
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])
		for k in ('n', 'p', 'q'):
			if op.get(k, 1) > 1:
				yield dict(sc, ops=sc['ops'][:i] + [dict(op, **{k: op[k] - 1})] + sc['ops'][i + 1:])


class KernelFault:
	"""the k-th call, by the library, of one of the kernels of mpmath, numpy or scipy raises"""
	MP = ['eig', 'inverse', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'nsum', 'zeros', 'matrix', 'log', 'ceil', 'floor', 'power', 'almosteq', 'isnan', 'mpf']

	def __init__(self, k, exc):
		self.k, self.exc, self.count, self.fired, self.undo = k, exc, 0, None, []

	def wrap(self, f, name):
		def g(*a, **kw):
			import sys
			# only the calls made by the library are counted
			fr = sys._getframe(1)
			if self.fired is None and fr.f_globals.get('__name__', '').startswith('fixif'):
				if self.count >= self.k:
					h = fr
					while h is not None:
						fn = h.f_code.co_filename
						if fn in faults.SHIELD and h.f_lineno in faults.SHIELD[fn]:
							return f(*a, **kw)
						h = h.f_back
					self.fired = name
					raise self.exc
				self.count += 1
			return f(*a, **kw)
		return g

	def __enter__(self):
		import mpmath
		for name in self.MP:
			f = getattr(mpmath, name)
			if isinstance(f, type):
				continue          # (mpf, matrix are classes: instances are tested against them)
			g = self.wrap(f, name)
			for m in [mpmath] + list(lib_modules()):
				for k, v in list(vars(m).items()):
					if v is f or (getattr(v, '__func__', None) is not None and getattr(f, '__func__', None) is getattr(v, '__func__', None)):
						self.undo.append((m, k, v))
						setattr(m, k, g)
			if name in vars(mpmath.mp):
				old = vars(mpmath.mp)[name]
				self.undo.append((mpmath.mp, name, old))
			else:
				self.undo.append((mpmath.mp, name, None))
			setattr(mpmath.mp, name, g)
		return self

	def __exit__(self, *a):
		for m, k, v in reversed(self.undo):
			if v is None:
				delattr(m, k)
			else:
				setattr(m, k, v)
		return False


def tf_exact(A, B, C, D):
	"""exact transfer function of a SISO state-space (Faddeev-Le Verrier), leading coefficient 1: (num, den), descending powers"""
	n = len(A)
	den = [Fraction(1)]
	I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
	M = [[Fraction(0)] * n for _ in range(n)]
	num = [D]
	c = Fraction(1)
	for k in range(1, n + 1):
		AM = G.fmul(A, M) if n else M
		M = [[AM[i][j] + c * I[i][j] for j in range(n)] for i in range(n)]
		num.append(sum(C[0][i] * M[i][j] * B[j][0] for i in range(n) for j in range(n)))
		AM = G.fmul(A, M)
		c = -sum(AM[i][i] for i in range(n)) / k
		den.append(c)
	num = [num[0]] + [num[k] + D * den[k] for k in range(1, n + 1)]
	return num, den


def run(sc, ctx):
	L = setup()
	import mpmath
	from mpmath import mp, iv
	from numpy.linalg import LinAlgError
	from fixif import func_aux as F
	from fixif.LTI import dSS, dTF, dSSmp, dTFmp, Filter, random_dSSmp, random_dTFmp, iter_random_dSSmp, iter_random_dTFmp, iter_random_Filter
	from fixif.SIF import SIF, Realization
	from fixif.Structures.Structure import iterStructuresAndOptions
	from sim import stubs
	np.random.seed(1)
	root = tempfile.mkdtemp(dir=os.path.join(L.root, 'tmp'))
	os.chdir(root)
	EXCS = {'ValueError': ValueError, 'ZeroDivisionError': ZeroDivisionError, 'NoConvergence': mpmath.libmp.NoConvergence, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'LinAlgError': LinAlgError}

	def mpm(r, rows, cols, bits=80):
		M = mp.matrix(rows, cols)
		for i in range(rows):
			for j in range(cols):
				man = int.from_bytes(r.bytes(bits // 8), 'big') | 1
				M[i, j] = mp.make_mpf(mpmath.libmp.from_man_exp(man if r.randint(2) else -man, -bits + int(r.randint(-2, 3))))
		return M

	def fvec(M):
		return [[G.fr(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]

	def real(r, op):
		while True:
			Z = G.sif(r, int(r.randint(0, 3)), op['n'], op['p'], op['q'])
			return Realization(None, Z, structureName='sim')

	def nilpotent(r, u, sign):
		"""realization whose gains are known exactly (powers of two)"""
		e = 2. ** r.randint(-3, 4)
		g = 2. ** r.randint(-3, 4)
		# x(k+1) = e u ; y = (g/e) x + g u        <<Hzeta>> = (e, 2 g)
		Z = [np.matrix(np.zeros(s)) for s in ((0, 0), (1, 0), (1, 0), (0, 1), (0, 1), (1, 1), (1, 1), (1, 1), (1, 1))]
		Z[6][0, 0] = e
		Z[7][0, 0] = g / e
		Z[8][0, 0] = g
		return Z, e, 2 * g

	def call(op):
		"""(function, verification of the result or None)"""
		r = G.rs('c02', op['seed'])
		n, p, q = op['n'], op['p'], op['q']
		w = op['what']
		if w in ('fadd', 'fsub', 'fmul'):
			A, B = mpm(r, n, n), mpm(r, n, n)
			return (lambda: getattr(F, 'mpf_matrix_' + w)(A, B)), None
		if w == 'lt_inverse':
			A = mp.eye(n)
			for i in range(n):
				for j in range(i):
					A[i, j] = mp.make_mpf(mpmath.libmp.from_man_exp(int(r.randint(1, 1000)), -5))
			return (lambda: F.mpf_matrix_lt_inverse(A)), None
		if w == 'p2mpf':
			M = G.mat(r, n, p)
			return (lambda: F.python2mpf_matrix(M)), None
		if w == 'to_numpy':
			A = mpm(r, n, p)
			return (lambda: F.mpf_to_numpy(A)), None
		if w == 'representation':
			A = mpm(r, 1, 1)
			return (lambda: F.mpf_get_representation(A[0, 0])), None
		if w == 'mrepresentation':
			A = mpm(r, n, p)
			return (lambda: F.mpf_matrix_get_representation(A)), None
		if w == 'poly_product':
			lst = list(mpm(r, n, 1))
			j = int(r.randint(-1, n))
			return (lambda: F.mp_poly_product(lst, j)), None
		if w == 'poly_mult':
			A, B = mpm(r, n, 1), mpm(r, p + 1, 1)
			return (lambda: F.mpf_poly_mult(A, B)), None
		if w == 'MPF ctor':
			A = mpm(r, n, p) if r.randint(2) else G.mat(r, n, p)
			return (lambda: F.MPFMatrix(A)), None
		if w in ('MPF exact', 'MPF ops'):
			A, B = F.MPFMatrix(mpm(r, n, n)), F.MPFMatrix(mpm(r, n, n))
			if w == 'MPF ops':
				return [lambda: A + B, lambda: A - B, lambda: A * B, lambda: (str(A), repr(B), A[0, 0])][r.randint(4)], None
			return [lambda: A.add_exact(B), lambda: A.sub_exact(B), lambda: A.mul_exact(B)][r.randint(3)], None
		if w == 'MPF inv':
			A = mp.eye(n)
			for i in range(n):
				for j in range(i):
					A[i, j] = mp.make_mpf(mpmath.libmp.from_man_exp(int(r.randint(1, 1000)), -5))
			M = F.MPFMatrix(A)
			return M.inv_lowtr if hasattr(M, 'inv_lowtr') else M.inverse_lt, None
		if w == 'MPF numpy':
			A = F.MPFMatrix(mpm(r, n, p))
			return A.to_numpy, None
		if w == 'MPF close':
			A, B = F.MPFMatrix(mpm(r, n, p)), F.MPFMatrix(mpm(r, n, p))
			return (lambda: A.almost_equal(B, 1e-5)) if hasattr(A, 'almost_equal') else (lambda: A == B), None
		if w == 'to_sollya':
			A = mpm(r, n, p)
			return (lambda: F.mpf_matrix_to_sollya(A)), None
		if w == 'dSSmp ctor':
			M = [mpm(r, n, n), mpm(r, n, q), mpm(r, p, n), mpm(r, p, q)] if r.randint(2) else G.ss(r, n, p, q)
			return (lambda: dSSmp(*M)), None
		if w in ('dSSmp.to_dSS', 'dSSmp add', 'dSSmp sub', 'dSSmp.simulate'):
			S = dSSmp(*G.ss(r, n, p, q))
			if w == 'dSSmp.to_dSS':
				return S.to_dSS, None
			if w == 'dSSmp.simulate':
				u = np.matrix(r.uniform(-1, 1, (q, 4)))
				ex = bool(r.randint(2))
				return (lambda: S.simulate(u, exact=ex)), None
			T = dSSmp(*G.ss(r, n, p, q))
			return (lambda: S + T) if w == 'dSSmp add' else (lambda: S - T), None
		if w == 'dSSmp.to_dTFmp':
			M = G.ss(r, n, 1, 1)
			if r.uniform() < .3:
				M[3][0, 0] = 0.
			S = dSSmp(*M)
			want = op['want']
			A = np.asarray(M[0])
			ev, V = np.linalg.eig(A)
			cond = np.linalg.cond(V)

			def verify(tf, where):
				if cond > 1e4:
					return
				num, den = tf_exact(*[fvec(X) for X in (S.A, S.B, S.C)], G.fr(S.D[0, 0]))
				got = [fvec(tf.num), fvec(tf.den)]
				tol = Fraction(1, 2 ** want) * int(64 * 2 ** n * cond ** 2 + 64)
				for g, ref, name in zip(got, (num, den), ('numerator', 'denominator')):
					ctx.check(len(g) == len(ref), 'requested-precision', lambda: "%s: the %s has %d coefficients instead of %d" % (where, name, len(g), len(ref)))
					m = max([abs(x) for x in ref] + [Fraction(1)])
					err = max(abs(a[0] - b) for a, b in zip(g, ref))
					ctx.check(err <= tol * m, 'requested-precision', lambda: "%s: precision of %d bits requested (the caller's is %d), the error on the %s is 2^%.1f (expected: less than 2^%.1f)" % (where, want, mp.prec, name, math.log2(err / m), math.log2(tol)))
				ctx.probe('transfer function verified to the requested precision')
			if want == 64 and r.randint(2):
				return S.to_dTFmp, verify
			return (lambda: S.to_dTFmp(want)) if r.randint(2) else (lambda: S.to_dTFmp(prec=want)), verify
		if w == 'dSSmp random':
			return (lambda: random_dSSmp(n + 1, p, q)), None
		if w == 'dTFmp random':
			return (lambda: random_dTFmp((n + 2, n + 2))), None
		if w in ('dTFmp ctor', 'dTFmp.to_dSSmp', 'dTFmp.to_dTF'):
			b, a = mpm(r, n + 1, 1), mpm(r, n + 1, 1)
			if w == 'dTFmp ctor':
				return (lambda: dTFmp(b, a)), None
			t = dTFmp(b, a)
			return getattr(t, w[6:]), None
		if w in ('dSS.to_dSSmp', 'dSS.WCPG', 'dSS.H2norm'):
			return getattr(dSS(*G.ss(r, n, p, q)), w[4:]), None
		if w == 'dTF.to_dTFmp':
			num, den = G.filter_poles_tf(r, n + 1)
			return dTF(np.matrix(num), np.matrix(den)).to_dTFmp, None
		if w == 'realize':
			num, den = G.filter_poles_tf(r, n + 1)
			f = Filter(num=np.matrix(num), den=np.matrix(den), stable=True)
			lst = [(st, oo or {}) for st, oo in iterStructuresAndOptions(f) if (oo or {}).get('form') != 'balanced' and not st.name.startswith('Li-')]
			st, oo = lst[r.randint(len(lst))]
			return (lambda: st.makeRealization(f, **oo)), None
		if w in ('MSB pow2', 'wtilde pow2'):
			d = int(r.randint(-1, 2))
			u = 2. ** r.randint(-4, 8) * (1 + d * 2. ** -52)
			Z, e, g = nilpotent(r, u, d)
			R = Realization(None, Z, structureName='sim')
			zeta = [e * u, g * u]          # exact in double precision
			msb = []
			for z in zeta:
				m, ex = math.frexp(z)
				msb.append(ex - 1 if m == 0.5 else ex)
			ub = np.matrix([[u]])
			if w == 'MSB pow2':
				def verify(res, where):
					ctx.check(list(res) == msb, 'requested-precision', lambda: "%s: the most significant bits of the values %r are %r instead of %r (the caller's precision is %d)" % (where, zeta, res, msb, mp.prec))
					ctx.probe('exact most significant bits')
				return (lambda: R.computeNaiveMSB(ub)), verify

			def verify(res, where):
				from sim.worlds.c09 import parse_dat
				with open('x.dat') as f:
					wt = parse_dat(f.read())['wtilde']
				for i, (z, m) in enumerate(zip(zeta, msb)):
					gap = Fraction(2) ** m - Fraction(z)
					if gap == 0:
						continue
					fl = 0
					while Fraction(2) ** (fl + 1) <= gap:
						fl += 1
					while Fraction(2) ** fl > gap:
						fl -= 1
					ref = 1 + m - fl
					ctx.check(wt[i + 1] == min(ref, 65), 'requested-precision', lambda: "%s: the threshold of the word-length of the value %r is %r instead of %r (the caller's precision is %d)" % (where, z, wt[i + 1], ref, mp.prec))
					ctx.probe('exact thresholds of the word-lengths')
			return (lambda: R.optimalWL(ub, np.matrix([[2. ** -8]]), AMPLfilename='x.dat', AMPLpath=root)), verify
		R = real(r, op)
		if w == 'to_dSSexact':
			return R.to_dSSexact, None
		if w == 'MSB':
			ub = np.matrix(r.uniform(.1, 8, (q, 1)))
			return (lambda: R.computeNaiveMSB(ub)), None
		if w in ('uniformWL', 'optimalWL'):
			ub = np.matrix(r.uniform(.1, 8, (q, 1)))
			eps = np.matrix(2. ** r.uniform(-10, -4, (p, 1)))
			if w == 'uniformWL':
				return (lambda: R.optimalUniformWL(ub, eps)), None
			return (lambda: R.optimalWL(ub, eps, AMPLfilename='y.dat', AMPLpath=root)), None
		if w == 'quantize':
			return (lambda: R.quantize(12)), None
		if w == 'simulate':
			u = np.matrix(r.uniform(-1, 1, (q, 4)))
			return (lambda: R.simulate(u)), None
		if w == 'algorithm':
			return R.algorithmTxt, None
		if w == 'implementC':
			return (lambda: R.implementCdouble('f')), None
		if w == 'sens':
			return (R.dTFsensitivity if r.randint(2) else R.poleSensitivity), None
		if w == 'delta':
			return R.computeDeltaSIF, None
		raise AssertionError(w)

	def bad(op):
		"""calls that are rejected"""
		r = G.rs('c02b', op['seed'])
		n, p, q = op['n'], op['p'], op['q']
		w = op['what']
		k = r.randint(4)
		if w in ('fadd', 'fmul'):
			A, B = mpm(r, n, n), mpm(r, n + 1, n + 2)
			B = [B, 'a string', [1, 2], None][k]
			return lambda: getattr(F, 'mpf_matrix_' + w)(A, B)
		if w == 'lt_inverse':
			A = [mpm(r, n, n + 1), mpm(r, n + 1, n + 1), 'a string', mpm(r, n + 2, n + 2)][k]
			return lambda: F.mpf_matrix_lt_inverse(A)
		if w == 'p2mpf':
			M = ['a string', None, [['x']], np.matrix([['a']])][k]
			return lambda: F.python2mpf_matrix(M)
		if w == 'to_numpy':
			M = ['a string', None, 3.5, [1]][k]
			return lambda: F.mpf_to_numpy(M)
		if w == 'representation':
			M = [mp.inf, mp.nan, 'x', 2.5][k]
			return lambda: F.mpf_get_representation(M)
		if w == 'poly_product':
			lst, j = [([], -1), ([mp.mpf(1)], 5), (['a', 'b'], -1), ([mp.mpf(1), None], 0)][k]
			return lambda: F.mp_poly_product(lst, j)
		if w == 'poly_mult':
			A = [[1, 2], None, 'x', np.matrix([1.])][k]
			return lambda: F.mpf_poly_mult(A, mp.matrix([1, 2]))
		if w == 'MPF ctor':
			M = ['a string', None, 3.5, [['a']]][k]
			return lambda: F.MPFMatrix(M)
		if w == 'MPF exact':
			A = F.MPFMatrix(mpm(r, n, n))
			B = [F.MPFMatrix(mpm(r, n + 1, n + 2)), 'a string', None, F.MPFMatrix(mp.matrix([[mp.nan] * n] * n))][k]
			return [lambda: A.add_exact(B), lambda: A.sub_exact(B), lambda: A.mul_exact(B)][r.randint(3)]
		if w == 'MPF inv':
			A = F.MPFMatrix([mpm(r, n, n + 1), mpm(r, n + 1, n + 1), mpm(r, 1, 1), mpm(r, 2, 3)][k])
			return A.inv_lowtr if hasattr(A, 'inv_lowtr') else A.inverse_lt
		if w == 'dSSmp ctor':
			M = list(G.ss(r, n, p, q))
			M[k] = [np.matrix(np.zeros((n + 1, n + 3))), 'x'][r.randint(2)]
			return lambda: dSSmp(*M)
		if w == 'dSSmp.to_dTFmp':
			if k == 0:
				S = dSSmp(*G.ss(r, n, 2, q))
			elif k == 1:
				S = dSSmp(*G.ss(r, n, p, 2))
			elif k == 2:
				A = np.matrix(np.diag([.5] * (n + 1)) + np.diag([1.] * n, 1))      # no basis of eigenvectors
				S = dSSmp(A, G.mat(r, n + 1, 1), G.mat(r, 1, n + 1), G.mat(r, 1, 1))
			else:
				A = mp.matrix(n, n)
				for i in range(n):
					A[i, i] = mp.nan
				S = dSSmp(A, mpm(r, n, 1), mpm(r, 1, n), mpm(r, 1, 1))
				if r.randint(2):
					S = dSSmp(*G.ss(r, n, 1, 1))
					want = ['x', None, [3], 'y'][r.randint(4)]
					return lambda: S.to_dTFmp(want)
			want = op['want']
			return lambda: S.to_dTFmp(want)
		if w == 'dSSmp add':
			S = dSSmp(*G.ss(r, n, p, q))
			T = [dSSmp(*G.ss(r, n, p + 1, q)), dSSmp(*G.ss(r, n, p, q + 1)), 'x', None][k]
			return (lambda: S + T) if r.randint(2) else (lambda: S - T)
		if w == 'dSSmp.simulate':
			S = dSSmp(*G.ss(r, n, p, q))
			u = [np.matrix(np.zeros((q + 1, 3))), 'x', None, np.matrix(np.zeros((q, 3)))][k]
			x0 = None if k < 3 else [np.matrix(np.zeros((n + 1, 1))), 'x'][r.randint(2)]
			return lambda: S.simulate(u, x0=x0)
		if w == 'dTFmp ctor':
			b, a = mpm(r, n, 1), mpm(r, n, 1)
			if k == 0:
				a[0, 0] = mp.mpf(0)
			elif k == 1:
				a = 'x'
			elif k == 2:
				a = mpm(r, 2, 2)
			else:
				a[0, 0] = mp.nan
			return lambda: dTFmp(b, a)
		R = real(r, op)
		ub = [np.matrix(np.zeros((q, 1))), np.matrix(np.ones((q, 1)) * np.nan), np.matrix(np.ones((q, 1)) * np.inf), np.matrix(np.zeros((q + 1, 1)))][k]
		eps = np.matrix(np.ones((p, 1)) * .1)
		if w == 'MSB':
			return lambda: R.computeNaiveMSB(ub)
		if w == 'uniformWL':
			return lambda: R.optimalUniformWL(ub, eps)
		if w == 'optimalWL':
			return lambda: R.optimalWL(ub, eps, AMPLfilename='z.dat', AMPLpath=root)
		if w == 'simulate':
			return lambda: R.simulate([np.matrix(np.zeros((q + 1, 3))), 'x', None, 3][k])
		raise AssertionError(w)

	iters = {}
	stack = []
	cur = [mp.prec]
	ivp = iv.prec

	def verify(where):
		ctx.check(mp.prec == cur[0], 'precision-changed', lambda: "%s: the working precision was %d bits before the call, and is %d after" % (where, cur[0], mp.prec))
		ctx.check(iv.prec == ivp, 'precision-changed', lambda: "%s: the working precision of the intervals has been changed" % where)
	try:
		for idx, op in enumerate(sc['ops']):
			k = op['op']
			if k == 'prec':
				mp.prec = op['v']
				cur[0] = mp.prec
				ctx.event('prec', mp.prec)
				continue
			if k == 'dps':
				mp.dps = op['v']
				cur[0] = mp.prec
				ctx.event('dps', mp.prec)
				continue
			if k == 'push':
				c = mpmath.workprec(op['v'])
				stack.append((cur[0], c))
				c.__enter__()
				cur[0] = mp.prec
				continue
			if k == 'pop':
				if stack:
					old, c = stack.pop()
					c.__exit__(None, None, None)
					cur[0] = old
					verify("operation %d (end of a context of the caller)" % idx)
				continue
			if k == 'iter':
				r = G.rs('c02i', op['seed'])
				if op['kind'] == 'dSSmp':
					it = iter_random_dSSmp(4, stable=bool(r.randint(2)), n=(2, 4), p=(1, 3), q=(1, 3))
				elif op['kind'] == 'dTFmp':
					it = iter_random_dTFmp(4, order=(3, 6))
				elif op['kind'] == 'random_filter':
					it = iter_random_Filter(3, n=(2, 4), p=(1, 2), q=(1, 2), ftype='random')
				else:
					num, den = G.filter_poles_tf(r, 2)
					it = Filter(num=np.matrix(num), den=np.matrix(den), stable=True).iterAllRealizations()
				iters[op['k']] = (op['kind'], it)
				verify("operation %d (start of an iterator)" % idx)
				continue
			if k == 'next':
				if op['k'] not in iters:
					continue
				kind, it = iters[op['k']]
				try:
					next(it)
				except StopIteration:
					del iters[op['k']]
				except ZeroDivisionError:
					# (the denominator drawn has a leading coefficient equal to 0 with this precision)
					if kind != 'dTFmp':
						raise
				ctx.event('next', kind)
				ctx.state('next', kind, cur[0])
				ctx.step()
				verify("operation %d (next object of an iterator of %s)" % (idx, kind))
				continue
			# the arguments are made with enough precision
			with mpmath.workprec(2000):
				f, ver = call(op) if k == 'call' else (bad(op), None)
			if mp.prec != cur[0]:
				# (a call made to prepare the arguments)
				verify("operation %d (objects needed for %s)" % (idx, op['what']))
			where = "operation %d (%s%s, precision of the caller %d%s)" % (idx, op['what'], ' with illegal values' if k == 'bad' else '', cur[0], ', fault %r' % op['fault'] if op.get('fault') else '')
			x = op.get('fault')
			res = exc = inj = None
			if x is None:
				try:
					res = f()
				except Exception as e:
					exc = e
			else:
				before = stubs.FAULTS.fired.get('wcpg', 0)
				if x['kind'] == 'line':
					inj = faults.LineFault(x['k'], x['exc'])
				elif x['kind'] == 'call':
					inj = KernelFault(x['k'], EXCS[x['exc']]("injected"))
				else:
					stubs.FAULTS.arm('wcpg', EXCS[x['exc']]("injected"), after=min(x['k'], 1))
				try:
					if inj is None:
						res = f()
					else:
						with inj:
							res = f()
				except BaseException as e:
					if isinstance(e, Violation) or type(e).__name__ == 'Hang':
						raise
					exc = e
				stubs.FAULTS.clear()
				fired = inj.fired if inj is not None else stubs.FAULTS.fired.get('wcpg', 0) > before
				if fired:
					ctx.fault('%s:%s' % (x['kind'], x['exc']))
			ctx.step()
			ctx.event(k, op['what'], type(exc).__name__ if exc is not None else 'ok')
			ctx.state(k, op['what'], cur[0], len(stack), x['kind'] if x else None, type(exc).__name__ if exc is not None else 'ok')
			ctx.probe('%s: %s' % ('rejected' if k == 'bad' and exc is not None else 'aborted' if exc is not None else 'returned', op['what']))
			verify(where)
			if k == 'call' and exc is None and ver is not None:
				ver(res, where)
				verify(where)
			if k == 'call' and x is None and exc is not None and op['what'] in ('MSB pow2', 'wtilde pow2'):
				raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
		while stack:
			old, c = stack.pop()
			c.__exit__(None, None, None)
			cur[0] = old
			verify("at the end of a context of the caller")
	finally:
		os.chdir('/')
		shutil.rmtree(root, ignore_errors=True)
