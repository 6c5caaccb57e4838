# coding: utf-8
"""C01: exact multiprecision operations are exact under any ambient precision.

Simulated: threads of one process that share the mpmath context.  Some of them execute exact operations of the library, others
change the working precision (assignments of mp.prec and mp.dps, workprec blocks that overlap the operations).  Real threads are
parked and released one at a time by the scheduler, which chooses where each one is preempted (any line of the library or of the
matrices of mpmath).  Oracle: exact rational arithmetic.
"""
from fractions import Fraction

import numpy as np

from sim import gen as G
from sim.core import Violation
from sim.env import setup
from sim.threads import Scheduler

PROP = 'C01'
RUNS = {'quick': 1500, 'thorough': 60000}
BUDGET = {'quick': 200, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 threads of 2 to 8 exact operations each (operands drawn by the seed: doubles or multiprecision numbers, compatible or not), 0 to 2 threads that change the working precision, an initial precision, a schedule of at most 120 preemptions and at most 3 injected exceptions."
TIME_UNIT = "scheduling points (lines executed in the library or in the matrices of mpmath)"
STATE_MEASURE = "abstract states (operation, types of operands, compatible or not, precision at its start and at its end, precision changes during the operation)"
REAL = ["fixif.func_aux", "fixif.LTI.dSSmp, dTFmp", "fixif.SIF.SIF.to_dSSexact", "mpmath", "real threads"]
STUBS = ["the scheduler of the threads (seeded)", "sollya (constants are exact fractions)", "file in which a matrix is written (disk that becomes full)"]
SHRINK_LISTS = ('sched', 'threads', 'disturbers')

OPS = ['fadd', 'fsub', 'fmul', 'ltinv', 'py2mp', 'repr', 'M.add', 'M.sub', 'M.mul', 'M.inv', 'M.new', 'M.repr', 'ss.add', 'ss.sub', 'sim', 'sif', 'tf', 'sollya', 'M.sollya', 'real', 'M.equal', 'tonp', 'M.tonp', 'M.op', 'M.close', 'fromsollya', 'poly', 'hex', 'text']


def gen(rng, index, tier):
	nth = rng.choice([1, 1, 2, 3])
	threads = []
	for _ in range(nth):
		ops = []
		for _ in range(rng.randint(2, 8)):
			op = {'op': rng.choice(OPS), 'seed': rng.randrange(10 ** 9), 'a': rng.choice(['np', 'mp', 'mp']), 'b': rng.choice(['np', 'mp', 'mp']),
				'kind': rng.choice(['dense', 'wide', 'short', 'huge', 'int', 'sparse']), 'bits': rng.choice([1, 24, 53, 54, 60, 113, 300]), 'bad': None}
			if rng.random() < 0.12:
				op['bad'] = rng.choice(['shape', 'shape', 'type', 'complex', 'nonunit', 'upper', 'inf'])
			if rng.random() < 0.06:
				op['fault'] = [int(2 ** rng.uniform(0, 8)), rng.choice(['MemoryError', 'KeyboardInterrupt'])]
			ops.append(op)
		threads.append(ops)
	dist = []
	for _ in range(rng.choice([0, 1, 1, 1, 2])):
		acts = []
		for _ in range(rng.randint(2, 12)):
			acts.append([rng.choice(['prec', 'prec', 'prec', 'dps', 'work', 'workdps']), rng.choice([1, 5, 10, 24, 30, 53, 53, 60, 100, 500]), rng.randint(1, 3)])
		dist.append(acts)
	mean = rng.choice([3, 10, 40, 150])
	sched = [[rng.randrange(60), 1 + int(rng.expovariate(1. / mean))] for _ in range(rng.choice([0, 10, 40, 120]))]
	return {'prec': rng.choice([2, 10, 24, 53, 53, 53, 64, 113, 600]), 'threads': threads, 'disturbers': dist, 'sched': sched}


def simplify(sc):
	for i, t in enumerate(sc['threads']):
		for j in range(len(t)):
			if len(t) > 1:
				yield dict(sc, threads=sc['threads'][:i] + [t[:j] + t[j + 1:]] + sc['threads'][i + 1:])
		for j, op in enumerate(t):
			if op.get('fault'):
				op = {k: v for k, v in op.items() if k != 'fault'}
				yield dict(sc, threads=sc['threads'][:i] + [t[:j] + [op] + t[j + 1:]] + sc['threads'][i + 1:])
	for i, d in enumerate(sc['disturbers']):
		for j in range(len(d)):
			yield dict(sc, disturbers=sc['disturbers'][:i] + [d[:j] + d[j + 1:]] + sc['disturbers'][i + 1:])
	if sc['prec'] != 53:
		yield dict(sc, prec=53)


# ---- values

def mpnum(mp, r, bits):
	"""random multiprecision number, exactly `bits` bits (or zero), whatever the working precision"""
	if r.uniform() < 0.08:
		return mp.make_mpf((0, 0, 0, 0))
	man = 1
	for _ in range(bits - 1):
		man = man * 2 + r.randint(0, 2)
	if bits > 1:
		man |= 1
	exp = int(r.randint(-60, 60)) - bits
	return mp.make_mpf((int(r.randint(0, 2)), man, exp, man.bit_length()))


def mpmat(L, r, rows, cols, op):
	M = L.mpmath.matrix(rows, cols)
	for i in range(rows):
		for j in range(cols):
			M[i, j] = mpnum(L.mpmath.mp, r, max(1, op['bits'] - int(r.randint(0, 3)) * 7))
	return M


def matrix(L, r, rows, cols, op, typ):
	if typ == 'np':
		return G.mat(r, rows, cols, op['kind'])
	return mpmat(L, r, rows, cols, op)


def unit_lower(L, r, n, op, typ):
	M = matrix(L, r, n, n, op, typ)
	one = L.mpmath.mp.make_mpf((0, 1, 0, 1)) if typ == 'mp' else 1.
	for i in range(n):
		M[i, i] = one
		for j in range(i + 1, n):
			M[i, j] = one * 0
	return M


def finv_lower(J):
	n = len(J)
	X = [[Fraction(0)] * n for _ in range(n)]
	for c in range(n):
		for i in range(n):
			X[i][c] = Fraction(int(i == c)) - sum((J[i][k] * X[k][c] for k in range(i)), Fraction(0))
	return X


def fhstack(a, b):
	return [x + y for x, y in zip(a, b)]


def zeros(n, m):
	return [[Fraction(0)] * m for _ in range(n)]


def exact_mpf(L, x):
	"""the multiprecision number equal to the fraction x (whose denominator is a power of two)"""
	return L.mpmath.mp.make_mpf(L.mpmath.libmp.from_man_exp(x.numerator, 1 - x.denominator.bit_length()))


def fr_round(x):
	"""the fraction rounded to the nearest double"""
	return Fraction(x.numerator / x.denominator)


class Disk:
	"""a file opened for writing, on a disk that has room for `room` writes"""
	def __init__(self, room):
		self.text, self.room = [], room

	def write(self, s):
		if self.room is not None and len(self.text) >= self.room:
			raise OSError(28, "no space left on device (injected)")
		self.text.append(s)
		return len(s)


class Prepared:
	"""an operation ready to be executed: fn() -> result; args: everything that must not change; expect: list of exact matrices or
	None when it must raise ValueError; get: result -> list of matrices"""
	def __init__(self, fn, args, expect, get, bound=None):
		self.fn, self.args, self.expect, self.get = fn, args, expect, get
		self.bound = bound          # rounded operations: matrix of the magnitudes, the error being at most 2^(1-precision) times these


def prepare_op(L, op):
	import fixif.func_aux as fa
	from fixif.LTI import dSS, dSSmp, dTFmp
	from fixif.SIF import SIF
	MPFM = fa.MPFMatrix
	r = G.rs('c01', op['seed'])
	k, bad = op['op'], op['bad']
	a, b, c = [int(x) for x in r.randint(1, 5, 3)]
	fm = G.fmat
	junk = [3, [[1., 2.]], "1", None][int(r.randint(0, 4))]

	def spoil(M, typ):
		"""matrix with a complex or an infinite element"""
		i, j = int(r.randint(0, M.rows)), int(r.randint(0, M.cols))
		return M, i, j

	if k in ('fadd', 'fsub', 'fmul', 'M.add', 'M.sub', 'M.mul'):
		mul = k.endswith('mul')
		A = matrix(L, r, a, b, op, op['a'])
		B = matrix(L, r, *((b, c) if mul else (a, b)), op, op['b'])
		ok = True
		if bad == 'shape':
			if mul:
				B = matrix(L, r, b + 1, c, op, op['b'])
			else:
				B = matrix(L, r, *[(a + 1, b), (a, b + 1), (b, a) if a != b else (a + 1, b)][int(r.randint(0, 3))], op, op['b'])
			ok = False
		FA, FB = fm(A), fm(B)
		exp = None
		if ok:
			exp = [fmul(FA, FB) if mul else G.fadd(FA, FB, -1 if k.endswith('sub') else 1)]
		if k.startswith('M.'):
			MA, MB = MPFM(A), MPFM(B)
			if bad == 'type':
				MB, exp = junk, None
			f = {'M.add': MPFM.add_exact, 'M.sub': MPFM.sub_exact, 'M.mul': MPFM.mul_exact}[k]
			return Prepared(lambda: f(MA, MB), [A, B, MA.matrix] + ([MB.matrix] if bad != 'type' else []), exp, lambda R: [R.matrix])
		if bad == 'type':
			if r.uniform() < 0.5:
				A, exp = junk, None
			else:
				B, exp = junk, None
		elif bad == 'complex' and op['b'] == 'mp':
			# (the check of the library is on the first element)
			B[0, 0] = L.mpmath.mpc(1, 2)
			exp = None
		f = {'fadd': fa.mpf_matrix_fadd, 'fsub': fa.mpf_matrix_fsub, 'fmul': fa.mpf_matrix_fmul}[k]
		return Prepared(lambda: f(A, B), [x for x in (A, B) if hasattr(x, 'shape') or hasattr(x, 'rows')], exp, lambda R: [R])
	if k in ('ltinv', 'M.inv'):
		op = dict(op, bits=min(op['bits'], 113), kind='wide' if op['kind'] == 'huge' else op['kind'])
		J = unit_lower(L, r, a, op, op['a'])
		exp = True
		if bad == 'nonunit':
			i = int(r.randint(0, a))
			if op['a'] == 'mp' and r.uniform() < 0.5:
				J[i, i] = exact_mpf(L, 1 + Fraction(1, 2 ** int(r.randint(1, 300))))        # (very close to 1)
			else:
				J[i, i] = J[i, i] * 2
			exp = None
		elif bad == 'upper' and a > 1:
			J[0, a - 1] = exact_mpf(L, Fraction(1, 2 ** int(r.randint(1, 300)))) if op['a'] == 'mp' else 2. ** -float(r.randint(1, 300))
			exp = None
		elif bad == 'shape':
			J = matrix(L, r, a, a + 1, op, op['a']) if r.uniform() < 0.3 else unit_lower(L, r, a + 1, op, op['a'])
			if J.shape[0] == J.shape[1] if op['a'] == 'np' else J.rows == J.cols:
				J = J[:a, :] if r.uniform() < 0.5 else J[:, :a]             # (unit triangular, but not square)
			exp = None
		exp = [finv_lower(fm(J))] if exp else None
		if k == 'M.inv':
			MJ = MPFM(J)
			return Prepared(lambda: MJ.inv_lowtr(), [J, MJ.matrix], exp, lambda R: [R.matrix])
		if bad == 'type':
			J, exp = junk, None
		return Prepared(lambda: fa.mpf_matrix_lt_inverse(J), [J] if hasattr(J, 'shape') or hasattr(J, 'rows') else [], exp, lambda R: [R])
	if k in ('py2mp', 'M.new'):
		typ = 'np' if k == 'py2mp' else op['a']
		A = matrix(L, r, a, b, op, typ)
		if typ == 'np' and op['kind'] == 'int' and r.uniform() < 0.5:
			A = np.matrix(np.asarray(A, dtype=int))
		if k == 'M.new' and typ == 'np' and r.uniform() < 0.4:
			A = np.asarray(A)
		exp = [fm(A)]
		if bad == 'type':
			A, exp = junk, None
		f = fa.python2mpf_matrix if k == 'py2mp' else MPFM
		return Prepared(lambda: f(A), [A] if exp else [], exp, lambda R: [R] if k == 'py2mp' else [R.matrix])
	if k in ('repr', 'M.repr'):
		A = matrix(L, r, a, b, op, 'mp')
		exp = [fm(A)]
		if bad == 'inf':
			A[int(r.randint(0, a)), int(r.randint(0, b))] = L.mpmath.inf if r.uniform() < 0.5 else L.mpmath.nan
			exp = None

		def get(R):
			Y, N = R
			return [[[Fraction(int(Y[i, j])) * Fraction(2) ** int(N[i, j]) for j in range(b)] for i in range(a)]]
		if k == 'M.repr':
			MA = MPFM(A)
			return Prepared(lambda: MA.get_int_representation(), [A, MA.matrix], exp, get)
		return Prepared(lambda: fa.mpf_matrix_get_representation(A), [A], exp, get)
	if k in ('sollya', 'M.sollya'):
		A = matrix(L, r, a, b, op, 'mp')
		exp = [fm(A)]
		if bad == 'inf':
			A[int(r.randint(0, a)), int(r.randint(0, b))] = L.mpmath.inf if r.uniform() < 0.5 else L.mpmath.nan
			exp = None
		elif bad == 'complex':
			A[0, 0] = L.mpmath.mpc(1, 2)
			exp = None
		elif bad == 'type' and k == 'sollya':
			A, exp = junk, None

		def get(R):
			S, m, n = R
			if (m, n) != (a, b) or len(S) != a * b:
				return [[[]]]
			return [[[Fraction(S[i * b + j]) for j in range(b)] for i in range(a)]]
		if k == 'M.sollya':
			MA = MPFM(A)
			return Prepared(lambda: MA.to_sollya(), [A, MA.matrix], exp, get)
		return Prepared(lambda: fa.mpf_matrix_to_sollya(A), [A] if exp or bad == 'complex' else [], exp, get)
	if k in ('tonp', 'M.tonp'):
		A = matrix(L, r, a, b, op, 'mp')
		exp = [[[fr_round(x) for x in row] for row in fm(A)]]
		if bad == 'type' and k == 'tonp':
			A, exp = junk, None
		if k == 'M.tonp':
			MA = MPFM(A)
			return Prepared(lambda: MA.to_numpy(), [A, MA.matrix], exp, lambda R: [R])
		return Prepared(lambda: fa.mpf_to_numpy(A), [A] if exp else [], exp, lambda R: [R])
	if k == 'fromsollya':
		A = matrix(L, r, a, b, op, 'mp')
		lst = [x for row in fm(A) for x in row]
		return Prepared(lambda: fa.sollya_matrix_to_numpy(lst, a, b), [], [[[fr_round(x) for x in row] for row in fm(A)]], lambda R: [R])
	if k == 'poly':
		# the polynomials (in z^-1) of a multiprecision transfer function, in Sollya
		den = mpmat(L, r, a, 1, op)
		den[0, 0] = L.mpmath.mp.make_mpf((0, 1, 0, 1))
		num = mpmat(L, r, b, 1, op)
		H = dTFmp(num, den)
		exp = [[[x[0] for x in fm(X)]] for X in (num, den)]

		def get(R):
			return [[[P.c.get(i, Fraction(0)) for i in range(max([n] + [1 + k for k, v in P.c.items() if v]))]] for P, n in zip(R, (b, a))]
		return Prepared(lambda: H.to_Sollya(), [num, den], exp, get)
	if k in ('hex', 'text'):
		# a matrix written in a file, with a disk that may become full during the first try
		from fixif.func_aux.write_matrix_mpf import write_matrix_mpf
		A = matrix(L, r, a, b, op, 'np' if k == 'hex' else 'mp')
		delim = [' ', '\t', ',', '; '][r.randint(4)]
		full = [None, int(r.randint(0, a * b + a))][r.randint(2)]

		def fn():
			f = fa.write_matrix_hex if k == 'hex' else write_matrix_mpf
			if full is not None:
				D = Disk(full)
				try:
					f(D, A, delim)
				except OSError:
					pass
				else:
					return ''.join(D.text)
			D = Disk(None)
			f(D, A, delim)
			return ''.join(D.text)

		def get(R):
			rows = [[x.strip() for x in ln.split(delim.strip() or delim) if x.strip()] for ln in R.split('\n')]
			if rows[-1:] == [[]]:
				rows.pop()
			return [[[Fraction(float.fromhex(x)) if k == 'hex' else Fraction(x) for x in row] for row in rows]]
		return Prepared(fn, [A], [fm(A)], get, None if k == 'hex' else [[100 * abs(x) for x in row] for row in fm(A)])
	if k == 'real':
		A, B = mpmat(L, r, a, b, op), mpmat(L, r, a, b, op)
		Cx = L.mpmath.matrix(a, b)
		for i in range(a):
			for j in range(b):
				Cx[i, j] = L.mpmath.mp.make_mpc((A[i, j]._mpf_, B[i, j]._mpf_))
		return Prepared(lambda: fa.mpc_get_real(Cx), [A, B], [fm(A)], lambda R: [R])
	if k == 'M.op':
		# the operators round to the working precision
		o = int(r.randint(0, 3))
		A = matrix(L, r, a, b, op, op['a'])
		B = matrix(L, r, *((b, c) if o == 2 else (a, b)), op, op['b'])
		FA, FB = fm(A), fm(B)
		absm = lambda M: [[abs(x) for x in row] for row in M]
		exp = [fmul(FA, FB) if o == 2 else G.fadd(FA, FB, 1 - 2 * o)]
		# (mpmath subtracts a matrix by adding its opposite, rounded)
		bound = fmul(absm(FA), absm(FB)) if o == 2 else G.fadd(absm(FA), absm(FB), 1)
		if bad == 'shape':
			B = matrix(L, r, *((b + 1, c) if o == 2 else (a, b + 1)), op, op['b'])
			exp = None
		MA = MPFM(A)
		w = int(r.randint(0, 3))
		other = MPFM(B) if w == 0 else np.asarray(B) if w == 1 and op['b'] == 'np' else B
		args = [A, B, MA.matrix]
		if bad == 'type':
			other, exp = junk, None
		f = (lambda: MA + other, lambda: MA - other, lambda: MA * other)[o]
		return Prepared(f, args, exp, lambda R: [R.matrix], bound)
	if k == 'M.close':
		A = matrix(L, r, a, b, op, op['a'])
		MA = MPFM(A)
		FA = fm(A)
		eps = Fraction(1, 2 ** int(r.randint(1, 200)))
		near = r.uniform() < 0.5
		B = L.mpmath.matrix(a, b)
		i0, j0 = int(r.randint(0, a)), int(r.randint(0, b))
		for i in range(a):
			for j in range(b):
				x = FA[i][j]
				d = eps / 4 * (1 if r.uniform() < 0.5 else -1) * int(r.randint(0, 2))
				if not near and (i, j) == (i0, j0):
					d = 4 * eps * max(1, abs(x)) * (1 if r.uniform() < 0.5 else -1)
				B[i, j] = exact_mpf(L, x + d)
		exp = [[[Fraction(int(near))]]]
		# (an element of more than 1 / eps would be close whatever its absolute difference; one smaller than eps too: d is at least 4 eps)
		if not near and 4 * eps * max(1, abs(FA[i0][j0])) <= 2 * eps * max(abs(FA[i0][j0]), abs(fm(B)[i0][j0])):
			near, exp = True, 'any'
		e = exact_mpf(L, eps)
		other = B if r.uniform() < 0.5 else MPFM(B)
		if bad == 'shape':
			other, exp = mpmat(L, r, a + 1, b, op), None
		elif bad == 'type':
			other, exp = junk, None
		if exp == 'any':
			exp = [[[Fraction(1)]]]
			return Prepared(lambda: MA.almost_close(other, abs_eps=e), [A, MA.matrix, B], exp, lambda R: [[[Fraction(1)]]])
		return Prepared(lambda: MA.almost_close(other, abs_eps=e), [A, MA.matrix, B], exp, lambda R: [[[Fraction(int(R))]]])
	if k == 'M.equal':
		A = matrix(L, r, a, b, op, op['a'])
		MA = MPFM(A)
		FA = fm(A)
		same = r.uniform() < 0.4
		B = L.mpmath.matrix(a, b)
		for i in range(a):
			for j in range(b):
				B[i, j] = exact_mpf(L, FA[i][j])
		if not same:
			# one element changed by far less than the working precision
			i, j = int(r.randint(0, a)), int(r.randint(0, b))
			x = FA[i][j]
			B[i, j] = exact_mpf(L, x + (abs(x) if x else 1) * Fraction(1, 2 ** int(r.randint(1, 400))))
		exp = [[[Fraction(int(fm(B) == FA))]]]
		if bad == 'shape':
			B, exp = mpmat(L, r, a + 1, b, op), None
		elif bad == 'type':
			B, exp = junk, None
		other = B if r.uniform() < 0.5 or bad == 'type' else MPFM(B)
		return Prepared(lambda: MA.equal(other), [A, MA.matrix] + ([B] if bad != 'type' else []), exp, lambda R: [[[Fraction(int(R))]]])
	if k in ('ss.add', 'ss.sub'):
		n1, n2, p, q = a, int(r.randint(1, 4)), b, c
		one = [matrix(L, r, x, y, op, op['a']) for x, y in ((n1, n1), (n1, q), (p, n1), (p, q))]
		p2, q2 = p, q
		exp = True
		if bad == 'shape':
			if r.uniform() < 0.5:
				p2 += 1
			else:
				q2 += 1
			exp = None
		two = [matrix(L, r, x, y, op, op['b']) for x, y in ((n2, n2), (n2, q2), (p2, n2), (p2, q2))]
		S1 = dSSmp(*one)
		S2 = dSS(*two) if op['b'] == 'np' and r.uniform() < 0.5 else dSSmp(*two)
		if exp:
			s = -1 if k == 'ss.sub' else 1
			f1, f2 = [fm(x) for x in one], [fm(x) for x in two]
			exp = [fhstack(f1[0], zeros(n1, n2)) + fhstack(zeros(n2, n1), f2[0]), f1[1] + f2[1],
				fhstack(f1[2], [[s * v for v in row] for row in f2[2]]), G.fadd(f1[3], f2[3], s)]
		if bad == 'type':
			S2, exp = junk, None
		f = dSSmp.__add__ if k == 'ss.add' else dSSmp.__sub__
		return Prepared(lambda: f(S1, S2), one + two, exp, lambda R: [R.A, R.B, R.C, R.D])
	if k == 'sim':
		n, p, q, T = a, b, c, int(r.randint(1, 6))
		o2 = dict(op, bits=min(op['bits'], 113))
		S = [matrix(L, r, x, y, o2, op['a']) for x, y in ((n, n), (n, q), (p, n), (p, q))]
		u = matrix(L, r, q, T, op, op['b'])
		x0 = matrix(L, r, n, 1, op, op['a']) if r.uniform() < 0.5 else None
		exp = True
		if bad == 'shape':
			exp = None
			if r.uniform() < 0.5 or x0 is None:
				u = matrix(L, r, q + 1, T, op, op['b'])
			else:
				x0 = matrix(L, r, n + 1, 1, op, op['a'])
		if exp:
			Y, _ = G.fss_sim(*[fm(x) for x in S], fm(u), None if x0 is None else [v[0] for v in fm(x0)])
			exp = [[[Y[t][i] for t in range(T)] for i in range(p)]]
		H = dSSmp(*S)
		args = S + [u] + ([x0] if x0 is not None else [])
		if bad == 'type':
			u, exp = junk, None
			args = S
		return Prepared(lambda: H.simulate(u, True, x0) if x0 is not None else H.simulate(u), args, exp, lambda R: [R])
	if k == 'sif':
		l, n, p, q = int(r.randint(0, 4)), a, b, c
		Z = G.sif(r, l, n, p, q)
		if r.uniform() < 0.3:
			Z = G.special(r, Z)
		if op['kind'] == 'wide':
			Z = [X if i == 0 else np.matrix(np.asarray(X) * 2. ** r.randint(-30, 30, X.shape)) for i, X in enumerate(Z)]
		R = SIF([X.copy() for X in Z])
		J, K, Lm, M, N, P, Q, Rm, S = [fm(X) if X.shape[0] else [] for X in Z]
		if l:
			Ji = finv_lower(J)
			iM, iN = fmul(Ji, M), fmul(Ji, N)
			exp = [G.fadd(fmul(K, iM), P), G.fadd(fmul(K, iN), Q), G.fadd(fmul(Lm, iM), Rm), G.fadd(fmul(Lm, iN), S)]
		else:
			exp = [P, Q, Rm, S]
		return Prepared(lambda: R.to_dSSexact(), [R.Z], exp, lambda H: [H.A, H.B, H.C, H.D])
	if k == 'tf':
		n = a + 1
		nn, nd = (n, n) if r.uniform() < 0.6 else (int(r.randint(1, 5)), int(r.randint(1, 5)))
		n = max(nn, nd, 2)
		num, den = matrix(L, r, nn, 1, op, op['a']), matrix(L, r, nd, 1, op, op['a'])
		den[0, 0] = 1. if op['a'] == 'np' else L.mpmath.mp.make_mpf((0, 1, 0, 1))
		row = r.uniform() < 0.4
		if row:
			num, den = num.transpose(), den.transpose()
		H = dTFmp(num, den)
		fb = [x for rw in fm(num) for x in rw]
		fa_ = [x for rw in fm(den) for x in rw]
		fb += [Fraction(0)] * (n - len(fb))
		fa_ += [Fraction(0)] * (n - len(fa_))
		A = zeros(n - 1, n - 1)
		A[0] = [-x for x in fa_[1:]]
		for i in range(1, n - 1):
			A[i][i - 1] = Fraction(1)
		exp = [A, [[Fraction(int(i == 0))] for i in range(n - 1)], [[fb[i + 1] - fb[0] * fa_[i + 1] for i in range(n - 1)]], [[fb[0]]]]
		return Prepared(lambda: H.to_dSSmp(), [num, den], exp, lambda S: [S.A, S.B, S.C, S.D])
	raise AssertionError(k)


fmul = G.fmul


def run(sc, ctx):
	L = setup()
	mp = L.mpmath.mp
	mp.prec = 53
	from sim import engines
	engines.SOLLYA_MODULE.SollyaObject = lambda x: x if isinstance(x, Fraction) else Fraction(int(x))         # (exact constants)
	prepared = [[(op, prepare_op(L, op)) for op in ops] for ops in sc['threads']]
	digests = {}
	for ops in prepared:
		for op, pr in ops:
			digests[id(pr)] = [G.digest(x) for x in pr.args]
	mp.prec = sc['prec']
	state = {'changes': 0, 'hist': []}
	import mpmath.matrices.matrices
	import mpmath.ctx_mp_python
	S = Scheduler(sc['sched'], extra_modules=(mpmath.matrices.matrices,))

	def worker(ops):
		def body(task):
			for op, pr in ops:
				task.pause()
				p0, c0, h0 = mp.prec, state['changes'], len(state['hist'])
				if op.get('fault'):
					task.arm(*op['fault'])
				res = exc = None
				try:
					res = pr.fn()
				except (Exception, KeyboardInterrupt) as e:
					exc = e
				fired = task.disarm()
				task.atomic += 1
				try:
					judge(task, op, pr, res, exc, fired, p0, state['changes'] - c0, h0)
				finally:
					task.atomic -= 1
		return body

	def judge(task, op, pr, res, exc, fired, p0, changes, h0):
		where = "thread %d, %s (precision %d at the beginning, %d at the end, changed %d times meanwhile by other threads)" % (task.idx, op, p0, mp.prec, changes)
		ctx.event('op', task.idx, op['op'], type(exc).__name__, p0, mp.prec, changes)
		ctx.state(op['op'], op['a'], op['b'], op['bad'], p0, mp.prec, min(changes, 3))
		if changes:
			ctx.probe('operations during which the precision has been changed')
		ctx.check([G.digest(x) for x in pr.args] == digests[id(pr)], 'argument-modified', lambda: "%s: the operands have been modified" % where)
		if fired:
			ctx.fault('exception at any line')
			if exc is not None:
				return
		if pr.expect is None:
			ctx.check(isinstance(exc, ValueError), 'no-valueerror', lambda: "%s: operands are not compatible, but %s" % (where, 'it raises %r' % exc if exc is not None else 'it returns %r' % res))
			ctx.probe('incompatible operands')
			return
		if exc is not None:
			raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
		old = mp.prec
		got = pr.get(res)
		for g, e in zip(got, pr.expect):
			fg = g if isinstance(g, list) else G.fmat(g)
			if pr.bound is not None and len(fg) == len(e) and all(len(x) == len(y) for x, y in zip(fg, e)):
				lowest = min([p0, mp.prec] + state['hist'][h0:])
				worst = [(i, j) for i in range(len(e)) for j in range(len(e[i])) if abs(fg[i][j] - e[i][j]) > pr.bound[i][j] * Fraction(2) ** (2 - lowest)]
				ctx.check(not worst, 'not-rounded', lambda: "%s: element %r is %r instead of %r: its error is more than that of the working precision (%d)" % (where, worst[0], fg[worst[0][0]][worst[0][1]], e[worst[0][0]][worst[0][1]], lowest))
				continue
			if fg != e:
				if len(fg) != len(e) or any(len(x) != len(y) for x, y in zip(fg, e)):
					msg = "shape %dx%d instead of %dx%d" % (len(fg), len(fg[0]) if fg else 0, len(e), len(e[0]) if e else 0)
				else:
					i, j = [(i, j) for i in range(len(e)) for j in range(len(e[i])) if e[i][j] != fg[i][j]][0]
					d = abs(fg[i][j] - e[i][j])
					msg = "element (%d,%d) is %s instead of %s (relative error %.3g)" % (i, j, fg[i][j], e[i][j], float(d / abs(e[i][j])) if e[i][j] else float(d))
				raise Violation('not-exact', "%s: the result is not exact: %s" % (where, msg))
		ctx.check(len(got) == len(pr.expect), 'not-exact', "number of matrices")
		assert mp.prec == old

	def disturber(acts):
		def body(task):
			for kind, v, hold in acts:
				for _ in range(hold):
					task.pause()
				state['changes'] += 1
				ctx.fault('precision change by another thread')
				if kind == 'prec':
					mp.prec = v
					state['hist'].append(v)
				elif kind == 'dps':
					mp.dps = max(1, v // 3)
					state['hist'].append(mp.prec)
				else:
					with (L.mpmath.workprec(v) if kind == 'work' else L.mpmath.workdps(max(1, v // 3))):
						state['hist'].append(mp.prec)
						for _ in range(3):
							task.pause()
					state['changes'] += 1
					state['hist'].append(mp.prec)
				ctx.event(kind, v)
		return body
	for ops in prepared:
		S.spawn(worker(ops))
	for acts in sc['disturbers']:
		S.spawn(disturber(acts))
	S.run()
	ctx.step(S.points)
	ctx.event('end', S.points, S.switches)
	ctx.probe('context switches', S.switches)
