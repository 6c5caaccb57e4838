# coding: utf-8
"""Deterministic generators of data (independent of the library) and exact or double reference computations"""
from fractions import Fraction

import numpy as np


def rs(*seed):
	from sim.core import seed_of
	return np.random.RandomState(seed_of(*seed) % (2 ** 32))


def mat(r, rows, cols, kind='dense'):
	"""random matrix of doubles"""
	M = r.uniform(-1, 1, (rows, cols))
	if kind == 'sparse':
		M *= r.uniform(0, 1, (rows, cols)) < 0.5
	elif kind == 'wide':
		M = M * 2.0 ** r.randint(-40, 40, (rows, cols))
	elif kind == 'short':
		M = np.round(M * 16) / 8
	elif kind == 'huge':
		M = M * 2.0 ** r.randint(-300, 300, (rows, cols))
	elif kind == 'int':
		M = np.round(M * 10)
	return np.matrix(M)


def stable_A(r, n, rho=None):
	if n == 0:
		return np.matrix(np.zeros((0, 0)))
	A = r.uniform(-1, 1, (n, n))
	m = max(abs(np.linalg.eigvals(A)))
	rho = r.uniform(0.2, 0.9) if rho is None else rho
	return np.matrix(A * (rho / max(m, 1e-3)))


def ss(r, n, p, q, rho=None):
	"""stable state-space"""
	return stable_A(r, n, rho), mat(r, n, q), mat(r, p, n), mat(r, p, q)


def sif(r, l, n, p, q, pnut='any', sparse=False, rho=None, zeroR=False):
	"""random stable SIF (J..S).  pnut: 'upper' (P is upper triangular), 'full', 'any'"""
	if pnut == 'any':
		pnut = 'upper' if r.uniform() < 0.4 else 'full'
	kind = 'sparse' if sparse else 'dense'
	J = np.matrix(np.eye(l) + np.tril(mat(r, l, l, kind), -1))
	M, N = mat(r, l, n, kind), mat(r, l, q, kind)
	K, L = mat(r, n, l, kind), mat(r, p, l, kind)
	Q, S = mat(r, n, q, kind), mat(r, p, q, kind)
	R = mat(r, p, n, kind)
	if zeroR:
		R = R * 0.
	P = mat(r, n, n, kind)
	if pnut == 'upper':
		P = np.matrix(np.triu(P))
	# contraction so that AZ = K J^-1 M + P is stable: K and P are scaled by the same factor
	AZ = K * np.linalg.inv(J) * M + P
	m = max(abs(np.linalg.eigvals(AZ))) if n else 0.
	rho = r.uniform(0.3, 0.9) if rho is None else rho
	if m > 0:
		f = rho / max(m, 1e-2)
		K, P = K * f, P * f
	return [J, K, L, M, N, P, Q, R, S]


def sif_sim(Z, u, x0=None):
	"""reference simulation in double of J t = M x + N u ; x+ = K t + P x + Q u ; y = L t + R x + S u.
	u: q x T.  Returns (y, T, X) as arrays, X[:, k] being the state after step k"""
	J, K, L, M, N, P, Q, R, S = [np.asarray(X, dtype=np.longdouble) for X in Z]
	u = np.asarray(u, dtype=np.longdouble)
	l, n, p = J.shape[0], P.shape[0], S.shape[0]
	x = np.zeros(n, dtype=np.longdouble) if x0 is None else np.asarray(x0, dtype=np.longdouble).ravel()
	T = u.shape[1]
	Y, TT, XX = np.zeros((p, T), np.longdouble), np.zeros((l, T), np.longdouble), np.zeros((n, T), np.longdouble)
	for k in range(T):
		rhs = M @ x + N @ u[:, k]
		t = np.zeros(l, dtype=np.longdouble)
		for i in range(l):
			t[i] = (rhs[i] - J[i, :i] @ t[:i]) / J[i, i]
		Y[:, k] = L @ t + R @ x + S @ u[:, k]
		x = K @ t + P @ x + Q @ u[:, k]
		TT[:, k] = t
		XX[:, k] = x
	return Y, TT, XX


def sif_ss(Z):
	"""equivalent state-space (double)"""
	J, K, L, M, N, P, Q, R, S = [np.asarray(X, dtype=float) for X in Z]
	Ji = np.linalg.inv(J) if J.shape[0] else J
	return K @ Ji @ M + P, K @ Ji @ N + Q, L @ Ji @ M + R, L @ Ji @ N + S


def ss_sim(A, B, C, D, u, x0=None):
	A, B, C, D, u = [np.asarray(X, dtype=np.longdouble) for X in (A, B, C, D, u)]
	n, p, T = A.shape[0], D.shape[0], u.shape[1]
	x = np.zeros(n, np.longdouble) if x0 is None else np.asarray(x0, np.longdouble).ravel()
	Y = np.zeros((p, T), np.longdouble)
	for k in range(T):
		Y[:, k] = C @ x + D @ u[:, k]
		x = A @ x + B @ u[:, k]
	return Y


def impulse(A, B, C, D, T):
	"""impulse response, p x q x T"""
	A, B, C, D = [np.asarray(X, dtype=np.longdouble) for X in (A, B, C, D)]
	h = [D]
	X = B
	for _ in range(T - 1):
		h.append(C @ X if A.shape[0] else D * 0)
		X = A @ X if A.shape[0] else X
	return np.stack(h, axis=-1)


def tf_sim(num, den, u):
	"""direct form with long doubles: num, den lists (den[0] may be anything)"""
	num, den = [np.asarray(x, dtype=np.longdouble).ravel() for x in (num, den)]
	num, den = num / den[0], den / den[0]
	u = np.asarray(u, dtype=np.longdouble).ravel()
	y = np.zeros(len(u), np.longdouble)
	for k in range(len(u)):
		s = np.longdouble(0)
		for i in range(min(len(num), k + 1)):
			s += num[i] * u[k - i]
		for i in range(1, min(len(den), k + 1)):
			s -= den[i] * y[k - i]
		y[k] = s
	return y


# ---------------------------------------------------------------- exact arithmetic

def fr(x):
	"""exact rational value of a double, an int or an mpf"""
	if isinstance(x, Fraction):
		return x
	t = getattr(x, '_mpf_', None)
	if t is not None:
		s, man, exp, bc = t
		if man == 0:
			if exp == 0:
				return Fraction(0)
			raise ValueError("not finite")
		man = int(man)
		v = Fraction(man) * (Fraction(2) ** exp)
		return -v if s else v
	if isinstance(x, (int,)):
		return Fraction(x)
	return Fraction(float(x))


def fmat(M):
	"""matrix (numpy or mpmath) -> list of lists of rationals"""
	if hasattr(M, 'rows'):
		return [[fr(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]
	M = np.asarray(M)
	if M.ndim == 1:
		M = M.reshape(1, -1)
	return [[fr(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]


def shape_of(M):
	if hasattr(M, 'rows'):
		return (M.rows, M.cols)
	return np.asarray(M).shape


def fmul(X, Y, inner=None, cols=None):
	if not X:
		return []
	cols = len(Y[0]) if Y else (cols or 0)
	return [[sum((a * Y[k][j] for k, a in enumerate(row)), Fraction(0)) for j in range(cols)] for row in X]


def fadd(X, Y, s=1):
	return [[a + s * b for a, b in zip(r1, r2)] for r1, r2 in zip(X, Y)]


def fss_sim(A, B, C, D, u, x0=None, round_state=None, round_out=None):
	"""exact simulation (rationals); round_state: function applied to each component of the state after each step"""
	n, p, q = len(A), len(D), len(D[0])
	x = [Fraction(0)] * n if x0 is None else list(x0)
	Y = []
	for k in range(len(u[0])):
		uk = [u[j][k] for j in range(q)]
		y = [sum((C[i][j] * x[j] for j in range(n)), Fraction(0)) + sum((D[i][j] * uk[j] for j in range(q)), Fraction(0)) for i in range(p)]
		x = [sum((A[i][j] * x[j] for j in range(n)), Fraction(0)) + sum((B[i][j] * uk[j] for j in range(q)), Fraction(0)) for i in range(n)]
		if round_state:
			x = [round_state(v) for v in x]
		Y.append([round_out(v) for v in y] if round_out else y)
	return Y, x


def digest(obj):
	"""bit-exact digest of a value (matrices of doubles, mpmath matrices, numbers, containers)"""
	import hashlib
	h = hashlib.sha256()

	def rec(o):
		if o is None or isinstance(o, (str, bool)):
			h.update(repr(o).encode('utf-8', 'backslashreplace'))
		elif isinstance(o, np.ndarray):
			h.update(repr((o.shape, o.dtype.kind)).encode())
			if o.dtype == object:
				for x in o.ravel():
					rec(x)
			else:
				h.update(np.ascontiguousarray(o).tobytes())
		elif hasattr(o, 'rows') and hasattr(o, 'cols'):
			h.update(repr((o.rows, o.cols)).encode())
			for i in range(o.rows):
				for j in range(o.cols):
					rec(o[i, j])
		elif getattr(o, '_mpf_', None) is not None:
			s, man, exp, bc = o._mpf_
			h.update(repr((int(s), int(man), int(exp))).encode())
		elif isinstance(o, (list, tuple)):
			h.update(b'(')
			for x in o:
				rec(x)
			h.update(b')')
		elif isinstance(o, dict):
			for k in sorted(o, key=repr):
				rec(k)
				rec(o[k])
		elif isinstance(o, (int, float, np.number, Fraction)):
			h.update((float(o).hex() if isinstance(o, (float, np.floating)) else repr(o)).encode())
		else:
			h.update(repr(type(o)).encode())
	rec(obj)
	return h.hexdigest()[:16]


def close(X, Y, tol=1e-9, scale=None):
	"""are the two arrays equal up to tol, relative to their largest magnitude ?"""
	X, Y = np.asarray(X, dtype=np.longdouble), np.asarray(Y, dtype=np.longdouble)
	if X.shape != Y.shape:
		return False
	if X.size == 0:
		return True
	if not (np.all(np.isfinite(X)) and np.all(np.isfinite(Y))):
		return False
	s = max(1., float(np.abs(X).max()), float(np.abs(Y).max())) if scale is None else scale
	return bool(np.abs(X - Y).max() <= tol * s)


def filter_poles_tf(r, order, rho_max=0.85):
	"""a well-conditioned stable transfer function: (num, den) lists, den[0] = 1"""
	den = np.array([1.])
	k = order
	while k > 0:
		if k >= 2 and r.uniform() < 0.6:
			m, a = r.uniform(0.1, rho_max), r.uniform(0, np.pi)
			den = np.polymul(den, [1., -2 * m * np.cos(a), m * m])
			k -= 2
		else:
			den = np.polymul(den, [1., -r.uniform(-rho_max, rho_max)])
			k -= 1
	num = r.uniform(-1, 1, order + 1)
	return [float(x) for x in num], [float(x) for x in den]


def special(r, Z, bound=0.97, near=31, tiny=31):
	"""the SIF Z, with some coefficients replaced by special ones (very close to 1 or -1, very small, powers of two)"""
	new = [np.matrix(X, dtype=float).copy() for X in Z]
	for _ in range(int(r.randint(1, 5))):
		i = int(r.randint(0, 9))
		X = new[i]
		if not X.size or (i == 0 and X.shape[0] < 2):
			continue
		a, b = int(r.randint(0, X.shape[0])), int(r.randint(0, X.shape[1]))
		if i == 0:
			a = int(r.randint(1, X.shape[0]))
			b = int(r.randint(0, a))
		if i == 5 and a > b:
			a, b = b, a         # (the lower part of P is left as it is)
		s = [-1., 1.][int(r.randint(0, 2))]
		X[a, b] = s * [1. + [-1., 1.][int(r.randint(0, 2))] * 2. ** -int(r.randint(10, near)), 2. ** -int(r.randint(8, tiny)) * (1 + r.uniform()), 2. ** int(r.randint(-3, 3)), 1.][int(r.randint(0, 4))]
	AZ = sif_ss(new)[0]
	if AZ.size and max(abs(np.linalg.eigvals(AZ))) > bound:
		return Z
	return new


def rescale(r, Z, span=20, graded=.3, extreme=0.):
	"""the SIF Z with its temporary variables and states scaled by powers of two: the same outputs (with the same rounding errors),
	very small and very large coefficients"""
	J, K, L, M, N, P, Q, R, S = [np.asarray(X, dtype=float) for X in Z]
	d = 2. ** r.randint(-span, span + 1, J.shape[0])
	e = 2. ** r.randint(-span, span + 1, P.shape[0])
	if r.uniform() < graded:
		# graded: one of the triangular parts of P is very small, and the other very large
		e = 2. ** (r.choice([-1, 1]) * r.choice([16, 32]) * np.arange(P.shape[0]).clip(0, 12))
	if r.uniform() < extreme:
		# all the states (and temporary variables) very small, or very large
		x = 2. ** r.choice([-1000, -300, 300, 1000])
		d, e = np.full(J.shape[0], x), np.full(P.shape[0], x)
	col, new = (lambda v: v.reshape(-1, 1)), []
	for X, left, right in ((J, d, d), (K, e, d), (L, None, d), (M, d, e), (N, d, None), (P, e, e), (Q, e, None), (R, None, e), (S, None, None)):
		X = X.copy()
		if left is not None:
			X = X * col(left)
		if right is not None:
			X = X / right
		new.append(np.matrix(X))
	return new


def rounding(Z, u, T, X, x0=None):
	"""the order of magnitude of the errors of a simulation in double precision: outputs and states at each time (the errors of the
	sums of products, relative to their largest terms, propagated as independent noises)"""
	Z = [np.asarray(V, dtype=float) for V in Z]
	J, K, L, M, N, P, Q, R, S = [np.abs(V) for V in Z]
	u, T, X = [np.abs(np.asarray(V, dtype=float)) for V in (u, T, X)]
	l, n = J.shape[0], P.shape[0]
	x0 = np.zeros((n, 1)) if x0 is None else np.abs(np.asarray(x0, dtype=float)).reshape(-1, 1)
	X = np.hstack([x0, X])[:, :u.shape[1]]
	eps = 2. ** -52

	def terms(*pairs):
		return np.max([(C[:, :, None] * V[None]).max(axis=1, initial=0.) for C, V in pairs], axis=0)
	gT = terms((np.tril(J, -1), T), (M, X), (N, u)) * eps
	gX = terms((K, T), (P, X), (Q, u)) * eps
	gY = terms((L, T), (R, X), (S, u)) * eps
	iJ = np.linalg.inv(Z[0]) if l else np.zeros((0, 0))
	KJ, LJ = Z[1] @ iJ, Z[2] @ iJ
	A, C = KJ @ Z[3] + Z[5], LJ @ Z[3] + Z[7]
	cov, sx, sy = np.zeros((n, n)), [], []
	for k in range(u.shape[1]):
		vT = gT[:, k] ** 2
		sy.append(np.sqrt(((C @ cov) * C).sum(axis=1).clip(0) + (LJ ** 2) @ vT + gY[:, k] ** 2))
		cov = A @ cov @ A.T + (KJ * vT) @ KJ.T + np.diag(gX[:, k] ** 2)
		sx.append(np.sqrt(np.diag(cov).clip(0)))
	return tuple(np.nan_to_num(np.array(s).T.reshape(d, -1), nan=np.inf, posinf=np.inf) for s, d in ((sy, L.shape[0]), (sx, n)))


def within(got, exp, noise, factor=3e4):
	"""is each value the expected one, to rounding errors of order noise ?"""
	got, exp = np.asarray(got), np.asarray(exp)
	return got.shape == exp.shape and bool(np.all(np.abs(got - exp) <= factor * noise + 1e-14 * np.abs(exp) + 1e-280))
