# coding: utf-8
"""Reference computations for the word-length worlds (C09, C15), independent of the library"""
import math

import numpy as np

from sim import gen as G


def zeta_ss(Z):
	"""state-space from the inputs to (t, x(k+1), y)"""
	J, K, L, M, N, P, Q, R, S = [np.asarray(X, dtype=float) for X in Z]
	l, n, p = J.shape[0], P.shape[0], S.shape[0]
	A, B, C, D = G.sif_ss(Z)
	Ji = np.linalg.inv(J) if l else np.zeros((0, 0))
	Cz = np.vstack([Ji @ M, np.eye(n), C])
	Dz = np.vstack([Ji @ N, np.zeros((n, S.shape[1])), D])
	return A, B, Cz, Dz


def eps_ss(Z):
	"""state-space from the errors (on t, x(k+1), y) to the outputs"""
	J, K, L, M, N, P, Q, R, S = [np.asarray(X, dtype=float) for X in Z]
	l, n, p = J.shape[0], P.shape[0], S.shape[0]
	A, _, C, _ = G.sif_ss(Z)
	Ji = np.linalg.inv(J) if l else np.zeros((0, 0))
	B = np.hstack([K @ Ji, np.eye(n), np.zeros((n, p))])
	D = np.hstack([L @ Ji, np.zeros((p, n)), np.eye(p)])
	return A, B, C, D


def horizon(Z, tol=1e-15, kmax=4000):
	A = G.sif_ss(Z)[0]
	r = max(abs(np.linalg.eigvals(A))) if A.size else 0.
	if r >= 0.995:
		return kmax
	return int(min(kmax, 40 + 3 * A.shape[0] + (math.log(tol) / math.log(max(r, 1e-3)))))


def wcpg(ss, T):
	h = G.impulse(*ss, T)
	return np.abs(np.asarray(h, dtype=float)).sum(axis=-1), np.asarray(h, dtype=float)


def msb_range(z, slop=1e-9):
	"""set of the acceptable MSB for a bound z > 0"""
	return {math.ceil(math.log2(z * (1 - slop))), math.ceil(math.log2(z * (1 + slop)))}


def wtilde_range(z, m, slop=1e-9):
	"""(lowest, highest) acceptable values of w_tilde for a bound z and the MSB m (inf when z is a power of two)"""
	res = []
	for zz in (z * (1 - slop), z * (1 + slop)):
		gap = 2. ** m - zz
		res.append(math.inf if gap <= 0 else 1 + m - math.floor(math.log2(gap)))
	return min(res), max(res)
