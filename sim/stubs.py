# coding: utf-8
"""Reference stand-ins for the packages that are not part of this repository (fixif.WCPG and fixif.FxP).

They are installed in sys.modules before `fixif` is imported.  `fixif.WCPG` is a plain summation of the impulse response;
`fixif.FxP` the documented round-to-nearest quantiser.  Both are simulated components: faults can be injected at their
boundary (`FAULTS`).
"""
import math
import sys
import types

import numpy as np


class EngineFault(Exception):
	"""raised by a simulated engine when the simulator injects a fault"""


class FaultPlan:
	"""one-shot faults, keyed by the boundary where they fire"""
	def __init__(self):
		self.armed = {}
		self.fired = {}

	def arm(self, where, exc, after=0):
		self.armed[where] = [after, exc]

	def clear(self):
		self.armed.clear()

	def hit(self, where):
		a = self.armed.get(where)
		if a is None:
			return
		if a[0] > 0:
			a[0] -= 1
			return
		del self.armed[where]
		self.fired[where] = self.fired.get(where, 0) + 1
		raise a[1]


FAULTS = FaultPlan()
CALLS = {'WCPG_ABCD': 0, 'WCPG_TF': 0, 'Constant': 0}


def ref_wcpg(A, B, C, D, tol=1e-17, kmax=20000):
	"""Worst-Case Peak Gain matrix |D| + sum_k |C A^k B|"""
	A, B, C, D = [np.array(X, dtype=float, ndmin=2) for X in (A, B, C, D)]
	W = np.abs(D).astype(float)
	if A.shape[0] == 0 or A.size == 0:
		return W
	X = B.copy()
	n = A.shape[0]
	ref = max(np.abs(B).max(initial=0.) * np.abs(C).max(initial=0.), 1e-300)
	small = 0
	for _ in range(kmax):
		T = np.abs(C @ X)
		W = W + T
		if not np.all(np.isfinite(W)):
			raise ValueError("WCPG: the system is not stable")
		X = A @ X
		small = small + 1 if np.abs(X).max() * max(1., np.abs(C).max()) * n < tol * max(W.max(), 1e-3 * ref, 1e-300) else 0
		if small > 2:
			return W
	raise ValueError("WCPG: cannot compute WCPG (no convergence)")


def WCPG_ABCD(A, B, C, D, output_info=None):
	CALLS['WCPG_ABCD'] += 1
	FAULTS.hit('wcpg')
	W = ref_wcpg(A, B, C, D)
	if output_info is not None:
		output_info['N'] = -1
		output_info['engine'] = 'reference'
	return np.matrix(W)


def WCPG_TF(num, den):
	CALLS['WCPG_TF'] += 1
	FAULTS.hit('wcpg')
	from scipy.signal import lfilter
	num = np.array(num, dtype=float).ravel()
	den = np.array(den, dtype=float).ravel()
	imp = np.zeros(20000)
	imp[0] = 1.
	h = lfilter(num, den, imp)
	s = float(np.abs(h).sum())
	if not math.isfinite(s):
		raise ValueError("WCPG: cannot compute WCPG")
	return s


class FPF:
	"""minimal fixed-point format"""
	def __init__(self, wl=None, msb=None, lsb=None, signed=True):
		if wl is not None and msb is not None:
			lsb = msb - wl + 1
		elif wl is not None and lsb is not None:
			msb = lsb + wl - 1
		self.msb = msb
		self.lsb = lsb
		self.signed = signed

	@property
	def wl(self):
		return self.msb - self.lsb + 1

	def LaTeX(self, **kwargs):
		return "%% FPF(%s,%s)" % (self.msb, self.lsb)

	def __str__(self):
		return "(%d,%d)" % (self.msb, self.lsb)


class Constant:
	"""two's complement round-to-nearest constant on wl bits"""
	def __init__(self, value, wl=None, signed=True, **kw):
		CALLS['Constant'] += 1
		FAULTS.hit('constant')
		value = float(value)
		if wl is None or wl <= 0:
			raise ValueError("Constant: invalid word-length")
		if value == 0:
			raise ValueError("Constant: cannot deduce the format of 0")
		mant, ex = math.frexp(abs(value))           # abs(value) = mant * 2^ex, 0.5 <= mant < 1
		if value > 0:
			msb = ex
		else:
			msb = ex - 1 if mant == 0.5 else ex
		lsb = msb - wl + 1
		m = math.floor(math.ldexp(value, -lsb) + 0.5)
		if m > (1 << (wl - 1)) - 1 and wl > 1:       # overflow after rounding
			msb += 1
			lsb += 1
			m = math.floor(math.ldexp(value, -lsb) + 0.5)
		self.mantissa = m
		self.FPF = FPF(msb=msb, lsb=lsb)
		self.value = value
		self.approx = math.ldexp(m, lsb)


def install():
	"""install the stand-ins in sys.modules (must be done before fixif is imported)"""
	w = types.ModuleType('fixif.WCPG')
	w.WCPG_ABCD = WCPG_ABCD
	w.WCPG_TF = WCPG_TF
	sys.modules['fixif.WCPG'] = w
	f = types.ModuleType('fixif.FxP')
	f.__path__ = []
	c = types.ModuleType('fixif.FxP.Constant')
	c.Constant = Constant
	f.Constant = Constant
	f.FPF = FPF
	sys.modules['fixif.FxP'] = f
	sys.modules['fixif.FxP.Constant'] = c
	m = types.ModuleType('matplotlib2tikz')
	m.save = lambda *a, **k: None
	m.get_tikz_code = lambda *a, **k: '\\begin{tikzpicture}'
	sys.modules.setdefault('matplotlib2tikz', m)
