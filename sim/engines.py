# coding: utf-8
"""Simulated external engines: Sollya (python-sollya), MATLAB (matlab.engine) and Slycot.

They record every call in a log and answer what the scenario says; failures are injected at their boundary.
"""
import os
import sys
import types
from fractions import Fraction


class SollyaError(Exception):
	"""what the simulated Sollya raises"""


class Val(float):
	"""a Sollya constant (a float is enough here)"""
	def _w(self, x):
		return Val(x)
	__slots__ = ()


def _op(name):
	f = getattr(float, name)

	def op(self, other):
		if isinstance(other, (Poly,)):
			return NotImplemented
		r = f(self, float(other))
		return Val(r) if isinstance(r, float) else r
	return op


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', '__rpow__'):
	setattr(Val, _n, _op(_n))
Val.__neg__ = lambda self: Val(-float(self))
Val.__hash__ = float.__hash__


def exact(x):
	return x if isinstance(x, Fraction) else Fraction(float(x))


class Poly:
	"""polynomial in _x_ with exact coefficients"""
	def __init__(self, c):
		self.c = dict(c)

	def __add__(self, o):
		if not isinstance(o, Poly):
			o = Poly({0: exact(o)})
		r = dict(self.c)
		for k, v in o.c.items():
			r[k] = r.get(k, 0) + v
		return Poly(r)
	__radd__ = __add__

	def __mul__(self, o):
		if isinstance(o, Poly):
			r = {}
			for a, x in self.c.items():
				for b, y in o.c.items():
					r[a + b] = r.get(a + b, 0) + x * y
			return Poly(r)
		return Poly({k: v * exact(o) for k, v in self.c.items()})
	__rmul__ = __mul__

	def __pow__(self, i):
		r = Poly({0: Fraction(1)})
		for _ in range(int(i)):
			r = r * self
		return r

	def key(self):
		return tuple(sorted((k, v) for k, v in self.c.items() if v != 0))


class Itv:
	def __init__(self, a, b=None):
		self.a = Val(a)
		self.b = Val(a if b is None else b)


class SollyaEngine:
	"""state of the simulated Sollya: the log of the calls, the outcomes that the scenario wants, the procedures loaded"""
	def __init__(self):
		self.log = []
		self.loaded = False
		self.wcpg_loaded = False
		self.plan = {}          # where -> list of outcomes for the successive calls ('ok' when exhausted)
		self.answers = []       # answers of checkModulusFilterInSpecification
		self.default = {'okay': True, 'issues': []}
		self.on_call = None

	def outcome(self, where):
		pl = self.plan.get(where)
		o = pl.pop(0) if pl else 'ok'
		if o != 'ok' and self.on_call:
			self.on_call(where, o)
		if o == 'MemoryError':
			raise MemoryError("injected in %s" % where)
		if o == 'KeyboardInterrupt':
			raise KeyboardInterrupt("injected in %s" % where)
		if o == 'OSError':
			raise OSError(5, "injected in %s" % where)
		if o == 'NameError':
			raise NameError("injected in %s" % where)
		if o != 'ok':
			raise SollyaError("%s failed" % where)

	def suppressmessage(self, *a):
		self.log.append(('suppressmessage',))
		self.outcome('suppressmessage')

	def execute(self, path):
		self.log.append(('execute', os.path.basename(str(path))))
		self.outcome('execute')
		try:
			with open(str(path), errors='replace') as f:
				text = f.read()
		except OSError as e:
			raise SollyaError("cannot open %s: %s" % (path, e))
		if 'checkModulusFilterInSpecification' in text:
			self.loaded = True
			self.log.append(('loaded',))
		if 'procedure wcpg' in text:
			self.wcpg_loaded = True

	def _wcpg(self, *args):
		self.log.append(('wcpg',) + tuple(tuple(float(x) for x in a) if isinstance(a, (list, tuple)) else float(a) for a in args[:-1]))
		self.outcome('wcpg')
		return ['wcpg']

	def parse(self, name):
		if name == 'wcpg':
			if not self.wcpg_loaded:
				self.log.append(('use-before-load', name))
				raise SollyaError("%s is not defined" % name)
			return self._wcpg
		if not self.loaded:
			self.log.append(('use-before-load', name))
			raise SollyaError("%s is not defined" % name)
		if name == 'checkModulusFilterInSpecification':
			return self._check
		if name == 'presentResults':
			return self._present
		raise SollyaError("unknown procedure %s" % name)

	def _check(self, num, den, constraints, prec):
		self.log.append(('check', num.key() if isinstance(num, Poly) else None, den.key() if isinstance(den, Poly) else None, len(constraints), prec))
		self.outcome('check')
		a = self.answers.pop(0) if self.answers else self.default
		issues = [{'H': Itv(h0, h1), 'specification': {'betaInf': Val(b0), 'betaSup': Val(b1)}} for h0, h1, b0, b1 in a['issues']]
		return {'okay': a['okay'], 'results': [{'okay': a['okay'], 'issue': issues}]}

	def _present(self, res):
		self.log.append(('present',))
		self.outcome('present')


SOLLYA = SollyaEngine()


def wcpg_arguments(S):
	"""what the engine must be asked for the system S (all the coefficients are doubles)"""
	m = [tuple(float(X[i, j]) for i in range(X.rows) for j in range(X.cols)) for X in (S.A, S.B, S.C, S.D)]
	return tuple(m) + (float(S.A.rows), float(S.C.rows), float(S.B.cols))


def _sollya_module():
	m = types.ModuleType('sollya')
	m.SollyaObject = lambda x: x if isinstance(x, (Val, Poly)) else Val(x)
	m.Interval = Itv
	m.pi = Val(3.141592653589793)
	m.RU, m.RD, m.RN, m.RZ = 'RU', 'RD', 'RN', 'RZ'
	m.round = lambda x, p, d: Val(x)
	m.max = lambda *a: Val(max(float(x) for x in a))
	m.min = lambda *a: Val(min(float(x) for x in a))
	m.inf = lambda i: i.a
	m.sup = lambda i: i.b
	m._x_ = Poly({1: Fraction(1)})
	m.horner = lambda p: p
	m.suppressmessage = lambda *a: SOLLYA.suppressmessage(*a)
	m.execute = lambda p: SOLLYA.execute(p)
	m.parse = lambda s: SOLLYA.parse(s)
	return m


SOLLYA_MODULE = _sollya_module()


def sollya_absent():
	"""as if Sollya were not installed; returns the function that installs it"""
	from sim.env import lib_modules
	places = []
	for m in lib_modules():
		for k, v in list(vars(m).items()):
			if v is SOLLYA_MODULE:
				places.append((m, k))
				delattr(m, k)
	sys.modules['sollya'] = None

	def back():
		sys.modules['sollya'] = SOLLYA_MODULE
		for m, k in places:
			setattr(m, k, SOLLYA_MODULE)
	return back


# ---------------------------------------------------------------- MATLAB

class MatlabError(Exception):
	pass


class MatlabEngine:
	def __init__(self, sim, ident):
		self._sim = sim
		self._ident = ident

	def addpath(self, p):
		self._sim.call(self._ident, 'addpath')

	def TF2LWDF2SIF(self, num, den):
		self._sim.call(self._ident, 'TF2LWDF2SIF')
		import numpy as np
		l, n = 1, 2
		z = np.zeros
		return {'J': np.eye(1), 'K': z((n, l)), 'L': z((1, l)), 'M': z((l, n)), 'N': z((l, 1)), 'P': z((n, n)), 'Q': z((n, 1)), 'R': z((1, n)), 'S': np.ones((1, 1))}

	@property
	def fdesign(self):
		sim, ident = self._sim, self._ident

		class FD:
			def __getattr__(self, name):
				if name.startswith('__'):
					raise AttributeError(name)

				def f(*params):
					sim.call(ident, 'fdesign')
					return ('spec', name, params)
				return f

			def lowpass(self, *params):
				sim.call(ident, 'fdesign')
				return ('spec', 'lowpass', params)
		d = FD()
		# the library calls fdesign.__getattr__(name)
		return d

	def design(self, *a):
		self._sim.call(self._ident, 'design')
		return ('filter',)

	def tf(self, h, nargout=1):
		self._sim.call(self._ident, 'tf')

		class D:
			def __init__(self, v):
				import array
				self._data = array.array('d', v)
		return D([1., 0.5]), D([1., 0.25])


class MatlabSim:
	def __init__(self):
		self.starts = []            # outcome of every start
		self.calls = []
		self.plan = []
		self.call_plan = []
		self.on_call = None

	def start_matlab(self, *a, **k):
		o = self.plan.pop(0) if self.plan else 'ok'
		self.starts.append(o)
		if o != 'ok':
			if self.on_call:
				self.on_call('start_matlab', o)
			raise {'EngineError': MatlabError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'ImportError': ImportError, 'OSError': OSError}[o]("injected in start_matlab")
		return MatlabEngine(self, len(self.starts))

	def call(self, ident, name):
		self.calls.append((ident, name))
		o = self.call_plan.pop(0) if self.call_plan else 'ok'
		if o != 'ok':
			if self.on_call:
				self.on_call(name, o)
			raise MatlabError("injected in %s" % name)


MATLAB = MatlabSim()


def matlab_present(present=True):
	"""installs (or removes) the simulated package matlab"""
	if present:
		m = types.ModuleType('matlab')
		m.__path__ = []
		e = types.ModuleType('matlab.engine')
		e.start_matlab = MATLAB.start_matlab
		e.MatlabExecutionError = MatlabError
		m.engine = e
		m.double = lambda x: x
		sys.modules['matlab'] = m
		sys.modules['matlab.engine'] = e
	else:
		sys.modules['matlab'] = None
		sys.modules['matlab.engine'] = None


# ---------------------------------------------------------------- Slycot

class SlycotSim:
	def __init__(self):
		self.plan = []
		self.calls = 0
		self.on_call = None

	def sb03md(self, n, C, A, U, dico='D', job='X', fact='N', trana='N', ldwork=None):
		import numpy as np
		from scipy.linalg import solve_discrete_lyapunov
		self.calls += 1
		o = self.plan.pop(0) if self.plan else 'ok'
		if o != 'ok' and self.on_call:
			self.on_call('sb03md', o)
		if o == 'ValueError':
			raise ValueError("injected: the QR algorithm failed")
		if o == 'ArithmeticError':
			raise ArithmeticError("injected: reciprocal eigenvalues")
		A_, C_ = np.array(A, dtype=float), np.array(C, dtype=float)
		X = ORIG['lyap'](A_ if trana == 'T' else A_.T, -C_)
		try:                    # the routine overwrites its arguments (Schur form)
			A[:] = A[:] * 0. + 7.
			C[:] = X
		except (TypeError, ValueError):
			pass
		return X, 1., 0., 0., np.zeros(n)


	def ab09ad(self, dico, job, equil, n, m, p, A, B, C, nr=None, tol=0, ldwork=None):
		"""balanced reduction (square root method): reduced order, matrices, Hankel singular values"""
		import numpy as np
		self.calls += 1
		o = self.plan.pop(0) if self.plan else 'ok'
		if o != 'ok' and self.on_call:
			self.on_call('ab09ad', o)
		if o == 'ValueError':
			raise ValueError("injected: the QR algorithm failed")
		if o == 'ArithmeticError':
			raise ArithmeticError("injected: reordering failed")
		A, B, C = (np.array(X, dtype=float) for X in (A, B, C))
		if A.shape != (n, n) or B.shape != (n, m) or C.shape != (p, n) or dico != 'D':
			raise ValueError("ab09ad: wrong arguments")
		if n and max(abs(np.linalg.eigvals(A))) >= 1:
			raise ValueError("ab09ad: the system is not stable")
		factors = []
		for X in (ORIG['lyap'](A, B @ B.T), ORIG['lyap'](A.T, C.T @ C)):
			w, U = np.linalg.eigh((X + X.T) / 2)
			factors.append(U * np.sqrt(np.maximum(w, 0)))
		U, hsv, Vt = np.linalg.svd(factors[1].T @ factors[0])
		# (SLICOT ignores tol when the order is given)
		r = int(sum(hsv > max(tol if nr is None else 0, 1e-8 * max(hsv, default=0))))
		r = min(r, n if nr is None else nr)
		s = 1 / np.sqrt(hsv[:r])
		T, Ti = factors[0] @ Vt[:r].T * s, (s * U[:, :r]).T @ factors[1].T
		return r, Ti @ A @ T, Ti @ B, C @ T, hsv


SLYCOT = SlycotSim()
ORIG = {}


def slycot_in(lib):
	"""puts the simulated solver where the library expects it"""
	import fixif.LTI.dSS as m
	mod = sys.modules['fixif.LTI.dSS']
	mod.sb03md = SLYCOT.sb03md
	mod.ab09ad = SLYCOT.ab09ad
	m = types.ModuleType('slycot')
	m.sb03md, m.ab09ad = SLYCOT.sb03md, SLYCOT.ab09ad
	sys.modules['slycot'] = m


def slycot_out(lib):
	mod = sys.modules['fixif.LTI.dSS']
	sys.modules['slycot'] = None
	for k in ('sb03md', 'ab09ad'):
		if hasattr(mod, k):
			delattr(mod, k)


def install():
	sys.modules['sollya'] = SOLLYA_MODULE
	# `matlab` and `slycot` are absent when the library is imported, as in this sandbox
	for n in ('matlab', 'matlab.engine', 'slycot'):
		sys.modules[n] = None
	from scipy.linalg import solve_discrete_lyapunov
	ORIG['lyap'] = solve_discrete_lyapunov
