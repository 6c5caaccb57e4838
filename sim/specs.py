# coding: utf-8
"""A finer simulated Sollya and MATLAB for frequency specifications (C17).

The numbers are exact up to 300 bits (private mpmath context) and `round` is directed.  checkModulusFilterInSpecification really
evaluates the modulus of the filter it receives on a grid of each domain it receives, and reports the worst point of every interval
of failure, as gabarit.sol does.  MATLAB really designs a filter from the parameters it receives.
"""
import operator

import numpy as np
from mpmath.ctx_mp import MPContext

from sim import engines

CTX = MPContext()
CTX.prec = 300
NGRID = 161


def up(x):
	"""-> mpf of the private context"""
	if isinstance(x, Num):
		return x.v
	if hasattr(x, '_mpf_'):
		return CTX.make_mpf(x._mpf_)
	if isinstance(x, (np.floating, np.integer)):
		x = x.item()
	return CTX.mpf(x)


class Num:
	"""a Sollya constant"""
	def __init__(self, x):
		self.v = up(x)

	def __float__(self):
		return float(self.v)

	def __bool__(self):
		return bool(self.v != 0)

	def __neg__(self):
		return Num(-self.v)

	def __abs__(self):
		return Num(abs(self.v))

	def __hash__(self):
		return hash(float(self.v))

	def __repr__(self):
		return CTX.nstr(self.v, 25)


def _bin(f, swap):
	def op(self, other):
		if isinstance(other, engines.Poly):
			return NotImplemented
		a, b = up(self), up(other)
		return Num(f(b, a) if swap else f(a, b))
	return op


for _n, _f in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv), ('pow', operator.pow)):
	setattr(Num, '__%s__' % _n, _bin(_f, False))
	setattr(Num, '__r%s__' % _n, _bin(_f, True))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
	setattr(Num, '__%s__' % _n, (lambda f: lambda self, other: bool(f(self.v, up(other))))(getattr(operator, _n)))


class Itv:
	def __init__(self, a, b=None):
		self.a, self.b = Num(a), Num(a if b is None else b)


class Poly(engines.Poly):
	pass


def rnd(x, prec, direction):
	"""rounding to prec bits in the given direction"""
	v = up(x)
	if not CTX.isfinite(v):
		return Num(v)
	c = MPContext()
	c.prec = int(prec)
	d = {'RU': 'c', 'RD': 'f', 'RN': 'n', 'RZ': 'd'}[direction]
	return Num(CTX.make_mpf(c.fadd(c.make_mpf(v._mpf_), 0, prec=int(prec), rounding=d)._mpf_))


def modulus(num, den, w):
	"""|num(z)/den(z)| for z = exp(j*pi*w), coefficients in increasing powers"""
	z = np.exp(1j * np.pi * np.asarray(w, dtype=float))
	return np.abs(np.polyval(num[::-1], z) / np.polyval(den[::-1], z))


def grid(w1, w2):
	return np.linspace(w1, w2, NGRID)


class Checker:
	"""checkModulusFilterInSpecification"""
	def __init__(self):
		self.asked = []
		self.width = 0.

	def __call__(self, num, den, constraints, prec):
		engines.SOLLYA.log.append(('check',))
		cs = []
		for c in constraints:
			c = dict(c)
			cs.append((c['Omega'], up(c['omegaFactor']), up(c['betaInf']), up(c['betaSup'])))
		self.asked.append({'num': coeffs(num), 'den': coeffs(den), 'constraints': cs, 'prec': prec})
		engines.SOLLYA.outcome('check')
		b, a = coeffs(num), coeffs(den)
		results = []
		for c, (om, f, lo, hi) in zip(constraints, cs):
			k = float(f / CTX.pi)
			h = modulus(b, a, k * grid(float(om.a), float(om.b)))
			bad = [up(float(x)) < lo or up(float(x)) > hi for x in h]
			issues, i = [], 0
			while i < len(h):
				if not bad[i]:
					i += 1
					continue
				j = i
				while j < len(h) and bad[j]:
					j += 1
				w = max(range(i, j), key=lambda t: max(up(float(h[t])) - hi, lo - up(float(h[t]))))
				issues.append({'H': Itv(up(float(h[w])) * (1 - self.width), up(float(h[w])) * (1 + self.width)), 'specification': dict(c)})
				i = j
			# (Sollya prepends)
			results.insert(0, {'okay': not issues, 'issue': issues[::-1], 'specification': dict(c)})
		return {'okay': all(r['okay'] for r in results), 'results': results}


def coeffs(p):
	"""increasing powers"""
	if not isinstance(p, engines.Poly):
		return [float(p)]
	n = max(p.c) if p.c else 0
	return [float(p.c.get(i, 0)) for i in range(n + 1)]


def _horner(p):
	return p


def granted(kind, p):
	"""[(True, w1, w2, ripple) or (False, w1, w2, attenuation)]: all that a filter designed by MATLAB for these parameters grants"""
	if kind == 'lowpass':
		return [(True, 0., p[0], p[2]), (False, p[1], 1., p[3])]
	if kind == 'highpass':
		return [(False, 0., p[0], p[2]), (True, p[1], 1., p[3])]
	if kind == 'bandpass':
		return [(False, 0., p[0], p[4]), (True, p[1], p[2], p[5]), (False, p[3], 1., p[6])]
	return [(True, 0., p[0], p[4]), (False, p[1], p[2], p[5]), (True, p[3], 1., p[6])]


CHECKER = Checker()


def install():
	"""replaces the simulated Sollya of the other worlds by this one (in this process)"""
	m = engines.SOLLYA_MODULE
	m.SollyaObject = lambda x: x if isinstance(x, (Num, engines.Poly)) else Num(x)
	m.Interval = Itv
	m.pi = Num(CTX.pi)
	m.round = rnd
	m.max = lambda *a: Num(max(up(x) for x in a))
	m.min = lambda *a: Num(min(up(x) for x in a))
	m.inf = lambda i: i.a
	m.sup = lambda i: i.b
	m.log10 = lambda x: Num(CTX.log10(up(x)))
	m.exp = lambda x: Num(CTX.exp(up(x)))
	engines.SOLLYA._check = CHECKER


# ---------------------------------------------------------------- MATLAB

def design(kind, params, ftype):
	"""the filter that fdesign.<kind>(*params), design(., ftype) gives"""
	from scipy.signal import iirdesign
	p = [float(x) for x in params]
	if kind in ('lowpass', 'highpass'):
		w, at = p[:2], p[2:]
		if len(p) != 4:
			raise engines.MatlabError("4 parameters expected")
		args = (w[0], w[1], at[0], at[1]) if kind == 'lowpass' else (w[1], w[0], at[1], at[0])
	else:
		if len(p) != 7:
			raise engines.MatlabError("7 parameters expected")
		w, at = p[:4], p[4:]
		args = ([w[1], w[2]], [w[0], w[3]], at[1], max(at[0], at[2])) if kind == 'bandpass' else ([w[0], w[3]], [w[1], w[2]], min(at[0], at[2]), at[1])
	if not all(0 < x < 1 for x in w) or any(x >= y for x, y in zip(w, w[1:])) or min(at) <= 0:
		raise engines.MatlabError("Invalid specifications")
	num, den = iirdesign(*args, analog=False, ftype=ftype)
	return [float(x) for x in num], [float(x) for x in den]


DESIGNS = []            # (kind, parameters) received by the engine


class Engine(engines.MatlabEngine):
	def design(self, spec, ftype, *a):
		self._sim.call(self._ident, 'design')
		DESIGNS.append((spec[1], [float(x) for x in spec[2]]))
		return ('filter',) + design(spec[1], spec[2], ftype)

	def tf(self, h, nargout=1):
		self._sim.call(self._ident, 'tf')

		class D:
			def __init__(self, v):
				import array
				self._data = array.array('d', v)
		return D(h[1]), D(h[2])


def install_matlab():
	sim = engines.MATLAB

	def start_matlab(*a, **k):
		sim.starts.append('ok')
		return Engine(sim, len(sim.starts))
	sim.start_matlab = start_matlab
