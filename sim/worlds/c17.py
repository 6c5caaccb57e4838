# coding: utf-8
"""C17: frequency specifications keep their meaning through any use.

Simulated: specifications given in any order and form, and histories of uses: constraints for Sollya, checks, searches of the minimum
margin, designs by SciPy and MATLAB, design margins applied, shifted bands, drawings; engines and solvers that fail, calls aborted at
any line, then retried.  Sollya and MATLAB are simulated honestly: the checker evaluates the filter it receives over the constraints it
receives, MATLAB designs a filter from the parameters it receives.  Reference: the list of the bands, kept independently, on which
constraints, verdicts, margins and designs are judged.
"""
import contextlib
import math

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C17'
RUNS = {'quick': 1200, 'thorough': 40000}
BUDGET = {'quick': 180, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 specifications and 2 filters, then 6 to 24 operations drawn by the seed (constraint, check, margin search, design, design margin, shift, drawing, same specification in another form), about a third of them first done with a fault (engine, solver, abort at a line) then retried."
TIME_UNIT = "calls received by the simulated engines"
STATE_MEASURE = "abstract states (operation, type of the specification, method, options, margins applied before, fault, outcome)"
REAL = ["fixif.LTI.Gabarit, Band, dTF", "fixif.func_aux.MatlabHelper", "scipy.signal.iirdesign", "matplotlib"]
STUBS = ["sollya (300-bit constants, directed rounding, checker on a grid)", "matlab.engine (design by SciPy from the parameters received)"]
SHRINK_LISTS = ('ops', 'specs')
MAXPOOL = 5


def make_spec(rng):
	kind = rng.choice(['lowpass', 'lowpass', 'highpass', 'bandpass', 'bandpass', 'bandstop', 'bandstop', 'multiband', 'stops'])
	nb = {'lowpass': 2, 'highpass': 2, 'bandpass': 3, 'bandstop': 3, 'multiband': rng.choice([1, 4]), 'stops': 2}[kind]
	while True:
		ed = sorted(rng.uniform(0.05, 0.95) for _ in range(2 * nb - 2))
		if all(b - a > (0.12 if i % 2 == 0 else 0.04) for i, (a, b) in enumerate(zip(ed, ed[1:]))):
			break
		if nb == 4 and all(b - a > 0.04 for a, b in zip(ed, ed[1:])):
			break
	ed = [0.] + ed + [None]
	Fs = rng.choice([None, 1, 2, 2, 2000, 44100, 48000., 12345.678, 7])
	f = 1. if Fs is None else Fs / 2.
	center = rng.choice([0., 0., rng.uniform(-10, 10), float(rng.randint(-6, 6))])
	half = rng.choice([0.5, 1., 3., rng.uniform(0.3, 3.)])
	att = rng.choice([20., 40., rng.uniform(8., 40.), rng.uniform(8., 40.)])
	stop = center - half - att
	if rng.random() < 0.15:
		stop, center = 0., half + att
	if rng.random() < 0.04:
		half = 0.
	if rng.random() < 0.06:
		stop = center + half + rng.uniform(0, 10)
	other = rng.random() < 0.3
	first = {'lowpass': True, 'highpass': False, 'bandpass': False, 'bandstop': True, 'multiband': rng.random() < 0.5, 'stops': False}[kind]
	bands = []
	for i in range(nb):
		F1, F2 = ed[2 * i], ed[2 * i + 1]
		pas = first == (i % 2 == 0) and kind != 'stops'
		d = rng.uniform(-3, 3) if other and i == nb - 1 else 0.
		if rng.random() < 0.3 and F2 is None:
			F2 = 1.
		b = {'F1': F1 * f if F1 else rng.choice([0, 0.]), 'F2': F2 * f if F2 is not None else None}
		if pas:
			d2 = rng.choice([d, -d, abs(d)])
			b['gain'] = [center - half + d, center + half + d2] if center - half + d < center + half + d2 else [center - half, center + half]
		else:
			b['gain'] = stop + d
		bands.append(b)
	return {'Fs': Fs, 'bands': bands, 'seed': rng.choice([None, None, 0, 7, 123456])}


def gen(rng, index, tier):
	specs = [make_spec(rng) for _ in range(rng.randint(1, 3))]
	ops = []
	for _ in range(rng.randint(6, 24)):
		k = rng.choices(['check', 'constraint', 'findmin', 'design', 'margin', 'shift', 'read', 'draw', 'again', 'plot', 'tf'], [5, 3, 4, 7, 2, 4, 2, 2, 3, 0.3, 1])[0]
		op = {'op': k, 'g': rng.randrange(MAXPOOL), 'b': rng.randrange(4), 'f': rng.randrange(6), 'seed': rng.randrange(10 ** 6), 'fault': None}
		if k in ('check', 'constraint', 'findmin'):
			op['margin'] = rng.choice([0, 0, 0., 1e-3, rng.uniform(0, 0.2), rng.uniform(-0.02, 0), 2. ** -rng.randint(1, 60), 0.1])
			op['prec'] = rng.choice([None, None, 100, 165, 300])
			op['width'] = rng.choice([0, 0, 0, 2. ** -40, 2. ** -15])
		if k == 'design':
			op['ftype'] = rng.choice(['butter', 'cheby1', 'cheby2', 'ellip', None])
			op['method'] = rng.choice(['scipy', 'scipy', None, 'matlab', 'matlab'])
			op['dm'] = rng.choice([None, None, 0, 0.1, 0.25, rng.uniform(-0.3, 0.5)])
			op['zero'] = rng.choice([None, None, False, True])
		if k == 'margin':
			op['dm'] = rng.choice([0.1, -0.1, 0.25, 0., rng.uniform(-0.5, 0.3)])
		if k == 'shift':
			op['by'] = [rng.choice([0, 0, 0., 1, -3, rng.uniform(-10, 10)]) for _ in range(rng.randint(1, 3))]
			op['dm'] = rng.choice([None, 0.1, -0.2])
		if rng.random() < 0.35 and k not in ('margin', 'tf'):
			w = rng.choice(['line', 'line', 'engine', 'solver'])
			if w == 'line' or k in ('shift', 'read', 'draw', 'again', 'plot'):
				op['fault'] = ['line', int(2 ** rng.uniform(0, 7)) - 1, rng.choice(['MemoryError', 'KeyboardInterrupt'])]
			elif k == 'design':
				op['fault'] = ['solver', rng.choice(['ValueError', 'LinAlgError', 'MemoryError'])] if w == 'solver' else ['matlab', rng.randrange(3)]
			else:
				op['fault'] = ['engine', rng.choice(['check', 'check', 'present', 'execute', 'suppressmessage']), rng.choice([0, 0, 1, 2]), rng.choice(['error', 'MemoryError', 'KeyboardInterrupt', 'OSError'])]
		ops.append(op)
	return {'specs': specs, 'ops': ops, 'matlab': rng.random() < 0.7, 'seed': rng.randrange(10 ** 6)}


def simplify(sc):
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])
		for k in ('dm', 'zero', 'margin', 'width'):
			if op.get(k) and op['op'] != 'margin':
				yield dict(sc, ops=sc['ops'][:i] + [dict(op, **{k: 0})] + sc['ops'][i + 1:])


# ---------------------------------------------------------------- model

class Spec:
	"""bands (normalised frequencies w1, w2; gains) in increasing order"""
	def __init__(self, s):
		self.Fs = s['Fs'] or 2
		self.given = s['Fs']
		self.seed = s['seed']
		self.bands = []
		for b in s['bands']:
			g = b['gain']
			self.bands.append({'F1': b['F1'], 'F2': b['F2'] if b['F2'] is not None else self.Fs / 2.,
				'pass': isinstance(g, list), 'gain': sorted(g) if isinstance(g, list) else g})
		self.bands.sort(key=lambda b: b['F1'])
		self.margins = 0

	@property
	def type(self):
		k = ''.join('p' if b['pass'] else 's' for b in self.bands)
		return {'ps': 'lowpass', 'sp': 'highpass', 'sps': 'bandpass', 'psp': 'bandstop'}.get(k, 'multiband')

	@property
	def center(self):
		return max((b['gain'][0] + b['gain'][1]) / 2. for b in self.bands if b['pass'])

	@property
	def maxGain(self):
		return max(b['gain'][1] if b['pass'] else b['gain'] for b in self.bands)

	def w(self, b):
		return 2. * b['F1'] / self.Fs, 2. * b['F2'] / self.Fs

	def excess(self, num, den, reduced=0., shift=0.):
		"""how much the modulus is outside of the bands (reduced by `reduced` dB, shifted by `shift` dB), on the grid; maximum modulus"""
		from sim import specs
		e, top = -math.inf, 0.
		for b in self.bands:
			w1, w2 = self.w(b)
			h = specs.modulus(num, den, specs.grid(w1, w2))
			lo, hi = (b['gain'][0] + reduced, b['gain'][1] - reduced) if b['pass'] else (None, b['gain'] - reduced)
			e = max(e, float(np.max(h - 10 ** ((hi + shift) / 20))))
			if lo is not None:
				e = max(e, float(np.max(10 ** ((lo + shift) / 20) - h)))
			top = max(top, float(np.max(h)))
		return e, top

	def impossible(self, margin):
		"""bands emptied by the margin (a security factor is left around the limit)"""
		r = []
		for b in self.bands:
			lo, hi = (10 ** (b['gain'][0] / 20) - margin, 10 ** (b['gain'][1] / 20) + margin) if b['pass'] else (0., 10 ** (b['gain'] / 20) + margin)
			r.append('yes' if lo > hi + 1e-9 else 'no' if lo < hi - 1e-9 else 'limit')
		return 'limit' if 'limit' in r else 'yes' if 'yes' in r else 'no'


def run(sc, ctx):
	setup()
	from sim import engines, specs
	from scipy.signal import iirdesign
	from fixif.LTI import Gabarit, dTF, dTFmp
	specs.install()
	specs.install_matlab()
	engines.matlab_present(sc['matlab'])
	SO, MA, CH = engines.SOLLYA, engines.MATLAB, specs.CHECKER
	from matplotlib import pyplot as plt
	pool = []           # [Gabarit, model]
	tfs = []            # [dTF, num, den]

	def build(s, r):
		order = list(range(len(s['bands'])))
		if r.uniform() < 0.7:
			r.shuffle(order)
		Fb, Ab = [], []
		for i in order:
			b = s['bands'][i]
			Fb.append(tuple([b['F1'], b['F2']]) if r.uniform() < 0.7 else [b['F1'], b['F2']])
			g = b['gain']
			if isinstance(g, list):
				g = list(g) if r.uniform() < 0.5 else g[::-1]
				g = tuple(g) if r.uniform() < 0.7 else g
			Ab.append(g)
		if r.uniform() < 0.3:
			Fb, Ab = tuple(Fb), tuple(Ab)
		keep = repr((Fb, Ab))
		g = Gabarit(s['Fs'], Fb, Ab) if s['seed'] is None else Gabarit(s['Fs'], Fb, Ab, seed=s['seed'])
		ctx.check(repr((Fb, Ab)) == keep, 'arguments-changed', lambda: "the lists of the caller have been changed: %s -> %r" % (keep, (Fb, Ab)))
		return g

	def near(a, b, tol=1e-12):
		return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))

	def look(where):
		for i, (g, m) in enumerate(pool):
			bs = list(g.bands)
			ctx.check(len(bs) == len(m.bands), 'bands-changed', lambda: "%s: specification %d has %d bands instead of %d" % (where, i, len(bs), len(m.bands)))
			for b, mb in zip(bs, m.bands):
				ok = near(b.F1, mb['F1']) and near(b.F2, mb['F2']) and near(b.Fs, m.Fs) and bool(b.isPassBand) == mb['pass'] and near(b.w1, m.w(mb)[0]) and near(b.w2, m.w(mb)[1])
				if mb['pass']:
					ok = ok and b.passGains is not None and near(b.passGains[0], mb['gain'][0]) and near(b.passGains[1], mb['gain'][1])
				else:
					ok = ok and b.stopGain is not None and near(b.stopGain, mb['gain'])
				ctx.check(ok, 'bands-changed', lambda: "%s: a band of specification %d is %s instead of %r (Fs=%s)" % (where, i, b, mb, m.Fs))
			ctx.check(g.type == m.type, 'wrong-type', lambda: "%s: type %r instead of %r: %s" % (where, g.type, m.type, g))
			ctx.check(near(g.maxGain(), m.maxGain), 'wrong-gain', lambda: "%s: maximum gain %r instead of %r" % (where, g.maxGain(), m.maxGain))
			ctx.check(g.seed == m.seed, 'wrong-seed', lambda: "%s: seed %r instead of %r" % (where, g.seed, m.seed))

	def expect_design(m, method, dm, zero):
		"""-> ('error' | 'free' | 'ok', shift)"""
		if m.type == 'multiband':
			return 'error', 0.
		c = m.center
		pas = [b for b in m.bands if b['pass']]
		stops = [b for b in m.bands if not b['pass']]
		if method != 'matlab' or not sc['matlab']:
			if m.type == 'bandpass':
				if abs(stops[0]['gain'] - stops[1]['gain']) > 1e-9:
					return 'error', 0.
				if stops[0]['gain'] != stops[1]['gain']:
					return 'free', 0.
			if m.type == 'bandstop':
				if abs(pas[0]['gain'][0] - pas[1]['gain'][0]) > 1e-9:
					return 'error', 0.
				if pas[0]['gain'][0] != pas[1]['gain'][0]:
					return 'free', 0.
		ap = [-(b['gain'][0] - c + dm) for b in pas]
		at = [-(b['gain'] - c - dm) for b in stops]
		if min(ap) < 0.05 or min(at) < max(ap) + 4 or max(at) > 55 or any(b['gain'][1] - dm < c for b in pas):
			return 'free', 0.
		return 'ok', (-c if zero else 0.)

	def filt(num, den, u):
		# (a filter given with multiple precision coefficients: the same one for the checker)
		return [dTF(num, den) if u < .6 else dTFmp(np.matrix(num), np.matrix(den)), num, den]

	rn = G.rs('c17', sc['seed'])
	for s in sc['specs']:
		pool.append([build(s, rn), Spec(s)])
	for _ in range(2):
		num, den = G.filter_poles_tf(rn, int(rn.randint(1, 5)), 0.8)
		f = 10 ** rn.uniform(-1, 0.5)
		num = [x * f for x in num]
		tfs.append(filt(num, den, rn.uniform()))
	look("after the construction")

	for idx, op in enumerate(sc['ops']):
		k = op['op']
		where = "operation %d (%r)" % (idx, op)
		gi = op['g'] % len(pool)
		g, m = pool[gi]
		bi = op['b'] % len(m.bands)
		band, mb = g.bands[bi], m.bands[bi]
		ti = op['f'] % len(tfs)
		tf, num, den = tfs[ti]
		s = sc['specs'][op['seed'] % len(sc['specs'])]
		CH.width = op.get('width') or 0
		kw = {}
		if k == 'check':
			kw = {'margin': op['margin']} if op['margin'] != 0 or op['seed'] % 2 else {}
			if op['prec']:
				kw['prec'] = op['prec']
		elif k == 'findmin':
			kw = {'initMargin': op['margin']} if op['margin'] != 0 or op['seed'] % 2 else {}
		elif k == 'design':
			kw = {a: op[b] for a, b in (('ftype', 'ftype'), ('method', 'method'), ('designMargin', 'dm'), ('centeredZero', 'zero')) if op[b] is not None}

		def act():
			r = G.rs('c17op', op['seed'])
			if k == 'check':
				return g.check_dTF(tf, **kw)
			if k == 'constraint':
				return band.sollyaConstraint(op['margin'])
			if k == 'findmin':
				return g.findMinimumMargin(tf, **kw)
			if k == 'design':
				return g.to_dTF(**kw)
			if k == 'margin':
				return band.applyDesignMargin(op['dm'])
			if k == 'shift':
				b = band
				for x in op['by']:
					b = b - x
				return b
			if k == 'read':
				return str(g), str(band), repr(band), sorted(g.bands[::-1])
			if k == 'draw':
				return band.Rectangle(True), band.Rectangle(False), band.Rectangle(True, -300)
			if k == 'again':
				return build(s, r)
			if k == 'plot':
				try:
					return g.plot(tf if isinstance(tf, dTF) else tf.to_dTF(), dB=bool(op['b'] % 2)) if op['f'] % 2 else g.plot(dB=bool(op['b'] % 2))
				finally:
					plt.close('all')

		def attempt(fault):
			fired = []
			SO.log[:] = []
			CH.asked[:] = []
			MA.calls[:] = []
			specs.DESIGNS[:] = []
			SO.plan, MA.call_plan = {}, []
			SO.on_call = MA.on_call = lambda w, o: fired.append('%s: %s' % (w, o))
			man = contextlib.nullcontext()
			if fault:
				if fault[0] == 'line':
					man = faults.LineFault(fault[1], fault[2])
				elif fault[0] == 'engine':
					SO.plan = {fault[1]: ['ok'] * fault[2] + [fault[3]]}
				elif fault[0] == 'matlab':
					MA.call_plan = ['ok'] * fault[1] + ['error']
				elif fault[0] == 'solver':
					man = faults.CallFault([iirdesign], 0, {'ValueError': ValueError, 'LinAlgError': np.linalg.LinAlgError, 'MemoryError': MemoryError}[fault[1]]("injected"))
			res = exc = None
			try:
				with man:
					try:
						res = act()
					except (Exception, KeyboardInterrupt) as e:
						exc = e
			finally:
				SO.plan, MA.call_plan = {}, []
			if getattr(man, 'fired', None):
				fired.append('%s: %s' % (fault[0], fault[-1]))
			ctx.step(len(SO.log) + len(MA.calls))
			for f in fired:
				ctx.fault(f)
			ctx.event(k, gi, bi, ti, type(exc).__name__, fired, len(CH.asked), len(MA.calls))
			ctx.state(k, m.type, m.margins, op.get('method'), op.get('ftype'), bool(op.get('dm')), op.get('zero'), (op.get('margin') or 0) > 0, (op.get('margin') or 0) < 0, sorted(fired), type(exc).__name__)
			return res, exc, fired

		if k == 'tf':
			r = G.rs('c17op', op['seed'])
			num, den = G.filter_poles_tf(r, int(r.randint(1, 5)), 0.8)
			tfs.append(filt(num, den, r.uniform()))
			continue
		if k == 'plot' and m.given is None:
			continue
		if k == 'margin' and mb['pass'] and mb['gain'][1] - mb['gain'][0] - 2 * op['dm'] < 0.2:
			continue
		fault = op['fault']
		if fault:
			res, exc, fired = attempt(fault)
			look("%s, with the fault %r (%r)" % (where, fired, exc))
			if fired:
				res, exc, fired = attempt(None)
				where += ", retried after a fault"
		else:
			res, exc, fired = attempt(None)

		# --- the constraints received by the checker are those of the specification
		def constraint_ok(om, f, lo, hi, mb, margin):
			w1, w2 = m.w(mb)
			U = specs.up
			ten = U(10)
			if mb['pass']:
				xlo = ten ** (U(mb['gain'][0]) / 20) - U(margin)
				xhi = ten ** (U(mb['gain'][1]) / 20) + U(margin)
			else:
				xlo, xhi = U(0), ten ** (U(mb['gain']) / 20) + U(margin)
			# (inside the band, as near as the rounding of gains that have been shifted permits)
			t = U(2) ** (-50) * (abs(xlo) + abs(xhi))
			inside = lo >= xlo - (0 if exact(mb) else t) and hi <= xhi + (0 if exact(mb) else t)
			return inside and abs(lo - xlo) <= t and abs(hi - xhi) <= t and near(om.a * specs.Num(f / specs.CTX.pi), w1) and near(om.b * specs.Num(f / specs.CTX.pi), w2)

		def exact(mb):
			return not mb.get('moved')

		if k in ('check', 'findmin'):
			imp = m.impossible(op['margin'])
			for a in CH.asked:
				nn, dd = list(num), list(den)
				ctx.check(same_poly(a['num'], nn) and same_poly(a['den'], dd), 'wrong-filter', lambda: "%s: the checker receives the filter %r, %r instead of %r, %r" % (where, a['num'], a['den'], nn, dd))
				ctx.check(len(a['constraints']) == len(m.bands), 'wrong-constraints', lambda: "%s: the checker receives %d constraints for %d bands" % (where, len(a['constraints']), len(m.bands)))
			if CH.asked:
				a = CH.asked[0]
				left = list(m.bands)
				for c in a['constraints']:
					hit = [b for b in left if constraint_ok(*c, b, op['margin'])]
					ctx.check(hit, 'wrong-constraints', lambda: "%s: the checker receives the constraint Omega=[%r, %r]*%r, [%r, %r], which is none of the bands %r (Fs=%r)" % (where, c[0].a, c[0].b, c[1], c[2], c[3], left, m.Fs))
					left.remove(hit[0])
		if k == 'check':
			if imp == 'yes':
				ctx.check(exc is not None, 'empty-band', lambda: "%s: a band emptied by the margin is accepted" % where)
			elif imp == 'no' or exc is None:
				if exc is not None:
					raise Violation('check-fails', "%s: %r" % (where, exc))
				ctx.check(len(CH.asked) == 1 and CH.asked[0]['prec'] == (op['prec'] or 165), 'wrong-precision', lambda: "%s: precision asked %r" % (where, [a['prec'] for a in CH.asked]))
				e, top = m.excess(num, den)
				e -= op['margin']
				if abs(e) > 1e-9 * (1 + top):
					ctx.check(bool(res[0]) == (e <= 0), 'wrong-verdict', lambda: "%s: the filter is said %s of the specification, and its modulus is %g outside" % (where, 'inside' if res[0] else 'outside', e))
					ctx.probe('verdicts: ' + ('inside' if e <= 0 else 'outside'))
		elif k == 'findmin':
			if imp == 'no' and exc is not None:
				raise Violation('margin-fails', "%s: %r" % (where, exc))
			if exc is None and imp != 'limit':
				mg = float(res)
				e, top = m.excess(num, den)
				tol = 1e-9 * (1 + top)
				ctx.check(mg >= e - tol, 'margin-too-small', lambda: "%s: margin %r, and the filter is %r outside of the specification" % (where, mg, e))
				ctx.check(mg >= op['margin'] - tol, 'margin-too-small', lambda: "%s: margin %r less than the initial one" % (where, mg))
				ctx.check(mg <= max(op['margin'], e) + 2 * CH.width * top + tol, 'margin-too-large', lambda: "%s: margin %r, and %r is enough" % (where, mg, max(op['margin'], e)))
				ctx.probe('margins: ' + ('larger' if e > op['margin'] else 'initial one'))
		elif k == 'constraint':
			b1 = {'bands': [mb]}
			lo, hi = (10 ** (mb['gain'][0] / 20) - op['margin'], 10 ** (mb['gain'][1] / 20) + op['margin']) if mb['pass'] else (0., 10 ** (mb['gain'] / 20) + op['margin'])
			if lo > hi + 1e-9:
				ctx.check(exc is not None, 'empty-band', lambda: "%s: a band emptied by the margin is accepted" % where)
			elif lo < hi - 1e-9:
				if exc is not None:
					raise Violation('constraint-fails', "%s: %r" % (where, exc))
				d = dict(res)
				c = (d['Omega'], specs.up(d['omegaFactor']), specs.up(d['betaInf']), specs.up(d['betaSup']))
				ctx.check(constraint_ok(*c, mb, op['margin']), 'wrong-constraints', lambda: "%s: Omega=[%r, %r]*%r, [%r, %r] for the band %r (Fs=%r)" % (where, c[0].a, c[0].b, c[1], c[2], c[3], mb, m.Fs))
		elif k == 'design':
			method, dm = op['method'] or 'scipy', op['dm'] or 0
			what, shift = expect_design(m, method, dm, op['zero'])
			if what == 'error':
				ctx.check(isinstance(exc, ValueError), 'design-accepted', lambda: "%s: ValueError expected for %s, and it gives %r" % (where, g, exc or (res.num, res.den)))
				ctx.probe('designs refused')
			elif what == 'ok':
				if exc is not None:
					raise Violation('design-fails', "%s: %r for\n%s" % (where, exc, g))
				n_, d_ = [float(x) for x in np.asarray(res.num).ravel()], [float(x) for x in np.asarray(res.den).ravel()]
				if method == 'matlab' and sc['matlab']:
					ctx.check(MA.calls, 'engine-not-used', lambda: "%s: the engine has not been called" % where)
					# whatever the filter that MATLAB gives for the parameters received
					for kind, pr in specs.DESIGNS:
						c = m.center
						gr = specs.granted(kind, pr)
						for mb in m.bands:
							w1, w2 = m.w(mb)
							if mb['pass']:
								ok = any(x[0] and x[1] <= w1 + 1e-9 and x[2] >= w2 - 1e-9 and c - x[3] >= mb['gain'][0] + dm - 1e-9 for x in gr)
							else:
								ok = any(not x[0] and x[1] <= w1 + 1e-9 and x[2] >= w2 - 1e-9 and c - x[3] <= mb['gain'] - dm + 1e-9 for x in gr)
							ctx.check(ok, 'wrong-parameters', lambda: "%s: MATLAB receives %s%r, that does not grant the band %r (centre %r dB, margin %r dB)\n%s" % (where, kind, pr, mb, c, dm, g))
				else:
					ctx.check(not MA.calls, 'engine-used', lambda: "%s: MATLAB is used" % where)
				if len(d_) <= (9 if len(m.bands) == 2 else 13):
					e, top = m.excess(n_, d_, dm, shift)
					ctx.check(e <= 1e-4 * (10 ** ((m.maxGain + shift) / 20)) * (1 if len(d_) < 9 else 10), 'design-outside', lambda: "%s: the filter designed (order %d) is %g outside of the specification (margin %r dB)\n%s" % (where, len(d_) - 1, e, dm, g))
					ctx.probe('designs checked: %s %s' % (m.type, method))
					tfs.append([res, n_, d_])
				else:
					ctx.probe('designs of a large order, not checked')
		else:
			if exc is not None:
				raise Violation(k + '-fails', "%s: %r" % (where, exc))
			if k == 'margin':
				if mb['pass']:
					mb['gain'] = [mb['gain'][0] + op['dm'], mb['gain'][1] - op['dm']]
				else:
					mb['gain'] = mb['gain'] - op['dm']
				mb['moved'] = True
				m.margins += 1
			elif k == 'shift':
				t = sum(op['by'])

				def verify(b, d, what):
					if mb['pass']:
						ok = b.isPassBand and near(b.passGains[0], mb['gain'][0] - t + d) and near(b.passGains[1], mb['gain'][1] - t - d)
					else:
						ok = not b.isPassBand and b.stopGain is not None and near(b.stopGain, mb['gain'] - t - d)
					ok = ok and near(b.F1, mb['F1']) and near(b.F2, mb['F2']) and near(b.Fs, m.Fs)
					ctx.check(ok, 'wrong-shift', lambda: "%s: %r %s, instead of %r - %r" % (where, b, what, mb, t))
				verify(res, 0, 'obtained')
				if op['dm']:
					res.applyDesignMargin(op['dm'])
					verify(res, op['dm'], 'after a margin of %r' % op['dm'])
			elif k == 'draw':
				for dB, minG, R in ((True, -200, res[0]), (False, None, res[1]), (True, -300, res[2])):
					y = sorted([R.get_y(), R.get_y() + R.get_height()])
					x = sorted([R.get_x(), R.get_x() + R.get_width()])
					cv = (lambda v: v) if dB else (lambda v: 10 ** (v / 20.))
					if mb['pass']:
						ok = near(y[0], cv(mb['gain'][0]), 1e-9) and near(y[1], cv(mb['gain'][1]), 1e-9)
					else:
						ok = near(y[1], cv(mb['gain']), 1e-9) and (y[0] <= min(mb['gain'], -100) if dB else near(y[0], 0, 1e-9))
					ctx.check(ok and near(x[0], mb['F1'], 1e-9) and near(x[1], mb['F2'], 1e-9), 'wrong-drawing', lambda: "%s: rectangle %r x %r (dB: %r) for the band %r" % (where, x, y, dB, mb))
			elif k == 'read':
				ctx.check(m.type in res[0] and all(str(b) in res[0] for b in g.bands), 'wrong-text', lambda: "%s: %s" % (where, res[0]))
				ctx.check(m.seed is None or str(m.seed) in res[0], 'wrong-text', lambda: "%s: the seed is not shown: %s" % (where, res[0]))
				ctx.check([b.F1 for b in res[3]] == sorted(b['F1'] for b in m.bands), 'wrong-order', lambda: "%s: %r" % (where, res[3]))
			elif k == 'again':
				nw = [res, Spec(s)]
				if len(pool) < MAXPOOL:
					pool.append(nw)
				else:
					pool[op['g'] % MAXPOOL] = nw
		if len(tfs) > 6:
			del tfs[0]
		look(where)
		for t, n_, d_ in tfs:
			ctx.check(list(np.asarray(t.num).ravel()) == list(n_) and list(np.asarray(t.den).ravel()) == list(d_), 'filter-changed', lambda: "%s: a transfer function has been changed" % where)


def same_poly(a, b):
	a, b = list(a), list(b)
	while a and a[-1] == 0:
		a.pop()
	while b and b[-1] == 0:
		b.pop()
	return len(a) == len(b) and all(abs(x - y) <= 1e-15 * abs(y) for x, y in zip(a, b))
