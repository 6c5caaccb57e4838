# coding: utf-8
"""C07: seeded random filters are reproducible from their seed or name.

Simulated: one process making a history of seeded and unseeded generations, iterations over generators advanced in any order,
disturbances of the global random source (draws, new seeds, states chosen so that the next draws are extreme values), entropy
given by the simulator, clock jumps, linear solver failures, aborted generations and objects spoilt by the user.
Reference: the same request answered by a pristine process (forked before anything ran, or a new interpreter with another hash
seed), compared bit for bit.
"""
import datetime
import random
import re

import numpy as np

from sim import gen as G, faults, clock as simclock
from sim.core import Violation
from sim.env import setup, patch_everywhere
from sim.pristine import Reference, new_interpreter

PROP = 'C07'
RUNS = {'quick': 1200, 'thorough': 40000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 20
RULE = "One run: 8 to 40 operations: seeded generation (from a small pool of seeds), rebuild from a name, unseeded generation with drawn probabilities, start, advance or abandon an iteration, disturbance of the random source, clock jump, solver failure, aborted generation, in-place change of a generated object."
TIME_UNIT = "no simulated time passes inside a generation (the clock jumps between and during the generations)"
STATE_MEASURE = "abstract states (kind of generator, seeded or not, iterations in progress, last disturbance, pending fault)"
REAL = ["fixif.LTI.Filter, Butter, Elliptic, Gabarit, dSS, dSSmp, dTF, dTFmp", "numpy.random, scipy.signal"]
STUBS = ["entropy of numpy.random.seed(None)", "the clock (datetime and time)", "fixif.WCPG, fixif.FxP (unused)"]
SHRINK_LISTS = ('ops',)

FORMS = ['lowpass', 'highpass', 'bandpass', 'bandstop']
SEEDS = [0, 0, 1, 42, 2 ** 32 - 1, 987654321]


def _opts(rng, kind):
	"""options of a generator (none for its defaults)"""
	o = {}
	if kind in ('butter', 'elliptic'):
		if rng.random() < 0.5:
			a = rng.randint(1, 5)
			o['n'] = [a, a + rng.randint(1, 3)]
		if rng.random() < 0.5:
			o['form'] = rng.choice(FORMS)
		if rng.random() < 0.3:
			o['Wc'] = [0.2, 0.4]
		if rng.random() < 0.3:
			# (among them: ranges that touch, and ranges in which no ordered pair exists)
			o['W1'], o['W2'] = rng.choice([([0.1, 0.3], [0.4, 0.8]), ([0.2, 0.6], [0.3, 0.7]), ([0.2, 0.5], [0.5, 0.8]), ([0.3, 0.6], [0.3, 0.6]), ([0.5, 0.8], [0.2, 0.5]), ([0.6, 0.8], [0.2, 0.4])])
		if kind == 'butter' and rng.random() < 0.4:
			o['onlyEven'] = rng.random() < 0.3
		if kind == 'elliptic' and rng.random() < 0.4:
			o['rp'], o['rs'] = rng.choice([([0.1, 3.], [20., 60.]), ([0.5, 1.], [40., 50.])])
		if kind == 'elliptic' and rng.random() < 0.3:
			o['quant'] = 1024
			o.setdefault('rp', [0.1, 3.])
			o.setdefault('rs', [20., 60.])
	elif kind == 'gabarit':
		if rng.random() < 0.5:
			o['form'] = 'lowpass'
	elif kind == 'filter':
		if rng.random() < 0.85:
			o.update(n=rng.randint(1, 8), p=rng.randint(1, 3), q=rng.randint(1, 3))
	elif kind in ('ifilter',):
		a, b, c = rng.randint(1, 6), rng.randint(1, 3), rng.randint(1, 3)
		o.update(n=[a, a + rng.randint(1, 3)], p=[b, b + rng.randint(1, 3)], q=[c, c + rng.randint(1, 3)])
		o['ftype'] = rng.choice(['SISO', 'SIMO', 'MISO', 'MIMO', 'all', 'all'])
	elif kind in ('dSS', 'dSSmp'):
		o.update(n=rng.randint(1, 8), p=rng.randint(1, 3), q=rng.randint(1, 3))
		for k in ('pRepeat', 'pReal', 'pBCmask', 'pDmask', 'pDzero'):
			if rng.random() < 0.4:
				o[k] = rng.choice([0, 1, 0., 1., 0.5, 0.05, 0.95])
	elif kind in ('idSS', 'idSSmp'):
		a = rng.randint(1, 6)
		o.update(n=[a, a + rng.randint(1, 3)], stable=rng.random() < 0.6)
		for k in 'pq':
			b = rng.randint(1, 3)
			o[k] = 1 if kind == 'idSS' and rng.random() < 0.2 else [b, b + rng.randint(1, 3)]
		if rng.random() < 0.3:
			o['pBCmask'] = rng.choice([0, 1, 0.05])
	elif kind in ('dTF', 'dTFmp'):
		a = rng.randint(1, 6)
		o['order'] = [a, a + rng.randint(0, 3)]
	return o


def gen(rng, index, tier):
	ops = []
	seeds = SEEDS[:rng.randint(1, 6)] + [rng.randrange(10 ** 9)]
	for _ in range(rng.randint(8, 40)):
		k = rng.choices(['seeded', 'name', 'unseeded', 'iter', 'next', 'drop', 'disturb', 'clock', 'spoil', 'solve'], [9, 3, 5, 4, 9, 1, 5, 2, 2, 1.5])[0]
		op = {'op': k, 'i': rng.randrange(6)}
		if k == 'seeded':
			op['kind'] = rng.choice(['filter', 'filter', 'butter', 'elliptic', 'gabarit', 'gabarit'])
			op.update(seed=rng.choice(seeds), o=_opts(rng, op['kind']), npint=rng.random() < 0.2)
		elif k == 'name':
			op.update(name='RandomFilter-%d/%d/%d-%d' % (rng.randint(1, 8), rng.randint(1, 3), rng.randint(1, 3), rng.choice(seeds)))
		elif k == 'unseeded':
			op['kind'] = rng.choice(['filter', 'butter', 'elliptic', 'gabarit', 'gabarit', 'dSS', 'dSS', 'dSS', 'dSSmp', 'dTF', 'dTFmp'])
			op['o'] = _opts(rng, op['kind'])
		elif k == 'iter':
			op['kind'] = rng.choice(['ifilter', 'ifilter', 'butter', 'elliptic', 'gabarit', 'idSS', 'idSSmp', 'dTF', 'dTFmp'])
			op.update(o=_opts(rng, op['kind']), number=rng.choice([0, 1, 2, 3, 5]), seeded=rng.random() < 0.75)
		elif k == 'disturb':
			op.update(how=rng.choice(['draw', 'draw', 'seed', 'extreme', 'extreme', 'extreme', 'py', 'gauss']), seed=rng.randrange(10 ** 6), n=rng.randint(1, 40))
		elif k == 'clock':
			op.update(dt=rng.choice([1, -1]) * 10 ** rng.uniform(-3, 9))
		elif k == 'solve':
			op.update(n=rng.randint(1, 5))
		if k in ('seeded', 'unseeded', 'next', 'name') and rng.random() < 0.12:
			op['fault'] = {'k': int(2 ** rng.uniform(0, 7)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		ops.append(op)
	return {'ops': ops, 'entropy': rng.randrange(2 ** 32), 'newproc': rng.random() < 0.02}


def simplify(sc):
	if sc.get('newproc'):
		yield dict(sc, newproc=False)
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [{k: v for k, v in op.items() if k != 'fault'}] + sc['ops'][i + 1:])
		for k in list(op.get('o', {})):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, o={a: b for a, b in op['o'].items() if a != k})] + sc['ops'][i + 1:])


# ---------------------------------------------------------------- requests (also executed in the reference processes)

def tup(o):
	return {k: tuple(v) if isinstance(v, list) else v for k, v in o.items()}


def make(kind, seed, o):
	from fixif import LTI
	f = {'filter': LTI.random_Filter, 'butter': LTI.random_Butter, 'elliptic': LTI.random_Elliptic, 'gabarit': LTI.random_Gabarit}.get(kind)
	if f is not None:
		return f(**dict(tup(o), seed=seed)) if seed is not None else f(**tup(o))
	if kind == 'name':
		return LTI.random_Filter(name=o)
	f = {'dSS': LTI.random_dSS, 'dSSmp': LTI.random_dSSmp, 'dTF': LTI.random_dTF, 'dTFmp': LTI.random_dTFmp}[kind]
	return f(**tup(o))


def disordered(o):
	"""no pair of increasing frequencies exists in the ranges asked"""
	return 'W1' in o and o['W2'][1] <= o['W1'][0]


def start(kind, number, o, seeded):
	from fixif import LTI
	o = tup(o)
	if kind == 'ifilter':
		return LTI.iter_random_Filter(number, seeded=seeded, **o)
	if kind == 'butter':
		return LTI.iter_random_Butter(number, seeded=seeded, **o)
	if kind == 'elliptic':
		return LTI.iter_random_Elliptic(number, seeded=seeded, **o)
	if kind == 'gabarit':
		return LTI.iter_random_Gabarit(number, **o)
	return {'idSS': LTI.iter_random_dSS, 'idSSmp': LTI.iter_random_dSSmp, 'dTF': LTI.iter_random_dTF, 'dTFmp': LTI.iter_random_dTFmp}[kind](number, **o)


def content(X):
	"""everything observable of a generated object (floats bit for bit)"""
	from fixif.LTI import Filter, Gabarit
	if isinstance(X, Gabarit):
		return ['gabarit', int(X.seed), X.type, str(X), [(b.isPassBand, repr(b.Fs), repr(b.F1), repr(b.F2), repr(b.passGains), repr(b.stopGain)) for b in X.bands], repr(X.maxGain())]
	assert isinstance(X, Filter)
	S = X.dSS
	c = [type(X).__name__, X.name, int(X.order), int(X.p), int(X.q), bool(X.isStable()), bool(X.isSISO()), [np.array(M, dtype=float).tobytes() for M in (S.A, S.B, S.C, S.D)]]
	for a in ('n', 'rp', 'rs', 'Wn', 'btype', 'etype'):
		if hasattr(X, a):
			c.append((a, str(getattr(X, a)) if a.endswith('type') else np.array(getattr(X, a), dtype=float).tobytes()))
	if X.isSISO():
		c += [np.array(X.dTF.num, dtype=float).tobytes(), np.array(X.dTF.den, dtype=float).tobytes()]
	return c


def answer(kind, seed, o):
	try:
		return 'ok', G.digest(content(make(kind, seed, o)))
	except Exception as e:
		return 'error', "%s: %s" % (type(e).__name__, e)


# ---------------------------------------------------------------- simulated random source

def untemper(y):
	y ^= y >> 18
	y ^= (y << 15) & 0xefc60000
	t = y
	for _ in range(5):
		t = y ^ ((t << 7) & 0x9d2c5680)
	y = t
	t = y
	for _ in range(3):
		t = y ^ (t >> 11)
	return t & 0xffffffff


def extreme_state(seed, n):
	"""a state of the Mersenne twister whose next n 32-bit outputs are mostly 0, 2**32-1 or 2**31"""
	r = random.Random(seed)
	st = np.random.RandomState(seed).get_state()
	key = st[1].copy()
	w = r.choice([[0], [0xffffffff], [0, 0xffffffff], [0, 0xffffffff, 0x80000000], [0x7fffffff, 0x80000000]])
	for k in range(n):
		if r.random() < 0.85:
			key[k] = untemper(r.choice(w))
	return ('MT19937', key, 0, 0, 0.0)


# ---------------------------------------------------------------- run

def run(sc, ctx):
	setup()
	ref = Reference(answer)
	import fixif.LTI as LTI
	ent = random.Random(sc['entropy'])
	real_seed = np.random.seed
	np.random.seed(ent.randrange(2 ** 32))

	def sim_seed(seed=None):
		if seed is None:
			ctx.probe('entropy asked')
			return real_seed(ent.randrange(2 ** 32))
		return real_seed(seed)
	patch_everywhere(real_seed, sim_seed)
	clk = simclock.Clock(datetime.datetime(2026, 11, 19, 12, 0, 0))
	simclock.install(clk)
	fails = [0]
	real_solve = np.linalg.solve

	def sim_solve(*a, **k):
		if fails[0]:
			fails[0] -= 1
			fired.append(1)
			ctx.fault('LinAlgError in solve')
			raise np.linalg.LinAlgError("Singular matrix")
		return real_solve(*a, **k)
	patch_everywhere(real_solve, sim_solve)
	fired = []
	iters, objs, asked = [], [], []
	last = ['none']

	def radius(A):
		A = np.array(A.tolist() if hasattr(A, 'tolist') else A, dtype=float)
		return max(abs(np.linalg.eigvals(A))) if A.size else 0.

	def check_dims(kind, X, o, where):
		"""dimensions asked, and declared stability"""
		def inside(v, bounds, what, hi=0):
			lo, up = (bounds[0], max(bounds[1] - 1, bounds[0]) + hi) if isinstance(bounds, (list, tuple)) else (bounds, bounds)
			ctx.check(lo <= v <= up, 'dimensions', lambda: "%s: %s is %r instead of %r" % (where, what, v, bounds))
		if kind in ('filter', 'ifilter'):
			ft = o.get('ftype', 'MIMO')
			n, p, q = o.get('n', 10 if kind == 'filter' else (5, 10)), o.get('p', 5 if kind == 'filter' else (1, 5)), o.get('q', 5 if kind == 'filter' else (1, 5))
			S = X.dSS
			inside(S.n, n, 'n')
			for (v, b, what, one) in ((S.p, p, 'p', ('SISO', 'MISO')), (S.q, q, 'q', ('SISO', 'SIMO'))):
				if ft in one:
					inside(v, 1, what)
				elif ft == 'all':
					ctx.check(v == 1 or b[0] <= v < b[1], 'dimensions', lambda: "%s: %s is %r instead of 1 or %r" % (where, what, v, b))
				else:
					inside(v, b, what)
			ctx.check(np.shape(S.A) == (S.n, S.n) and np.shape(S.B) == (S.n, S.q) and np.shape(S.C) == (S.p, S.n) and np.shape(S.D) == (S.p, S.q), 'dimensions', "%s: shapes" % where)
			ctx.check(X.isStable() is True and radius(S.A) <= 1 + 1e-6, 'unstable', lambda: "%s: declared stable %r, spectral radius %r" % (where, X.isStable(), radius(S.A)))
		elif kind in ('butter', 'elliptic'):
			inside(X.n, o.get('n', (5, 10)), 'order', hi=1 if kind == 'butter' and o.get('onlyEven', True) else 0)
			if kind == 'butter' and o.get('onlyEven', True):
				ctx.check(X.n % 2 == 0, 'dimensions', lambda: "%s: order %r instead of an even one" % (where, X.n))
			W = np.atleast_1d(X.Wn)
			form = str(X.btype if kind == 'butter' else X.etype)
			ctx.check(form == o['form'] if o.get('form') else form in FORMS, 'dimensions', lambda: "%s: form %r" % (where, form))
			two = form in ('bandpass', 'bandstop')
			rg = [o.get('W1', (0.1, 0.5)), o.get('W2', (0.5, 0.8))] if two else [o.get('Wc', (0.1, 0.8))]
			ctx.check(len(W) == len(rg) and all(a - 1e-3 <= w <= b + 1e-3 for w, (a, b) in zip(W, rg)) and list(W) == sorted(W), 'dimensions', lambda: "%s: frequencies %r, asked in %r" % (where, W, rg))
			if kind == 'elliptic':
				for v, (a, b), s in ((X.rp, o.get('rp', (0, 10)), 'rp'), (X.rs, o.get('rs', (30, 80)), 'rs')):
					# (the default ranges are those of the signature: not checked here)
					if s in o:
						ctx.check(a - 1e-2 <= v <= b + 1e-2, 'dimensions', lambda: "%s: %s is %r, asked in %r" % (where, s, v, (a, b)))
			den = np.array(X.dTF.den, dtype=float).ravel()
			order = X.n * (2 if two else 1)
			ctx.check(len(den) == order + 1 and X.order == order, 'dimensions', lambda: "%s: %d coefficients and order %r, asked %r" % (where, len(den), X.order, order))
			ctx.check(X.isStable() is True and np.isfinite(den).all() and max(abs(np.roots(den))) < 1.05, 'unstable', lambda: "%s: declared stable, poles %r" % (where, abs(np.roots(den))))
		elif kind == 'gabarit':
			ctx.check(X.type == (o.get('form') or 'lowpass'), 'dimensions', lambda: "%s: type %r" % (where, X.type))
			ctx.check(X.seed is not None, 'no-seed', "%s: the seed is not reported" % where)
		elif kind in ('dSS', 'idSS', 'dSSmp', 'idSSmp'):
			if kind.endswith('mp'):
				sh = [(M.rows, M.cols) for M in (X.A, X.B, X.C, X.D)]
			else:
				sh = [np.shape(M) for M in (X.A, X.B, X.C, X.D)]
			inside(sh[0][0], o.get('n', (5, 10)), 'n')
			inside(sh[2][0], o.get('p', (1, 5)), 'p')
			inside(sh[1][1], o.get('q', (1, 5)), 'q')
			n, p, q = sh[0][0], sh[2][0], sh[1][1]
			ctx.check(sh == [(n, n), (n, q), (p, n), (p, q)], 'dimensions', lambda: "%s: shapes %r" % (where, sh))
			if o.get('stable', True):
				r = radius(X.A.tolist())
				ctx.check(r <= 1 + 1e-6, 'unstable', lambda: "%s: spectral radius %r" % (where, r))
		else:
			num, den = (X.num, X.den) if kind == 'dTF' else (None, None)
			if num is not None:
				inside(np.size(den), o['order'], 'number of coefficients')
			else:
				S = X.to_dSSmp() if o['order'][0] > 1 else None
				if S is not None:
					inside(S.A.rows + 1, o['order'], 'number of coefficients')

	def rebuild_requests(kind, X, o, seeded):
		"""the requests that must give the same object again"""
		if kind == 'gabarit':
			return [('gabarit', int(X.seed), {k: v for k, v in o.items() if k == 'form'})]
		if not seeded:
			return []
		if kind in ('filter', 'ifilter'):
			return [('name', None, X.name)]
		m = re.search(r'(\d+)$', X.name)
		ctx.check(m is not None, 'no-seed', lambda: "the name %r does not give the seed" % X.name)
		return [(kind, int(m.group(1)), o)]

	def verify(kind, X, o, seeded, where, extra=()):
		try:
			c = G.digest(content(X))
		except Exception as e:
			raise Violation('unusable', "%s: the generated object cannot be used: %r" % (where, e))
		for req in list(extra) + rebuild_requests(kind, X, o, seeded):
			st, exp = ref.ask(*req)
			ctx.check((st, exp) == ('ok', c), 'not-reproducible', lambda: "%s: %r in a pristine process gives %s, not the same object (%s)" % (where, req, (st, exp), c))
			asked.append((req, c))
			# ... and once more in this process, in its present state
			if not fails[0]:
				Y = make(*req)
				ctx.check(G.digest(content(Y)) == c, 'not-reproducible', lambda: "%s: %r done again here gives another object" % (where, req))
				ctx.check(Y is not X, 'shared', "%s: the same object is returned twice" % where)

	def attempt(op, f):
		"""f() with the fault of the operation.  Returns (result, aborted)"""
		flt = op.get('fault')
		del fired[:]
		if not flt:
			return f(), False
		with faults.LineFault(flt['k'], flt['exc']) as lf:
			try:
				res = f()
			except (faults.InjectedMemoryError, faults.InjectedInterrupt):
				if not lf.fired:
					raise
				res = None
		if lf.fired:
			ctx.fault('abort: ' + flt['exc'])
			return None, True
		return res, False

	for idx, op in enumerate(sc['ops']):
		k = op['op']
		where = "operation %d (%r)" % (idx, op)
		ctx.state(k, op.get('kind'), len(iters), last[0], fails[0], 'fault' in op)
		if k == 'clock':
			clk.jump(datetime.timedelta(seconds=op['dt']))
			ctx.fault('clock jump')
			continue
		if k == 'disturb':
			last[0] = op['how']
			ctx.fault('random source: ' + op['how'])
			if op['how'] == 'draw':
				np.random.rand(op['n'])
			elif op['how'] == 'gauss':
				np.random.randn(2 * op['n'] + 1)
			elif op['how'] == 'seed':
				real_seed(op['seed'])
			elif op['how'] == 'py':
				random.seed(op['seed'])
			else:
				np.random.set_state(extreme_state(op['seed'], op['n']))
			continue
		if k == 'solve':
			fails[0] = op['n']
			continue
		if k == 'spoil':
			if objs:
				X = objs[op['i'] % len(objs)]
				try:
					if isinstance(X, LTI.Gabarit):
						X.bands[0].applyDesignMargin(1.5)
					elif isinstance(X, LTI.Filter):
						X.dSS.A[0, 0] = 77.
						if X.isSISO():
							X.dTF.num[0, 0] = 77.
				except Exception:
					pass
				ctx.event('spoil')
			continue
		if k == 'iter':
			if len(iters) < 6:
				iters.append({'it': start(op['kind'], op['number'], op['o'], op['seeded']), 'op': op, 'count': 0})
				ctx.event('iter', op['kind'])
			continue
		if k == 'drop':
			if iters:
				iters.pop(op['i'] % len(iters))
			continue
		if k == 'next':
			if not iters:
				continue
			e = iters[op['i'] % len(iters)]
			o, kind = e['op']['o'], e['op']['kind']
			unsafe = kind == 'elliptic' and not e['op']['seeded'] and 'rp' not in o or kind in ('dTF', 'dTFmp')
			if unsafe:
				# a ripple of exactly 0 dB, lower bound of the default range, does not define a filter, nor does a first denominator coefficient equal to 0
				np.random.seed(idx)
				last[0] = 'seed'
			try:
				X, aborted = attempt(op, lambda: next(e['it']))
			except StopIteration:
				ctx.check(e['count'] == e['op']['number'], 'count', lambda: "%s: the iteration gave %d objects instead of %d" % (where, e['count'], e['op']['number']))
				iters.remove(e)
				continue
			except Exception as x:
				if isinstance(x, ValueError) and disordered(o):
					ctx.probe('impossible frequencies refused')
					iters.remove(e)
					continue
				raise Violation('unexpected-error', "%s on %r: %r" % (where, e['op'], x))
			if aborted:
				iters.remove(e)
				continue
			e['count'] += 1
			ctx.check(e['count'] <= e['op']['number'], 'count', "%s: too many objects" % where)
			where += " on %r" % (e['op'],)
			seeded = e['op']['seeded']
		else:
			kind, o = op.get('kind', 'name'), op.get('o', {})
			if k == 'seeded':
				seed = op['seed']
				a = (kind, np.int64(seed) if op['npint'] else seed, o)
			elif k == 'name':
				a = ('name', None, op['name'])
			else:
				a = (kind, None, o)
				if (kind == 'elliptic' and 'rp' not in o or kind in ('dTF', 'dTFmp')):
					np.random.seed(idx)
					last[0] = 'seed'
			try:
				X, aborted = attempt(op, lambda: make(*a))
			except Exception as x:
				if isinstance(x, ValueError) and disordered(o):
					ctx.probe('impossible frequencies refused')
					continue
				raise Violation('unexpected-error', "%s: %r" % (where, x))
			if aborted:
				continue
			seeded = k != 'unseeded'
		failed = bool(fired)
		dk, do = kind, o
		if kind == 'name':
			v = [int(x) for x in re.findall(r'\d+', op['name'])]
			dk, do = 'filter', dict(n=v[0], p=v[1], q=v[2])
		check_dims(dk, X, do, where)
		ctx.event(k, kind, failed, G.digest(content(X)) if isinstance(X, (LTI.Filter, LTI.Gabarit)) else '')
		if isinstance(X, (LTI.Filter, LTI.Gabarit)):
			objs.append(X)
			if not failed:
				extra = [(kind, op['seed'], o)] if k == 'seeded' else [('name', None, op['name'])] if k == 'name' else []
				verify(dk, X, o, seeded, where, extra)
				if k == 'seeded' and kind == 'gabarit':
					ctx.check(X.seed == op['seed'], 'no-seed', lambda: "%s: the seed reported is %r" % (where, X.seed))
				if k == 'name':
					ctx.check(X.name == op['name'], 'no-seed', lambda: "%s: the name is %r" % (where, X.name))

	if sc['newproc'] and asked:
		reqs = asked[-30:]
		ctx.fault('new interpreter with another hash seed')
		for (req, c), (st, exp) in zip(reqs, new_interpreter('c07', [r for r, _ in reqs], 1 + sc['index'])):
			ctx.check((st, exp) == ('ok', c), 'not-reproducible', lambda: "%r in a new interpreter gives %s instead of %s" % (req, (st, exp), c))
	ref.close()
