# coding: utf-8
"""C14: every realization of a filter implements that filter.

Simulated: several filters, builds of their realizations interleaved with half-consumed iterations over all their structures,
builds aborted at any line or in a numerical kernel, and a random source (used by the builders) whose draws are chosen by the
seed (repeated values, bounds of the interval).  Reference: direct simulation of the filter as it was given.
"""
import random

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C14'
RUNS = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 filters (transfer function, state-space SISO or MIMO, random filter, Butterworth), 5 to 25 operations: build a realization with drawn structure and options (and rho parameters), start, advance or abandon an iteration over all realizations, aborted builds, changes of the random source."
TIME_UNIT = "simulated steps are the sampling periods of the reference simulations"
STATE_MEASURE = "abstract states (kind of filter, structure and options, number of iterations in progress, plan of the random source)"
REAL = ["fixif.Structures (DFI, DFII, State_Space, rhoDFII, LGS, LCW)", "fixif.LTI.Filter, dTF, dSS", "fixif.SIF.SIF, Realization"]
STUBS = ["fixif.WCPG, fixif.FxP (unused here)", "random.uniform (draws chosen by the simulator)", "slycot (simulated balanced reduction)", "LWDF is not registered (it needs MATLAB)"]
SHRINK_LISTS = ('ops', 'filters')
STRUCTS = ['DFI', 'DFII', 'dSS', 'rhoDFII', 'LGS', 'LCW']
T = 40


def gen(rng, index, tier):
	filters = []
	for _ in range(rng.randint(1, 3)):
		kind = rng.choice(['tf', 'tf', 'tf', 'ss', 'mimo', 'random', 'butter', 'derived'])
		filters.append({'kind': kind, 'seed': rng.randrange(10 ** 6), 'n': rng.randint(1, 4), 'p': rng.randint(1, 3), 'q': rng.randint(1, 3), 'stable': rng.random() < 0.75,
			'a0': rng.choice([1., 1., 2., 5., -0.5]), 'num0': rng.random() < 0.15, 'cut': [rng.choice(['num', 'den']), rng.randint(1, 4)] if rng.random() < 0.2 else None, 'lazy': rng.random() < 0.5, 'gain': rng.choice([0, 0, 0, -20, -40, -50, 12])})
	ops = []
	for _ in range(rng.randint(5, 25)):
		k = rng.choices(['build', 'iter', 'next', 'drop', 'plan', 'reuse', 'riter'], [8, 2, 6, 1, 2, 1, 0.7])[0]
		op = {'op': k, 'f': rng.randrange(3), 'it': rng.randrange(4)}
		if k == 'build':
			s = rng.choice(STRUCTS)
			o = {}
			if s == 'DFI':
				o = {'nbSum': rng.choice([1, 2]), 'transposed': rng.random() < 0.5}
			elif s in ('DFII', 'LGS', 'LCW'):
				o = {'transposed': rng.random() < 0.5}
			elif s == 'dSS':
				o = {'form': rng.choice([None, 'ctrl', 'obs', 'balanced'])}
			elif s == 'rhoDFII':
				o = {'transposed': rng.random() < 0.5, 'equiv_dSS': rng.random() < 0.4, 'scaling': rng.choice([None, 'l2', 'l2-relaxed'])}
			if rng.random() < 0.15:
				o = {}
			op.update(s=s, options=o, rho=rng.choice([None, None, 'gamma', 'delta', 'both', 'delta1', 'near1', 'near1']), seed=rng.randrange(10 ** 6))
		if k in ('build', 'next') and rng.random() < 0.2:
			op['fault'] = {'kind': 'line', 'k': int(2 ** rng.uniform(0, 8.5)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])} if rng.random() < 0.6 else {
				'kind': 'call', 'k': rng.randint(0, 4), 'exc': rng.choice(['LinAlgError', 'MemoryError'])}
		if k == 'riter':
			op.update(ftype=rng.choice(['SISO', 'SISO', 'MIMO', 'SIMO', 'MISO']))
		if k == 'plan':
			op.update(plan=rng.choice(['free', 'repeat', 'bounds', 'fail']), n=rng.randint(1, 8))
		ops.append(op)
	return {'filters': filters, 'ops': ops, 'rseed': rng.randrange(10 ** 6), 'slycot': rng.random() < 0.8}


def simplify(sc):
	for i, r in enumerate(sc['filters']):
		for k in ('n', 'p', 'q'):
			if r[k] > 1:
				yield dict(sc, filters=sc['filters'][:i] + [dict(r, **{k: r[k] - 1})] + sc['filters'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])


class Source:
	"""the random source of the builders"""
	def __init__(self, seed):
		self.rng = random.Random(seed)
		self.plan, self.left, self.hist = 'free', 0, []

	def value(self):
		v = None
		if self.left > 0:
			self.left -= 1
			if self.plan == 'repeat' and len(self.hist) >= 2:
				v = self.hist[-2]
			elif self.plan == 'bounds':
				v = float(self.left % 2)
			elif self.plan == 'fail':
				self.left = 0
				raise OSError("the random source cannot be read")
		if v is None:
			v = self.rng.random()
		self.hist.append(v)
		return v


def run(sc, ctx):
	L = setup()
	from fixif.LTI import Filter, dSS, dTF, random_Filter, Butter
	from fixif.Structures.Structure import Structure, iterStructuresAndOptions, makeARealization, iterAllRealizationsRandomFilter
	from numpy.linalg import LinAlgError, inv, eig
	from scipy import signal
	from sim import engines
	(engines.slycot_in if sc.get('slycot') else engines.slycot_out)(L)
	engines.SLYCOT.plan[:] = []
	engines.SLYCOT.on_call = None
	np.random.seed(sc['rseed'])
	random.seed(sc['rseed'])
	src = Source(sc['rseed'])
	random.random = src.value
	random.uniform = lambda a, b: a + (b - a) * src.value()

	mats = {}

	def unit(s):
		"""order of magnitude of the coefficients of the numerator"""
		if s['kind'] == 'tf':
			return 2. ** s['gain']
		# (the conversion of a state-space to a transfer function, by scipy, has an absolute accuracy)
		return 2. ** max(s['gain'], -20) if s['kind'] in ('derived', 'ss', 'mimo') else 1.

	def make_filter(s):
		"""returns (filter, reference)"""
		r = G.rs('c14', s['seed'])
		k = s['kind']
		if k in ('tf', 'derived'):
			num, den = G.filter_poles_tf(r, s['n'])
			num = [x * unit(s) for x in num]
			if s['num0']:
				num[0] = 0.
			a0 = s['a0']
			nn, dd = [x * a0 for x in num], [x * a0 for x in den]
			if s.get('cut'):
				# numerator and denominator of different lengths
				c = s['cut'][1]
				cn, cd = (nn[:max(1, len(nn) - c)], dd) if s['cut'][0] == 'num' else (nn, dd[:max(1, len(dd) - c)])
				if not any(cn):
					cn = [unit(s)]           # (the rho scaling of a null filter is rejected)
				nn, dd = cn + [0.] * (len(nn) - len(cn)), cd + [0.] * (len(dd) - len(cd))
				while s['cut'][0] == 'den' and max(abs(np.roots(dd)), default=0) > 0.95:
					cd = dd = [x * 0.5 ** i for i, x in enumerate(dd)]
				tf = dTF(cn, cd)
				if k == 'derived':
					S = tf.to_dSS()
					mats[id(s)] = [np.array(X, dtype=float) for X in (S.A, S.B, S.C, S.D)]
				f = Filter(tf=tf, stable=s['stable']) if k == 'tf' and s['lazy'] else Filter(num=cn, den=cd, stable=s['stable']) if k == 'tf' else Filter(ss=tf.to_dSS(), stable=s['stable'])
				return f, lambda u: np.array([G.tf_sim(nn, dd, u[0])])
			if k == 'derived':
				S = dTF(nn, dd).to_dSS()
				mats[id(s)] = [np.array(X, dtype=float) for X in (S.A, S.B, S.C, S.D)]
			f = Filter(tf=dTF(nn, dd), stable=s['stable']) if k == 'tf' else Filter(ss=dTF(nn, dd).to_dSS(), stable=s['stable'])
			return f, lambda u: np.array([G.tf_sim(nn, dd, u[0])])
		if k == 'butter':
			f = Butter(max(2, s['n']), 0.2 + 0.5 * r.uniform())
		elif k == 'random':
			st = np.random.get_state()
			f = random_Filter(s['n'], s['p'], s['q'], seed=s['seed'])
			np.random.set_state(st)
		else:
			p, q = (1, 1) if k == 'ss' else (s['p'], s['q'])
			M = G.ss(r, s['n'], p, q)
			f = Filter(ss=dSS(M[0], M[1], M[2] * unit(s), M[3] * unit(s)), stable=s['stable'])
		if k == 'butter':
			nn, dd = np.array(f.dTF.num).ravel(), np.array(f.dTF.den).ravel()
			return f, lambda u: np.array([G.tf_sim(nn, dd, u[0])])
		M = [np.array(X, dtype=float) for X in (f.dSS.A, f.dSS.B, f.dSS.C, f.dSS.D)]
		mats[id(s)] = M
		return f, lambda u: G.ss_sim(*M, u)

	def observe(f):
		s = f.dSS
		res = [f.name, f.isStable(), bool(f.isSISO()), f.order, f.p, f.q, s.A, s.B, s.C, s.D]
		if f.isSISO():
			res += [f.dTF.num, f.dTF.den]
		return G.digest(res)

	filters = []
	for s in sc['filters']:
		f, ref = make_filter(s)
		u = G.rs('c14u', s['seed']).uniform(-1, 1, (f.q, T))
		# (observing caches the conversions: done on a twin, so that the first conversion may be the one of a build)
		filters.append({**({'M': mats[id(s)]} if id(s) in mats else {}), 'f': f, 'spec': s, 'u': u, 'y': np.asarray(ref(u), dtype=float), 'seen': observe(make_filter(s)[0]), 'order': make_filter(s)[0].order})
	built = []
	iters, rfl = {}, []

	def op_random(it):
		return it['fl'] is None

	def options_of(R):
		return R.structureName

	def verify(fl, R, where):
		f = fl['f']
		ctx.check(R.filter is f or observe(R.filter) == fl['seen'], 'other-filter', lambda: "%s: the realization refers to another filter" % where)
		Z = [np.array(X, dtype=float) for X in R.JtoS]
		ctx.check((R.p, R.q) == (f.p, f.q), 'dimensions', lambda: "%s: %d outputs and %d inputs" % (where, R.p, R.q))
		J = Z[0]
		ctx.check(np.all(np.isfinite(np.concatenate([X.ravel() for X in Z]))), 'not-finite', lambda: "%s: the coefficients are not finite: %r" % (where, Z))
		ctx.check(np.array_equal(J, np.tril(J)) and np.all(np.diag(J) == 1.), 'J', lambda: "%s: J is not lower triangular with 1 on its diagonal" % where)
		Y = G.sif_sim(Z, fl['u'])[0]
		ctx.step(T)
		lat = 'Li-' in R.structureName
		scale = max(unit(fl['spec']), float(np.abs(fl['y']).max()))
		err = float(np.abs(np.asarray(Y, dtype=float) - fl['y']).max()) / scale
		if not lat:
			ctx.probe('max error 1e-%d' % min(16, max(0, int(-np.log10(err + 1e-17)))))
		else:
			ctx.probe('lattice: max error 1e-%d' % min(16, max(0, int(-np.log10(err + 1e-17)))))
		ctx.check(err < max(1e-5 if lat else 1e-6 if 'balanced' in R.structureName else 1e-8, 100 * conditioning(fl)), 'another-filter-' + R.structureName.split(' (')[0],
			lambda: "%s: %s does not implement the filter (relative error %g)\ngot      %r\nexpected %r\n%r" % (where, R.name, err, Y[:, :8], fl['y'][:, :8], Z))
		y2 = R.simulate(np.matrix(fl['u']))
		ctx.check(G.close(y2, Y, 1e-8, scale), 'simulate', lambda: "%s: simulate() of the realization differs from the reference simulation of its coefficients" % where)
		ctx.probe('realizations: ' + R.structureName.split(' (')[0])

	def conditioning(fl):
		"""error (relative) that the best known conversion to a transfer function does on this filter: the realizations built from its
		transfer function cannot be more accurate"""
		if 'cond' not in fl:
			fl['cond'] = 0.
			if 'M' in fl and fl['u'].shape[0] == 1 and fl['y'].shape[0] == 1:
				num, den = signal.ss2tf(*fl['M'])
				e = np.abs(np.asarray(G.tf_sim(np.ravel(num), den, fl['u'][0]), dtype=float) - fl['y']).max()
				fl['cond'] = float(e) / max(unit(fl['spec']), float(np.abs(fl['y']).max()))
		return fl['cond']

	def sparsity(R, transposed):
		Z = np.abs(np.array(R.Z)) > 1e-12
		return sorted(np.count_nonzero(Z, axis=0 if transposed else 1).tolist()), sorted(np.count_nonzero(Z, axis=1 if transposed else 0).tolist())

	def honoured(fl, st, s, o, R, where):
		"""the options given (or their default values) are those of the realization"""
		f = fl['f']
		opt = {kk: v[0] for kk, v in (st.options or {}).items()}
		opt.update(o)
		if s == 'DFI':
			ctx.check(R.l == opt['nbSum'], 'option', lambda: "%s: %d sums" % (where, R.l))
		if s == 'dSS' and opt['form'] == 'balanced':
			A, B, C = (np.asarray(X, dtype=float) for X in (R.P, R.Q, R.R))
			Wc, Wo = engines.ORIG['lyap'](A, B @ B.T), engines.ORIG['lyap'](A.T, C.T @ C)
			g = np.diag(np.diag(Wc))
			ctx.check(R.l == 0 and max(abs(Wc - Wo).max(), abs(Wc - g).max()) < 1e-4 * abs(g).max(), 'option', lambda: "%s: the realization is not balanced: its Gramians are\n%r\n%r" % (where, Wc, Wo))
		elif s == 'dSS':
			S = f.dSS if opt['form'] is None else f.dTF.to_dSS(opt['form'])
			ctx.check(R.l == 0 and all(np.array_equal(a, b) for a, b in zip((R.P, R.Q, R.R, R.S), (S.A, S.B, S.C, S.D))), 'option', lambda: "%s: is not the form %r of the state-space" % (where, opt['form']))
		if s == 'rhoDFII':
			ctx.check((R.l == 0) == bool(opt['equiv_dSS']), 'option', lambda: "%s: %d intermediate variables" % (where, R.l))
			if not opt['equiv_dSS']:
				g = np.ones(R.n) if opt.get('gamma') is None else np.ravel(opt['gamma'])
				ctx.check(sorted(np.diag(R.P).tolist()) == sorted(g.tolist()), 'option', lambda: "%s: gamma is %r instead of %r" % (where, np.diag(R.P), g))
			if opt['scaling'] == 'l2' and opt.get('Delta') is None and opt['transposed']:
				Wc = np.diag(R.dSS.Wc)
				ctx.check(np.allclose(Wc, 1, atol=1e-4), 'option', lambda: "%s: the states are not scaled: %r" % (where, Wc))
				ctx.probe('l2-scaled')
			if opt['scaling'] == 'l2-relaxed' and opt.get('Delta') is None and opt['transposed']:
				S = R.dSS
				Wc = np.diag(S.Wc)
				m = np.log2(np.array([S.C[0, 0]] + [S.A[i, i + 1] for i in range(R.n - 1)]))
				ctx.check(np.allclose(m, np.round(m)), 'option', lambda: "%s: the Deltas are not powers of two: %r" % (where, 2 ** m))
				ctx.check(np.all(Wc > 0.999) and np.all(Wc < 1.001 * 4. ** np.arange(1, R.n + 1)), 'option', lambda: "%s: the states are not scaled (relaxed): %r" % (where, Wc))
				ctx.probe('l2-relaxed')
		if s in ('DFI', 'DFII'):
			# (made so that the states can be updated in place)
			ctx.check(np.array_equal(np.triu(R.P), R.P), 'option', lambda: "%s: P is not upper triangular: %r" % (where, R.P))
		if s in ('DFI', 'DFII', 'rhoDFII'):
			twin = st.makeRealization(f, **dict(opt, transposed=not opt['transposed']))
			ctx.check(sparsity(R, False) == sparsity(twin, True), 'option', lambda: "%s: is not the transposed form of the realization built with transposed=%r\n%r\n%r" % (where, not opt['transposed'], R.Z, twin.Z))
			if R.n > 1:
				# the transposed form distributes the coefficients over the states, the other one gathers them
				a, b = sparsity(R, False)
				ctx.check(a != b or sparsity(twin, False) == sparsity(R, False), 'option', lambda: "%s: transposed or not, same form" % where)

	def attempt(op, f):
		fault = op.get('fault')
		if not fault:
			return f(), None, False
		if fault['kind'] == 'line':
			inj = faults.LineFault(fault['k'], fault['exc'])
		else:
			inj = faults.CallFault([inv, eig], fault['k'], {'LinAlgError': LinAlgError, 'MemoryError': MemoryError}[fault['exc']]("injected"))
		res = exc = None
		with inj:
			try:
				res = f()
			except BaseException as e:
				if isinstance(e, Violation) or type(e).__name__ == 'Hang' or not inj.fired:
					raise
				exc = e
		if inj.fired:
			ctx.fault('%s:%s' % (fault['kind'], fault['exc']))
		return res, exc, bool(inj.fired)

	def guarded(op, fl, f, where):
		"""result, or None when the call has been aborted"""
		armed = src.plan == 'fail' and src.left > 0
		try:
			res, exc, fired = attempt(op, f)
		except StopIteration:
			raise
		except OSError as e:
			if armed and src.left == 0:
				ctx.fault('random source failed')
				return None
			raise Violation('unexpected-error', "%s: raises %r" % (where, e))
		except Exception as e:
			raise Violation('unexpected-error', "%s: raises %r" % (where, e))
		ctx.check(fl['spec']['lazy'] or observe(fl['f']) == fl['seen'], 'filter-changed', lambda: "%s: the filter has been changed" % where)
		return res if exc is None else None

	def accepted(fl, s, o):
		"""the forms documented for this filter: those with one input and one output need a SISO filter, some a stable one"""
		spec = fl['spec']
		siso = fl['u'].shape[0] == 1 and fl['y'].shape[0] == 1
		stable = {'tf': spec['stable'], 'derived': spec['stable'], 'ss': spec['stable'], 'mimo': spec['stable']}.get(spec['kind'], True)
		if s == 'dSS':
			if o.get('form') == 'balanced':
				return stable
			return True if o.get('form') is None else siso and o['form'] in ('ctrl', 'obs')
		if s == 'rhoDFII':
			return siso and stable
		if s in ('LGS', 'LCW'):
			return siso and stable and fl['order'] > 1
		return siso

	def expected_names(f):
		res = []
		for st, o in iterStructuresAndOptions(f):
			o = o or {}
			res.append(st.name + " (" + ", ".join('%s:%s' % (k, v) for k, v in o.items()) + ")")
		return res

	for idx, op in enumerate(sc['ops']):
		fl = filters[op['f'] % len(filters)]
		f = fl['f']
		where = "operation %d (%r)" % (idx, op)
		k = op['op']
		if k == 'plan':
			src.plan, src.left = op['plan'], op['n'] if op['plan'] != 'free' else 0
			if op['plan'] != 'free':
				ctx.fault('random source: ' + op['plan'])
		elif k == 'iter':
			iters[op['it']] = {'g': f.iterAllRealizations(), 'fl': fl, 'names': [], 'dead': False}
			ctx.event('iter', op['it'])
		elif k == 'riter':
			iters[op['it']] = {'g': iterAllRealizationsRandomFilter(2, n=(2, 5), p=(2, 4), q=(2, 4), ftype=op['ftype']), 'fl': None, 'names': [], 'dead': False}
			ctx.event('riter', op['it'])
		elif k == 'drop':
			if iters.pop(op['it'], None):
				ctx.fault('iteration abandoned')
		elif k == 'next':
			it = iters.get(op['it'])
			if it is None or it['dead']:
				continue
			n0 = len(it['names'])
			if op_random(it):
				try:
					R = next(it['g'])
				except StopIteration:
					ctx.check(len(it['names']) > 1, 'iteration', lambda: "%s: the iteration over random filters ended after %r" % (where, it['names']))
					it['dead'] = True
					continue
				except OSError as e:
					it['dead'] = True
					if src.plan != 'fail':
						raise Violation('unexpected-error', "%s: raises %r" % (where, e))
					continue
				except Exception as e:
					raise Violation('unexpected-error', "%s: raises %r" % (where, e))
				rf = R.filter
				if not any(x['f'] is rf for x in rfl):
					M = [np.array(X, dtype=float) for X in (rf.dSS.A, rf.dSS.B, rf.dSS.C, rf.dSS.D)]
					u = G.rs('c14v', idx).uniform(-1, 1, (rf.q, T))
					rfl.append({'f': rf, 'M': M, 'spec': {'kind': 'riter', 'lazy': False}, 'u': u, 'y': np.asarray(G.ss_sim(*M, u), dtype=float), 'seen': observe(rf)})
				flr = [x for x in rfl if x['f'] is rf][0]
				it['names'].append(R.structureName)
				ctx.event('rnext', R.structureName, (R.l, R.n))
				verify(flr, R, where)
				ctx.check(observe(rf) == flr['seen'], 'filter-changed', lambda: "%s: the random filter has been changed" % where)
				built.append((flr, R, G.digest(list(R.JtoS)), R.name))
				continue
			try:
				R = guarded(op, it['fl'], lambda: next(it['g']), where)
			except StopIteration:
				it['dead'] = True
				exp = expected_names(it['fl']['f'])
				fl2 = it['fl']
				siso = accepted(fl2, 'DFI', {})
				number = (1 + (8 if siso else 0) + sum(k * accepted(fl2, s, {}) for s, k in (('rhoDFII', 12), ('LGS', 2), ('LCW', 2))))
				ctx.check(len(set(it['names'])) == number, 'iteration', lambda: "%s: the iteration has given %d different realizations instead of %d: %r" % (where, len(set(it['names'])), number, it['names']))
				ctx.check(len(it['names']) == len(exp), 'iteration', lambda: "%s: the iteration has given %r instead of %r" % (where, it['names'], exp))
				ctx.probe('complete iterations')
				continue
			if R is None:
				it['dead'] = True           # a generator that raised is finished
				continue
			it['names'].append(R.structureName)
			exp = expected_names(it['fl']['f'])
			ctx.check(R.structureName == exp[n0], 'iteration', lambda: "%s: realization number %d of the iteration is %r, not %r" % (where, n0, R.structureName, exp[n0]))
			ctx.event('next', R.structureName, (R.l, R.n))
			ctx.state(it['fl']['spec']['kind'], R.structureName, len(iters), src.plan)
			verify(it['fl'], R, where)
			built.append((it['fl'], R, G.digest(list(R.JtoS)), R.name))
		elif k == 'build':
			st = Structure.getFromName(op['s'])
			o = dict(op['options'])
			try:
				ok = bool(st.canAcceptFilter(f, **o)) if o else bool(st.canAcceptFilter(f, **{kk: v[0] for kk, v in (st.options or {}).items()}))
			except Exception as e:
				raise Violation('unexpected-error', "%s: canAcceptFilter raises %r" % (where, e))
			ctx.check(ok == accepted(fl, op['s'], o), 'accepted', lambda: "%s: the structure %s this filter" % (where, 'accepts' if ok else 'refuses'))
			if not ok:
				continue
			if o.get('form') == 'balanced':
				S = f.dSS if not fl['spec']['lazy'] else make_filter(fl['spec'])[0].dSS
				X = [np.asarray(M, dtype=float) for M in (S.A, S.B, S.C)]
				static = max(abs(X[2] @ np.linalg.matrix_power(X[0], i) @ X[1]).max() for i in range(S.n + 1)) < 1e-4 * unit(fl['spec'])
				if static or not sc.get('slycot'):
					try:
						makeARealization(f, op['s'], **o)
					except (ImportError if not sc.get('slycot') else ValueError):
						ctx.event('not balanced')
						continue
					if not static:
						raise Violation('option', "%s: balanced without slycot" % where)
			if op['s'] == 'rhoDFII' and op['rho']:
				r = G.rs('c14g', op['seed'])
				n = f.order
				if op['rho'] in ('gamma', 'both', 'delta1'):
					o['gamma'] = np.round(r.uniform(-1, 1, (1, n)), 3)
				if op['rho'] in ('delta', 'both'):
					o['Delta'] = np.round(r.uniform(0.3, 2, (1, n)), 3)
				if op['rho'] == 'near1':
					# Delta almost equal to 1
					o['Delta'] = 1 + 2. ** -r.randint(8, 40) * r.choice([-1, 0, 1], (1, n))
				if op['rho'] == 'delta1':
					o['Delta'] = np.ones((1, n))
			given = {kk: v.copy() for kk, v in o.items() if isinstance(v, np.ndarray)}
			name = None if idx % 2 else 'MyName'
			R = guarded(op, fl, lambda: makeARealization(f, op['s'], **o) if name is None else st.makeRealization(f, structName=None, shortName=name, **o), where)
			ctx.event('build', op['s'], R is not None)
			for kk, v in given.items():
				ctx.check(np.array_equal(v, o[kk]), 'argument-modified', lambda: "%s: %s has been modified" % (where, kk))
			if R is None:
				continue
			ctx.state(fl['spec']['kind'], op['s'], sorted(o), len(iters), src.plan)
			verify(fl, R, where)
			honoured(fl, st, op['s'], o, R, where)
			built.append((fl, R, G.digest(list(R.JtoS)), R.name))
		elif k == 'reuse' and built:
			# use the cached values of an old realization
			fl, R, d, name = built[op['it'] % len(built)]
			verify(fl, R, where + " (built before)")
	for fl, R, d, name in built:
		ctx.check(G.digest(list(R.JtoS)) == d and R.name == name, 'realization-changed', lambda: "%s has been changed by later operations" % name)
	for fl in filters:
		ctx.check(observe(fl['f']) == fl['seen'], 'filter-changed', lambda: "a filter has been changed")
