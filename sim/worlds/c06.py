# coding: utf-8
"""C06: operations on one object never alter another.

Simulated: a pool of related objects (systems in double and multiprecision, transfer functions, filters, realizations, quantized
copies, sub-systems, conversions) and a history of operations drawn by the seed, some of them aborted at any line or in a
numerical kernel.  After each operation every other live object is compared, bit for bit for its coefficients and to rounding
for what is deduced from them, with what it was; every matrix given by the caller is compared with what it was.
"""
import copy
import ctypes

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C06'
RUNS = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 200, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 objects, then 6 to 26 operations drawn by the seed: derive (quantize, realize, convert, slice, combine, simplify, wrap), query (measures, simulation, generation of text, LaTeX and C, word-lengths), update (assignment of a new matrix or of a matrix taken from another object, change of basis); about a quarter are aborted by an injected error."
TIME_UNIT = "no clock is involved; simulated steps are the operations"
STATE_MEASURE = "abstract states (types of the live objects and how they were derived, operation, fault, outcome)"
REAL = ["fixif.LTI (dSS, dTF, dSSmp, dTFmp, Filter)", "fixif.SIF (SIF, Realization, generation, word-lengths, sensitivity)", "fixif.Structures", "fixif.func_aux", "numpy, scipy, mpmath"]
STUBS = ["fixif.WCPG (reference summation)", "fixif.FxP.Constant (reference quantiser)"]
SHRINK_LISTS = ('ops', 'objects')

NAMES = ('J', 'K', 'L', 'M', 'N', 'P', 'Q', 'R', 'S')
MAXPOOL = 8

DERIVE = {
	'dss': ['slice', 'slice', 'mul', 'add', 'sub', 'mp', 'tf', 'simplify', 'filter', 'filterABCD', 'tail'],
	'dtf': ['neg', 'scale', 'mul', 'add', 'sub', 'addnum', 'mp', 'ss', 'ssobs', 'filter', 'filternd'],
	'dssmp': ['dss', 'add', 'sub', 'tfmp'],
	'dtfmp': ['dtf', 'ssmp', 'renorm'],
	'filter': ['realize'] * 5 + ['sub'],
	'sif': ['exact', 'tf', 'delta', 'rebuild'],
	'real': ['quantize'] * 5 + ['exact', 'tf', 'delta', 'rebuild'],
}
QUERY = {
	'dss': ['Wo', 'Wc', 'H2norm', 'WCPG', 'DC', 'str', 'close'],
	'dtf': ['WCPG', 'str', 'close', 'scipy'],
	'dssmp': ['simulate', 'simulate0', 'tfmp'],
	'dtfmp': ['ssmp'],
	'filter': ['dSS', 'dTF', 'str', 'iter'],
	'sif': ['simulate', 'Hzeta', 'Hu', 'Hepsilon', 'Wo', 'Wc', 'str', 'sens', 'poles', 'tikz', 'latex'],
	'real': ['simulate', 'Hzeta', 'Hu', 'Hepsilon', 'Wo', 'str', 'sens', 'poles', 'txt', 'algtex', 'c', 'msb', 'uwl', 'tikz', 'latex', 'filterdss'],
}
UPDATE = {'dss': ['similarity'], 'sif': ['set', 'set', 'take', 'take', 'Z', 'takeZ', 'dset', 'takedZ', 'dZ'], 'real': ['set', 'set', 'take', 'take', 'Z', 'takeZ', 'dset', 'takedZ', 'dZ']}


def gen(rng, index, tier):
	objects = []
	for _ in range(rng.randint(1, 3)):
		objects.append({'type': rng.choice(['dss', 'dss', 'dtf', 'dssmp', 'dtfmp', 'filter', 'filter', 'sif', 'real', 'real', 'real']), 'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 1, 2]), 'n': rng.choice([1, 2, 2, 3, 4]),
			'p': rng.choice([1, 1, 1, 2]), 'q': rng.choice([1, 1, 1, 2]), 'how': rng.randrange(4)})
	ops = []
	for _ in range(rng.randint(6, 26)):
		op = {'op': rng.choices(['derive', 'query', 'update'], [4, 3, 4])[0], 'o': rng.randrange(MAXPOOL), 'o2': rng.randrange(MAXPOOL), 'what': rng.randrange(1000), 'seed': rng.randrange(10 ** 6), 'fault': None}
		if rng.random() < 0.25:
			op['fault'] = {'kind': 'line', 'k': int(2 ** rng.uniform(0, 8)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])} if rng.random() < 0.7 else {
				'kind': 'call', 'k': rng.randint(0, 2), 'exc': rng.choice(['LinAlgError', 'MemoryError', 'ValueError'])}
		ops.append(op)
	return {'objects': objects, 'ops': ops}


def simplify(sc):
	for i, r in enumerate(sc['objects']):
		for k in ('l', 'n', 'p', 'q'):
			if r[k] > (k != 'l'):
				yield dict(sc, objects=sc['objects'][:i] + [dict(r, **{k: r[k] - 1})] + sc['objects'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])


class Ent:
	def __init__(self, type_, obj, root, how):
		self.type = type_
		self.obj = obj
		self.root = root          # objects with the same root are the same state seen through two objects (documented)
		self.how = how
		self.exact = self.cheap = self.expensive = None


def run(sc, ctx):
	L = setup()
	import mpmath
	from fixif.LTI import dSS, dTF, dSSmp, dTFmp, Filter
	from fixif.SIF import SIF, Realization
	from fixif.Structures.Structure import iterStructuresAndOptions, makeARealization
	from numpy.linalg import LinAlgError, inv, eigvals
	from scipy.linalg import solve_discrete_lyapunov
	kernels = [inv, solve_discrete_lyapunov]
	pool = []
	counter = [0]

	def clone(o):
		"""deep copy (so that reading what is lazily computed does not change the object under test)"""
		memo = {}
		for v in vars(o).values():
			if isinstance(v, (ctypes._CFuncPtr, ctypes.CDLL)):
				memo[id(v)] = v
		return copy.deepcopy(o, memo)

	def ssm(S):
		return [S.A, S.B, S.C, S.D]

	# ---------------------------------------------------------------- observation
	def exact(e):
		o = e.obj
		if e.type == 'dss':
			return G.digest([o.size, ssm(o)])
		if e.type == 'dtf':
			return G.digest([o.order, o.num, o.den])
		if e.type == 'dssmp':
			return G.digest([o.n, o.p, o.q, o.A, o.B, o.C, o.D])
		if e.type == 'dtfmp':
			return G.digest([o.order, o.num, o.den])
		if e.type == 'filter':
			o = clone(o)
			r = [o.name, o.isStable(), bool(o.isSISO()), o.order, o.p, o.q, ssm(o.dSS)]
			if o.isSISO():
				r += [o.dTF.num, o.dTF.den]
			return G.digest(r)
		r = [o.size, o.Z, np.asarray(o.dZ, dtype=float), list(o.JtoS), o.invJ, ssm(o.dSS)]
		if e.type == 'real':
			f = clone(o.filter)
			r += [o.name, o.structureName, o.shortName, o.MSB, o.LSB, f.name, f.p, f.q, f.order]          # (its state-space may be shared with the dSS it was built with)
		return G.digest(r)

	def cheap(e):
		"""list of (name, array): what is deduced from the coefficients"""
		o = clone(e.obj)
		u = np.matrix(G.rs('c06u', e.root).uniform(-1, 1, (o.q if e.type in ('sif', 'real', 'dssmp') else 1, 6)))
		if e.type == 'dss':
			return [('DC gain', o.calc_DC_gain())]
		if e.type == 'dtf':
			if o.order == 0 or o.num.shape != o.den.shape:
				return []
			return [('state-space', np.hstack([np.ravel(X) for X in ssm(o.to_dSS())]))]
		if e.type == 'dssmp':
			y = o.simulate(u)
			return [('outputs', np.array([[float(y[i, j]) for j in range(y.cols)] for i in range(y.rows)]))]
		if e.type == 'dtfmp':
			return []
		if e.type == 'filter':
			return [('DC gain', o.dSS.calc_DC_gain())]
		res = [('outputs', o.simulate(u)), ('Hu', np.hstack([np.ravel(X) for X in ssm(o.Hu)])), ('Hepsilon', np.hstack([np.ravel(X) for X in ssm(o.Hepsilon)])), ('Hzeta', np.hstack([np.ravel(X) for X in ssm(o.Hzeta)]))]
		if e.type == 'real':
			res.append(('outputs of the filter', G.ss_sim(*ssm(o.filter.dSS), u)))
			res.append(('algorithm', o.algorithmTxt()))
		return res

	def h2(S):
		# (the square: the norm of a system that is almost zero has no accuracy)
		return ('H2 norm', [[np.nan_to_num(S.H2norm()) ** 2]])

	def expensive(e):
		o = clone(e.obj)
		if e.type in ('sif', 'real'):
			return [('Wo', o.Wo), ('Wc', o.Wc), ('WCPG of Hzeta', o.Hzeta.WCPG()), h2(o.dSS)] + ([('MSB', np.array(o.computeNaiveMSB(np.matrix(np.ones((o.q, 1)) * 1.37))))] if e.type == 'real' and nonzero(o) else [])
		if e.type == 'dss':
			return [('Wo', o.Wo), ('Wc', o.Wc), ('WCPG', o.WCPG()), h2(o)]
		if e.type == 'filter':
			return [('WCPG', o.dSS.WCPG())]
		if e.type == 'dtf':
			return [('WCPG', [[o.WCPG()]])]
		return []

	def nonzero(o):
		"""are the bounds of the variables far from 0 (the logarithm of 0 is not defined)"""
		return float(np.min(np.asarray(clone(o).Hzeta.WCPG()) @ np.ones((o.q, 1)))) > 1e-6

	def same(a, b):
		if len(a) != len(b):
			return 'number of values'
		for (n1, x), (n2, y) in zip(a, b):
			if isinstance(x, str) or isinstance(y, str):
				if x != y:
					return n1
			elif not G.close(x, y, 1e-7):
				return n1
		return None

	def record(e):
		e.exact = exact(e)
		e.cheap = cheap(e)
		e.expensive = expensive(e) if e.type not in ('dssmp', 'dtfmp') and (counter[0] % 3 == 0) else None
		counter[0] += 1

	def verify(e, where, full=False):
		x = exact(e)
		ctx.check(x == e.exact, 'altered-' + e.type, lambda: "%s: a %s (%s) that was not the object of the operation has been changed: %r" % (where, e.type, e.how, e.obj))
		bad = same(cheap(e), e.cheap)
		ctx.check(bad is None, 'derived-' + e.type, lambda: "%s: %s of a %s (%s) that was not the object of the operation is not the same as before" % (where, bad, e.type, e.how))
		if full and e.expensive is not None:
			bad = same(expensive(e), e.expensive)
			ctx.check(bad is None, 'derived-' + e.type, lambda: "%s: %s of a %s (%s) is not the same as when it was created" % (where, bad, e.type, e.how))

	def rebuilt(e):
		"""an independent object with the same coefficients"""
		o = e.obj
		if e.type == 'sif':
			n = SIF([np.matrix(X) for X in o.JtoS])
		elif e.type == 'real':
			f = o.filter
			n = Realization(f, [np.matrix(X) for X in o.JtoS], structureName=o.structureName)
		elif e.type == 'dss':
			n = dSS(*[np.matrix(X) for X in ssm(o)])
		else:
			return None
		return Ent(e.type, n, e.root, e.how)

	def coherent(e, where):
		"""what is deduced is what a new object built from the same coefficients gives (nothing inherited from another one)"""
		r = rebuilt(e)
		if r is None:
			return
		a, b = cheap(e), cheap(r)
		a, b = [x for x in a if x[0] != 'algorithm'], [x for x in b if x[0] != 'algorithm']
		bad = same(a, b)
		ctx.check(bad is None, 'inherited-' + e.type, lambda: "%s: %s of the new %s (%s) is not the one of its coefficients" % (where, bad, e.type, e.how))
		if e.type != 'real' or counter[0] % 2:
			bad = same(expensive(e), expensive(r))
			ctx.check(bad is None, 'inherited-' + e.type, lambda: "%s: %s of the new %s (%s) is not the one of its coefficients" % (where, bad, e.type, e.how))

	# ---------------------------------------------------------------- objects
	given = []            # matrices given by the caller: (object, digest)

	def arg(M):
		given.append((M, G.digest(M)))
		return M

	def args_intact(where):
		for M, d in given:
			ctx.check(G.digest(M) == d, 'argument-modified', lambda: "%s: a matrix given by the caller has been modified: %r" % (where, M))

	def make(s):
		r = G.rs('c06', s['seed'])
		n, p, q = s['n'], s['p'], s['q']
		t = s['type']
		if t == 'dss':
			M = [np.matrix(X) for X in G.ss(r, n, p, q)]
			if s['how'] == 1 and n > 1:
				M[0][r.randint(n), :] = 0.
			if r.uniform() < .25:
				# a system without output, or without effect of its inputs
				for k in [(1, 3), (2, 3), (1, 2, 3), (3,)][r.randint(4)]:
					M[k][:, :] = 0.
			return dSS(*[arg(X) for X in M])
		if t == 'dssmp':
			M = [np.matrix(X) for X in G.ss(r, n, p, q)]
			return dSSmp(*[arg(X) for X in M])
		if t in ('dtf', 'dtfmp'):
			num, den = G.filter_poles_tf(r, n)
			a0 = [1., 2., -0.5, 5.][s['how']]
			num, den = np.matrix(num) * a0, np.matrix(den) * a0
			if t == 'dtf':
				return dTF(arg(num), arg(den))
			mp = [mpmath.matrix([[mpmath.mpf(float(x))] for x in X.A1]) for X in (num, den)]
			return dTFmp(arg(mp[0]), arg(mp[1]))
		if t == 'filter':
			if s['how'] < 2:
				num, den = G.filter_poles_tf(r, max(n, 2))
				return Filter(num=arg(np.matrix(num)), den=arg(np.matrix(den)), stable=True)
			M = [np.matrix(X) for X in G.ss(r, n, p, q)]
			A, B, C, D = [arg(X) for X in M]
			return Filter(A=A, B=B, C=C, D=D, stable=bool(s['how'] % 2), name='f%d' % s['seed'])
		Z = [arg(np.matrix(X)) for X in G.sif(r, s['l'], n, p, q, sparse=s['how'] == 1)]
		if t == 'sif':
			return SIF(Z, [arg((X != 0) * 1.) for X in Z] if s['how'] == 2 else None)
		return Realization(None, Z, structureName='direct %d' % s['how'])

	def put(type_, obj, how, root=None):
		if obj is None or any(e.obj is obj for e in pool):
			return None
		if type_ in ('dss', 'filter'):
			S = clone(obj).dSS if type_ == 'filter' else obj
			if S.n and max(abs(eigvals(S.A))) > 0.99:
				return None
			if S.n > 10:
				return None
		if type_ in ('dtf', 'dtfmp') and (obj.order > 10 or obj.order < 1 or not any(x != 0 for x in (np.ravel(obj.num) if type_ == "dtf" else obj.num)) or G.shape_of(obj.num) != G.shape_of(obj.den)):
			return None
		if type_ == 'dssmp' and (obj.n > 8):
			return None
		if type_ in ('sif', 'real') and (sum(obj.size) > 30 or max(abs(eigvals(obj.AZ))) > 0.99):
			return None
		if type_ == 'dtf' and max(abs(np.roots(np.asarray(obj.den).ravel()))) > 0.99:
			return None
		e = Ent(type_, obj, root if root is not None else len(ctx.tail) + 1000 * counter[0], how)
		record(e)
		if len(pool) >= MAXPOOL:
			pool.pop(0)
		pool.append(e)
		return e

	# ---------------------------------------------------------------- operations.  Each returns a function without arguments, or None
	def separated(o):
		"""to_dTFmp uses the eigenvectors: they must exist"""
		if (o.p, o.q) != (1, 1) or not 1 <= o.n <= 4:
			return False
		A = np.array([[float(o.A[i, j]) for j in range(o.n)] for i in range(o.n)])
		return np.linalg.cond(np.linalg.eig(A)[1]) < 1e3

	def derive(op, e, e2):
		o = e.obj
		what = DERIVE[e.type][op['what'] % len(DERIVE[e.type])]
		r = G.rs('c06d', op['seed'])
		o2 = e2.obj
		t = e.type
		f = ty = None
		root = None
		if t == 'dss':
			if what == 'slice':
				i, j = sorted(r.choice(o.p, r.randint(1, o.p + 1), replace=False).tolist()), sorted(r.choice(o.q, r.randint(1, o.q + 1), replace=False).tolist())
				if r.uniform() < .5:
					f = lambda: o[i[0]:i[0] + 1, j[0]:j[0] + 1]
				else:
					f = lambda: o[:, j]
				ty = 'dss'
			elif what == 'tail':
				f, ty = (lambda: o[o.p - 1:, :]), 'dss'
			elif what == 'mul':
				if e2.type != 'dss' or o2.p != o.q or o2.q != o.p or o.p != o.q:
					return None
				f, ty = (lambda: o * o2), 'dss'
			elif what in ('add', 'sub'):
				if e2.type != 'dss' or (o2.p, o2.q) != (o.p, o.q):
					return None
				f, ty = (lambda: o + o2) if what == 'add' else (lambda: o - o2), 'dss'
			elif what == 'mp':
				f, ty = o.to_dSSmp, 'dssmp'
			elif what == 'tf':
				if (o.p, o.q) != (1, 1):
					return None
				f, ty = o.to_dTF, 'dtf'
			elif what == 'simplify':
				f, ty = o.simplify, 'dss'
			elif what == 'filter':
				f, ty, root = (lambda: Filter(ss=o, stable=True)), 'filter', e.root
			else:
				A, B, C, D = [arg(np.matrix(X)) for X in ssm(o)]
				f, ty = (lambda: Filter(A=A, B=B, C=C, D=D, stable=True)), 'filter'
		elif t == 'dtf':
			if what == 'neg':
				f, ty = (lambda: -o), 'dtf'
			elif what == 'scale':
				c = [2.5, 3, 1, 1., 0, -1, -1., 2][r.randint(8)]
				f, ty = (lambda: o * c) if r.randint(2) else (lambda: c * o), 'dtf'
			elif what == 'addnum':
				c = [2.5, 1, .5, -2, 0, 0.][r.randint(6)]
				f, ty = [lambda: o + c, lambda: c + o, lambda: o - c, lambda: c - o][r.randint(4)], 'dtf'
			elif what in ('mul', 'add', 'sub'):
				if e2.type != 'dtf':
					return None
				f, ty = {'mul': lambda: o * o2, 'add': lambda: o + o2, 'sub': lambda: o - o2}[what], 'dtf'
			elif what == 'mp':
				f, ty = o.to_dTFmp, 'dtfmp'
			elif what == 'ss':
				f, ty = o.to_dSS, 'dss'
			elif what == 'ssobs':
				f, ty = (lambda: o.to_dSS(form='obs')), 'dss'
			elif what == 'filter':
				f, ty = (lambda: Filter(tf=o, stable=True)), 'filter'
			else:
				f, ty = (lambda: Filter(num=o.num, den=o.den, stable=True)), 'filter'
		elif t == 'dssmp':
			if what == 'dss':
				f, ty = o.to_dSS, 'dss'
			elif what in ('add', 'sub'):
				if e2.type not in ('dssmp', 'dss') or (o2.p, o2.q) != (o.p, o.q):
					return None
				f, ty = (lambda: o + o2) if what == 'add' else (lambda: o - o2), 'dssmp'
			else:
				if not separated(o):
					return None
				f, ty = (lambda: o.to_dTFmp(100)), 'dtfmp'
		elif t == 'dtfmp':
			if what == 'dtf':
				f, ty = o.to_dTF, 'dtf'
			elif what == 'ssmp':
				f, ty = o.to_dSSmp, 'dssmp'
			else:
				b, a = arg(o.num * 3), arg(o.den * 3)
				f, ty = (lambda: dTFmp(b, a)), 'dtfmp'
		elif t == 'filter':
			if what == 'sub':
				S = o.dSS
				f, ty = (lambda: S[0:1, 0:1]), 'dss'
			else:
				lst = [(st, oo or {}) for st, oo in iterStructuresAndOptions(clone(o)) if (oo or {}).get('form') != 'balanced' and not st.name.startswith('Li-')]
				st, oo = lst[r.randint(len(lst))]
				kw = dict(oo)
				if st.name.startswith('rho') and r.randint(2):
					kw['gamma'] = arg(np.matrix(r.uniform(-.8, .8, (1, o.order))))
					if r.randint(2):
						kw['Delta'] = arg(np.matrix(2. ** r.randint(-2, 2, (1, o.order))))
				f, ty = (lambda: st.makeRealization(o, **kw)), 'real'
		else:
			if what == 'quantize':
				w = int(r.randint(6, 40))
				f, ty = (lambda: o.quantize(w)), 'real'
			elif what == 'exact':
				f, ty = o.to_dSSexact, 'dssmp'
			elif what == 'tf':
				if (o.p, o.q) != (1, 1):
					return None
				f, ty = o.to_dTF, 'dtf'
			elif what == 'delta':
				f, ty = o.computeDeltaSIF, 'sif'
			elif what == 'rebuild':
				Z = o.JtoS
				f, ty = (lambda: SIF(Z)) if t == 'sif' or r.randint(2) else (lambda: Realization(o.filter, Z, structureName='again')), 'sif'
		return what, f, ty, root

	def query(op, e, e2):
		o, o2 = e.obj, e2.obj
		what = QUERY[e.type][op['what'] % len(QUERY[e.type])]
		r = G.rs('c06q', op['seed'])
		if what in ('Wo', 'Wc', 'dSS', 'Hzeta', 'Hu', 'Hepsilon'):
			return what, lambda: getattr(o, what)
		if what in ('H2norm', 'WCPG'):
			return what, getattr(o, what)
		if what == 'DC':
			return what, o.calc_DC_gain
		if what == 'str':
			return what, lambda: str(o)
		if what == 'scipy':
			return what, o.toTransferFunction
		if what == 'close':
			if e2.type != e.type or (e.type == 'dss' and (o2.p, o2.q) != (o.p, o.q)):
				return None

			def f():
				try:
					o.assert_close(o2)
				except AssertionError:
					pass
			return what, f
		if what in ('simulate', 'simulate0'):
			u = arg(np.matrix(r.uniform(-1, 1, (o.q, 5))))
			if what == 'simulate0':
				x0 = arg(np.matrix(r.uniform(-1, 1, (o.n, 1))) if r.randint(2) else mpmath.matrix([[mpmath.mpf(float(x))] for x in r.uniform(-1, 1, o.n)]))
				ex = bool(r.randint(2))
				return what, lambda: o.simulate(u, exact=ex, x0=x0)
			return what, lambda: o.simulate(u)
		if what == 'tfmp':
			if not separated(o):
				return None
			return what, lambda: o.to_dTFmp(80)
		if what == 'ssmp':
			return what, o.to_dSSmp
		if what == 'dTF':
			return (what, lambda: o.dTF) if o.isSISO() else None
		if what == 'iter':
			def f():
				for i, R in enumerate(o.iterAllRealizations()):
					if i > 3:
						break
			return what, f
		if what == 'sens':
			return (what, o.dTFsensitivity) if sum(o.size) < 7 else None
		if what == 'poles':
			if np.linalg.cond(np.linalg.eig(np.asarray(o.AZ))[1]) > 1e6 or min(abs(eigvals(o.AZ))) < 1e-6:
				return None
			return what, lambda: o.poleSensitivity(bool(r.randint(2)))
		if what == 'tikz':
			return what, o.getTiKZSparseMatrix
		if what == 'latex':
			return what, lambda: o.getZtpmatrixLaTeX()
		if what == 'txt':
			return what, lambda: o.algorithmTxt(withTime=bool(r.randint(2)))
		if what == 'algtex':
			return what, lambda: o.algorithmLaTeX()
		if what == 'c':
			return what, lambda: o.implementCdouble('f')
		if what in ('msb', 'uwl'):
			if not nonzero(o):
				return None
			ub = arg(np.matrix(r.uniform(.5, 5, (o.q, 1))))
			if what == 'msb':
				return what, lambda: o.computeNaiveMSB(ub)
			if float(np.min(np.asarray(clone(o).Hepsilon.WCPG()))) < 1e-6:
				return None
			eps = arg(np.matrix(2. ** r.uniform(-10, -4, (o.p, 1))))
			return what, lambda: o.optimalUniformWL(ub, eps)
		if what == 'filterdss':
			return what, lambda: (o.filter.dSS.Wo, o.filter.dSS.WCPG(), o.filter.dSS.A)
		raise AssertionError(what)

	def stable_with(o, name, M):
		Z = [np.asarray(X) for X in o.JtoS]
		Z[NAMES.index(name)] = np.asarray(M)
		A = G.sif_ss(Z)[0]
		return max(abs(eigvals(A))) < 0.97

	def update(op, e, e2):
		if e.type not in UPDATE:
			return None
		o, o2 = e.obj, e2.obj
		what = UPDATE[e.type][op['what'] % len(UPDATE[e.type])]
		r = G.rs('c06w', op['seed'])
		if what == 'similarity':
			k = r.randint(3)
			if k == 2 and e2.type == 'dss' and o2 is not o and o2.n == o.n and np.linalg.cond(o2.A) < 50:
				T = o2.A
			else:
				T = np.matrix(np.eye(o.n) + .3 * r.uniform(-1, 1, (o.n, o.n)))
				if np.linalg.cond(T) > 50:
					T = np.matrix(np.eye(o.n) * 2.)
				arg(T)
			return what, lambda: o.similarity(T)
		if what in ('take', 'takeZ', 'takedZ'):
			if e2.type not in ('sif', 'real') or o2 is o:
				return None
			if what == 'take':
				name = NAMES[r.randint(9)]
				M = getattr(o2, name)
				if M.shape != getattr(o, name).shape or M.size == 0 or not stable_with(o, name, M):
					return None
				return what, lambda: setattr(o, name, M)
			if o2.size != o.size:
				return None
			if what == 'takeZ':
				Z = o2.Z
				return what, lambda: setattr(o, 'Z', Z)
			dZ = o2.dZ
			return what, lambda: setattr(o, 'dZ', dZ)
		if what == 'Z':
			M = np.matrix(np.asarray(o.Z) * 1.)
			M[o.l:, o.l + o.n:] *= 1.5
			arg(M)
			return what, lambda: setattr(o, 'Z', M)
		if what == 'dZ':
			M = arg(np.matrix((r.uniform(0, 1, o.Z.shape) < .5) * 1.))
			return what, lambda: setattr(o, 'dZ', M)
		name = NAMES[r.randint(9)]
		cur = np.asarray(getattr(o, name))
		if cur.size == 0:
			return None
		if what == 'dset':
			M = arg(np.matrix((r.uniform(0, 1, cur.shape) < .5) * 1.))
			return what, lambda: setattr(o, 'd' + name, M)
		M = np.matrix(cur + (r.uniform(-.3, .3, cur.shape) if name != 'J' else np.tril(r.uniform(-.3, .3, cur.shape), -1)))
		if not stable_with(o, name, M):
			return None
		arg(M)
		return what, lambda: setattr(o, name, M)

	for s in sc['objects']:
		o = make(s)
		e = put(s['type'], o, 'created')
		if e is not None and e.type == 'real':
			# its filter is the state-space it was created with
			pass
	args_intact("creation")

	for idx, op in enumerate(sc['ops']):
		if not pool:
			break
		e = pool[op['o'] % len(pool)]
		e2 = pool[op['o2'] % len(pool)]
		k = op['op']
		c = {'derive': derive, 'query': query, 'update': update}[k](op, e, e2)
		if c is None or c[1] is None:
			continue
		what, f = c[0], c[1]
		where = "operation %d (%s %s on a %s (%s)%s)" % (idx, k, what, e.type, e.how, ', fault %r' % op['fault'] if op['fault'] else '')
		inj = None
		res = exc = None
		if op['fault']:
			x = op['fault']
			inj = faults.LineFault(x['k'], x['exc']) if x['kind'] == 'line' else faults.CallFault(kernels, x['k'], {'LinAlgError': LinAlgError, 'MemoryError': MemoryError, 'ValueError': ValueError}[x['exc']]("injected"))
			with inj:
				try:
					res = f()
				except BaseException as ex:
					if isinstance(ex, Violation) or type(ex).__name__ == 'Hang':
						raise
					exc = ex
			if inj.fired:
				ctx.fault('%s:%s' % (x['kind'], x['exc']))
			elif exc is not None and not isinstance(exc, (ValueError, ArithmeticError)):
				raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
		else:
			try:
				res = f()
			except (ValueError, ArithmeticError) as ex:
				# not defined for the values that have been drawn (null transfer function, ...): nothing should have changed
				exc = ex
			except Exception as ex:
				raise Violation('unexpected-error', "%s: raises %r" % (where, ex))
		ctx.step()
		ctx.event(k, what, e.type, type(exc).__name__ if exc else 'ok')
		ctx.state(k, what, e.type, e.how, e2.type if k != 'query' else '', type(exc).__name__ if exc else 'ok', sorted(x.type for x in pool))
		ctx.probe('%s: %s %s' % (k, e.type, what))
		args_intact(where)
		changed = [x for x in pool if x.root == e.root] if k == 'update' and exc is None else []
		for x in pool:
			if x not in changed:
				verify(x, where)
		for x in changed:
			record(x)
			coherent(x, where)
		if k == 'derive' and exc is None and c[2]:
			if res is not None:
				if any(x.obj is res for x in pool):
					ctx.check(what == 'simplify', 'same-object', lambda: "%s: returns an object that already exists" % where)
				else:
					n = put('real' if isinstance(res, Realization) else c[2], res, what + ' of ' + e.type, root=c[3])
					if n is not None:
						coherent(n, where)
	args_intact("at the end")
	for x in pool:
		verify(x, "at the end", full=True)
