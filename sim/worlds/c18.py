# coding: utf-8
"""C18: the views of a realization show its current coefficients.

Simulated: histories of assignments (Z, blocks J to S, dZ, blocks dJ to dS), of wrong assignments, of constructions from the blocks of
another realization, and of readings, on several realizations; calls aborted at any line.  Reference: two matrices per realization
(Z and dZ), from which the views are predicted: blocks, trivial coefficients, number of operations, TikZ and LaTeX texts.
"""
import contextlib
import math
import re

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C18'
RUNS = {'quick': 2000, 'thorough': 60000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 20
RULE = "One run: 1 to 3 realizations (with special coefficients: 0, powers of two exactly, nearly, or not), then 6 to 30 operations drawn by the seed, a third of them aborted at a line and done again."
TIME_UNIT = "views compared"
STATE_MEASURE = "abstract states (operation, sizes null or not, how dZ was obtained, fault, outcome)"
REAL = ["fixif.SIF.SIF, Realization", "numpy"]
STUBS = ["fixif.WCPG, fixif.FxP (unused here)"]
SHRINK_LISTS = ('ops', 'objects')
NAMES = 'JKLMNPQRS'
MAXPOOL = 4


def gen(rng, index, tier):
	objects = [{'l': rng.choice([0, 0, 1, 2, 3]), 'n': rng.choice([1, 1, 2, 3, 4]), 'p': rng.choice([1, 1, 2, 3]), 'q': rng.choice([1, 1, 2, 3]), 'dZ': rng.choice([None, None, 'ones', 'random']), 'real': rng.random() < 0.4, 'seed': rng.randrange(10 ** 6)}
		for _ in range(rng.randint(1, 3))]
	ops = []
	for _ in range(rng.randint(6, 30)):
		k = rng.choices(['block', 'Z', 'dblock', 'dZ', 'wrong', 'rebuild', 'tikz', 'latex', 'count', 'text', 'poke'], [5, 2, 5, 2, 3, 3, 2, 3, 3, 1, 2])[0]
		op = {'op': k, 'o': rng.randrange(MAXPOOL), 'b': rng.randrange(9), 'how': rng.randrange(6), 'seed': rng.randrange(10 ** 6), 'fault': None}
		if rng.random() < 0.3:
			op['fault'] = {'k': int(2 ** rng.uniform(0, 6)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		ops.append(op)
	return {'objects': objects, 'ops': ops}


def simplify(sc):
	for i, o in enumerate(sc['objects']):
		for k in ('l', 'n', 'p', 'q'):
			if o[k] > (k != 'l'):
				yield dict(sc, objects=sc['objects'][:i] + [dict(o, **{k: o[k] - 1})] + sc['objects'][i + 1:])
		if o['real']:
			yield dict(sc, objects=sc['objects'][:i] + [dict(o, real=False)] + sc['objects'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])


def special(r):
	"""a coefficient for which being trivial or not is beyond doubt"""
	k = int(r.randint(0, 9))
	s = [-1., 1.][int(r.randint(0, 2))]
	e = int(r.randint(-40, 12))
	return [0., 0., s, s * 2. ** e, s * 2. ** e * (1 + [-1, 1][int(r.randint(0, 2))] * 10. ** -r.uniform(8.8, 15)), s * 2. ** e * (1 + [-1, 1][int(r.randint(0, 2))] * 10. ** -r.uniform(1, 7.4)),
		s * 3., s * 10. ** r.uniform(-12, 0), r.uniform(-2, 2)][k]


def sparsify(r, M, lower=False):
	"""some coefficients become special ones"""
	M = np.matrix(M, dtype=float).copy()
	for i in range(M.shape[0]):
		for j in range(M.shape[1]):
			if r.uniform() < 0.6 and not (lower and j >= i):
				M[i, j] = special(r)
	if M.size and r.uniform() < 0.15 and not lower:
		M[int(r.randint(0, M.shape[0]))] = 0.
	return M


def trivial(x):
	"""0, or a power of two to a relative error of epsilondZ=1e-8 (None: too near from the limit)"""
	x = abs(float(x))
	if x == 0:
		return True
	m, e = math.frexp(x)           # in [0.5, 1)
	d = min(abs(m - 0.5) / 0.5, 1 - m)
	return True if d < 0.5e-8 else False if d > 2e-8 else None


class Model:
	def __init__(self, size, Z, dZ):
		self.l, self.n, self.p, self.q = size
		self.Z, self.dZ = Z, dZ         # dZ None: to be deduced
		self.how = 'given' if dZ is not None else 'deduced'

	def span(self, b):
		l, n, p, q = self.l, self.n, self.p, self.q
		R = {'J': (0, l, 0, l), 'K': (l, l + n, 0, l), 'L': (l + n, l + n + p, 0, l), 'M': (0, l, l, l + n), 'N': (0, l, l + n, l + n + q),
			'P': (l, l + n, l, l + n), 'Q': (l, l + n, l + n, l + n + q), 'R': (l + n, l + n + p, l, l + n), 'S': (l + n, l + n + p, l + n, l + n + q)}[b]
		return slice(R[0], R[1]), slice(R[2], R[3])

	def block(self, b, d=False):
		X = (self.dZ if d else self.Z)[self.span(b)]
		return -X if b == 'J' and not d else X


def run(sc, ctx):
	setup()
	from fixif.SIF import SIF, Realization
	from fixif.LTI import Filter
	pool = []

	def eq(X, Y):
		X, Y = np.asarray(X), np.asarray(Y)
		return X.shape == Y.shape and bool(np.all(X == Y))

	def bmat(B, sign):
		return np.asarray(np.bmat([[sign * B[0], B[3], B[4]], [B[1], B[5], B[6]], [B[2], B[7], B[8]]]), dtype=float)

	def look(where, i=None, adopt=()):
		"""blocks and matrices of every realization (adopt: realizations whose coefficients have just changed, so that dZ may have been deduced again)"""
		for k, (o, m) in enumerate(pool):
			ctx.check(tuple(o.size) == (m.l, m.n, m.p, m.q) and (o.l, o.n, o.p, o.q) == tuple(o.size), 'wrong-size', lambda: "%s: size of the realization %d is %r" % (where, k, o.size))
			ctx.check(eq(o.Z, m.Z), 'wrong-Z', lambda: "%s: Z of the realization %d is\n%r instead of\n%r" % (where, k, o.Z, m.Z))
			d = np.array(o.dZ, dtype=float)
			ctx.check(d.shape == m.Z.shape, 'wrong-dZ', lambda: "%s: dZ of the realization %d is %r" % (where, k, o.dZ))
			if m.dZ is None or (k in adopt and not eq(d, m.dZ)):
				for (a, b), x in np.ndenumerate(d):
					t = trivial(m.Z[a, b])
					ctx.check(t is None or x == (0 if t else 1), 'wrong-trivial', lambda: "%s: coefficient Z[%d,%d]=%r, dZ=%r" % (where, a, b, m.Z[a, b], x))
				m.dZ = d
				m.how = 'deduced'
			ctx.check(eq(d, m.dZ), 'wrong-dZ', lambda: "%s: dZ of the realization %d is\n%r instead of\n%r" % (where, k, o.dZ, m.dZ))
			for b in NAMES:
				ctx.check(eq(getattr(o, b), m.block(b)), 'wrong-block', lambda: "%s: %s of the realization %d is\n%r instead of\n%r" % (where, b, k, getattr(o, b), m.block(b)))
				ctx.check(eq(getattr(o, 'd' + b), m.block(b, True)), 'wrong-block', lambda: "%s: d%s of the realization %d is\n%r instead of\n%r" % (where, b, k, getattr(o, 'd' + b), m.block(b, True)))
			ctx.check(all(eq(X, m.block(b)) for X, b in zip(o.JtoS, NAMES)) and len(o.JtoS) == 9, 'wrong-block', lambda: "%s: JtoS of the realization %d" % (where, k))
			ctx.check(all(eq(X, m.block(b, True)) for X, b in zip(o.dJtodS, NAMES)) and len(o.dJtodS) == 9, 'wrong-block', lambda: "%s: dJtodS of the realization %d" % (where, k))
			zc = m.Z.copy()
			zc[:m.l, :m.l] += np.eye(m.l)
			ctx.check(eq(o.Zcomp, zc), 'wrong-Zcomp', lambda: "%s: Zcomp of the realization %d is\n%r instead of\n%r" % (where, k, o.Zcomp, zc))
			ctx.step()

	def coefs(r, l, n, p, q):
		B = [sparsify(r, X, lower=i == 0) for i, X in enumerate(G.sif(r, l, n, p, q))]
		for i in range(l):
			B[0][i, i] = 1.
		return B

	def dcoefs(r, how, l, n, p, q):
		sh = [(l, l), (n, l), (p, l), (l, n), (l, q), (n, n), (n, q), (p, n), (p, q)]
		if how == 'ones':
			return [np.ones(s) for s in sh]
		return [r.randint(0, 2, s) * (1. if how == 'random' else r.uniform(0, 2, s)) for s in sh]

	def create(B, D, real):
		f = Filter(num=[1., 0.5], den=[1., 0.25]) if B[8].shape == (1, 1) else Filter(A=[[0.5]], B=np.ones((1, B[8].shape[1])), C=np.ones((B[8].shape[0], 1)), D=np.zeros(B[8].shape))
		if real:
			return Realization(f, tuple(B), dJtodS=None if D is None else tuple(D), structureName='test')
		return SIF(tuple(B)) if D is None else SIF(tuple(B), tuple(D))

	for s in sc['objects']:
		r = G.rs('c18', s['seed'])
		size = s['l'], s['n'], s['p'], s['q']
		B = coefs(r, *size)
		D = dcoefs(r, s['dZ'], *size) if s['dZ'] else None
		pool.append([create(B, D, s['real']), Model(size, bmat(B, -1), None if D is None else bmat(D, 1)), s['real']])
		pool[-1] = pool[-1][:2]
	look("after the construction")

	for idx, op in enumerate(sc['ops']):
		k = op['op']
		where = "operation %d (%r)" % (idx, op)
		i = op['o'] % len(pool)
		o, m = pool[i]
		b = NAMES[op['b']]
		r = G.rs('c18o', op['seed'])
		size = m.l, m.n, m.p, m.q
		newZ, newd, call = None, None, None
		if k == 'block':
			X = coefs(r, *size)[op['b']]
			newZ = m.Z.copy()
			newZ[m.span(b)] = -X if b == 'J' else X
			V = np.array(X) if op['how'] == 3 else X
			call = lambda: setattr(o, b, V)
		elif k == 'Z':
			newZ = bmat(coefs(r, *size), -1)
			call = lambda: setattr(o, 'Z', np.matrix(newZ) if op['how'] % 2 else newZ.copy())
		elif k == 'dblock':
			X = dcoefs(r, 'random' if op['how'] % 2 else 'any', *size)[op['b']]
			if m.dZ.dtype.kind == 'f' and np.asarray(o.dZ).dtype.kind != 'f':
				X = np.floor(X)
			newd = m.dZ.copy()
			newd[m.span(b)] = X
			call = lambda: setattr(o, 'd' + b, np.matrix(X) if op['how'] > 2 else X)
		elif k == 'dZ':
			newd = bmat(dcoefs(r, 'random' if op['how'] % 2 else 'any', *size), 1)
			call = lambda: setattr(o, 'dZ', np.matrix(newd) if op['how'] > 2 else newd.copy())
		elif k == 'wrong':
			names = list(NAMES) + ['Z'] + (['d' + x for x in NAMES] + ['dZ'])
			a = names[op['seed'] % len(names)]
			h, w = (m.Z.shape if a in ('Z', 'dZ') else m.block(a[-1]).shape)
			W = np.ones((h + 1 + op['how'] % 2, w + 1 + op['how'] // 3))
			if h == 0 or w == 0:
				W = np.ones((h + 2, w + 2))
			where += " %s %r" % (a, W.shape)
			call = lambda: setattr(o, a, W)
		elif k == 'rebuild':
			call = lambda: create([np.matrix(X) for X in o.JtoS] if op['how'] % 2 else o.JtoS, o.dJtodS if op['how'] < 4 else None, op['how'] == 0)
		elif k == 'tikz':
			call = lambda: o.getTiKZSparseMatrix()
		elif k == 'latex':
			sparse, fmt = bool(op['how'] % 2), ['%.4g', '%.4g', '%f', '%.17g', '%e', '%.3f'][op['how']]
			call = lambda: o.getZtpmatrixLaTeX() if op['how'] == 1 and op['seed'] % 2 else o.getZtpmatrixLaTeX(sparse=sparse, strFormat=fmt)
		elif k == 'count':
			call = lambda: (o.nbOp(), o.isPnut())
		elif k == 'text':
			call = lambda: str(o)
		elif k == 'poke':
			# the caller's own copies may be modified
			call = lambda: [np.copy(X).fill(5) for X in o.JtoS] and None
		exc = res = None
		fired = ''
		if op['fault']:
			with faults.LineFault(op['fault']['k'], op['fault']['exc']) as lf:
				try:
					res = call()
				except (Exception, KeyboardInterrupt) as e:
					exc = e
			if lf.fired:
				fired = op['fault']['exc']
				ctx.fault('abort: ' + fired)
				if newZ is not None or newd is not None:
					# aborted: all or nothing
					done = (newZ is None or eq(o.Z, newZ)) and (newd is None or eq(o.dZ, newd))
					if done:
						m.Z, m.dZ = (m.Z if newZ is None else newZ), (m.dZ if newd is None else newd)
				look(where + ", aborted", adopt=(i,) if newZ is not None else ())
				exc = None
				try:
					res = call()
				except Exception as e:
					exc = e
		else:
			try:
				res = call()
			except Exception as e:
				exc = e
		ctx.event(k, i, type(exc).__name__, fired)
		ctx.state(k, b if 'block' in k else '', m.l > 0, m.p > 1, m.q > 1, m.how, fired, type(exc).__name__)
		if k == 'wrong':
			ctx.check(exc is not None, 'wrong-accepted', lambda: "%s: a matrix of a wrong size is accepted" % where)
		elif exc is not None:
			raise Violation('fails', "%s: %r" % (where, exc))
		if newZ is not None:
			m.Z = newZ
		if newd is not None:
			m.dZ, m.how = newd, 'given'
		if k == 'rebuild':
			n = Model(size, m.Z.copy(), m.dZ.copy() if op['how'] < 4 else None)
			if len(pool) < MAXPOOL:
				pool.append([res, n])
			else:
				pool[(i + 1) % MAXPOOL] = [res, n]
		elif k == 'tikz':
			body = res[res.index('row sep'):]
			body = body[body.index('{') + 1:body.rindex('};')]
			rows = [x for x in body.split('\\\\')]
			rows = rows[:-1] if not rows[-1].strip() else rows
			kinds = [[(re.findall(r'\\node \[(\w+)\]', c) or [''])[0] for c in x.split('&')] for x in rows]
			want = [['one' if z == 1 else 'minusone' if z == -1 else '' if z == 0 else 'power2' if d == 0 else 'coef' for z, d in zip(zr, dr)] for zr, dr in zip(m.Z, m.dZ)]
			ctx.check(kinds == want, 'wrong-tikz', lambda: "%s: the drawing shows\n%r instead of\n%r" % (where, kinds, want))
			ctx.probe('TikZ drawings')
		elif k == 'latex':
			if op['how'] == 1 and op['seed'] % 2:
				sparse, fmt = True, '%.4g'
			cut = [int(x) for x in re.findall(r'line\[dashed\]\{(\d+)\}', res)]
			l1 = max(m.l, 1)
			ctx.check(cut == [l1, l1 + m.n] * 2, 'wrong-latex', lambda: "%s: the lines of separation are at %r (l, n: %r)" % (where, cut, (m.l, m.n)))
			body = res[res.index(']{}') + 3:res.index(r'\end{tpmatrix}')].strip('\n\t ')
			rows = [x.strip('\n\t ').split(r'\&') for x in body.split('\\\\')]
			if m.l == 0:
				ctx.check(rows[0] == [''] * (1 + m.n + m.q) and all(x[0] == '' for x in rows), 'wrong-latex', lambda: "%s: the row and the column for l=0 are wrong: %s" % (where, res))
				rows = [x[1:] for x in rows[1:]]
			ok = len(rows) == m.Z.shape[0] and all(len(x) == m.Z.shape[1] for x in rows)
			if ok:
				for x, zr in zip(rows, m.Z):
					for c, z in zip(x, zr):
						if z == 0 and sparse:
							ok = ok and c == ''
						else:
							ok = ok and c != '' and float(c) == (z if z == int(z) else float(fmt % z))
			ctx.check(ok, 'wrong-latex', lambda: "%s: the text\n%s\nfor\n%r" % (where, res, m.Z))
			ctx.probe('LaTeX texts')
		elif k == 'count':
			zc = m.Z.copy()
			zc[:m.l, :m.l] += np.eye(m.l)
			want = (int(np.count_nonzero(m.dZ)), sum(max(int(np.count_nonzero(x)) - 1, 0) for x in zc))
			pn = bool(np.any(np.tril(m.block('P'), -1) != 0))
			ctx.check((int(res[0][0]), int(res[0][1])) == want, 'wrong-count', lambda: "%s: nbOp gives %r instead of %r" % (where, res[0], want))
			ctx.check(bool(res[1]) == pn, 'wrong-pnut', lambda: "%s: isPnut gives %r, P=%r" % (where, res[1], m.block('P')))
		elif k == 'text':
			# (numpy prints 8 digits)
			nb = [float(x) for x in re.findall(r'(?<![\w.])[-+]?\d+\.?\d*(?:e[-+]?\d+)?(?![\w.])', res[res.index('Z'):].split('=', 1)[1] if not op['how'] else res)]
			for X in (m.Z, m.dZ):
				v, t = np.asarray(X).flatten(), 1e-7 * float(np.max(np.abs(X)))
				if t >= 1e-11:
					t = max(t, 0.6e-8)          # (8 decimals, when all the elements are between 1e-4 and 1e8)
				ctx.check(any(len(nb) >= a + len(v) and np.all(np.abs(np.array(nb[a:a + len(v)]) - v) <= t) for a in range(len(nb) - len(v) + 1)), 'wrong-text', lambda: "%s: the text does not show\n%r:\n%s" % (where, X, res))
		look(where, adopt=(i,) if newZ is not None else ())
