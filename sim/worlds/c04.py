# coding: utf-8
"""C04: the generated C step function keeps all its state in the caller.

Simulated: a shared library compiled from the generated C of several realizations, and any number of channels (state vectors)
whose steps are interleaved by the seed; state vectors are saved, copied, restored, moved and exchanged at drawn steps
(crash/restart of a channel from its checkpoint).  Reference: the same inputs run alone from the same checkpoint, and an
independent double-precision simulation.
"""
import ctypes
import os
import subprocess
import tempfile

import numpy as np

from sim import gen as G
from sim.core import Violation
from sim.env import setup

PROP = 'C04'
RUNS = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 120, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 realizations (dimensions, sparsity, triangular P or not drawn by the seed), their generated C compiled together, then 30 to 150 operations on up to 5 channels: step, save, restore, copy, move, restart."
TIME_UNIT = "the simulated steps are the sampling periods executed by the compiled functions"
STATE_MEASURE = "abstract states (dimensions, in-place or not, operation, number of channels of the realization)"
REAL = ["fixif.SIF.Realization.implementCdouble, the template and fixif.SoP", "the C compiler", "the compiled function"]
STUBS = ["fixif.WCPG, fixif.FxP (unused here)"]
SHRINK_LISTS = ('ops', 'reals')
GUARD = 7.25e77


def gen(rng, index, tier):
	reals = []
	for _ in range(rng.randint(1, 3)):
		siso = rng.random() < 0.4
		reals.append({'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 1, 2, 3, 4]), 'n': rng.randint(1, 5), 'p': 1 if siso else rng.randint(1, 3),
			'q': 1 if siso else rng.randint(1, 3), 'pnut': rng.choice(['upper', 'full', 'any', 'lower']), 'sparse': rng.random() < 0.4, 'short': rng.random() < 0.3})
	nch = rng.randint(2, 5)
	ops = []
	for _ in range(rng.randint(30, 150)):
		k = rng.choices(['step', 'save', 'restore', 'copy', 'move', 'restart', 'set'], [20, 2, 3, 2, 2, 1, 1])[0]
		ops.append({'op': k, 'ch': rng.randrange(nch), 'to': rng.randrange(nch), 'slot': rng.randrange(3), 'seed': rng.randrange(10 ** 6), 'n': rng.choice([1, 1, 1, 2, 5])})
	return {'reals': reals, 'channels': nch, 'ops': ops, 'opt': rng.choice(['-O0', '-O0', '-O1', '-O2']), 'rename': rng.random() < 0.5}


def simplify(sc):
	for i, r in enumerate(sc['reals']):
		for k in ('l', 'n', 'p', 'q'):
			if r[k] > (k != 'l'):
				yield dict(sc, reals=sc['reals'][:i] + [dict(r, **{k: r[k] - 1})] + sc['reals'][i + 1:])


def coefs(r):
	Z = G.sif(G.rs('c04', r['seed']), r['l'], r['n'], r['p'], r['q'], pnut='upper' if r['pnut'] in ('upper', 'lower') else r['pnut'], sparse=r['sparse'])
	if r['pnut'] == 'lower':
		# strictly lower triangular P: the in-place update would use the new states
		Z[5] = Z[5].T.copy()
		A = G.sif_ss(Z)[0]
		m = max(abs(np.linalg.eigvals(A)))
		if m > 0.9:
			Z[1], Z[5] = Z[1] * (0.9 / m), Z[5] * (0.9 / m)
	if r['short']:
		# exact small coefficients, with 0, 1 and -1 (special cases of the sums of products)
		Z = [np.matrix(np.round(np.asarray(X) * 2) / 2 + 0.) if i not in (1, 5) else np.matrix(np.round(np.asarray(X) * 4) / 4 + 0.) for i, X in enumerate(Z)]
		for i in range(r['l']):
			Z[0][i, i] = 1.
	rnd = G.rs('special', r['seed'])
	if rnd.uniform() < 0.4:
		return G.special(rnd, Z, near=46, tiny=60)
	return G.rescale(rnd, Z, extreme=.15) if rnd.uniform() < 0.4 else Z


class Buf:
	"""n doubles surrounded by guards"""
	def __init__(self, n, pad=3):
		self.n, self.pad = n, pad
		self.a = np.full(n + 2 * pad, GUARD)
		self.a[pad:pad + n] = 0.

	@property
	def v(self):
		return self.a[self.pad:self.pad + self.n]

	def ptr(self):
		return (self.a[self.pad:]).ctypes.data_as(ctypes.POINTER(ctypes.c_double))

	def intact(self):
		return bool(np.all(self.a[:self.pad] == GUARD) and np.all(self.a[self.pad + self.n:] == GUARD))


def rw_segments(path):
	"""contents of the writable memory of the library"""
	res = []
	base = os.path.basename(path)
	with open('/proc/self/maps') as f:
		for ln in f:
			w = ln.split()
			if len(w) > 5 and w[-1].endswith(base) and 'w' in w[1]:
				a, b = [int(x, 16) for x in w[0].split('-')]
				res.append((a, b))
	return res


def run(sc, ctx):
	setup()
	from fixif.SIF import Realization
	reals, codes = [], []
	for i, r in enumerate(sc['reals']):
		Z = coefs(r)
		R = Realization(None, [X.copy() for X in Z], structureName='sim')
		name = 'step_%d' % i if sc['rename'] else 'implementCdouble_%d' % i
		codes.append(R.implementCdouble(name))
		reals.append({'Z': Z, 'name': name, 'dims': (r['l'], r['n'], r['p'], r['q']), 'upper': bool(np.all(np.tril(Z[5], -1) == 0))})
	d = tempfile.mkdtemp(dir=os.path.join(setup().root, 'tmp'))
	src, so = os.path.join(d, 'all.c'), os.path.join(d, 'all_%d.so' % sc['index'])
	with open(src, 'w') as f:
		f.write("\n".join(codes))
	p = subprocess.run(['cc', sc['opt'], '-w', '-fPIC', '-shared', '-Wl,-z,now', '-ffp-contract=off', '-o', so, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
	ctx.check(p.returncode == 0, 'does-not-compile', lambda: "the generated C does not compile:\n%s\n%s" % (p.stdout.decode(errors='replace'), "\n".join(codes)))
	lib = ctypes.CDLL(so)
	for r in reals:
		f = getattr(lib, r['name'])
		pd, cd = ctypes.POINTER(ctypes.c_double), ctypes.c_double
		l, n, pp, q = r['dims']
		f.argtypes = ([] if pp == 1 else [pd]) + [cd if q == 1 else pd, pd]
		f.restype = cd if pp == 1 else None
		r['f'] = f
	segs = rw_segments(so)
	before = [ctypes.string_at(a, b - a) for a, b in segs]

	def call(r, xbuf, u):
		"""one step of the compiled function; returns y"""
		l, n, pp, q = r['dims']
		ub, yb = Buf(q), Buf(pp)
		ub.v[:] = u
		args = ([] if pp == 1 else [yb.ptr()]) + [float(u[0]) if q == 1 else ub.ptr(), xbuf.ptr()]
		ret = r['f'](*args)
		y = np.array([ret]) if pp == 1 else yb.v.copy()
		ok = xbuf.intact() and ub.intact() and yb.intact() and np.array_equal(ub.v, u)
		ctx.check(ok, 'writes-outside', lambda: "the function of realization %s writes outside its state and output (or changes its input)" % r['name'])
		return y

	# channels: realization, buffer, history since the last known state
	chans = []
	for c in range(sc['channels']):
		r = reals[c % len(reals)]
		chans.append({'r': r, 'x': Buf(r['dims'][1]), 'x0': np.zeros(r['dims'][1]), 'us': [], 'ys': []})
	slots = {}

	def flush(c, why):
		"""compares what the channel did since its last known state with an uninterrupted run of the same function, and the reference"""
		ch = chans[c]
		if not ch['us']:
			return
		r = ch['r']
		U = np.array(ch['us']).T
		b = Buf(r['dims'][1])
		b.v[:] = ch['x0']
		alone = np.array([call(r, b, u) for u in ch['us']])
		ctx.check(np.array_equal(alone, np.array(ch['ys'])) and np.array_equal(b.v, ch['x'].v), 'interference',
			lambda: "channel %d of %s (%s): the outputs or the state differ from the same run done alone\ninterleaved %r\nalone       %r\nstates %r and %r" % (c, r['name'], why, ch['ys'], alone.tolist(), ch['x'].v, b.v))
		Y, TT, X = G.sif_sim(r['Z'], U, ch['x0'])
		sy, sx = G.rounding(r['Z'], U, TT, X, ch['x0'])
		ctx.check(G.within(np.array(ch['ys']).T, Y, sy) and G.within(ch['x'].v, X[:, -1], sx[:, -1]), 'wrong-output',
			lambda: "channel %d of %s (%s): the outputs are not the ones of the realization\ngot      %r\nexpected %r\nstate %r instead of %r" % (c, r['name'], why, np.array(ch['ys']).T, Y, ch['x'].v, X[:, -1]))
		ch['x0'], ch['us'], ch['ys'] = ch['x'].v.copy(), [], []

	for op in sc['ops']:
		c = op['ch'] % len(chans)
		ch = chans[c]
		r = ch['r']
		rnd = G.rs('c04o', op['seed'])
		k = op['op']
		if k == 'step':
			for _ in range(op['n']):
				u = rnd.uniform(-1, 1, r['dims'][3]) * rnd.choice([0., 1., 1., 100.])
				ch['us'].append(u)
				ch['ys'].append(call(r, ch['x'], u))
				ctx.step()
		elif k == 'save':
			slots[op['slot']] = (r['name'], ch['x'].v.copy())
		elif k == 'restore':
			s = slots.get(op['slot'])
			if s is None or s[0] != r['name']:
				continue
			flush(c, 'restore')
			ch['x'].v[:] = s[1]
			ch['x0'] = s[1].copy()
			ctx.fault('crash and restart from a checkpoint')
		elif k == 'copy':
			o = op['to'] % len(chans)
			if o == c or chans[o]['r'] is not r:
				continue
			flush(o, 'copy')
			chans[o]['x'].v[:] = ch['x'].v
			chans[o]['x0'] = ch['x'].v.copy()
			ctx.fault('state copied to another channel')
		elif k == 'move':
			b = Buf(r['dims'][1], pad=1 + op['slot'])
			b.v[:] = ch['x'].v
			ch['x'].a[:] = -GUARD
			ch['x'] = b
			ctx.fault('state moved in memory')
		elif k == 'restart':
			flush(c, 'restart')
			ch['x'].v[:] = 0.
			ch['x0'] = np.zeros(r['dims'][1])
			ctx.fault('crash and restart from zero')
		elif k == 'set':
			flush(c, 'set')
			ch['x'].v[:] = rnd.uniform(-1, 1, r['dims'][1])
			ch['x0'] = ch['x'].v.copy()
		ctx.event(k, c, G.digest([ch['x'].v, ch['ys'][-1:]]))
		ctx.state(r['dims'], r['upper'], k, sum(1 for x in chans if x['r'] is r))
	for c in range(len(chans)):
		flush(c, 'end')
	after = [ctypes.string_at(a, b - a) for a, b in segs]
	ctx.check(before == after, 'hidden-state', "the compiled functions have written in the global memory of the library: the caller does not hold all the state")
	ctx.probe('in-place realizations', sum(r['upper'] for r in reals))
	ctx.probe('realizations with copies', sum(not r['upper'] for r in reals))
