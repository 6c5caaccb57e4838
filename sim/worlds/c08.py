# coding: utf-8
"""C08: cached system measures always describe the current system.

Simulated: histories of queries, changes of basis and derivations on a pool of systems, while the numerical solvers (scipy,
slycot present or absent, matrix inversion, worst-case peak gain) fail at the points chosen by the seed, or the call is aborted at
any line.  Oracle: independent computation from the current matrices, and from the matrices followed by the simulator.
"""
import contextlib

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C08'
RUNS = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 200, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 systems (state-spaces SISO or MIMO, transfer functions), 5 to 30 operations drawn by the seed (queries of each measure by each method, changes of basis, derived systems, default method, slycot installed or removed), about a third of them with a fault."
TIME_UNIT = "no clock is involved; simulated steps are the operations"
STATE_MEASURE = "abstract states (dimensions, measures already asked, operation, method, fault, outcome)"
REAL = ["fixif.LTI.dSS, dTF", "numpy.linalg", "scipy.linalg"]
STUBS = ["fixif.WCPG (reference summation)", "slycot (simulated solver)"]
SHRINK_LISTS = ('ops', 'systems')

QUERIES = ['Wo', 'Wc', 'H2norm', 'DC', 'WCPG', 'calcWo', 'calcWc', 'WCPGinfo']


def gen(rng, index, tier):
	systems = []
	for _ in range(rng.randint(1, 3)):
		t = rng.choice(['ss', 'ss', 'ss', 'tf'])
		systems.append({'type': t, 'seed': rng.randrange(10 ** 6), 'n': rng.choice([1, 1, 2, 3, 4, 6, 11]), 'p': rng.choice([1, 1, 2, 3]), 'q': rng.choice([1, 1, 2, 3]), 'rho': rng.choice([0.3, 0.8, 0.95]), 'gain': rng.choice([0, 0, 0, -24, -40, 16])})
	ops = []
	for _ in range(rng.randint(5, 30)):
		k = rng.choices(['query', 'sim', 'derive', 'method', 'slycot', 'check'], [12, 5, 2, 1, 1, 1])[0]
		op = {'op': k, 's': rng.randrange(6), 'seed': rng.randrange(10 ** 6)}
		if k == 'query':
			op.update(what=rng.choice(QUERIES), method=rng.choice([None, 'linalg', 'slycot', 'slycot', 'other'] if rng.random() < 0.1 else [None, 'linalg', 'slycot']))
		elif k == 'sim':
			op['T'] = rng.choice(['random', 'random', 'near', 'near', 'rotation', 'diag', 'list', 'perm', 'neg', 'singular', 'shape'])
		elif k == 'derive':
			op['how'] = rng.choice(['slice', 'mul', 'same', 'mp', 'tf', 'neg'])
		elif k == 'method':
			op['method'] = rng.choice(['linalg', 'slycot'])
		elif k == 'slycot':
			op['on'] = rng.random() < 0.6
		if k in ('query', 'sim') and rng.random() < 0.35:
			op['fault'] = {'kind': rng.choice(['lyap', 'slycot', 'inv', 'wcpg', 'line', 'line', 'both', 'both']), 'k': int(2 ** rng.uniform(0, 4.5)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
			if op.get('what') == 'H2norm' and rng.random() < 0.7:
				op['fault'].update(kind=rng.choice(['lyap', 'slycot', 'both']), k=0)
		ops.append(op)
	return {'systems': systems, 'ops': ops, 'slycot': rng.random() < 0.5, 'method': rng.choice(['slycot', 'linalg'])}


def simplify(sc):
	for i, r in enumerate(sc['systems']):
		for k in ('n', 'p', 'q'):
			if r[k] > 1:
				yield dict(sc, systems=sc['systems'][:i] + [dict(r, **{k: r[k] - 1})] + sc['systems'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [{k: v for k, v in op.items() if k != 'fault'}] + sc['ops'][i + 1:])


def lyap(A, Q):
	"""sum A^k Q A^kT (doubling)"""
	A, X = np.asarray(A, np.longdouble), np.asarray(Q, np.longdouble)
	for _ in range(60):
		X = X + A @ X @ A.T
		A = A @ A
		if not A.size or np.abs(A).max() < 1e-40:
			break
	return X


def measures(M):
	A, B, C, D = [np.asarray(X, np.longdouble) for X in M]
	n = A.shape[0]
	Wc, Wo = lyap(A, B @ B.T), lyap(A.T, C.T @ C)
	H2 = np.sqrt(max(np.trace(C @ Wc @ C.T + D @ D.T), np.longdouble(0)))
	DC = C @ _solve(np.eye(n) - A, B) + D
	W = np.abs(D)
	X = B
	for _ in range(3000):
		Y = np.abs(C @ X)
		W = W + Y
		X = A @ X
		if np.abs(X).max(initial=0) <= 1e-25 * np.abs(B).max(initial=0):
			break
	return {'Wo': Wo, 'Wc': Wc, 'H2norm': H2, 'DC': DC, 'WCPG': W}


def _solve(A, B):
	return np.linalg.solve(np.asarray(A, float), np.asarray(B, float))


class Sys:
	def __init__(self, obj, mats, tf=None):
		self.obj = obj
		self.mats = [np.asarray(X, np.longdouble) for X in mats] if mats is not None else None
		self.tf = tf
		self.asked = set()
		self.failed = set()
		self.cond = 1.
		self.gain = 0


def run(sc, ctx):
	L = setup()
	from sim import stubs, engines
	from fixif.LTI import dSS, dTF
	from numpy.linalg import LinAlgError
	import scipy.linalg
	import scipy.signal
	mod = __import__('sys').modules['fixif.LTI.dSS']
	engines.SLYCOT.plan[:] = []

	def slycot(on):
		if on:
			engines.slycot_in(L)
		else:
			engines.slycot_out(L)
	slycot(sc['slycot'])
	if hasattr(dSS, '_W_method'):
		dSS._W_method = sc['method']

	pool = []
	for s in sc['systems']:
		r = G.rs('c08', s['seed'])
		if s['type'] == 'ss':
			M = list(G.ss(r, s['n'], s['p'], s['q'], s['rho']))
			if r.uniform() < 0.2:
				M[3] = M[3] * 0.
			elif r.uniform() < 0.3:
				# sparse
				M = [M[0]] + [np.multiply(X, r.uniform(size=X.shape) < .5) for X in M[1:]]
			if s.get('gain'):
				M = [M[0], M[1], M[2] * 2. ** s['gain'], M[3] * 2. ** s['gain']] if r.randint(2) else [M[0], M[1] * 2. ** s['gain'], M[2], M[3] * 2. ** s['gain']]
			if not any(np.any(C @ np.linalg.matrix_power(M[0], k) @ M[1]) for k in range(2) for C in [M[2]]) and not np.any(M[3]):
				M[3] = M[3] + 2. ** s.get('gain', 0)        # (not null)
			pool.append(Sys(dSS(*[X.copy() for X in M]), M))
			pool[-1].gain = s.get('gain', 0)
		else:
			num, den = G.filter_poles_tf(r, max(1, min(s['n'], 5)), 0.85)
			if r.uniform() < .25:
				# no feedback (FIR), or a single coefficient of feedback
				den = [den[0]] + [0.] * (len(den) - 1)
				num = (r.uniform(-1, 1, len(num))).tolist()
				if r.uniform() < .4:
					den[-1] = den[0] * r.uniform(-.7, .7)
			pool.append(Sys(dTF(num, den), None, (num, den)))

	def snapshot(s):
		o = s.obj
		return G.digest([o.A, o.B, o.C, o.D] if s.mats is not None else [o.num, o.den])

	def tfwcpg(tf):
		h = G.tf_sim(*tf, np.r_[1., np.zeros(1500)])
		return np.abs(h).sum()

	def judge(s, what, val, where):
		"""is it the measure of the current matrices ?"""
		ctx.event(what)
		if s.mats is None:
			ref = float(tfwcpg(s.tf))
			ctx.check(abs(float(val) - ref) <= 1e-8 * ref, 'wrong-measure', lambda: "%s: worst-case peak gain is %r instead of %r" % (where, val, ref))
			return
		o = s.obj
		cur = [o.A, o.B, o.C, o.D]
		for X, Y in zip(cur, s.mats):
			ctx.check(G.close(X, Y, 1e-12 * s.cond), 'wrong-matrices', lambda: "%s: the matrices of the system are not those obtained by the changes of basis\n%r\n%r" % (where, X, Y))
		ref = measures(cur)[what]
		A = np.asarray(o.A, float)
		tol = 1e-7 + 1e-13 * np.linalg.cond(np.eye(A.size) - np.kron(A, A))
		if tol > 1e-5:
			ctx.probe('ill-conditioned systems')
		if tol > 2e-4:
			return              # (no solver gives a correct digit: nothing to compare to)
		scale = float(np.abs(ref).max())
		if what == 'WCPG':
			# (rounding errors of the products in the stub)
			scale = max(scale, 1e-7 * float(np.abs(s.mats[1]).max(initial=0) * np.abs(s.mats[2]).max(initial=0)))
		if what == 'DC':
			scale = max(scale, float((np.abs(s.mats[2]) @ np.abs(_solve(np.eye(A.shape[0]) - A, np.eye(A.shape[0]))) @ np.abs(s.mats[1]) + np.abs(s.mats[3])).max()))
		if what == 'H2norm':
			# (the accuracy is that of C*Wc*C' or of B'*Wo*B)
			B, C, D = (np.asarray(X, float) for X in (o.B, o.C, o.D))
			X = measures(cur)
			s2 = float((D ** 2).sum()) + max(float((C ** 2).sum()) * float(np.abs(X['Wc']).max(initial=0)), float((B ** 2).sum()) * float(np.abs(X['Wo']).max(initial=0)))
			v = np.asarray(val, float)
			ok = v.shape == () and (abs(v ** 2 - ref ** 2) <= tol * s2 if v == v else ref ** 2 <= tol * s2)
		else:
			ok = np.shape(np.asarray(val)) == np.shape(ref) and G.close(val, ref, tol, scale)
		ctx.check(ok, 'wrong-measure', lambda: "%s: %s is\n%r\ninstead of\n%r" % (where, what, val, ref))
		s.asked.add(what)

	def unsolvable(s, e):
		"""the solver of scipy itself refuses this system (numerically singular)"""
		if s.mats is None or not isinstance(e, LinAlgError):
			return False
		A, B, C = [np.array(X, float) for X in (s.obj.A, s.obj.B, s.obj.C)]
		for a, x in ((A, B), (A.T, C.T)):
			try:
				engines.ORIG['lyap'](a, x @ x.T)
			except LinAlgError:
				ctx.probe('systems refused by the solver itself')
				return True
		return False

	def query(s, what, method):
		o = s.obj
		if s.mats is None:
			return 'WCPG', o.WCPG()
		if what == 'Wo':
			return 'Wo', o.Wo
		if what == 'Wc':
			return 'Wc', o.Wc
		if what == 'calcWo':
			o.calc_Wo(method)
			return 'Wo', o.Wo
		if what == 'calcWc':
			o.calc_Wc(method) if method else o.calc_Wc()
			return 'Wc', o.Wc
		if what == 'H2norm':
			return 'H2norm', o.H2norm()
		if what == 'DC':
			return 'DC', o.calc_DC_gain()
		if what == 'WCPG':
			return 'WCPG', o.WCPG()
		if what == 'WCPGinfo':
			info = {}
			v = o.WCPG(info)
			ctx.check('N' in info, 'no-info', "WCPG(output_info): the dictionary has not been filled")
			return 'WCPG', v

	@contextlib.contextmanager
	def inject(f, fired):
		if f is None:
			yield
			return
		k = f['kind']
		kk = f['k'] % 2
		st = contextlib.ExitStack()
		got = []
		with st:
			if k in ('lyap', 'both'):
				got.append(st.enter_context(faults.CallFault([scipy.linalg.solve_discrete_lyapunov], kk, LinAlgError("injected: singular matrix"))))
			if k in ('slycot', 'both'):
				engines.SLYCOT.plan[:] = ['ok'] * kk + ['ValueError'] * (2 if k == 'both' and f['k'] % 3 == 0 else 1)
				engines.SLYCOT.on_call = lambda *a: fired.append('slycot')
			if k == 'inv':
				got.append(st.enter_context(faults.CallFault([np.linalg.inv], 0, LinAlgError("Singular matrix"))))
			if k == 'wcpg':
				stubs.FAULTS.arm('wcpg', ValueError("WCPG: cannot compute WCPG"), 0)
				w0 = stubs.FAULTS.fired.get('wcpg', 0)
			if k == 'line':
				got.append(st.enter_context(faults.LineFault(f['k'], f['exc'])))
			try:
				yield
			finally:
				if any(g.fired for g in got):
					fired.append(k)
				if k == 'wcpg' and stubs.FAULTS.fired.get('wcpg', 0) > w0:
					fired.append(k)
				stubs.FAULTS.clear()
				engines.SLYCOT.plan[:] = []

	for idx, op in enumerate(sc['ops']):
		s = pool[op['s'] % len(pool)]
		r = G.rs('c08o', op['seed'])
		where = "operation %d (%r)" % (idx, op)
		k = op['op']
		ctx.step()
		if k == 'method':
			if hasattr(dSS, '_W_method'):
				dSS._W_method = op['method']
			continue
		if k == 'slycot':
			slycot(op['on'])
			ctx.fault('slycot installed' if op['on'] else 'slycot removed')
			continue
		if k == 'derive':
			if len(pool) > 8:
				continue
			o = s.obj
			how = op['how']
			if s.mats is None:
				if how == 'neg':
					pool.append(Sys(-o, None, ([-x for x in s.tf[0]], s.tf[1])))
				elif how != 'same':
					N = o.to_dSS()
					pool.append(Sys(N, [N.A, N.B, N.C, N.D]))
				continue
			if how == 'slice':
				i, j = int(r.randint(0, o.p)), int(r.randint(0, o.q))
				N = o[i:i + 1, j:j + 1]
				M = [s.mats[0], s.mats[1][:, j:j + 1], s.mats[2][i:i + 1, :], s.mats[3][i:i + 1, j:j + 1]]
			elif how == 'mul' and o.p == o.q and o.n <= 6 and not s.gain:       # (with a gain, the states of the product have very different scales)
				N = o * o
				M = [N.A, N.B, N.C, N.D]
			elif how == 'same':
				N = dSS(o.A, o.B, o.C, o.D)          # the matrices are shared
				M = s.mats
			elif how == 'mp':
				N = o.to_dSSmp().to_dSS()
				M = s.mats
			elif how == 'tf' and o.p == 1 and o.q == 1 and o.n <= 4 and s.cond < 100:
				N = o.to_dTF()
				pool.append(Sys(N, None, (np.asarray(N.num).ravel(), np.asarray(N.den).ravel())))
				continue
			else:
				continue
			pool.append(Sys(N, M))
			pool[-1].cond, pool[-1].gain = s.cond, s.gain
			ctx.event('derive', how)
			continue
		if k == 'check':
			for i, x in enumerate(pool):
				for w in (['WCPG'] if x.mats is None else ['Wo', 'Wc', 'H2norm', 'DC', 'WCPG']):
					try:
						_, v = query(x, w, None)
					except Exception as e:
						if unsolvable(x, e):
							continue
						raise Violation('unexpected-error', "%s: %s of system %d raises %r" % (where, w, i, e))
					judge(x, w, v, "%s, system %d" % (where, i))
			continue
		before = snapshot(s)
		fired = []
		exc = val = None
		what = None
		if k == 'sim':
			if s.mats is None or s.cond > 1e4:
				continue
			n = s.obj.n
			T = np.eye(n)
			t = op['T']
			if t in ('random', 'list', 'neg'):
				while True:
					T = r.uniform(-1, 1, (n, n)) + np.eye(n)
					if np.linalg.cond(T) < 30:
						break
				if t == 'neg':
					T = -T
			elif t == 'near':
				# almost the identity
				T = np.eye(n) + np.diag(r.uniform(-1, 1, n) * 2. ** -r.randint(18, 30)) + r.uniform(-1, 1, (n, n)) * 2. ** -r.choice([28, 34, 60])
			elif t == 'rotation':
				T = np.linalg.qr(r.uniform(-1, 1, (n, n)))[0]
			elif t == 'diag':
				T = np.diag(2. ** r.randint(-3, 4, n))
			elif t == 'perm':
				T = np.eye(n)[r.permutation(n)]
			elif t == 'singular':
				T = np.zeros((n, n))
				T[:, :n - 1] = np.eye(n)[:, :n - 1]
			elif t == 'shape':
				T = np.eye(n + 1)
			arg = T.tolist() if t == 'list' else (np.matrix(T) if r.uniform() < 0.5 else T.copy())
			a0 = G.digest(np.asarray(arg))
			try:
				with inject(op.get('fault'), fired):
					s.obj.similarity(arg)
			except (Exception, KeyboardInterrupt) as e:
				exc = e
			ctx.check(G.digest(np.asarray(arg)) == a0, 'argument-modified', lambda: "%s: T has been modified" % where)
			for f in fired:
				ctx.fault(f)
			ctx.event('similarity', t, type(exc).__name__, fired)
			ctx.state(k, t, s.obj.size, sorted(s.asked), fired, type(exc).__name__)
			if exc is not None:
				ctx.check(snapshot(s) == before, 'partial-change', lambda: "%s: the change of basis fails (%r) but the system has changed" % (where, exc))
				if not fired:
					if t not in ('singular', 'shape'):
						raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
					ctx.check(isinstance(exc, (ValueError, LinAlgError)), 'wrong-error', lambda: "%s: raises %r" % (where, exc))
				elif set(fired) - {'line'}:
					ctx.check(isinstance(exc, (ValueError, LinAlgError)), 'wrong-error', lambda: "%s: raises %r" % (where, exc))
			else:
				ctx.check(t not in ('singular', 'shape'), 'no-error', lambda: "%s: the change of basis with %r succeeds" % (where, T))
				Tl = np.asarray(T, np.longdouble)
				Ti = np.asarray(np.linalg.inv(T), np.longdouble)
				for _ in range(2):
					Ti = Ti @ (2 * np.eye(n) - Tl @ Ti)
				A, B, C, D = s.mats
				s.mats = [Ti @ A @ Tl, Ti @ B, C @ Tl, D]
				s.cond *= np.linalg.cond(T)
				for X, Y in zip([s.obj.A, s.obj.B, s.obj.C, s.obj.D], s.mats):
					ctx.check(G.close(X, Y, 1e-12 * s.cond), 'wrong-matrices', lambda: "%s: the change of basis gives\n%r\ninstead of\n%r" % (where, X, Y))
			continue
		# query
		try:
			with inject(op.get('fault'), fired):
				what, val = query(s, op['what'], op.get('method'))
		except Violation:
			raise
		except (Exception, KeyboardInterrupt) as e:
			exc = e
		for f in fired:
			ctx.fault(f)
		ctx.event('query', op['what'], op.get('method'), type(exc).__name__, fired)
		ctx.state(k, op['what'], op.get('method'), s.obj.size if s.mats is not None else 'tf', sorted(s.asked), fired, type(exc).__name__, hasattr(mod, 'sb03md'))
		ctx.check(snapshot(s) == before, 'system-changed', lambda: "%s: the query has changed the system" % where)
		if exc is not None:
			if not fired:
				if op.get('method') == 'other' and op['what'].startswith('calc') and isinstance(exc, ValueError):
					continue
				if unsolvable(s, exc):
					continue
				raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
			if fired != ['line']:
				ctx.check(isinstance(exc, (ValueError, LinAlgError)), 'wrong-error', lambda: "%s: the solver fails, and it raises %r" % (where, exc))
			# the same query succeeds once the solver works again
			try:
				what, val = query(s, op['what'], op.get('method') if op.get('method') != 'other' else None)
			except (Exception, KeyboardInterrupt) as e:
				if unsolvable(s, e):
					continue
				raise Violation('failure-remembered', "%s: it has failed (%r, injected), and the same query without fault raises %r" % (where, exc, e))
			ctx.probe('queries repeated after a failure')
			judge(s, what, val, where + ", repeated after a failure (%r)" % exc)
		else:
			if fired:
				ctx.probe('fallback to another method')
			judge(s, what, val, where)
