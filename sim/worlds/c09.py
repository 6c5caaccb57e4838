# coding: utf-8
"""C09: a word-length problem export that returns has written the complete file.

Simulated: exports of several realizations to a scratch directory whose disk fails: full disk (limit on the file size, the
device that is always full), errors when the target or the template is opened, missing directories, stale files, exports
aborted at any line, failing gain computation.  Oracle: the file is parsed back and compared with an independent computation.
"""
import errno
import os
import re
import resource
import shutil
import sys
import tempfile

import numpy as np

from sim import gen as G, faults, wl
from sim.core import Violation
from sim.env import setup

PROP = 'C09'
RUNS = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 60
RULE = "One run: 1 to 3 realizations, 4 to 18 operations: export (bounds, error budget, maximal word-length, path and fault drawn by the seed), update of a coefficient matrix, other queries, change of directory."
TIME_UNIT = "no clock is involved; simulated steps are the exports"
STATE_MEASURE = "abstract states (dimensions, kind of path, previous content, fault, outcome)"
REAL = ["fixif.SIF.Realization_FxP, SIF", "fixif.SIF templates", "the file system (scratch directory)"]
STUBS = ["fixif.WCPG (reference summation)", "AMPL is absent: the exported file is parsed by the simulator"]
SHRINK_LISTS = ('ops', 'reals')


def gen(rng, index, tier):
	reals = []
	for _ in range(rng.randint(1, 3)):
		reals.append({'seed': rng.randrange(10 ** 6), 'l': rng.choice([0, 1, 2, 3]), 'n': rng.randint(1, 4), 'p': rng.choice([1, 1, 2, 3]), 'q': rng.choice([1, 1, 2, 3]), 'short': rng.random() < 0.3})
	ops = []
	for _ in range(rng.randint(4, 18)):
		k = rng.choices(['export', 'set', 'query', 'chdir', 'stale'], [10, 2, 1, 1, 2])[0]
		op = {'op': k, 'r': rng.randrange(3), 'seed': rng.randrange(10 ** 6), 'file': rng.randrange(3)}
		if k == 'export':
			op.update(path=rng.choice(['dir', 'dir', 'dot', 'default', 'sub']), wmax=rng.choice([64, 64, 32, 16, 12]), pow2=rng.random() < 0.3, fault=None)
			if rng.random() < 0.5:
				x = rng.choice(['fsize', 'fsize', 'fsize', 'devfull', 'open', 'template', 'nodir', 'isdir', 'line', 'wcpg'])
				op['fault'] = {'kind': x, 'errno': rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EROFS']), 'k': int(2 ** rng.uniform(0, 8)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt']),
					'bytes': rng.choice([0, 1, rng.randrange(300), rng.randrange(1500), rng.randrange(3000)]), 'partial': rng.random() < 0.5}
		elif k == 'set':
			op['name'] = rng.choice(['K', 'M', 'N', 'Q', 'R', 'S', 'L'])
		elif k == 'stale':
			op['size'] = rng.choice([0, 10, 20000])
		ops.append(op)
	return {'reals': reals, 'ops': ops}


def simplify(sc):
	for i, r in enumerate(sc['reals']):
		for k in ('l', 'n', 'p', 'q'):
			if r[k] > (k != 'l'):
				yield dict(sc, reals=sc['reals'][:i] + [dict(r, **{k: r[k] - 1})] + sc['reals'][i + 1:])
	for i, op in enumerate(sc['ops']):
		if op.get('fault'):
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])


# audit hook: errors when a file is opened for writing (or the template for reading)
OPEN = {'match': None, 'err': None, 'fired': 0}


def _hook(ev, args):
	if ev == 'open' and OPEN['match'] is not None:
		try:
			name = os.fspath(args[0])
		except TypeError:
			return
		if isinstance(name, bytes):
			name = name.decode(errors='replace')
		if OPEN['match'](name, args[1]):
			OPEN['match'] = None
			OPEN['fired'] += 1
			e = getattr(errno, OPEN['err'])
			raise OSError(e, os.strerror(e), name)


def parse_dat(text):
	"""{name: value}: int, {i: v} or {(i, j): v}"""
	text = re.sub(r'#[^\n]*', '', text)
	if not re.match(r'\s*data\s*;', text):
		raise ValueError("the file does not start by `data;`")
	text = text.split(';', 1)[1]
	res = {}
	parts = text.split(';')
	if parts[-1].strip() and parts[-1].strip() != 'end':
		raise ValueError("the last statement is not complete: %r" % parts[-1][-80:])
	for st in parts[:-1]:
		st = st.strip()
		if not st or st == 'end':
			continue
		m = re.match(r'^param\s+(\w+)\s*(?::\s*([\d\s]+?)\s*)?:=\s*(.*)$', st, re.S)
		if not m:
			raise ValueError("statement %r" % st[:80])
		name, cols, data = m.group(1), m.group(2), m.group(3).split()
		if name in res:
			raise ValueError("parameter %s is given twice" % name)
		if cols is None:
			if len(data) == 1:
				res[name] = float(data[0])
			else:
				if len(data) % 2:
					raise ValueError("parameter %s" % name)
				res[name] = {int(data[i]): float(data[i + 1]) for i in range(0, len(data), 2)}
				if len(res[name]) != len(data) // 2:
					raise ValueError("index given twice in %s" % name)
		else:
			cols = [int(c) for c in cols.split()]
			w = len(cols) + 1
			if len(data) % w:
				raise ValueError("parameter %s: %d values for %d columns" % (name, len(data), len(cols)))
			d = {}
			for i in range(0, len(data), w):
				for j, c in enumerate(cols):
					if (int(data[i]), c) in d:
						raise ValueError("index given twice in %s" % name)
					d[int(data[i]), c] = float(data[i + 1 + j])
			res[name] = d
	return res


def coefs(r):
	rn = G.rs('c09', r['seed'])
	Z = G.sif(rn, r['l'], r['n'], r['p'], r['q'])
	if r['short']:
		Z = [np.matrix(np.round(np.asarray(X) * 2) / 2 + 0.) if i not in (1, 5) else np.matrix(np.round(np.asarray(X) * 4) / 4 + 0.) for i, X in enumerate(Z)]
		for i in range(r['l']):
			Z[0][i, i] = 1.
	return Z


def analyse(Z, ub):
	"""(zeta_bar, WCPG of the errors), or None when a variable is always (almost) zero or when the system is not stable enough"""
	A = G.sif_ss(Z)[0]
	if max(abs(np.linalg.eigvals(A))) > 0.95:
		return None
	T = wl.horizon(Z)
	W, _ = wl.wcpg(wl.zeta_ss(Z), T)
	z = W @ np.asarray(ub).ravel()
	E, _ = wl.wcpg(wl.eps_ss(Z), T)
	if z.min() < 1e-9 or E.min() < 1e-9:
		# (a coefficient that is exactly or almost zero: the logarithms are not defined, which is an error)
		return None
	return z, E


def run(sc, ctx):
	L = setup()
	from sim import stubs
	from fixif.SIF import Realization
	sys.addaudithook(_hook)
	OPEN.update(match=None, fired=0)
	root = tempfile.mkdtemp(dir=os.path.join(L.root, 'tmp'))
	dirs = [os.path.join(root, 'a'), os.path.join(root, 'b')]
	for d in dirs:
		os.makedirs(os.path.join(d, 'sub'))
	os.chdir(dirs[0])
	cwd = 0
	reals = []
	for r in sc['reals']:
		Z = coefs(r)
		reals.append({'R': Realization(None, [X.copy() for X in Z], structureName='sim'), 'Z': Z, 'dims': (r['l'], r['n'], r['p'], r['q'])})
	soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)

	def tree():
		res = {}
		for dp, dn, fn in os.walk(root):
			for f in fn:
				p = os.path.join(dp, f)
				with open(p, 'rb') as h:
					res[os.path.relpath(p, root)] = h.read()
		return res

	def observe(R):
		return G.digest([list(R.JtoS), R.AZ, R.BZ, R.CZ, R.DZ, R.MSB, R.LSB, R.name])

	def verify(path, ent, ub, eps, wmax, ana, where):
		l, n, p, q = ent['dims']
		N = l + n + p
		try:
			with open(path, encoding='utf-8') as f:
				text = f.read()
		except OSError as e:
			raise Violation('incomplete-file', "%s: the export has returned but the file cannot be read: %r" % (where, e))
		try:
			d = parse_dat(text)
		except ValueError as e:
			raise Violation('incomplete-file', "%s: the export has returned but the file is not complete or not valid: %s\n%s" % (where, e, text))

		def vec(name, size):
			v = d[name]
			if isinstance(v, float):
				v = {1: v}
			ctx.check(set(v) == set(range(1, size + 1)), 'file-content', lambda: "%s: indices of %s: %r instead of 1..%d" % (where, name, sorted(v), size))
			return np.array([v[i + 1] for i in range(size)])
		missing = {'p', 'np', 'u', 'E', 'eps', 'wtilde'} - set(d)
		ctx.check(not missing, 'incomplete-file', lambda: "%s: parameters %r are missing\n%s" % (where, missing, text))
		ctx.check(d['p'] == p and d['np'] == N, 'file-content', lambda: "%s: p=%r, np=%r instead of %d and %d" % (where, d['p'], d['np'], p, N))
		u = vec('u', N)
		ctx.check(np.all(u == wmax), 'file-content', lambda: "%s: word-length limits %r instead of %r" % (where, u, wmax))
		e = vec('eps', p)
		ctx.check(np.allclose(e, eps.A1, rtol=1e-12, atol=0), 'file-content', lambda: "%s: error budget %r instead of %r" % (where, e, eps))
		z, E = ana
		msb = [wl.msb_range(x) for x in z]
		ctx.check(isinstance(d['E'], dict) and set(d['E']) == {(i + 1, j + 1) for i in range(p) for j in range(N)}, 'file-content', lambda: "%s: indices of E: %r" % (where, sorted(d['E'])))
		wt = vec('wtilde', N)
		for j in range(N):
			ms = []
			for m in msb[j]:
				if all(abs(d['E'][i + 1, j + 1] - E[i, j] * 2. ** m) <= 1e-8 * E[i, j] * 2. ** m for i in range(p)):
					ms.append(m)
			ctx.check(ms, 'file-content', lambda: "%s: column %d of E is %r instead of %r" % (where, j + 1, [d['E'][i + 1, j + 1] for i in range(p)], [E[i, j] * 2. ** min(msb[j]) for i in range(p)]))
			ok = False
			for m in ms:
				lo, hi = wl.wtilde_range(z[j], m)
				lo, hi = min(lo, wmax + 1), min(hi, wmax + 1)
				ok = ok or lo <= wt[j] <= hi or (wt[j] >= wmax + 1 and hi >= wmax + 1)
			ctx.check(ok, 'file-content', lambda: "%s: threshold %d is %r, not in [%r, %r] (bound %r)" % (where, j + 1, wt[j], lo, hi, z[j]))
		ctx.probe('files verified')

	for idx, op in enumerate(sc['ops']):
		ent = reals[op['r'] % len(reals)]
		R = ent['R']
		l, n, p, q = ent['dims']
		rnd = G.rs('c09o', op['seed'])
		where = "operation %d (%r)" % (idx, op)
		k = op['op']
		name = ['xmpl.dat', 'b.dat', 'long name.dat'][op['file']]
		if k == 'set':
			M = np.asarray(ent['Z']['JKLMNPQRS'.index(op['name'])])
			if M.size:
				New = np.matrix(M + rnd.uniform(-.1, .1, M.shape))
				Z2 = list(ent['Z'])
				Z2['JKLMNPQRS'.index(op['name'])] = New
				if max(abs(np.linalg.eigvals(G.sif_ss(Z2)[0]))) < 0.93:
					setattr(R, op['name'], New.copy())
					ent['Z'] = Z2
					ctx.event('set')
			continue
		if k == 'query':
			R.simulate(np.matrix(np.ones((q, 3))))
			R.Hzeta
			continue
		if k == 'chdir':
			cwd = 1 - cwd
			os.chdir(dirs[cwd])
			continue
		if k == 'stale':
			with open(os.path.join(dirs[cwd], name), 'w') as f:
				f.write("x" * op['size'])
			ctx.fault('stale file')
			continue
		# export
		ub = np.matrix(2. ** rnd.randint(-2, 4, (q, 1)) if op['pow2'] else rnd.uniform(0.3, 20, (q, 1)))
		eps = np.matrix(2. ** rnd.randint(-12, -1, (p, 1)) if op['pow2'] else 10. ** rnd.uniform(-5, -1, (p, 1)))
		ana = analyse(ent['Z'], ub)
		if ana is None:
			continue
		kw = {'AMPLfilename': name, 'wmax': op['wmax']}
		base = dirs[cwd]
		if op['path'] == 'dir':
			base = kw['AMPLpath'] = dirs[op['seed'] % 2]
		elif op['path'] == 'dot':
			kw['AMPLpath'] = '.'
		elif op['path'] == 'sub':
			kw['AMPLpath'] = 'sub'
			base = os.path.join(base, 'sub')
		elif op['path'] == 'default':
			del kw['AMPLfilename']
			name = 'xmpl.dat'
			if op['seed'] % 3 == 0:
				del kw['wmax']
		wmax = kw.get('wmax', 64)
		target = os.path.join(base, name)
		fault = op['fault']
		kind = fault['kind'] if fault else None
		if kind == 'devfull':
			kw.update(AMPLpath='/dev', AMPLfilename='full')
			target = '/dev/full'
		elif kind == 'nodir':
			kw.update(AMPLpath=os.path.join(root, 'missing'), AMPLfilename='f.dat')
			target = os.path.join(root, 'missing', 'f.dat')
		elif kind == 'isdir':
			kw.update(AMPLpath=dirs[0], AMPLfilename='sub')
			target = os.path.join(dirs[0], 'sub')
		obs = observe(R)
		before = tree()
		ub0, eps0 = ub.copy(), eps.copy()
		res = exc = None
		inj = None
		import contextlib
		cm = contextlib.nullcontext()
		fired0 = OPEN['fired']
		wf0 = stubs.FAULTS.fired.get('wcpg', 0)
		if kind == 'open':
			OPEN.update(match=lambda nm, mode: os.path.abspath(nm).startswith(root), err=fault['errno'])
		elif kind == 'template':
			OPEN.update(match=lambda nm, mode: '/templates/' in os.path.abspath(nm), err=fault['errno'])
		elif kind == 'line':
			inj = cm = faults.LineFault(fault['k'], fault['exc'])
		elif kind == 'wcpg':
			stubs.FAULTS.arm('wcpg', ValueError("WCPG: cannot compute WCPG"), after=fault['k'] % 3)
		elif kind == 'fsize':
			resource.setrlimit(resource.RLIMIT_FSIZE, (fault['bytes'], hard))
		try:
			with cm:
				try:
					res = R.optimalWL(ub, eps, **kw)
				except BaseException as e:
					if isinstance(e, Violation) or type(e).__name__ == 'Hang':
						raise
					exc = e
		finally:
			resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
			OPEN['match'] = None
			stubs.FAULTS.clear()
		fired = bool(OPEN['fired'] > fired0 or (inj is not None and inj.fired) or stubs.FAULTS.fired.get('wcpg', 0) > wf0 or kind in ('devfull', 'nodir', 'isdir')
			or (kind == 'fsize' and exc is not None))
		if fired:
			ctx.fault(kind if kind not in ('open', 'template') else kind + ' ' + fault['errno'])
		ctx.step()
		ctx.event('export', type(exc).__name__ if exc else res, kind)
		ctx.state(ent['dims'], op['path'], os.path.relpath(target, root) in before, kind, type(exc).__name__ if exc else 'ok')
		ctx.check(observe(R) == obs, 'realization-changed', lambda: "%s: the realization has been changed" % where)
		ctx.check(np.array_equal(ub, ub0) and np.array_equal(eps, eps0), 'argument-modified', lambda: "%s: the arguments have been modified" % where)
		after = tree()
		rel = os.path.relpath(target, root)
		others = {f for f in set(before) | set(after) if before.get(f) != after.get(f)} - {rel}
		others = {f for f in others if f not in before or f not in after or before[f] != after[f]}
		if exc is None:
			extra = others
		else:
			# (a temporary file next to the target is accepted when it is aborted)
			extra = {f for f in others if f in before}
		ctx.check(not extra, 'other-file', lambda: "%s: other files have been changed: %r" % (where, sorted(extra)))
		if exc is None:
			ctx.check(kind not in ('devfull', 'nodir', 'isdir'), 'error-not-reported', lambda: "%s: it returns %r although %s cannot be written" % (where, res, target))
			verify(target, ent, ub, eps, wmax, ana, where)
			ctx.check(isinstance(res, list) and len(res) == l + n + p, 'result', lambda: "%s: returns %r" % (where, res))
		else:
			if not fired:
				raise Violation('unexpected-error', "%s: raises %r" % (where, exc))
			if kind in ('open', 'template', 'devfull', 'nodir', 'isdir', 'fsize') and not isinstance(exc, OSError):
				raise Violation('wrong-error', "%s: raises %r instead of an OSError" % (where, exc))
			ctx.probe('failed exports')
	os.chdir('/')
	shutil.rmtree(root, ignore_errors=True)
