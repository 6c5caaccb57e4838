# coding: utf-8
"""C10: external engines: loaded before use, once, and a failed start is retried.

Simulated: Sollya and MATLAB (installed, absent, installed later), which fail when the scenario says so (loading of the script,
checks, start of the engine), the current directory of the process, answers of the checker that never converge, calls aborted at
any line.  Oracle: the log of the calls received by the simulated engines.
"""
import contextlib
import os
import shutil
import tempfile

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.env import setup

PROP = 'C10'
RUNS = {'quick': 2000, 'thorough': 40000}
BUDGET = {'quick': 200, 'thorough': 1500}
CPU_LIMIT = 60
MAX_CHECKS = 200
RULE = "One run: 1 to 3 specifications and filters, 4 to 20 operations drawn by the seed (check, constraint, margin search, design by MATLAB or scipy, LWDF, connection to MATLAB, change of directory, engine installed or removed), about half of them with a fault plan for the engines."
TIME_UNIT = "calls received by the simulated engines"
STATE_MEASURE = "abstract states (operation, engine present, script loaded, engine started, fault, outcome)"
REAL = ["fixif.LTI.Gabarit, Band, dTF.to_Sollya", "fixif.func_aux.MatlabHelper", "fixif.Structures.LWDF", "the file system (current directory, gabarit.sol)"]
STUBS = ["sollya (simulated engine)", "matlab.engine (simulated engine)"]
SHRINK_LISTS = ('ops',)


def gen(rng, index, tier):
	ops = []
	for _ in range(rng.randint(4, 20)):
		k = rng.choices(['check', 'constraint', 'margin', 'ready', 'matlab', 'design', 'lwdf', 'chdir', 'sollya', 'matlabpkg', 'helper', 'wcpg'], [6, 2, 3, 2, 4, 3, 2, 3, 1, 1, 3, 3])[0]
		op = {'op': k, 'g': rng.randrange(3), 'seed': rng.randrange(10 ** 6)}
		if k in ('check', 'constraint', 'margin', 'ready') and rng.random() < 0.5:
			op['plan'] = {}
			for w in rng.sample(['suppressmessage', 'execute', 'check', 'present'], rng.randint(1, 2)) if rng.random() < 0.5 else ['execute']:
				op['plan'][w] = ['ok'] * rng.choice([0, 0, 0, 1, 3]) + [rng.choice(['error', 'error', 'MemoryError', 'KeyboardInterrupt', 'OSError', 'NameError'])] * rng.choice([1, 1, 2])
		if k == 'wcpg' and rng.random() < 0.4:
			op['plan'] = {rng.choice(['execute', 'execute', 'wcpg']): [rng.choice(['error', 'MemoryError', 'KeyboardInterrupt', 'OSError'])]}
		if k == 'helper':
			op['uses'] = [[rng.randrange(4), rng.choice(['engine', 'call', 'call', 'error', 'double'])] for _ in range(rng.randint(1, 4))]
		if k == 'margin':
			op['answers'] = rng.choice(['ok', 'never', 'never', 'nan', 'inf', 'zero', 'empty', 'late', 'grow', 'shrink', 'osc', 'long-shrink', 'long-shrink', 'long-grow', 'random'])
		if k in ('matlab', 'design', 'lwdf'):
			op['mplan'] = ['ok'] * rng.choice([0, 0, 1]) + ([rng.choice(['EngineError', 'EngineError', 'MemoryError', 'KeyboardInterrupt', 'ImportError', 'OSError'])] if rng.random() < 0.5 else [])
			if rng.random() < 0.15:
				op['mcall'] = ['ok'] * rng.choice([0, 0, 1, 2]) + ['error']
			op['raise'] = rng.random() < 0.5
			op['method'] = rng.choice(['matlab', 'matlab', 'scipy'])
		if k in ('sollya', 'matlabpkg'):
			op['on'] = rng.random() < 0.6
		if k == 'chdir':
			op['where'] = rng.choice(['tmp', 'tmp2', 'decoy', 'root', 'removed', 'pkg'])
		if k not in ('chdir', 'sollya', 'matlabpkg') and 'plan' not in op and rng.random() < 0.15:
			op['line'] = [int(2 ** rng.uniform(0, 7)) - 1, rng.choice(['MemoryError', 'KeyboardInterrupt'])]
		ops.append(op)
	return {'ops': ops, 'sollya': rng.random() < 0.85, 'matlab': rng.random() < 0.8, 'cwd': rng.choice(['tmp', 'tmp2', 'decoy', 'root', 'pkg']), 'seed': rng.randrange(10 ** 6)}


def simplify(sc):
	for i, op in enumerate(sc['ops']):
		for k in ('plan', 'mplan', 'mcall', 'line'):
			if op.get(k):
				yield dict(sc, ops=sc['ops'][:i] + [{a: b for a, b in op.items() if a != k}] + sc['ops'][i + 1:])


def answers(kind, rn):
	"""the answers of the checker"""
	def bad(h0, h1, b0=0.5, b1=1.):
		return {'okay': False, 'issues': [(h0, h1, b0, b1)]}
	never = bad(1.2, 1.3)
	if kind == 'ok':
		return [], {'okay': True, 'issues': []}
	if kind == 'never':
		return [], never
	if kind == 'nan':
		return [], bad(float('nan'), float('nan'))
	if kind == 'inf':
		return [bad(1.1, 1.2)] * int(rn.randint(0, 3)), bad(float('inf'), float('inf'))
	if kind == 'zero':
		return [], bad(1., 1., 1., 1.)
	if kind == 'empty':
		return [], {'okay': False, 'issues': []}
	if kind == 'late':
		return [bad(1. + 1. / (k + 1), 1. + 2. / (k + 1)) for k in range(int(rn.randint(1, 24)))], {'okay': True, 'issues': []}
	if kind == 'grow':
		return [bad(1. + 2. ** k, 1. + 2. ** (k + 1)) for k in range(60)], never
	# long sequences (much longer than any reasonable bound)
	if kind == 'long-shrink':
		f = float(rn.choice([0.5, 0.9, 0.99]))
		return [bad(f ** (k + 1), f ** k, -1., 0.) for k in range(2 * MAX_CHECKS)], never
	if kind == 'long-grow':
		f = float(rn.choice([1.001, 1.1, 2.]))
		return [bad(f ** k, f ** (k + 1), -1., 0.) for k in range(2 * MAX_CHECKS)], never
	if kind == 'random':
		return [bad(*(sorted(rn.uniform(-1, 3, 2).tolist()) + sorted(rn.uniform(-1, 2, 2).tolist()))) for k in range(2 * MAX_CHECKS)], never
	if kind == 'shrink':
		return [bad(1. + 2. ** -k, 1. + 2. ** -(k - 1)) for k in range(60)], bad(1. + 1e-16, 1. + 1e-16)
	return [bad(1.2, 1.3) if k % 2 else bad(0.1, 0.2) for k in range(60)], bad(0.1, 0.2)


class LimitReached(BaseException):
	pass


def run(sc, ctx):
	L = setup()
	from sim import engines
	from fixif.LTI import Gabarit, dTF
	from fixif.LTI.Gabarit import random_Gabarit
	from fixif.func_aux import MatlabHelper, isMatlabInstalled
	SO, MA = engines.SOLLYA, engines.MATLAB
	root = tempfile.mkdtemp(dir=os.path.join(L.root, 'tmp'))
	for d in ('a', 'b', 'decoy'):
		os.mkdir(os.path.join(root, d))
	for name in ('gabarit.sol', 'wcpg.sol'):
		with open(os.path.join(root, 'decoy', name), 'w') as f:
			f.write("print(\"decoy\");\n")

	def chdir(where):
		if where == 'removed':
			d = tempfile.mkdtemp(dir=root)
			os.chdir(d)
			os.rmdir(d)
		else:
			os.chdir({'tmp': os.path.join(root, 'a'), 'tmp2': os.path.join(root, 'b'), 'decoy': os.path.join(root, 'decoy'), 'root': '/', 'pkg': os.path.dirname(L.fixif.__file__)}[where])
		ctx.fault('directory ' + where)
	rn = G.rs('c10', sc['seed'])
	filters = []
	for i in range(3):
		num, den = G.filter_poles_tf(rn, int(rn.randint(1, 4)) * 2 - 1, 0.8)
		if i == 0:
			g = random_Gabarit(seed=int(rn.randint(0, 10 ** 6)))
		elif i == 1:
			g = Gabarit(48000, [(0, 9600), (12000, None)], [(-0.5, 0.5), -20])
		else:
			g = Gabarit(2000, [(0, 200), (400, 600), (800, None)], [-30, (0.1, -0.1), -30])
		filters.append((g, num, den))
	tfs = [dTF(n, d) for _, n, d in filters]
	state = {'sollya': True, 'matlab': False}
	back = [None]

	def sollya(on):
		if on and not state['sollya']:
			back[0]()
		elif not on and state['sollya']:
			back[0] = engines.sollya_absent()
		state['sollya'] = on
	sollya(sc['sollya'])
	engines.matlab_present(sc['matlab'])
	state['matlab'] = sc['matlab']
	chdir(sc['cwd'])
	known_loaded = False
	helpers = []
	from fixif.LTI import dSS, dSSmp
	systems = [dSSmp(*[G.mat(rn, x, y, 'dense') for x, y in ((n, n), (n, q), (p, n), (p, q))]) for n, p, q in ((1, 1, 1), (2, 1, 2), (3, 2, 1))]

	for idx, op in enumerate(sc['ops']):
		k = op['op']
		where = "operation %d (%r)" % (idx, op)
		if k == 'chdir':
			chdir(op['where'])
			continue
		if k == 'sollya':
			sollya(op['on'])
			ctx.fault('Sollya ' + ('installed' if op['on'] else 'removed'))
			continue
		if k == 'matlabpkg':
			engines.matlab_present(op['on'])
			state['matlab'] = op['on']
			ctx.fault('MATLAB ' + ('installed' if op['on'] else 'removed'))
			continue
		r = G.rs('c10o', op['seed'])
		g, num, den = filters[op['g']]
		tf = tfs[op['g']]
		if r.uniform() < 0.3:
			tf = dTF(num, den)
		fired = []
		SO.log[:] = []
		SO.plan = {w: list(v) for w, v in op.get('plan', {}).items()}
		SO.answers, SO.default = [], {'okay': bool(r.randint(0, 2)), 'issues': [(1.2, 1.3, 0.5, 1.)]}
		SO.on_call = lambda w, o: fired.append('%s: %s' % (w, o))
		MA.plan, MA.call_plan = list(op.get('mplan', [])), list(op.get('mcall', []))
		MA.on_call = SO.on_call
		MA.calls[:] = []
		nst = len(MA.starts)
		if k == 'margin':
			SO.answers, SO.default = answers(op['answers'], r)
		orig_outcome = SO.outcome

		def limited(w, orig=orig_outcome):
			if sum(1 for e in SO.log if e[0] == 'check') > MAX_CHECKS:
				raise LimitReached()
			return orig(w)
		SO.outcome = limited
		res = exc = None
		lf = faults.LineFault(*op['line']) if op.get('line') else contextlib.nullcontext()
		okay = SO.default['okay']
		try:
			with lf:
				try:
					if k == 'check':
						res = g.check_dTF(tf) if r.uniform() < 0.5 else g.check_dTF(tf, margin=float(r.uniform(0, .01)), prec=100)
					elif k == 'constraint':
						res = [b.sollyaConstraint(0) for b in g.bands]
					elif k == 'margin':
						res = g.findMinimumMargin(tf) if r.uniform() < 0.5 else g.findMinimumMargin(tf, initMargin=float(r.uniform(0, .1)))
					elif k == 'ready':
						res = Gabarit.readyToRunWithSollya()
					elif k == 'matlab':
						h = MatlabHelper(raiseError=op['raise'])
						helpers.append(h)
						res = h.addpath('x') if state['matlab'] else None
					elif k == 'helper':
						res = []
						for i, what in op['uses'] if helpers else []:
							h = helpers[i % len(helpers)]
							res.append((what, h.engine if what == 'engine' else h.addpath('x') if what == 'call' else h.MatlabExecutionError() if what == 'error' else h.double()))
					elif k == 'wcpg':
						S = systems[op['g']]
						res = S.WCPGmp() if r.uniform() < 0.5 else S.WCPGmp(2. ** -20)
					elif k == 'design':
						res = filters[1][0].to_dTF(ftype='butter', method=op['method'])
					elif k == 'lwdf':
						from fixif.Structures.LWDF.LWDF import makeLWDF
						from fixif.LTI import Filter
						res = makeLWDF(Filter(num=num, den=den))
				except (Exception, KeyboardInterrupt, LimitReached) as e:
					exc = e
		finally:
			del SO.outcome
		if getattr(lf, 'fired', None):
			fired.append('line')
		log = list(SO.log)
		ctx.step(len(log) + len(MA.calls) + len(MA.starts) - nst)
		for f in fired:
			ctx.fault(f)
		ctx.event(k, [e[0] for e in log], len(MA.calls), MA.starts[nst:], type(exc).__name__, fired)
		ctx.state(k, state['sollya'], state['matlab'], known_loaded, len(MA.starts), sorted(set(fired)), type(exc).__name__)

		# --- Sollya
		ctx.check(not isinstance(exc, LimitReached), 'unbounded-search', lambda: "%s: the search for the margin has called the engine more than %d times" % (where, MAX_CHECKS))
		use = [i for i, e in enumerate(log) if e[0] in ('use-before-load',)]
		ctx.check(not use, 'use-before-load', lambda: "%s: Sollya is used before gabarit.sol has been loaded: %r" % (where, log))
		loads = [e for e in log if e[0] == 'execute' and k != 'wcpg']
		if known_loaded:
			ctx.check(not loads, 'loaded-again', lambda: "%s: gabarit.sol has already been loaded with success, and it is loaded again: %r" % (where, log))
		ok_loads = [e for e in log if e[0] == 'loaded']
		ctx.check(len(ok_loads) <= 1, 'loaded-again', lambda: "%s: gabarit.sol is loaded several times in the same call" % where)
		if ok_loads and 'line' not in fired:
			known_loaded = True
		if k in ('check', 'constraint', 'margin', 'ready'):
			if exc is None:
				ctx.check(SO.loaded, 'not-loaded', lambda: "%s: it succeeds but gabarit.sol has not been loaded: %r" % (where, log))
				ctx.check(not any(f.split(':')[0] in ('execute',) for f in fired) or ok_loads, 'failure-hidden', lambda: "%s: the load has failed (%r) and this is ignored" % (where, fired))
				if k == 'check' and not fired:
					ctx.check(bool(res[0]) == okay, 'wrong-answer', lambda: "%s: the engine answers %r, the check returns %r" % (where, okay, res))
				ctx.probe('successful uses of Sollya')
			elif not fired:
				if not state['sollya']:
					ctx.check(isinstance(exc, (ValueError, ImportError, NameError)), 'wrong-error', lambda: "%s: Sollya is not installed, and it raises %r" % (where, exc))
				elif k == 'margin' and op['answers'] in ('nan', 'inf') and isinstance(exc, (ValueError, ArithmeticError, AssertionError)):
					pass          # (answers that are not numbers)
				else:
					raise Violation('not-retried', "%s: Sollya works, no fault has been injected, and it raises %r (log of the engine: %r)" % (where, exc, log))
		if k == 'wcpg':
			calls = [e for e in log if e[0] == 'wcpg']
			if exc is None:
				ctx.check(len(calls) == 1 and calls[0][1:] == engines.wcpg_arguments(S) and res == ['wcpg'], 'wrong-question', lambda: "%s: the engine is asked for another system than %r: %r (result %r)" % (where, engines.wcpg_arguments(S), calls, res))
				ctx.probe('successful uses of wcpg.sol')
			elif not fired:
				ctx.check(not state['sollya'] and isinstance(exc, (ImportError, NameError, ValueError)), 'not-retried', lambda: "%s: Sollya works, no fault has been injected, and it raises %r (log of the engine: %r)" % (where, exc, log))
		# --- MATLAB
		good = [i + 1 for i, o in enumerate(MA.starts) if o == 'ok']
		ctx.check(len(good) <= 1, 'several-engines', lambda: "%s: %d MATLAB engines have been started in this process" % (where, len(good)))
		for ident, name in MA.calls:
			ctx.check(good and ident == good[0], 'wrong-engine', lambda: "%s: call of an engine which is not the unique one" % where)
		if k == 'helper':
			if exc is None:
				for what, x in res:
					if what == 'engine':
						ctx.check((x is None and not good) or (x is not None and good and x._ident == good[0]), 'wrong-engine', lambda: "%s: the engine of the helper is %r (starts: %r)" % (where, x, MA.starts))
					elif what == 'error':
						ctx.check(x is engines.MatlabError, 'wrong-engine', lambda: "%s: MatlabExecutionError gives %r" % (where, x))
				ctx.check(len(MA.calls) == sum(1 for what, _ in res if what == 'call'), 'engine-not-used', lambda: "%s: calls received by the engine: %r" % (where, MA.calls))
				ctx.probe('uses of helpers created before', len(res))
			elif not fired:
				needs_pkg = any(w in ('error', 'double') for _, w in op['uses'])
				ctx.check((needs_pkg and not state['matlab'] and isinstance(exc, ImportError)) or (not good and isinstance(exc, ValueError)), 'not-retried', lambda: "%s: no fault has been injected, and it raises %r (starts of the engine: %r)" % (where, exc, MA.starts))
		if k in ('matlab', 'design', 'lwdf'):
			uses = k != 'design' or op['method'] == 'matlab'
			if exc is None:
				if uses and state['matlab'] and 'line' not in fired:
					ctx.check(good and MA.calls, 'engine-not-used', lambda: "%s: it succeeds without the MATLAB engine (starts: %r)" % (where, MA.starts))
					ctx.probe('successful uses of MATLAB')
			elif not fired:
				if state['matlab'] or not uses or k == 'design' or (k == 'matlab' and not op['raise'] and not good):
					raise Violation('not-retried', "%s: MATLAB works, no fault has been injected, and it raises %r (starts of the engine: %r)" % (where, exc, MA.starts))
				ctx.check(isinstance(exc, (ValueError, ImportError)), 'wrong-error', lambda: "%s: MATLAB is not installed, and it raises %r" % (where, exc))
		else:
			ctx.check(len(MA.starts) == nst, 'engine-started', lambda: "%s: a MATLAB engine is started" % where)
	os.chdir('/')
	shutil.rmtree(root, ignore_errors=True)
