# coding: utf-8
"""Core of the simulator: scenarios, isolated runs, worker pool, minimisation, replay files and evidence.

One *run* = one scenario executed in a process forked from a pristine parent (the library is imported, nothing else has
run).  A scenario is a JSON value: a list of operations, each with all its parameters, the faults with the point where they
fire, and the seeds or the choices of the scheduler.  It is entirely determined by (VERIF_SEED, property, index).  The
outcome of a run is a pure function of the scenario and of the code under test.
"""
import collections
import errno
import hashlib
import io
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(BaseException):
	"""the property is broken (BaseException: nothing in the code under test may swallow it)"""
	def __init__(self, cls, msg):
		super(Violation, self).__init__(cls, msg)
		self.cls = cls
		self.msg = msg


class Hang(BaseException):
	"""the processor-time budget of the run is exhausted"""


class InjectedFault(Exception):
	"""marker base class, mixed in the exceptions that are injected"""


def seed_of(*parts):
	return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], 'big')


class Ctx:
	"""what a run records: events (hashed), faults that fired, probes, distinct states, simulated steps"""
	def __init__(self, scenario):
		self.scenario = scenario
		self.h = hashlib.sha256()
		self.n_events = 0
		self.tail = collections.deque(maxlen=60)
		self.faults = collections.Counter()
		self.probes = collections.Counter()
		self.states = set()
		self.checks = 0
		self.steps = 0          # simulated time: sampling steps, scheduling points...
		self.sched = None       # choices made by the thread scheduler (when there is one)

	def event(self, *what):
		s = repr(what)
		self.h.update(s.encode('utf-8', 'backslashreplace'))
		self.n_events += 1
		self.tail.append(s[:240])

	def fault(self, kind):
		self.faults[kind] += 1
		self.event('fault', kind)

	def probe(self, name, n=1):
		self.probes[name] += n

	def state(self, *what):
		if len(self.states) < 4000:
			self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

	def check(self, cond, cls, msg):
		self.checks += 1
		if not cond:
			raise Violation(cls, msg() if callable(msg) else msg)

	def step(self, n=1):
		self.steps += n


def unexpected(e):
	"""an exception that the world does not expect.  On the unchanged tree there is none: either the library raises where no fault
	was injected and the operation is legal, or it returns something that the oracle cannot even use.  Both are violations; only what
	may come from the sandbox itself (memory, disk, processes) is an error of the harness"""
	text = traceback.format_exc(limit=-12)
	env = isinstance(e, (MemoryError, SystemExit, KeyboardInterrupt, subprocess.SubprocessError)) or (
		isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EMFILE, errno.ENFILE, errno.EDQUOT))
	if env:
		return {'status': 'error', 'cls': 'harness', 'msg': text}
	inside = any('/fixif/' in f.filename and not f.filename.startswith(HERE) for f in traceback.extract_tb(e.__traceback__))
	if inside:
		return {'status': 'violation', 'cls': 'unexpected-exception', 'msg': 'the library raises in a legal operation without injected fault: %s' % text}
	return {'status': 'violation', 'cls': 'unusable-result', 'msg': 'the oracle cannot use what the library has returned: %s' % text}


def run_scenario(world, scenario, cpu_limit=None):
	"""run in this process; returns the outcome (a dictionary)"""
	try:
		ready(world)
	except Exception as e:
		out = unexpected(e)
		out.update(digest='import', events=0, faults={}, probes={}, states=[], checks=1, steps=0, sched=None)
		return out
	ctx = Ctx(scenario)
	cpu_limit = cpu_limit or getattr(world, 'CPU_LIMIT', 60)
	out = {'status': 'ok'}

	def on_prof(*a):
		raise Hang()
	old = signal.signal(signal.SIGPROF, on_prof)
	signal.setitimer(signal.ITIMER_PROF, cpu_limit, 5)
	try:
		try:
			world.run(scenario, ctx)
		finally:
			signal.setitimer(signal.ITIMER_PROF, 0)
			signal.signal(signal.SIGPROF, old)
	except Violation as e:
		out = {'status': 'violation', 'cls': e.cls, 'msg': e.msg}
	except Hang:
		out = {'status': 'violation', 'cls': 'no-progress', 'msg': 'the run did not end within %g s of processor time (a normal run takes much less than 1 s): %s'
			% (cpu_limit, traceback.format_exc(limit=-6))}
	except BaseException as e:
		out = unexpected(e)
	out.update(digest=ctx.h.hexdigest()[:24], events=ctx.n_events, faults=dict(ctx.faults), probes=dict(ctx.probes), states=sorted(ctx.states),
		checks=ctx.checks, steps=ctx.steps, sched=ctx.sched)
	if out['status'] != 'ok':
		out['tail'] = list(ctx.tail)
	return out


def _silence():
	"""what the library prints is not part of the simulation"""
	dn = os.open(os.devnull, os.O_WRONLY)
	os.dup2(dn, 1)
	if not os.environ.get('SIM_DEBUG'):
		os.dup2(dn, 2)
	os.close(dn)
	sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), write_through=True, errors='replace')


def run_forked(world, scenario, wall=None, cpu_limit=None):
	"""run in a child process forked from here (pristine state of the library)"""
	try_ready(world)
	wall = wall or getattr(world, 'WALL_LIMIT', 240)
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		code = 0
		try:
			os.close(r)
			os.setpgid(0, 0)
			for s in (signal.SIGINT, signal.SIGTERM):
				signal.signal(s, signal.SIG_DFL)
			_silence()
			out = run_scenario(world, scenario, cpu_limit)
			data = json.dumps(out).encode()
			with os.fdopen(w, 'wb') as f:
				f.write(data)
		except BaseException:
			code = 3
		finally:
			os._exit(code)
	os.close(w)
	chunks = []
	deadline = time.monotonic() + wall
	killed = False
	while True:
		left = deadline - time.monotonic()
		if left <= 0:
			killed = True
			break
		rd, _, _ = select.select([r], [], [], left)
		if rd:
			b = os.read(r, 1 << 16)
			if not b:
				break
			chunks.append(b)
	os.close(r)
	try:
		os.killpg(pid, signal.SIGKILL)
	except (ProcessLookupError, PermissionError):
		pass
	_, status = os.waitpid(pid, 0)
	base = {'digest': '', 'events': 0, 'faults': {}, 'probes': {}, 'states': [], 'checks': 0, 'steps': 0, 'sched': None}
	if killed:
		base.update(status='timeout', cls='no-progress', msg='killed after %g s' % wall)
		return base
	try:
		return json.loads(b"".join(chunks).decode())
	except ValueError:
		base.update(status='crash', cls='crash', msg='the process of the run died (wait status %r)' % status)
		return base


_ready = False
_broken = None


def ready(world):
	"""imports the library (before the first run in this process or in a child of it)"""
	global _ready, _broken
	if _broken is not None:
		raise _broken
	if not _ready:
		try:
			from sim import env
			env.setup()
			if hasattr(world, 'prepare'):
				world.prepare()
		except Exception as e:
			_broken = e
			raise
		_ready = True


def try_ready(world):
	"""the same, but a library that cannot be imported is reported by the run itself"""
	try:
		ready(world)
	except Exception:
		pass


def make_scenario(world, seed, index, tier):
	rng = random.Random(seed_of(seed, world.PROP, index))
	sc = world.gen(rng, index, tier)
	sc['prop'] = world.PROP
	sc['seed'] = seed
	sc['index'] = index
	return sc


class Agg:
	def __init__(self):
		self.n = 0
		self.status = collections.Counter()
		self.faults = collections.Counter()
		self.probes = collections.Counter()
		self.runs_with_fault = 0
		self.nontrivial = 0
		self.states = set()
		self.digests = set()
		self.checks = 0
		self.events = 0
		self.steps = 0

	def add(self, out):
		self.n += 1
		self.status[out['status']] += 1
		self.faults.update(out['faults'])
		self.probes.update(out['probes'])
		if sum(out['faults'].values()):
			self.runs_with_fault += 1
		new = out['digest'] not in self.digests
		self.digests.add(out['digest'])
		if new and out['checks'] > 0:
			self.nontrivial += 1
		if len(self.states) < 400000:
			self.states.update(out['states'])
		self.checks += out['checks']
		self.events += out['events']
		self.steps += out['steps']


def _worker(world, seed, tier, todo, conn_w, stop_r, deadline):
	"""executes the runs given by `todo` (an iterator of indexes) and sends the outcomes (one JSON line each)"""
	try_ready(world)
	with os.fdopen(conn_w, 'w') as f:
		for i in todo:
			if time.monotonic() > deadline:
				break
			if select.select([stop_r], [], [], 0)[0]:
				break
			try:
				sc = make_scenario(world, seed, i, tier)
				out = run_forked(world, sc)
			except Exception:
				out = {'status': 'error', 'cls': 'harness', 'msg': traceback.format_exc(), 'digest': '', 'events': 0, 'faults': {},
					'probes': {}, 'states': [], 'checks': 0, 'steps': 0, 'sched': None}
			out['index'] = i
			f.write(json.dumps(out) + "\n")
			f.flush()


def explore(world, seed, tier, n_runs, budget, workers=None, on_out=None):
	"""runs the scenarios 0..n_runs-1; stops early when `on_out` returns True.  Returns the aggregate"""
	workers = workers or min(8, os.cpu_count() or 1)
	if not getattr(world, 'PRIVATE', False):
		try_ready(world)
	deadline = time.monotonic() + budget
	stop_r, stop_w = os.pipe()
	pids, fds = [], {}
	for k in range(workers):
		r, w = os.pipe()
		pid = os.fork()
		if pid == 0:
			try:
				os.close(r)
				os.close(stop_w)
				_worker(world, seed, tier, range(k, n_runs, workers), w, stop_r, deadline)
			except BaseException:
				traceback.print_exc()
			finally:
				if getattr(world, 'PRIVATE', False):
					from sim import env
					env.teardown()
				os._exit(0)
		os.close(w)
		pids.append(pid)
		fds[r] = b""
	agg = Agg()
	stopped = False
	while fds:
		for r in select.select(list(fds), [], [])[0]:
			b = os.read(r, 1 << 16)
			if not b:
				os.close(r)
				del fds[r]
				continue
			lines = (fds[r] + b).split(b"\n")
			fds[r] = lines.pop()
			for ln in lines:
				out = json.loads(ln)
				agg.add(out)
				if on_out and on_out(out) and not stopped:
					stopped = True
					os.close(stop_w)
	for pid in pids:
		os.waitpid(pid, 0)
	if not stopped:
		os.close(stop_w)
	os.close(stop_r)
	return agg


# ---------------------------------------------------------------- minimisation

def _size(sc):
	return len(json.dumps(sc))


def minimise(world, scenario, cls, budget=60, log=None):
	"""shrinks the scenario while a violation of the same class persists"""
	t0 = time.monotonic()
	best = scenario
	tried = 0
	try_ready(world)

	def fails(sc):
		nonlocal tried
		tried += 1
		try:
			out = run_forked(world, sc, wall=60, cpu_limit=20)
		except Exception:
			return None
		if out['status'] in ('violation', 'crash', 'timeout') and out['cls'] == cls:
			return out
		return None

	def over():
		return time.monotonic() - t0 > budget

	lists = getattr(world, 'SHRINK_LISTS', ('faults', 'ops'))
	progress = True
	while progress and not over():
		progress = False
		for key in lists:
			items = best.get(key)
			if not items:
				continue
			chunk = max(1, len(items) // 2)
			while chunk >= 1 and not over():
				i = 0
				while i < len(best[key]) and not over():
					cand = dict(best)
					cand[key] = best[key][:i] + best[key][i + chunk:]
					if fails(cand):
						best = cand
						progress = True
					else:
						i += chunk
				chunk //= 2
		simp = getattr(world, 'simplify', None)
		if simp:
			again = True
			while again and not over():
				again = False
				for cand in simp(best):
					if over():
						break
					if _size(cand) <= _size(best) and cand != best and fails(cand):
						best = cand
						again = progress = True
						break
	return best, tried
