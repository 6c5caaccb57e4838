# coding: utf-8
"""Deterministic scheduler of real threads.

Each task is a real thread that is parked on its own semaphore; exactly one of them runs at any time.  The scheduling points are
the lines executed in the library (and in the modules of mpmath given), through sys.monitoring, and the explicit calls of
`pause`.  The schedule is a list of [choice, quantum]: the task `choice` (modulo the number of tasks that are not finished) runs
for `quantum` scheduling points.  When the list is exhausted the remaining tasks run one after the other.  A fault is an
exception raised at the k-th line of a task.
"""
import sys
import threading

from sim import faults

TOOL = 3


class Stop(BaseException):
	"""ends the tasks when the run is over (violation, time limit)"""


class Task:
	def __init__(self, sched, idx, fn):
		self.sched = sched
		self.idx = idx
		self.fn = fn
		self.sem = threading.Semaphore(0)
		self.done = False
		self.error = None
		self.lines = 0
		self.fault = None           # (k, exception name), counted from the moment where it is armed
		self.fired = None
		self.atomic = 0

	def arm(self, k, exc):
		self.fault = [self.lines + k, exc]
		self.fired = None

	def disarm(self):
		f, self.fault, self.fired = self.fired, None, None
		return f

	def body(self):
		self.sem.acquire()
		self.sched.local.task = self
		try:
			if not self.sched.stopping:
				self.fn(self)
		except Stop:
			pass
		except BaseException as e:
			self.error = e
		finally:
			self.sched.local.task = None
			self.done = True
			self.sched.main.release()

	def pause(self):
		"""explicit scheduling point"""
		self.sched.point(self)


class Scheduler:
	def __init__(self, schedule, extra_modules=(), on_switch=None):
		self.schedule = schedule
		self.tasks = []
		self.main = threading.Semaphore(0)
		self.local = threading.local()
		self.stopping = False
		self.quantum = 0
		self.switches = 0
		self.points = 0
		self.extra = extra_modules
		self.on_switch = on_switch

	def spawn(self, fn):
		t = Task(self, len(self.tasks), fn)
		self.tasks.append(t)
		return t

	def point(self, task):
		self.points += 1
		self.quantum -= 1
		if self.quantum <= 0 and not task.atomic:
			self.main.release()
			task.sem.acquire()
			if self.stopping:
				raise Stop()

	def run(self):
		codes, bad = faults.prepare()
		codes = list(codes)
		nolines = set()
		for m in self.extra:
			import types
			seen = set()

			def add(code):
				if id(code) not in seen:
					seen.add(id(code))
					codes.append(code)
					nolines.add(id(code))
					for c in code.co_consts:
						if isinstance(c, types.CodeType):
							add(c)
			for o in vars(m).values():
				if isinstance(o, types.FunctionType) and o.__module__ == m.__name__:
					add(o.__code__)
				elif isinstance(o, type) and o.__module__ == m.__name__:
					for f in vars(o).values():
						f = getattr(f, 'fget', f)
						f = getattr(f, '__func__', f)
						if isinstance(f, types.FunctionType):
							add(f.__code__)
		mon = sys.monitoring
		mon.use_tool_id(TOOL, 'sched')

		def on_line(code, line):
			t = getattr(self.local, 'task', None)
			if t is None:
				return None
			f = t.fault
			if id(code) not in nolines:
				if f is not None and t.fired is None and t.lines >= f[0] and line not in bad.get(code.co_filename, ()):
					t.fired = (code.co_filename.rsplit('/fixif/', 1)[-1], code.co_name)
					raise faults.EXC[f[1]]("injected by the simulator")
				t.lines += 1
			self.point(t)
		mon.register_callback(TOOL, mon.events.LINE, on_line)
		for c in codes:
			mon.set_local_events(TOOL, c, mon.events.LINE)
		threads = [threading.Thread(target=t.body, daemon=True) for t in self.tasks]
		try:
			for th in threads:
				th.start()
			it = iter(self.schedule)
			last = None
			while True:
				alive = [t for t in self.tasks if not t.done]
				if not alive:
					break
				try:
					choice, quantum = next(it)
				except StopIteration:
					choice, quantum = 0, 1 << 60
				t = alive[choice % len(alive)]
				if t is not last:
					self.switches += 1
					last = t
				if self.on_switch:
					self.on_switch(t)
				self.quantum = quantum
				t.sem.release()
				self.main.acquire()
				if t.error is not None:
					raise t.error
		finally:
			self.stopping = True
			for t in self.tasks:
				if not t.done:
					t.sem.release()
			for th in threads:
				if th.is_alive():
					th.join(5)
			for c in codes:
				mon.set_local_events(TOOL, c, 0)
			mon.register_callback(TOOL, mon.events.LINE, None)
			mon.free_tool_id(TOOL)
