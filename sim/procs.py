# coding: utf-8
"""Simulated processes: real forked processes (and threads in them) of which only one runs at a time.

Every access to the file system, every start of a program and every loading of a library (CPython audit events) is a yield
point: the task stops there until the scheduler, which draws the next task from the seed, lets it go on - or kills its process,
or makes the access fail.  So the interleaving of several processes on the shared directory is one exactly repeatable
execution.
"""
import json
import os
import resource
import select
import signal
import sys
import threading
import time

YIELDS = {'subprocess.Popen', 'ctypes.dlopen', 'tempfile.mkdtemp', 'tempfile.mkstemp', 'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir',
	'shutil.rmtree', 'shutil.copyfile', 'shutil.move', 'os.link', 'os.symlink', 'os.truncate'}


class _Task:
	"""one thread of a simulated process (child side)"""
	def __init__(self, rfd, wfd):
		self.r, self.w = rfd, wfd

	def send(self, msg):
		os.write(self.w, (json.dumps(msg) + "\n").encode())

	def recv(self):
		b = b""
		while not b.endswith(b"\n"):
			c = os.read(self.r, 1)
			if not c:
				os._exit(9)
			b += c
		return json.loads(b)


_local = threading.local()
_HOOKED = False
_STATE = {}


def _hook(event, args):
	t = getattr(_local, 'task', None)
	if t is None or getattr(_local, 'busy', False):
		return
	if event == 'open':
		path, mode, flags = args
		if not isinstance(path, (str, bytes)) or isinstance(flags, int) and not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
			return
		if os.fsdecode(path) == os.devnull:
			return
		name = 'open-write'
	elif event in YIELDS:
		name = event
		if event == 'ctypes.dlopen' and not args[0]:
			return
	else:
		return
	_local.busy = True
	try:
		_undo()
		t.send({'ev': name})
		act = t.recv()
		_apply(act.get('fault'))
	finally:
		_local.busy = False


def _undo():
	"""ends the effects of the fault of the previous yield point"""
	u = _STATE.pop('undo', None)
	if u:
		u()


def _apply(fault):
	if not fault:
		return
	k = fault['kind']
	if k == 'errno':
		raise OSError(fault['errno'], os.strerror(fault['errno']) + " (injected)")
	if k == 'exc':
		raise {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}[fault['exc']]("injected")
	if k == 'fsize':
		# the next writes are short, then fail (full disk)
		resource.setrlimit(resource.RLIMIT_FSIZE, (fault['size'], resource.RLIM_INFINITY))
		_STATE['undo'] = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
	elif k == 'nocc':
		old = os.environ['PATH']
		os.environ['PATH'] = '/nonexistent'

		def undo():
			os.environ['PATH'] = old
		_STATE['undo'] = undo
	elif k == 'cc':
		plan = os.environ['SIM_CC_PLAN']
		with open(plan, 'w') as f:
			f.write(fault['mode'])
		_STATE['undo'] = lambda: os.path.exists(plan) and os.unlink(plan)


class Proc:
	"""a simulated process; `main(task_index, job)` executes one job and returns a JSON value"""
	def __init__(self, name, jobs_by_thread, make_main):
		self.name = name
		self.alive = True
		self.chan = []
		pipes = []
		for _ in jobs_by_thread:
			pipes.append((os.pipe(), os.pipe()))
		self.pid = os.fork()
		if self.pid == 0:
			try:
				self._child(pipes, jobs_by_thread, make_main)
			finally:
				os._exit(8)
		for (r1, w1), (r2, w2) in pipes:
			os.close(w1)
			os.close(r2)
			self.chan.append({'r': r1, 'w': w2, 'state': 'idle', 'buf': b"", 'proc': self})

	def _child(self, pipes, jobs_by_thread, make_main):
		global _HOOKED
		tasks = []
		for (r1, w1), (r2, w2) in pipes:
			os.close(r1)
			os.close(w2)
			tasks.append(_Task(r2, w1))
		main = make_main()
		sys.addaudithook(_hook)

		def loop(t):
			_local.task = t
			while True:
				_local.busy = True
				job = t.recv()
				_local.busy = False
				try:
					res = {'ev': 'done', 'result': main(job['job'])}
				except BaseException as e:
					res = {'ev': 'done', 'error': type(e).__name__, 'msg': str(e)[:300], 'value': isinstance(e, ValueError)}
				_local.busy = True
				_undo()
				t.send(res)
				_local.busy = False
		ths = [threading.Thread(target=loop, args=(t,), daemon=True) for t in tasks[1:]]
		for th in ths:
			th.start()
		loop(tasks[0])
		for th in ths:
			th.join()
		os._exit(0)

	def kill(self):
		if self.alive:
			self.alive = False
			os.kill(self.pid, signal.SIGKILL)
			os.waitpid(self.pid, 0)
			for c in self.chan:
				os.close(c['r'])
				os.close(c['w'])
				c['state'] = 'dead'

	def stop(self):
		if self.alive:
			self.alive = False
			for c in self.chan:
				os.close(c['r'])
				os.close(c['w'])
				c['state'] = 'dead'
			try:
				os.kill(self.pid, signal.SIGKILL)
			except ProcessLookupError:
				pass
			os.waitpid(self.pid, 0)


class Died(Exception):
	def __init__(self, status):
		self.status = status


def resume(c, msg, timeout=120):
	"""lets the task run until its next yield point; returns what it says"""
	os.write(c['w'], (json.dumps(msg) + "\n").encode())
	end = time.monotonic() + timeout
	while b"\n" not in c['buf']:
		if not select.select([c['r']], [], [], max(0., end - time.monotonic()))[0]:
			raise TimeoutError("a simulated process does not answer")
		b = os.read(c['r'], 1 << 16)
		if not b:
			p = c['proc']
			p.alive = False
			_, st = os.waitpid(p.pid, 0)
			for x in p.chan:
				x['state'] = 'dead'
			raise Died(st)
		c['buf'] += b
	line, c['buf'] = c['buf'].split(b"\n", 1)
	return json.loads(line)
