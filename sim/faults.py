# coding: utf-8
"""Faults injected inside the library.

LineFault: an exception (MemoryError, KeyboardInterrupt) is raised when the k-th line executed in the library is reached,
through sys.monitoring (PEP 669), so that a call can be aborted at any point.  Lines that belong to the context-manager and
try/finally machinery itself (the header of `with` and `try`, bodies of `finally` and `except`) are not interruption points:
Python gives no way to write code that is safe against an exception raised there.  Neither are the statements that only move
references already computed (`self._x, self._y = x, y`, `return x`, `pass`): nothing can fail there.

CallFault: the k-th call of one of the numerical kernels (numpy.linalg, scipy.linalg, mpmath, WCPG) raises.
"""
import ast
import sys
import types

TOOL = 4
_prepared = None
SHIELD = {}


class InjectedMemoryError(MemoryError):
	pass


class InjectedInterrupt(KeyboardInterrupt):
	pass


EXC = {'MemoryError': InjectedMemoryError, 'KeyboardInterrupt': InjectedInterrupt}


def simple(e):
	"""does the evaluation of this expression only read variables and attributes"""
	if e is None or isinstance(e, (ast.Name, ast.Constant)):
		return True
	if isinstance(e, ast.Attribute):
		return simple(e.value)
	if isinstance(e, (ast.Tuple, ast.List)):
		return all(simple(x) for x in e.elts)
	return isinstance(e, ast.Dict) and not e.keys


def excluded_lines(source):
	"""lines where no exception is injected"""
	bad = set()
	tree = ast.parse(source)

	def span(nodes):
		for nd in nodes:
			for k in range(nd.lineno, (nd.end_lineno or nd.lineno) + 1):
				bad.add(k)
	for node in ast.walk(tree):
		if isinstance(node, (ast.With, ast.AsyncWith)):
			for k in range(node.lineno, node.body[0].lineno):
				bad.add(k)
			bad.add(node.lineno)
		elif isinstance(node, ast.Try):
			bad.add(node.lineno)
			span(node.finalbody)
			for h in node.handlers:
				bad.add(h.lineno)
				span(h.body)
		elif isinstance(node, (ast.Assign, ast.AnnAssign)) and simple(node.value) and all(simple(t) for t in (node.targets if isinstance(node, ast.Assign) else [node.target])):
			span([node])
		elif isinstance(node, (ast.Return, ast.Expr)) and simple(node.value) or isinstance(node, (ast.Pass, ast.Global, ast.Nonlocal, ast.Break, ast.Continue)):
			span([node])
		elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
			bad.add(node.lineno)
			if node.name in ('__enter__', '__exit__', '__del__'):
				span([node])
	return bad


def shielded_lines(source):
	"""lines where a call in progress is not interrupted either: headers of `with` (the context managers are entered and left
	there) and bodies of `finally`"""
	res = set()
	for node in ast.walk(ast.parse(source)):
		if isinstance(node, (ast.With, ast.AsyncWith)):
			res.update(range(node.lineno, max(node.body[0].lineno, node.lineno + 1)))
		elif isinstance(node, ast.Try):
			for nd in node.finalbody:
				res.update(range(nd.lineno, (nd.end_lineno or nd.lineno) + 1))
	return res


def prepare(extra_modules=()):
	"""finds the code objects of the library (once per process)"""
	global _prepared
	if _prepared is not None:
		return _prepared
	from sim.env import lib_modules
	import gc
	mods = {}
	for m in list(lib_modules()) + list(extra_modules):
		fn = getattr(m, '__file__', None)
		if fn and fn.endswith('.py'):
			mods[fn] = m
	bad = {}
	for fn in mods:
		try:
			with open(fn, encoding='utf-8') as f:
				src = f.read()
			bad[fn] = excluded_lines(src)
			SHIELD[fn] = shielded_lines(src)
		except (OSError, SyntaxError):
			bad[fn] = set()
	codes = {}

	def add(code):
		if code.co_filename in mods and id(code) not in codes:
			codes[id(code)] = code
			for c in code.co_consts:
				if isinstance(c, types.CodeType):
					add(c)
	for o in gc.get_objects():
		if isinstance(o, types.FunctionType):
			add(o.__code__)
	_prepared = (sorted(codes.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)), bad)
	return _prepared


class LineFault:
	"""with LineFault(k, 'MemoryError') as lf: ...   raises at the k-th eligible line (counted from 0)"""
	def __init__(self, k, exc, only=None, thread=None):
		self.k = k
		self.exc = exc
		self.only = only            # restrict to file names ending with one of these
		self.fired = None
		self.count = 0

	def __enter__(self):
		codes, bad = prepare()
		mon = sys.monitoring
		mon.use_tool_id(TOOL, 'sim')
		self.codes = [c for c in codes if not self.only or c.co_filename.endswith(tuple(self.only))]
		self.bad = bad

		def on_line(code, line):
			if self.fired is not None:
				return None
			if line in bad.get(code.co_filename, ()):
				return None
			if self.count >= self.k:
				# not while a context manager is entered or left, nor in a function called by a `finally` body
				f = sys._getframe(2)
				while f is not None:
					fn = f.f_code.co_filename
					if fn in SHIELD and f.f_lineno in SHIELD[fn]:
						return None
					f = f.f_back
				self.fired = (code.co_filename.rsplit('/fixif/', 1)[-1], code.co_name)
				raise EXC[self.exc]("injected by the simulator")
			self.count += 1
		mon.register_callback(TOOL, mon.events.LINE, on_line)
		for c in self.codes:
			mon.set_local_events(TOOL, c, mon.events.LINE)
		return self

	def __exit__(self, *a):
		mon = sys.monitoring
		for c in self.codes:
			mon.set_local_events(TOOL, c, 0)
		mon.register_callback(TOOL, mon.events.LINE, None)
		mon.free_tool_id(TOOL)
		return False


class CallFault:
	"""the k-th call of one of the kernels raises `exc` (an instance)"""
	def __init__(self, targets, k, exc):
		self.targets = targets          # list of function objects, found by identity in the globals of the library
		self.k = k
		self.exc = exc
		self.fired = None
		self.count = 0
		self.undo = []

	def __enter__(self):
		from sim.env import patch_everywhere
		for f in self.targets:
			self.undo.append(patch_everywhere(f, self._wrap(f)))
		return self

	def _wrap(self, f):
		def g(*a, **k):
			if self.fired is None:
				if self.count == self.k:
					self.fired = getattr(f, '__name__', str(f))
					raise self.exc
				self.count += 1
			return f(*a, **k)
		g.__name__ = getattr(f, '__name__', 'f')
		g.__wrapped__ = f
		return g

	def __exit__(self, *a):
		for u in self.undo:
			u()
		return False
