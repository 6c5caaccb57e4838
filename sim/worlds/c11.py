# coding: utf-8
"""C11: importing a Simulink file gives the drawn system, or an error.

Simulated: a history of imports of several files holding random diagrams (cascaded gains and sums, branches, nested subsystems,
feedback through delays, algebraic loops), each drawn several times (other identifiers, orders, defaults), with a disk that
truncates, damages, replaces or fails to read the file at any operation, and imports aborted at any line.
Reference: direct simulation of the drawn graph.
"""
import builtins
import errno
import io
import os
import random

import numpy as np

from sim import gen as G, faults
from sim.core import Violation
from sim.diagrams import Diagram, pack
from sim.env import setup

PROP = 'C11'
RUNS = {'quick': 5000, 'thorough': 100000}
BUDGET = {'quick': 150, 'thorough': 1500}
CPU_LIMIT = 30
RULE = "One run: 1 to 4 diagrams (1-3 inputs and outputs, 0-4 delays, 0-8 gains, 0-7 sums, up to 4 nested subsystems), 3 to 14 imports, each of a diagram drawn with its own identifiers and orders, half of them with a fault of the disk or an abort."
TIME_UNIT = "simulated steps are the sampling periods of the reference simulations"
STATE_MEASURE = "abstract states (numbers of blocks of each kind, subsystems, loop, fault kind and outcome)"
REAL = ["fixif.Structures.Simulink", "fixif.SIF.Realization", "zipfile, lxml"]
STUBS = ["the file opened by the import (wrapped: read errors, truncations, changes at chosen operations)"]
SHRINK_LISTS = ('ops',)
T = 10


def gen(rng, index, tier):
	diags = []
	for _ in range(rng.randint(1, 4)):
		big = rng.random() < 0.25
		diags.append({'seed': rng.randrange(10 ** 9), 'ni': rng.choice([1, 1, 1, 2, 3, 11 if big else 2]), 'no': rng.choice([1, 1, 2, 3, 12 if big else 2]), 'nd': rng.choice([0, 1, 2, 2, 3, 4]),
			'ng': rng.randint(0, 8), 'ns': rng.randint(0, 7), 'subs': rng.choice([0, 0, 0, 1, 2, 3, 4]), 'wires': rng.choice([0, 0, 0, 0.1]), 'loop': rng.random() < 0.12})
	ops = []
	for _ in range(rng.randint(3, 14)):
		op = {'d': rng.randrange(4), 'draw': rng.randrange(10 ** 9), 'file': rng.randrange(3), 'fault': None, 'consts': rng.random() < 0.9}
		x = rng.random()
		if x < 0.10:
			op['fault'] = {'kind': rng.choice(['line', 'line']), 'k': int(2 ** rng.uniform(0, 11)) - 1, 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
		elif x < 0.20:
			op['fault'] = {'kind': 'truncate', 'at': rng.random()}
		elif x < 0.28:
			op['fault'] = {'kind': 'flip', 'at': rng.random(), 'bit': rng.randrange(8), 'n': rng.choice([1, 1, 1, 8, 100])}
		elif x < 0.33:
			op['fault'] = {'kind': 'cutxml', 'at': rng.random()}
		elif x < 0.50:
			op['fault'] = {'kind': 'io', 'k': int(2 ** rng.uniform(0, 6)) - 1, 'what': rng.choice(['EIO', 'ESTALE', 'eof', 'replace', 'rename', 'cut', 'cut']), 'd2': rng.randrange(4), 'at': rng.random()}
		elif x < 0.54:
			op['fault'] = {'kind': rng.choice(['missing', 'directory', 'text', 'nomember', 'twomembers', 'open'])}
		elif x < 0.60:
			op['fault'] = {'kind': 'noconst', 'all': rng.random() < 0.5}
		elif x < 0.68:
			op['fault'] = {'kind': 'unsupported', 'what': rng.choice(['type', 'delay', 'init', 'dangling', 'constant'])}
		ops.append(op)
	return {'diagrams': diags, 'ops': ops}


def simplify(sc):
	for i, op in enumerate(sc['ops']):
		if op['fault']:
			yield dict(sc, ops=sc['ops'][:i] + [dict(op, fault=None)] + sc['ops'][i + 1:])
	for i, d in enumerate(sc['diagrams']):
		for k, lo in (('subs', 0), ('wires', 0), ('ni', 1), ('no', 1), ('ng', 0), ('ns', 0), ('nd', 0)):
			if d[k] > lo:
				for v in {lo, d[k] // 2, d[k] - 1}:
					if lo <= v < d[k]:
						yield dict(sc, diagrams=sc['diagrams'][:i] + [dict(d, **{k: v})] + sc['diagrams'][i + 1:])


class FaultyFile:
	"""the file seen by the import: unbuffered, the action happens at the k-th operation"""
	def __init__(self, path, plan, mode='rb'):
		self.f = io.FileIO(path, 'r')
		self.plan = plan
		self.name = path
		self.mode = mode

	def _tick(self):
		p = self.plan
		if p['left'] == 0:
			p['left'] = -1
			p['fired'] = True
			p['action']()
			if p.get('raises') is not None:
				raise p['raises']
		elif p['left'] > 0:
			p['left'] -= 1

	def read(self, n=-1):
		self._tick()
		if self.plan.get('eof') and self.plan['fired']:
			return b""
		if n is None or n < 0:
			return self.f.readall()
		res = b""
		while len(res) < n:
			b = self.f.read(n - len(res))
			if not b:
				break
			res += b
		return res

	def readinto(self, buf):
		b = self.read(len(buf))
		buf[:len(b)] = b
		return len(b)

	def seek(self, *a):
		self._tick()
		return self.f.seek(*a)

	def tell(self):
		return self.f.tell()

	def seekable(self):
		return True

	def readable(self):
		return True

	def writable(self):
		return False

	def fileno(self):
		return self.f.fileno()

	def flush(self):
		pass

	@property
	def closed(self):
		return self.f.closed

	def close(self):
		self.f.close()

	def __enter__(self):
		return self

	def __exit__(self, *a):
		self.close()

	def __iter__(self):
		return iter(self.read().splitlines(True))


def run(sc, ctx):
	L = setup()
	from fixif.Structures.Simulink import importSimulink
	where_dir = os.path.join(L.root, 'tmp', 'slx%d' % sc['index'])
	os.makedirs(where_dir, exist_ok=True)
	diags = [Diagram(d) for d in sc['diagrams']]
	refs = []
	for i, D in enumerate(diags):
		r = G.rs('c11u', sc['diagrams'][i]['seed'])
		u = r.uniform(-1, 1, (D.n_in, T))
		refs.append((u, D.simulate(u), D.has_loop()))
	real_open = io.open
	plan = {'left': -1, 'fired': False, 'paths': ()}

	def sim_open(file, *a, **k):
		mode = a[0] if a else k.get('mode', 'r')
		if isinstance(file, (str, os.PathLike)) and os.fspath(file) in plan['paths'] and mode == 'rb':
			if plan.get('noopen'):
				plan['fired'] = True
				raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), str(file))
			return FaultyFile(os.fspath(file), plan)
		return real_open(file, *a, **k)
	io.open = sim_open
	builtins.open = sim_open

	def same(R, i):
		"""has the realization R the outputs of the diagram i"""
		D = diags[i]
		u, y, loop = refs[i]
		if (R.q, R.p) != (D.n_in, D.n_out):
			return False
		if y is None:
			return None
		Z = [np.asarray(X, dtype=float) for X in R.JtoS]
		yr = np.asarray(R.simulate(np.matrix(u)), dtype=float)
		y2 = G.sif_sim(Z, u)[0]
		ctx.step(T)
		return G.close(yr, y, 1e-9) and G.close(np.asarray(y2, dtype=float), y, 1e-9)

	def details(R, i):
		return "inputs\n%r\noutputs of the diagram\n%r\noutputs of the realization\n%r\nmatrices %r" % (refs[i][0], refs[i][1], R.simulate(np.matrix(refs[i][0])) if R.q == diags[i].n_in else (R.p, R.q), [np.asarray(X).tolist() for X in R.JtoS])

	for idx, op in enumerate(sc['ops']):
		i = op['d'] % len(diags)
		D = diags[i]
		where = "import %d (%r)" % (idx, op)
		xml = D.draw(op['draw'])
		fault = op['fault']
		kind = fault['kind'] if fault else None
		path = os.path.join(where_dir, 'm%d.slx' % op['file'])
		data = pack(xml, op['draw'])
		allowed = {i}
		must_fail = False
		if kind == 'truncate':
			data = data[:int(len(data) * fault['at'])]
			ctx.fault('truncated file')
		elif kind == 'flip':
			b = bytearray(data)
			a = min(int(len(b) * fault['at']), len(b) - 1)
			for k in range(a, min(a + fault['n'], len(b))):
				b[k] ^= 1 << fault['bit']
			data = bytes(b)
			ctx.fault('damaged file')
		elif kind == 'cutxml':
			# the diagram was truncated before it was packed
			data = pack(xml[:int(len(xml) * fault['at'])], op['draw'])
			must_fail = True
			ctx.fault('truncated diagram')
		elif kind == 'unsupported':
			r = random.Random(op['draw'])
			w = fault['what']
			txt = xml.decode()
			if w == 'type':
				txt2 = txt.replace('BlockType="Outport"', 'BlockType="%s"' % r.choice(['Product', 'Saturate', 'outport', 'UnitDelay']))
				txt2 = txt2 if txt2 != txt else None
			elif w in ('delay', 'init'):
				k = txt.rfind('BlockType="Delay"')
				e = txt.find('>', k)
				txt2 = txt[:e + 1] + ('<P Name="DelayLength">2</P>' if w == 'delay' else '<P Name="InitialCondition">0.5</P>') + txt[e + 1:] if 'BlockType="Delay"' in txt.split('<System>', 1)[1] else None
				if txt2 and 'Name="DelayLength">1<' in txt2 and w == 'delay':
					txt2 = None
			elif w == 'dangling':
				txt2 = txt.replace('<P Name="Dst">', '<P Name="Dst">9', 1)
			else:
				txt2 = txt.replace('<P Name="Gain">', '<P Name="Gain">nothing_', 2) if '<P Name="Gain">' in txt.split('<System>', 1)[1] else None
				if txt2 and txt2.split('<System>', 1)[1].count('nothing_') == 0:
					txt2 = None
			if txt2 is None:
				kind = None
			else:
				data = pack(txt2.encode(), op['draw'])
				must_fail = True
				ctx.fault('unsupported: ' + w)
		elif kind in ('text', 'nomember', 'twomembers'):
			import zipfile
			if kind == 'text':
				data = xml
			else:
				f = io.BytesIO()
				with zipfile.ZipFile(f, 'w') as z:
					if kind == 'nomember':
						z.writestr('simulink/other.xml', xml)
					else:
						z.writestr('a/blockdiagram.xml', xml)
						z.writestr('b/blockdiagram.xml', D.draw(op['draw'] + 1))
				data = f.getvalue()
			must_fail = kind != 'twomembers'
			ctx.fault('not a diagram: ' + kind)
		if os.path.isdir(path):
			os.rmdir(path)
		with real_open(path, 'wb') as f:
			f.write(data)
		if kind in ('missing', 'directory'):
			os.remove(path)
			if kind == 'directory':
				os.mkdir(path)
			must_fail = True
			ctx.fault(kind)
		plan.clear()
		plan.update(left=-1, fired=False, paths=(path,), action=lambda: None)
		if kind == 'open':
			plan['noopen'] = True
			must_fail = True
		if kind == 'io':
			plan['left'] = fault['k']
			w = fault['what']
			other = fault['d2'] % len(diags)
			new = pack(diags[other].draw(op['draw'] ^ 1), op['draw'] ^ 1)
			if w in ('EIO', 'ESTALE'):
				plan['raises'] = OSError(getattr(errno, w), os.strerror(getattr(errno, w)))
			elif w == 'eof':
				plan['eof'] = True
			elif w == 'replace':
				# rewritten in place while it is being read
				allowed.add(other)

				def action(new=new, path=path):
					with real_open(path, 'r+b') as f:
						f.write(new)
						f.truncate()
				plan['action'] = action
			elif w == 'rename':
				allowed.add(other)

				def action(new=new, path=path):
					with real_open(path + '.new', 'wb') as f:
						f.write(new)
					os.replace(path + '.new', path)
				plan['action'] = action
			else:
				def action(path=path, at=fault['at']):
					with real_open(path, 'r+b') as f:
						f.truncate(int(at * os.path.getsize(path)))
				plan['action'] = action
		consts = dict(D.constants)
		if kind == 'io':
			for j in allowed:
				consts.update(diags[j].constants)
		if kind == 'noconst':
			# a constant of the diagram is not given (it was, or another one with the same name was, in other imports)
			if D.constants:
				for c in list(consts) if fault['all'] else [sorted(consts)[op['draw'] % len(consts)]]:
					del consts[c]
				must_fail = True
				ctx.fault('missing constant')
			else:
				kind = None
		before = dict(consts)
		R, exc, fired = None, None, False
		args = (path, consts) if op['consts'] or consts else (path,)
		try:
			if kind == 'line':
				with faults.LineFault(fault['k'], fault['exc']) as lf:
					try:
						R = importSimulink(*args)
					except (faults.InjectedMemoryError, faults.InjectedInterrupt) as e:
						exc = e
				fired = bool(lf.fired)
				if fired:
					ctx.fault('abort: ' + fault['exc'])
			else:
				R = importSimulink(*args)
		except Exception as e:
			exc = e
		except SystemExit as e:
			raise Violation('exit', "%s: the import ends the process (%r)" % (where, e))
		if plan['fired']:
			fired = True
			ctx.fault('open fails' if kind == 'open' else 'disk: ' + fault['what'])
		ctx.check(consts == before, 'constants-changed', lambda: "%s: the dictionary of constants has been changed" % where)
		if any(diags[j].constants.get(k, v) != v for j in allowed for k, v in consts.items()):
			# the same name has several values in the two versions of the file
			continue
		loop = refs[i][2]
		ctx.event(kind, type(exc).__name__ if exc else 'ok')
		c = sc['diagrams'][i]
		ctx.state(c['ni'], c['nd'], min(c['ng'], 4), min(c['ns'], 4), c['subs'], loop, kind, exc is None)
		if exc is not None:
			damaged = kind in ('truncate', 'flip', 'twomembers') or must_fail or fired
			ctx.check(damaged or loop, 'unexpected-error', lambda: "%s: %r\n%s" % (where, exc, xml.decode()))
			continue
		ctx.check(not must_fail, 'no-error', lambda: "%s: a realization is returned" % where)
		if kind == 'twomembers':
			continue
		res = [same(R, j) for j in sorted(allowed)]
		ctx.check(any(x is None or x for x in res), 'wrong-system', lambda: "%s: the realization is not the drawn system\n%s\n%s" % (where, details(R, i), xml.decode()))
		ctx.probe('systems compared')
