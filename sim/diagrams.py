# coding: utf-8
"""Random block diagrams, their reference simulator, and their serialisation as Simulink files (independent of the library)"""
import io
import random
import zipfile
from xml.sax.saxutils import escape, quoteattr

import numpy as np


class Node:
	def __init__(self, kind, path=()):
		self.kind = kind          # 'in', 'gain', 'delay', 'sum', 'out'
		self.path = path          # subsystems that contain it (outermost first)
		self.src = []             # indexes of the nodes that feed its ports
		self.signs = ''
		self.gain = None
		self.port = None
		self.const = None


class Diagram:
	"""a drawn diagram: nodes and connections"""
	def __init__(self, d):
		r = random.Random(d['seed'])
		self.r = r
		self.constants = {}
		self.nodes = nodes = []
		ins = [Node('in') for _ in range(d['ni'])]
		delays = [Node('delay') for _ in range(d['nd'])]
		inner = [Node('gain') for _ in range(d['ng'])] + [Node('sum') for _ in range(d['ns'])]
		r.shuffle(inner)
		# subsystems: tree of paths
		self.paths = [()]
		for k in range(d['subs']):
			parent = r.choice(self.paths)
			if len(parent) < 3:
				self.paths.append(parent + (k,))
		order = ins + delays + inner
		for nd in delays + inner:
			nd.path = r.choice(self.paths)
		nodes.extend(order)
		for i, nd in enumerate(nodes):
			if nd.kind == 'gain':
				nd.src = [r.randrange(i) if i else 0]
				nd.gain = 0. + r.choice([round(r.uniform(-1, 1), 3), round(r.uniform(-1, 1), 3), 0.5, -0.25, 1.0, -1.0, 2.0, 0.0, 1e-3])
				if r.random() < 0.15:
					nd.const = r.choice(['a1', 'b', 'gamma_2', 'k0', 'Gain'])
					nd.gain = self.constants.setdefault(nd.const, nd.gain)
			elif nd.kind == 'sum':
				k = r.choice([1, 2, 2, 2, 3, 4])
				nd.src = [r.randrange(max(0, i - 6), i) if r.random() < 0.6 else r.randrange(i) for _ in range(k)]
				nd.signs = ''.join(r.choice('++-') for _ in range(k))
		for nd in delays:
			nd.src = [r.randrange(len(nodes))]
		if d['loop']:
			# an algebraic loop: a sum (or a gain) is fed by a later gain or sum
			gains = r.random() < .3
			cand = [i for i, nd in enumerate(nodes) if nd.kind == ('gain' if gains else 'sum')]
			if cand:
				i = r.choice(cand)
				later = [j for j in range(i, len(nodes)) if nodes[j].kind in (('gain',) if gains and r.random() < .7 else ('sum', 'gain'))]
				nodes[i].src[r.randrange(len(nodes[i].src))] = r.choice(later)
		for k in range(d['no']):
			nd = Node('out')
			late = [i for i in range(len(nodes)) if nodes[i].kind != 'out']
			nd.src = [r.choice(late[-4:]) if r.random() < 0.6 else r.choice(late)]
			nodes.append(nd)
		outs = [nd for nd in nodes if nd.kind == 'out']
		for group in (ins, outs):
			ports = list(range(1, len(group) + 1))
			r.shuffle(ports)
			for nd, p in zip(group, ports):
				nd.port = p
		self.n_in, self.n_out = len(ins), len(outs)
		self.d = d

	def matrix(self):
		"""static part: v = G v + (sources); returns G"""
		N = len(self.nodes)
		Gm = np.zeros((N, N))
		for i, nd in enumerate(self.nodes):
			if nd.kind == 'gain':
				Gm[i, nd.src[0]] += nd.gain
			elif nd.kind == 'sum':
				for s, c in zip(nd.src, nd.signs):
					Gm[i, s] += 1 if c == '+' else -1
			elif nd.kind == 'out':
				Gm[i, nd.src[0]] += 1
		return Gm

	def simulate(self, u):
		"""outputs (in the order of the ports) for the inputs u (in the order of the ports); None if the diagram has no unique solution"""
		N = len(self.nodes)
		Mx = np.eye(N) - self.matrix()
		s = np.linalg.svd(Mx, compute_uv=False)
		if s[-1] < 1e-9 * max(1, s[0]):
			return None
		inv = np.linalg.inv(Mx)
		x = {i: 0. for i, nd in enumerate(self.nodes) if nd.kind == 'delay'}
		T = u.shape[1]
		y = np.zeros((self.n_out, T))
		for k in range(T):
			b = np.zeros(N)
			for i, nd in enumerate(self.nodes):
				if nd.kind == 'in':
					b[i] = u[nd.port - 1, k]
				elif nd.kind == 'delay':
					b[i] = x[i]
			v = inv @ b
			for i, nd in enumerate(self.nodes):
				if nd.kind == 'out':
					y[nd.port - 1, k] = v[i]
			x = {i: v[self.nodes[i].src[0]] for i in x}
		return y

	def has_loop(self):
		"""is there a cycle without delay"""
		color = {}

		def visit(i):
			color[i] = 1
			nd = self.nodes[i]
			for s in (nd.src if nd.kind != 'delay' else []):
				if color.get(s) == 1 or color.get(s) is None and visit(s):
					return True
			color[i] = 2
			return False
		return any(visit(i) for i in range(len(self.nodes)) if color.get(i) is None)

	# ------------------------------------------------------------ drawing

	def draw(self, seed):
		"""the text of blockdiagram.xml.  `seed` chooses the identifiers, the orders, the defaults and the decoration"""
		r = random.Random(seed)
		systems = {p: {'blocks': [], 'lines': {}} for p in self.paths}
		used = set()

		def sid():
			while True:
				s = str(r.randint(1, 400))
				if s not in used:
					used.add(s)
					return s
		dd = {'DelayLength': r.choice(['1', '2', None]), 'Gain': r.choice(['1', '2.5', None]), 'Inputs': r.choice(['++', '|+-', None]), 'Port': r.choice(['1', '1', None])}
		sub_sid = {p: sid() for p in self.paths if p}
		sub_in = {p: {} for p in sub_sid}       # source (node or tuple) -> (port number, sid of the Inport)
		sub_out = {p: {} for p in sub_sid}
		node_sid = {i: sid() for i in range(len(self.nodes))}

		def line(path, src, dst):
			systems[path]['lines'].setdefault(src, []).append(dst)

		def bring(i, path):
			"""endpoint that carries the output of the node i in the system `path`"""
			home = self.nodes[i].path
			# up to the common ancestor
			common = 0
			while common < min(len(home), len(path)) and home[common] == path[common]:
				common += 1
			here, end = home, (node_sid[i], 1)
			while len(here) > common:
				key = i
				tab = sub_out[here]
				if key not in tab or r.random() < 0.15:
					s = sid()
					tab[key if key not in tab else (key, s)] = (len(tab) + 1, s)
					port = len(tab)
					line(here, end, (s, 1))
				else:
					port = tab[key][0]
				end = (sub_sid[here], port)
				here = here[:-1]
			while len(here) < len(path):
				inner = path[:len(here) + 1]
				tab = sub_in[inner]
				if i not in tab or r.random() < 0.15:
					s = sid()
					tab[i if i not in tab else (i, s)] = (len(tab) + 1, s)
					port = len(tab)
					line(here, end, (sub_sid[inner], port))
					end = (s, 1)
				else:
					end = (tab[i][1], 1)
				here = inner
			return end

		def through(i, path, end):
			"""the signal goes through a subsystem that only has a wire inside"""
			p = path + ('w%d' % len(systems),)
			systems[p] = {'blocks': [], 'lines': {}}
			sub_sid[p] = sid()
			a, b = sid(), sid()
			sub_in[p], sub_out[p] = {i: (1, a)}, {i: (1, b)}
			line(path, end, (sub_sid[p], 1))
			line(p, (a, 1), (b, 1))
			return (sub_sid[p], 1)
		edges = [(i, k) for i, nd in enumerate(self.nodes) for k in range(len(nd.src))]
		r.shuffle(edges)
		for i, k in edges:
			nd = self.nodes[i]
			end = bring(nd.src[k], nd.path)
			if r.random() < self.d['wires']:
				end = through(nd.src[k], nd.path, end)
			line(nd.path, end, (node_sid[i], k + 1))
		# blocks
		names = {}

		def block(path, btype, s, params, extra=''):
			base = {'Gain': 'k', 'Inport': 'In', 'Outport': 'Out'}.get(btype, btype)
			n = names[base] = names.get(base, 0) + 1
			name = r.choice(['%s%d', '%s %d', '%s\n%d', '%s<%d>&é"']) % (base, n)
			deco = [('Position', '[%d, %d, %d, %d]' % tuple(r.randint(0, 900) for _ in range(4))), ('ZOrder', str(r.randint(1, 99)))]
			if r.random() < 0.4:
				deco.append(('ShowName', 'off'))
			ps = params + deco
			r.shuffle(ps)
			attrs = [('BlockType', btype), ('Name', name), ('SID', s)]
			r.shuffle(attrs)
			port = '<Port><P Name="PortNumber">1</P><P Name="Name">sig</P></Port>' if r.random() < 0.1 else ''
			txt = '<Block %s>%s%s%s</Block>' % (' '.join('%s=%s' % (a, quoteattr(v, {'\n': '&#10;'})) for a, v in attrs),
				''.join('<P Name="%s">%s</P>' % (a, escape(v)) for a, v in ps), port, extra)
			systems[path]['blocks'].append(txt)

		def port_param(p):
			return [] if p == 1 and r.random() < 0.7 else [('Port', str(p))]
		for i, nd in enumerate(self.nodes):
			s = node_sid[i]
			if nd.kind == 'in':
				block((), 'Inport', s, port_param(nd.port) + [('IconDisplay', 'Port number')])
			elif nd.kind == 'out':
				block((), 'Outport', s, port_param(nd.port))
			elif nd.kind == 'gain':
				txt = nd.const or r.choice(['%r', '%r', ' %r', '%r ', '%.17e', '%r']) % nd.gain
				default = dd['Gain'] or '1'
				block(nd.path, 'Gain', s, [] if float(default) == nd.gain and not nd.const and r.random() < 0.7 else [('Gain', txt)])
			elif nd.kind == 'delay':
				ps = [] if (dd['DelayLength'] or '1') == '1' and r.random() < 0.7 else [('DelayLength', '1')]
				if r.random() < 0.3:
					ps.append(('InitialCondition', r.choice(['0', '0.0'])))
				block(nd.path, 'Delay', s, ps)
			else:
				signs = nd.signs
				k = r.randint(0, len(signs))
				txt = r.choice([signs, '|' + signs, signs + '|', signs[:k] + '|' + signs[k:]])
				ps = [('Ports', '[%d, 1]' % len(signs))]
				if not ((dd['Inputs'] or '').strip('|') == signs and r.random() < 0.7):
					ps.append(('Inputs', txt))
				block(nd.path, 'Sum', s, ps)
		for p in sub_sid:
			for (port, s) in sub_in[p].values():
				block(p, 'Inport', s, port_param(port))
			for (port, s) in sub_out[p].values():
				block(p, 'Outport', s, port_param(port))

		def system(path):
			S = systems[path]
			for p in sorted((p for p in sub_sid if p[:-1] == path), key=str):
				block(path, 'SubSystem', sub_sid[p], [('Ports', '[%d, %d]' % (len(sub_in[p]), len(sub_out[p])))], '<System>%s</System>' % system(p))
			lines = []
			for (a, ap), dsts in S['lines'].items():
				dsts = list(dsts)
				r.shuffle(dsts)

				def P(n, v):
					return '<P Name="%s">%s</P>' % (n, v)

				def tree(ds):
					if len(ds) == 1:
						ps = [P('Dst', '%s#in:%d' % ds[0])]
						if r.random() < 0.4:
							ps.append(P('Points', '[%d, %d]' % (r.randint(-50, 50), r.randint(-50, 50))))
						r.shuffle(ps)
						return ''.join(ps)
					k = r.randint(1, len(ds) - 1)
					return '<Branch>%s</Branch><Branch>%s</Branch>' % (tree(ds[:k]), tree(ds[k:]))
				body = tree(dsts)
				src = P('Src', '%s#out:%d' % (a, ap))
				z = P('ZOrder', str(r.randint(1, 99)))
				lines.append('<Line>%s</Line>' % r.choice([src + body, src + z + body, body + src, z + body + src]))
			# Simulink writes the blocks, then the lines: any order is tried
			blocks = list(S['blocks'])
			r.shuffle(blocks)
			r.shuffle(lines)
			items = blocks + lines
			if r.random() < 0.3:
				r.shuffle(items)
			return ''.join(items) if r.random() < 0.5 else '\n'.join(items)
		body = system(())
		defaults = []
		for bt, k in (('Delay', 'DelayLength'), ('Gain', 'Gain'), ('Sum', 'Inputs'), ('Inport', 'Port'), ('Outport', 'Port')):
			if dd[k] is not None:
				defaults.append('<Block BlockType="%s"><P Name="%s">%s</P><P Name="SampleTime">-1</P></Block>' % (bt, k, dd[k]))
		r.shuffle(defaults)
		return ('<?xml version="1.0" encoding="utf-8"?>\n<ModelInformation Version="0.9"><Model Name="m"><P Name="Version">8.3</P><BlockParameterDefaults>%s</BlockParameterDefaults>'
			'<System><P Name="Location">[1, 2, 3, 4]</P>%s</System></Model></ModelInformation>' % (''.join(defaults), body)).encode('utf-8')


def pack(xml, seed):
	"""the bytes of the slx file"""
	r = random.Random(seed)
	f = io.BytesIO()
	members = [('metadata/coreProperties.xml', b'<a/>' * 20), ('[Content_Types].xml', b'<Types/>'), ('simulink/graphicalInterface.xml', b'<b/>'), ('simulink/blockdiagram.xml', xml)]
	r.shuffle(members)
	with zipfile.ZipFile(f, 'w', r.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])) as z:
		for n, b in members:
			z.writestr(zipfile.ZipInfo(n, (2026, 1, 1, 0, 0, 0)), b, z.compression)
	return f.getvalue()
