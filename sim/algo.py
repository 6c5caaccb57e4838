# coding: utf-8
"""Interpreter of the generated algorithms (text and LaTeX), independent of the code that generates them"""
import re

NUMBER = r'[-+]?(?:0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][-+]?\d+)?|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)'
TERM = re.compile(r'^([-+]?)(?:(%s)\*)?([^\d\W]\w*)(?:\(k([-+]\d+)?\))?$' % NUMBER)
CONST = re.compile('^%s$' % NUMBER)
LHS = re.compile(r'^([^\d\W]\w*)(?:\(k([-+]\d+)?\))?$')


class BadAlgorithm(Exception):
	pass


def number(s):
	return float.fromhex(s) if 'x' in s.lower() else float(s)


def parse_text(txt):
	"""list of (variable, terms); variable = (name, time or None); terms = [(coef, variable)] or [(value, None)]"""
	stmts, cur = [], None
	for line in txt.split('\n'):
		s = line.strip()
		if not s or (s.startswith('/') and s.endswith('/')):
			continue
		if '<-' in s:
			cur = s
			stmts.append(cur)
		elif stmts:
			stmts[-1] += ' ' + s
		else:
			raise BadAlgorithm("line %r" % line)
	return [parse_stmt(s) for s in stmts]


def parse_latex(tex):
	"""returns (statements, swap): swap is True when the states are explicitely swapped at the end"""
	i = tex.index('\\Begin{') + len('\\Begin{')
	body = tex[i:tex.index('\\end{algorithm}')]
	body = body[:body.rindex('}')]
	swap = False
	lines = []
	for line in body.split('\n'):
		s = line.strip()
		if s.startswith('\\tcp{'):
			if s.startswith('\\tcp{Swap'):
				swap = True
			continue
		lines.append(s)
	text = ' '.join(lines)
	stmts = []
	for s in text.split('\\\\'):
		s = s.replace('$\\leftarrow$', '<-').replace('\\leftarrow', '<-').replace('$', ' ')
		s = re.sub(r'_\{(\w+)\}', r'\1', s)
		s = ' '.join(s.split()).replace('* ', '*').replace(' *', '*')
		if not s:
			continue
		s = re.sub(r'(?<!<)- (?=[^\d\W])', '-', s)
		if swap and re.match(r'^x <- xp$', s):
			continue
		stmts.append(parse_stmt(s))
	return stmts, swap


def var(name, t):
	return (name, None if t is None else int(t))


def parse_stmt(s):
	lhs, _, rhs = s.partition('<-')
	m = LHS.match(lhs.strip())
	if not m:
		raise BadAlgorithm("left-hand side of %r" % s)
	hastime = lhs.strip().endswith(')')
	v = (m.group(1), int(m.group(2) or 0) if hastime else None)
	terms = []
	for t in re.split(r'\s+\+\s+', ' '.join(rhs.split())):
		t = t.strip().replace(' ', '')
		m = TERM.match(t)
		if m:
			c = number(m.group(2)) if m.group(2) else 1.
			if m.group(1) == '-':
				c = -c
			terms.append((c, (m.group(3), int(m.group(4) or 0) if t.endswith(')') else None)))
		elif CONST.match(t):
			terms.append((number(t), None))
		else:
			raise BadAlgorithm("term %r of %r" % (t, s))
	return v, terms


def execute(stmts, l, n, p, q, u, x0, timed, explicit_swap=None):
	"""executes the algorithm step by step.  u: q x T.  Returns (Y, X) as lists of lists (X: states after each step).
	timed: the variables are labelled with time.  explicit_swap: None when the swap of the states is implicit (text)"""
	def names(base, nb):
		return [base] if nb == 1 else ['%s%d' % (base, i + 1) for i in range(nb)]
	xs, us, ys = names('x', n), names('u', q), names('y', p)
	mem = {}                          # value of (name, absolute time) or name
	state = list(x0)
	Y, X = [], []
	for k in range(len(u[0])):
		env = {}

		def store(v, val):
			name, t = v
			if timed:
				mem[(name, k + (t or 0))] = val
				if t is None:
					env[name] = val
			else:
				env[name] = val

		def load(v):
			name, t = v
			if timed:
				if t is None:
					if name in env:
						return env[name]
					raise BadAlgorithm("%s is used but not computed" % name)
				if (name, k + t) in mem:
					return mem[(name, k + t)]
				if k + t < 0 or t < 0:
					return 0.
				raise BadAlgorithm("%s(k%+d) is used but not computed" % (name, t))
			if name in env:
				return env[name]
			raise BadAlgorithm("%s is used but not computed" % name)
		for nm, val in zip(us, u):
			store((nm, 0), val[k])
		for nm, val in zip(xs, state):
			store((nm, 0), val)
		for v, terms in stmts:
			s = 0.
			for c, w in terms:
				s += c if w is None else c * load(w)
			store(v, s)
		new = []
		for i, nm in enumerate(xs):
			if timed:
				for cand in ((nm, k + 1), (nm + 'p', k + 1)):
					if cand in mem:
						new.append(mem[cand])
						break
				else:
					new.append(None)
			else:
				if nm + 'p' in env and explicit_swap is not False:
					new.append(env[nm + 'p'])
				else:
					new.append(env[nm])
		out = []
		for nm in ys:
			key = (nm, k) if timed else nm
			src = mem if timed else env
			if key not in src:
				raise BadAlgorithm("the output %s is not computed" % nm)
			out.append(src[key])
		Y.append(out)
		X.append(new)
		state = new if None not in new else [0. if v is None else v for v in new]
		if timed:
			mem = {key: val for key, val in mem.items() if key[1] > k - 60}
	return Y, X
