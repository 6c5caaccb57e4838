# coding: utf-8
"""writes DESIGN.md: tools/design.md.in, completed with the documentation of the worlds, the manifest and the planted bugs"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {d['id']: d for d in map(json.loads, open(ROOT + '/properties.jsonl'))}
manifest = json.load(open(ROOT + '/MANIFEST.json'))

NOTES = {
	'C01': """Bounds: matrices up to 6x6, up to 5 threads, 120 preemptions. Operands are doubles and multiprecision numbers of up to
some hundred bits, of very different magnitudes (so that any intermediate rounding shows). Preemption at any line of fixif and of the
matrix code of mpmath is what makes "whatever other threads do" decidable: a save/restore of the precision in the library that looks right in one
thread is broken by one switch between two lines. The exact inverse is checked by multiplication with the matrix, in fractions.""",
	'C02': """The kernel-fault injector knows the precision-dependent calls of mpmath; the invariant is evaluated after every call, also after a
rejected or aborted one and after each step of a generator (which must not leave the precision changed while it is suspended). "Really uses it": the result of a
conversion asked on `prec` bits must be within the error of that precision of the exact result, and differs from what the caller's precision gives.""",
	'C03': """The only world with real processes scheduled by the seed: yield points are the audit events of CPython (open, rename, remove, Popen, dlopen,
mkdtemp...). Kill and restart at any of them, with the shared directory as the durable state; a compiler shim fails, is killed, or truncates its output. After the last fault,
one more call must succeed (progress). Limits: the linker and the kernel's page cache are real; torn writes are simulated as truncated files.""",
	'C04': """Crash/restart of a channel is the restoration of a saved state vector at any step. Guard zones around buffers detect writes
outside; two channels of the same function interleaved detect any static memory.""",
	'C05': """The reference is a fresh object built from the matrices that the model says are current; every deduced quantity is compared after every
operation which could have changed it, and after every failed assignment with what it was. Derivatives (sensitivities) are compared with finite differences
of an independent computation.""",
	'C06': """A watch on every live object: coefficients bit for bit, deduced quantities to rounding, arguments bit for bit. Operations raising ValueError or
ArithmeticError without a fault are tolerated (some conversions are not defined for every system), any other exception is a violation.""",
	'C07': """The pristine process is the definition of "the same object". States of the Mersenne twister are built (untempering) so that the next draws are 0, 1-2^-53,
repeated... which is the only way to reach "for every state of the random source". Rejection loops must end under it. Generation is also checked in new interpreters with other hash seeds.""",
	'C08': """Each measure is compared with an independent computation (Kronecker solution of the Lyapunov equations, impulse response) within an error bound from the condition of the
system; what is returned while a solver fails must be right too, or LinAlgError/ValueError. A failure must not be remembered: the next query without fault succeeds.""",
	'C09': """The file is parsed by an independent reader of the AMPL data format and compared with an independent computation of dimensions, limits, error coefficients and thresholds;
other files of the directory and the realization are compared with what they were. A short write, a full disk at close time (data still in the buffer) and a failing template are the faults that matter.""",
	'C10': """Protocol properties on the log of engine calls: load before use, no second load after a success, retry after a failure, one engine of MATLAB per process; the
arguments of the worst-case-peak-gain script are those of the system; the margin search is bounded for every sequence of answers.""",
	'C11': """The drawn graph is simulated directly (also with algebraic loops through gains: solved as a linear system, or rejected). Files are drawn in any order of blocks and lines, with defaults declared or
not, nested subsystems, several paths. Oracle under faults: an exception or the system of one of the complete versions of the file.""",
	'C12': """Text, LaTeX and C from the process under test are compared with those of a pristine process (bit for bit, the date excepted, which must be the simulated one); the text is executed by an
interpreter written for it and compared with the realization.""",
	'C13': """Exactness is decided in fractions. Resuming at any set of steps, several users on the same system, ambient precision changed between pieces, pieces aborted at any line and retried.""",
	'C14': """The expectation of which structures and options accept which filter is the simulator's own (not the library's iteration). Draws of the structures' random parameters are chosen by the simulator (repeat, bounds).
An interrupted or failed build, and half-consumed iterations, must not change what comes next.""",
	'C15': """Adversarial environment: the worst input history within the bound is computed from the impulse response (sign sequence), and the worst history of rounding errors in the same way, so that a format one bit too small is exposed by a
single deployment; random histories otherwise. Minimality is checked with the bounds of the independent impulse response.""",
	'C16': """Systems are modelled by their exact impulse responses (fractions) and by their values at points of the unit disc; each operation of the pool is executed on the library's objects and on the models. Results are operands of later operations.
Balancing is checked by its definition (equal diagonal Gramians); the curves of the Bode drawing are read in the figure and compared with the frequency response, point by point.""",
	'C18': """Coefficients are drawn so that being trivial is beyond doubt (exact powers of two, relative distances below 0.5e-8 or above 2e-8). Drawings are parsed, not compared as texts. After the assignment
of coefficients, dZ may be kept or deduced again (both exist in the code, section 7). Lists are not assigned to blocks: numpy 1.26 refuses them for `matrix`.""",
	'C19': """The two executions (exact, and with errors) are those of the simulator, step by step in extended precision, from the coefficients it assigned; the error systems are executed on the injected errors and compared
with the difference. Worst histories of errors come from impulse responses. Tolerances follow the conditioning of J; systems that would be too ill-conditioned or unstable are not drawn.""",
	'C17': """The model of a specification is a list of bands with exact bounds; it follows the margins and shifts applied to the object. The simulated checker evaluates |H|^2 on a dense grid of each constraint it is given, so that a wrong
constraint (sign, order, bound, margin) is seen by the engine that receives it.""",
}


def world(pid):
	t = ast.parse(open(ROOT + '/sim/worlds/%s.py' % pid.lower()).read())
	d = {'doc': ast.get_docstring(t)}
	for n in t.body:
		if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'STATE_MEASURE', 'RUNS', 'REAL', 'STUBS'):
			d[n.targets[0].id] = ast.literal_eval(n.value)
	return d


out = []
for c in manifest['checks']:
	p = c['property']
	w = world(p)
	doc = w['doc'].split('\n\n', 1)[1]
	out.append("### %s %s\n" % (p, props[p]['title']))
	out.append(doc + "\n")
	out.append(NOTES.get(p, '') + "\n")
	out.append("*A run*: %s *States*: %s. *Runs*: %d quick, %d thorough. *Real*: %s. *Stubs*: %s.\n" % (
		w['RULE'], w['STATE_MEASURE'].replace('abstract states ', ''), w['RUNS']['quick'], w['RUNS']['thorough'], '; '.join(w['REAL']), '; '.join(w['STUBS'])))
PROPS = '\n'.join(out)

NA = '\n'.join("* **%s** %s: %s" % (n['property'], props[n['property']]['title'], n['reason']) for n in manifest['not_applicable'])

CAUGHT = json.load(open(ROOT + '/tools/plants.json'))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
	name = os.path.basename(os.path.dirname(d))
	m = json.load(open(d))
	c = CAUGHT.get(name, {})
	by = ', '.join(c.get('by', [m['property']]))
	if c.get('missed'):
		by += " (first missed: %s)" % c['missed']
	rows.append("| %s | %s | %s | %s |" % (name, m['property'], m['needs'].replace('\n', ' ').replace('|', '/'), by))
PLANTS = '\n'.join(rows)

s = open(ROOT + '/tools/design.md.in').read()
for k, v in (('PROPS', PROPS), ('NA', NA), ('PLANTS', PLANTS)):
	s = s.replace('@@%s@@' % k, v)
open(ROOT + '/DESIGN.md', 'w').write(s)
