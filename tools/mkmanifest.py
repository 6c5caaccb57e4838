# coding: utf-8
"""writes /verif/MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
NOTE = "Seeded search over histories, not exhaustive: the guarantee is that no violation was found in the runs counted in the evidence. "
CHECKS = {
	'C01': ("real threads scheduled one line at a time by the seed, ambient precision changed by other threads at any line; results compared with exact rational arithmetic",
		NOTE + "Trusts CPython's sys.monitoring, the fractions module and the scheduler; preemption points are the source lines of fixif and the function calls in mpmath it makes."),
	'C02': ("calls aborted by exceptions at any line and in any numerical kernel; invariant on mpmath's working precision after every call; requested precision verified with exact arithmetic",
		NOTE + "The WCPG package is a stand-in. Faults are Python exceptions raised at line boundaries outside of finally/except bodies."),
	'C03': ("simulated processes and threads generating, compiling, loading and running code, with compiler and disk faults and kills at every system-call boundary; outputs compared with a reference simulation",
		NOTE + "Real compiler and dynamic loader; processes are interleaved at Python audit events (open, rename, mkdir, Popen...)."),
	'C04': ("compiled step functions driven by interleaved channels with checkpoints, crashes and moves of their state; compared with uninterrupted runs and a reference simulation",
		NOTE + "Writable sections of the library and guards around all buffers are compared before and after."),
	'C05': ("histories of assignments and queries with assignments aborted at any line or kernel call; refinement against a fresh object and an independent model",
		NOTE),
	'C06': ("histories of operations over a pool of related objects, some aborted at any line; observable state of every other object compared bit for bit after each operation",
		NOTE),
	'C07': ("seeded generators under a simulated random source, clock, solver failures, other generators half consumed, other processes and hash seeds; rebuilt objects compared bit for bit, number of draws bounded",
		NOTE),
	'C08': ("histories of queries and changes of basis with failing or absent solvers; values compared with reference Gramians, norms and gains",
		NOTE + "slycot and the WCPG package are simulated."),
	'C09': ("exports under full disks, short writes, failing opens and stale files; the file is parsed back and compared with the realization",
		NOTE + "AMPL itself is absent; the export is judged by the data file."),
	'C10': ("simulated Sollya and MATLAB engines that fail, are slow or answer anything, over histories of uses; protocol invariants on the calls they receive",
		NOTE + "Both engines are simulated (absent here)."),
	'C11': ("random block diagrams serialised in random orders, files truncated, damaged or replaced during the read; outputs compared with a reference simulator of the drawing",
		NOTE),
	'C12': ("simulated clock and histories of generations; texts compared with those of pristine processes and executed by an interpreter against a reference simulation",
		NOTE),
	'C13': ("simulations stopped and resumed at drawn steps with crashes and saved states; compared with exact rational arithmetic",
		NOTE),
	'C14': ("interleaved, half-consumed and failed builds of all structures under a simulated random source; outputs compared with a reference simulation of the filter",
		NOTE),
	'C15': ("adversarial histories of inputs and of rounding errors injected at every variable; overflow and output-error invariants",
		NOTE + "The WCPG package is a stand-in (reference summation)."),
	'C16': ("histories of operations over a pool of systems, with rejected operands and operations aborted at any line then retried; each result refines an independent model (impulse responses computed from those of the operands)",
		NOTE),
	'C18': ("histories of assignments, wrong assignments, rebuilds and readings over several realizations, aborted at any line; blocks, counts and parsed drawings compared with a model of the two matrices",
		NOTE),
	'C19': ("rounding errors injected at every variable and coefficients rounded in simulated executions, over histories of assignments and failing computations; the error systems of the library must predict the observed differences",
		NOTE + "The packages WCPG and FxP are stand-ins (reference summation, reference quantiser)."),
	'C17': ("histories of uses of specifications with honest simulated engines that fail, failing solvers and calls aborted at any line; constraints, verdicts, margins and designs refine an independent model of the bands",
		NOTE + "Sollya and MATLAB are simulated: the modulus is evaluated on a grid, which is not a proof over all frequencies."),
}
NA = {
	'N05': "depends on the package fixif.FxP, which is not in this repository nor installed; a stand-in would decide the result.",
	'N07': "the coefficients of the wave digital filter are computed by a MATLAB toolbox that is absent; a simulated engine would decide the result (its protocol is covered by C10).",
	'N08': "rigour of the bounds is computed by Sollya, which is absent; a simulated engine would decide the result (its protocol is covered by C10).",
}
props = [json.loads(s) for s in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
	i = p['id']
	if i in CHECKS and os.path.exists(os.path.join(HERE, 'sim', 'worlds', i.lower() + '.py')):
		t, note = CHECKS[i]
		checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python -W ignore run.py ' + i, 'thorough_cmd': '/opt/venv/bin/python -W ignore run.py %s --tier thorough' % i,
			'evidence_file': 'evidence/%s.json' % i, 'technique': T + t, 'level': 'exploration', 'level_note': note.strip()})
	else:
		na.append({'property': i, 'reason': NA.get(i, "its simulation is not built yet.")})
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -W ignore tools/selfcheck.py', 'checks': checks, 'not_applicable': na,
	'notes': "No hook was needed in /repo: every source of non-determinism is reached through seams of Python (sys.monitoring, audit hooks, module globals) installed by the simulator."}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
	json.dump(man, f, indent=1)
	f.write("\n")
print(len(checks), 'checks', len(na), 'not applicable')
