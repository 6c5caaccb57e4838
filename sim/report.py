# coding: utf-8
"""Drives one check: exploration, minimisation, replay file, known findings, evidence, verdict"""
import json
import os
import subprocess
import sys
import time

from sim import core

BAD = ('violation', 'crash', 'timeout')


def known_findings(here, prop):
	"""the listed findings of the property: {class: text}"""
	res = {}
	try:
		with open(os.path.join(here, 'known_findings.txt'), encoding='utf-8') as f:
			for line in f:
				if line.startswith('finding: property=%s ' % prop):
					key, _, text = line.strip().split(' ', 2)[2].partition(' ')
					res[key.replace('class=', '')] = text
	except OSError:
		pass
	return res


def check(world, prop, seed, tier, n_runs, budget, workers, t0, here):
	print("property=%s seed=%d tier=%s runs=%d" % (prop, seed, tier, n_runs))
	known = known_findings(here, prop)
	bad, errors, seen_known = [], [], {}

	def on_out(out):
		if out['status'] in BAD:
			if out['cls'] in known:
				seen_known[out['cls']] = out
			else:
				bad.append(out)
				return True
		elif out['status'] == 'error':
			errors.append(out)
			return len(errors) > 20
		return False

	agg = core.explore(world, seed, tier, n_runs, budget, workers, on_out)
	t_explore = time.time() - t0
	for cls in known:
		print("KNOWN-FINDING: property=%s %s" % (prop, known[cls]))

	violations = 0
	replay = None
	if bad:
		violations = 1
		first = min(bad, key=lambda o: o['index'])
		sc = core.make_scenario(world, seed, first['index'], tier)
		print("violation in run %d: class=%s\n%s" % (first['index'], first['cls'], str(first['msg'])[:3000]))
		small, tried = core.minimise(world, sc, first['cls'], budget=getattr(world, 'SHRINK_BUDGET', 60))
		out = core.run_forked(world, small)
		if out['status'] not in BAD:
			small, out = sc, first
		if out.get('sched') and 'sched' in small:
			small = dict(small, sched=out['sched'])
		os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
		replay = os.path.join(here, 'replays', '%s-%d-%d.json' % (prop, seed, first['index']))
		with open(replay, 'w') as f:
			json.dump({'property': prop, 'class': out['cls'], 'message': out.get('msg'), 'digest': out['digest'], 'seed': seed, 'index': first['index'],
				'shrink_steps': tried, 'last_events': out.get('tail'), 'scenario': small}, f, indent=1)
		p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(here, 'run.py'), '--replay', replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		again = p.returncode == 1 and out['digest'].encode() in p.stdout
		print("minimised to %d characters (%d candidates tried); replayed in a new process: %s" % (
			len(json.dumps(small)), tried, "same violation, same event log" if again else "exit code %d\n%s" % (p.returncode, p.stdout.decode(errors='replace')[-600:])))
		print(str(out.get('msg'))[:3000])

	write_evidence(world, prop, seed, tier, agg, t0, t_explore, violations, here, n_runs)
	print("%d runs (%d with at least one fault that fired), %d checks, %d simulated steps, %d distinct event logs, %d distinct states, faults: %s" % (
		agg.n, agg.runs_with_fault, agg.checks, agg.steps, len(agg.digests), len(agg.states), dict(agg.faults)))
	if violations:
		print("VIOLATION property=%s replay=%s" % (prop, replay))
		return 1
	if errors or agg.n == 0:
		for e in errors[:3]:
			print("HARNESS ERROR in run %d: %s" % (e['index'], e['msg']))
		return 2
	return 0


def write_evidence(world, prop, seed, tier, agg, t0, t_explore, violations, here, n_runs):
	samples = []
	for i in range(min(3, max(1, agg.n))):
		samples.append(core.make_scenario(world, seed, i, tier))
	wall = time.time() - t0
	ev = {
		'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
		'coverage': {
			'evaluations': agg.n,
			'distinct_nontrivial': agg.nontrivial,
			'rule': world.RULE + " A run counts as distinct and non-trivial when its event log (operations, results, faults, scheduling choices) differs from that of every other run and at least one check of the property was evaluated in it.",
			'samples': samples,
			'runs_planned': n_runs,
			'seeds': 'every run has its own seed, derived from VERIF_SEED, the property and the index of the run',
			'runs_per_hour': int(agg.n * 3600 / max(t_explore, 1e-3)),
			'simulated_steps': agg.steps,
			'simulated_time': world.TIME_UNIT,
			'faults_fired': dict(agg.faults),
			'runs_with_a_fault': agg.runs_with_fault,
			'checks_evaluated': agg.checks,
			'events': agg.events,
			'distinct_states': len(agg.states),
			'state_measure': world.STATE_MEASURE,
			'probes': dict(agg.probes),
			'status_of_runs': dict(agg.status),
			'real_components': world.REAL,
			'stub_components': world.STUBS,
		},
		'assumptions': getattr(world, 'ASSUMPTIONS', []),
		'wall_s': round(wall, 2),
		'violations': violations,
	}
	d = os.path.join(here, 'evidence')
	os.makedirs(d, exist_ok=True)
	with open(os.path.join(d, prop + '.json'), 'w') as f:
		json.dump(ev, f, indent=1)
