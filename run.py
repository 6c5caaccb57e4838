#!/opt/venv/bin/python
# coding: utf-8
"""Entry point of the checks.

	run.py C05 [--tier quick|thorough] [--seed N] [--runs N] [--budget SECONDS] [--workers N]
	run.py --replay FILE
"""
import os
import sys

os.environ.update({k: '1' for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS')})
os.environ.setdefault('MPLBACKEND', 'Agg')
if os.environ.get('PYTHONHASHSEED') is None:
	os.environ['PYTHONHASHSEED'] = '0'
	os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import argparse
import importlib
import json
import time

from sim import core, report


def load_world(prop):
	return importlib.import_module('sim.worlds.' + prop.lower())


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('prop', nargs='?')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
	ap.add_argument('--runs', type=int)
	ap.add_argument('--budget', type=float)
	ap.add_argument('--workers', type=int)
	ap.add_argument('--replay')
	ap.add_argument('--index', type=int, help="executes only this run, in this process (debug)")
	ap.add_argument('--digests', action='store_true', help="prints the digest of every run (determinism check)")
	args = ap.parse_args()

	if args.replay:
		with open(args.replay) as f:
			rep = json.load(f)
		world = load_world(rep['property'])
		out = core.run_forked(world, rep['scenario'])
		print("status=%s class=%s digest=%s (recorded: class=%s digest=%s)" % (out['status'], out.get('cls'), out['digest'], rep['class'], rep['digest']))
		if out['status'] in ('violation', 'crash', 'timeout'):
			print(out.get('msg'))
			print("VIOLATION property=%s replay=%s" % (rep['property'], args.replay))
			return 1
		return 0 if out['status'] == 'ok' else 2

	t0 = time.time()
	world = load_world(args.prop)
	tier = 'thorough' if args.tier == 'thorough' else 'quick'
	n_runs = args.runs or world.RUNS[tier]
	budget = args.budget or getattr(world, 'BUDGET', {'quick': 150, 'thorough': 3000})[tier]

	if args.index is not None:
		sc = core.make_scenario(world, args.seed, args.index, tier)
		print(json.dumps(sc, indent=1)[:6000])
		out = core.run_scenario(world, sc)
		out.pop('states')
		print(json.dumps(out, indent=1))
		print(out.get('msg'))
		return 0

	if args.digests:
		rows = []
		core.explore(world, args.seed, tier, n_runs, budget, args.workers, lambda o: rows.append((o['index'], o['status'], o['digest'])) and False)
		for r in sorted(rows):
			print(*r)
		return 0

	return report.check(world, args.prop, args.seed, tier, n_runs, budget, args.workers, t0, HERE)


if __name__ == '__main__':
	code = main()
	sys.stdout.flush()
	sys.exit(code)
