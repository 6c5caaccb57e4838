# coding: utf-8
"""determinism.py [--runs N] [ID...]: the same runs in fresh interpreters, with other numbers of workers, another hash seed and another
current directory, must give the same logs of events, one by one"""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(prop, runs, seed, workers, hashseed, cwd):
	env = dict(os.environ, PYTHONHASHSEED=hashseed)
	r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(HERE, 'run.py'), prop, '--digests', '--runs', str(runs), '--seed', str(seed), '--workers', str(workers), '--budget', '800'],
		cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
	return r.stdout.splitlines()


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('props', nargs='*')
	ap.add_argument('--runs', type=int, default=100)
	ap.add_argument('--seed', type=int, default=1)
	args = ap.parse_args()
	with open(os.path.join(HERE, 'MANIFEST.json')) as f:
		props = args.props or [c['property'] for c in json.load(f)['checks']]
	bad = 0
	for p in props:
		a = digests(p, args.runs, args.seed, 7, '0', HERE)
		b = digests(p, args.runs, args.seed, 2, '12345', '/')
		diff = [(x, y) for x, y in zip(a, b) if x != y]
		bad += bool(diff) or len(a) != args.runs or len(b) != args.runs
		print('%s: %d and %d runs, %d differences %s' % (p, len(a), len(b), len(diff), diff[:2] if diff else ''), flush=True)
	return 1 if bad else 0


if __name__ == '__main__':
	sys.exit(main())
