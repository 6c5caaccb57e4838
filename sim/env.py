# coding: utf-8
"""Process environment of the simulation: source farm, stand-ins, import of the library"""
import atexit
import gc
import os
import sys
import types
import warnings

FARM = None
LIB = None


def setup():
	"""builds the farm, installs the stand-ins and imports the library.  Returns the namespace of what the worlds use"""
	global FARM, LIB
	if LIB is not None:
		return LIB
	warnings.simplefilter('ignore')
	from sim.farm import Farm
	from sim import stubs, engines
	FARM = Farm()
	owner = os.getpid()

	def cleanup():
		if os.getpid() == owner:
			FARM.destroy()
	atexit.register(cleanup)
	FARM.activate()
	# where the scratch files of the runs go
	os.makedirs(os.path.join(FARM.root, 'tmp'))
	stubs.install()
	engines.install()
	import matplotlib
	matplotlib.use('Agg')
	import logging
	logging.disable(logging.CRITICAL)
	import mpmath
	import numpy
	import scipy.signal
	import scipy.linalg
	out, sys.stdout = sys.stdout, open(os.devnull, 'w')
	try:
		import fixif
		import fixif.func_aux
		import fixif.LTI
		import fixif.SIF
		import fixif.SoP
		import fixif.Structures
		import fixif.Structures.Simulink
	except BaseException:
		FARM.destroy()
		raise
	finally:
		sys.stdout.close()
		sys.stdout = out
	from sim import faults
	faults.prepare()
	gc.collect()
	gc.freeze()
	LIB = types.SimpleNamespace(fixif=fixif, mpmath=mpmath, np=numpy, scipy=scipy, farm=FARM, root=FARM.root)
	return LIB


def teardown():
	"""end of a worker process that did its own setup"""
	if FARM is not None:
		FARM.destroy()


def lib_modules():
	return [m for n, m in sorted(sys.modules.items()) if (n == 'fixif' or n.startswith('fixif.')) and m is not None]


def patch_everywhere(orig, new, extra=()):
	"""replaces the object `orig` by `new` wherever the library (and the modules in `extra`) refers to it by a global name;
	returns the function that undoes it"""
	done = []
	for m in list(lib_modules()) + list(extra):
		for k, v in list(vars(m).items()):
			if v is orig:
				done.append((m, k))
				setattr(m, k, new)

	def undo():
		for m, k in done:
			setattr(m, k, orig)
	return undo
