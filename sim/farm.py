# coding: utf-8
"""Puts the working tree of the repository behind a private source root.

`Farm` builds a scratch directory whose *directories* are real and whose *files* are symbolic links to the files of
/repo/fixif.  Python executes exactly the working-tree sources (no copy is taken), but everything the library writes
relative to its own location (`generated/code/runC.c`, ...) lands in the scratch directory.
"""
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('FIXIF_REPO', '/repo')

SKIP = {'__pycache__', 'test', 'matlab', 'biblio'}


def scratch_base():
	"""a directory for scratch files (memory backed when possible)"""
	for d in ('/dev/shm', '/tmp'):
		if os.path.isdir(d) and os.access(d, os.W_OK | os.X_OK):
			try:
				if shutil.disk_usage(d).free > 512 * 1024 * 1024:
					return d
			except OSError:
				continue
	return tempfile.gettempdir()


def build_farm(root):
	"""symlink farm of REPO/fixif under root/fixif"""
	src = os.path.join(REPO, 'fixif')
	dst = os.path.join(root, 'fixif')
	for dp, dns, fns in os.walk(src):
		rel = os.path.relpath(dp, src)
		dns[:] = sorted(d for d in dns if d not in SKIP)
		if rel.split(os.sep)[0] == 'generated':
			fns = []
		tgt = os.path.join(dst, rel) if rel != '.' else dst
		os.makedirs(tgt, exist_ok=True)
		for f in sorted(fns):
			if f.endswith(('.pyc', '.so')):
				continue
			os.symlink(os.path.join(dp, f), os.path.join(tgt, f))
	os.makedirs(os.path.join(dst, 'generated', 'code'), exist_ok=True)
	os.makedirs(os.path.join(dst, 'generated', 'LaTeX'), exist_ok=True)
	return root


class Farm:
	def __init__(self, prefix='fixif-sim-'):
		self.root = tempfile.mkdtemp(prefix=prefix, dir=scratch_base())
		build_farm(self.root)
		self.code_dir = os.path.join(self.root, 'fixif', 'generated', 'code')

	def activate(self):
		sys.dont_write_bytecode = True
		sys.path.insert(0, self.root)

	def clean_generated(self):
		for d in (self.code_dir,):
			for f in os.listdir(d):
				p = os.path.join(d, f)
				if os.path.isdir(p) and not os.path.islink(p):
					shutil.rmtree(p, ignore_errors=True)
				else:
					os.unlink(p)

	def destroy(self):
		if self.root and os.path.basename(self.root).startswith('fixif-sim-'):
			shutil.rmtree(self.root, ignore_errors=True)
