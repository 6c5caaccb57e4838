From c4456c6a73f8e137d3713205b196024790309039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:17 +0000
Subject: [PATCH 01/52] fix: runCdouble returns the outputs of the realization
 (result type, MIMO, private files, failed compilations)

---
 fixif/SIF/Realization_implementation.py | 57 ++++++++++++++++---------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..0fce560 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -16,6 +16,9 @@ from numpy import tril, all, zeros, matrix as mat
 from datetime import datetime
 from subprocess import Popen, PIPE
 from ctypes import CDLL, POINTER, c_double
+from os import makedirs
+from os.path import join
+from tempfile import TemporaryDirectory
 import numpy
 
 
@@ -157,26 +160,34 @@ class R_implementation:
 		"""
 		# TODO: manage the place where the code is generated (it should be an absolute path?)
 
-		# generate C code
-		with open(GENERATED_PATH+"runC.c", "w") as cFile:
-			cFile.write(self.implementCdouble("implementCdouble"))
+		# the files are generated in a directory used only once: they cannot be mixed up with the files of another realization
+		# (compiled before or at the same time), and dlopen cannot return a library already loaded from the same path
+		makedirs(GENERATED_PATH, exist_ok=True)
+		with TemporaryDirectory(prefix='runC-', dir=GENERATED_PATH) as path:
+			# generate C code
+			with open(join(path, "runC.c"), "w") as cFile:
+				cFile.write(self.implementCdouble("implementCdouble"))
 
-		print("Compiling runC.c")
+			print("Compiling runC.c")
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
-		# check the output and print it
-		line = 'non-empty'
-		while line:
-			line = proc.stderr.readline().decode('utf-8')
-			print(line[:-1])		# TODO: log it somewhere ?
+			# compile it
+			proc = Popen(["cc", "-Wall", "-fPIC", "-shared", "-o", "runC.so", "runC.c"], stderr=PIPE, cwd=path)
+			# check the output and print it
+			err = proc.communicate()[1].decode('utf-8', 'replace')
+			print(err)		# TODO: log it somewhere ?
+			if proc.returncode != 0:
+				raise RuntimeError("The compilation of the generated C code failed:\n" + err)
+
+			# use ctype
+			Cdouble = CDLL(join(path, 'runC.so')).implementCdouble
 
-		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
 		if self.p == 1:
-			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.restype = c_double
 		else:
-			self._Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			Cdouble.restype = None
+		self._Cdouble = Cdouble
 
 
 
@@ -198,13 +209,21 @@ class R_implementation:
 
 		u = mat(u)
 		N = u.shape[1]
+		if u.shape[0] != self._q:
+			raise ValueError("runCdouble: u should be a %d*N matrix" % self._q)
 
 		x = zeros((self._n, 1))		# TODO: add the possibility to start with a non-zero state
 		px = x.ctypes.data_as(POINTER(c_double))
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
-		return y
\ No newline at end of file
+		yi = zeros(self._p)
+		for i in range(N):
+			ui = numpy.array(u[:, i], dtype=float).ravel()
+			cu = ui[0] if self._q == 1 else ui.ctypes.data_as(POINTER(c_double))
+			if self._p == 1:
+				y[:, i] = self._Cdouble(cu, px)
+			else:
+				self._Cdouble(yi.ctypes.data_as(POINTER(c_double)), cu, px)
+				y[:, i] = yi
+		return y
-- 
2.43.0


From 46032b8850ace838dc2386e02fcd35974971cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:17 +0000
Subject: [PATCH 02/52] fix: generated C of a realization with only one state
 did not compile

---
 fixif/SIF/Realization_implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 0fce560..f0b4b11 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -86,7 +86,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
-- 
2.43.0


From 46cc53105c2917b7ac87cf5ea65d0d619f9cbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:49 +0000
Subject: [PATCH 03/52] fix: a SIF stays consistent when its coefficients are
 changed (or when the change fails)

---
 fixif/SIF/Realization.py |  6 ++++++
 fixif/SIF/SIF.py         | 39 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..e3f73f8 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -91,6 +91,12 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		self._Cdouble = None
 
 
+	def _build_fromZ(self):
+		"""Rebuild all that is deduced from Z (the compiled function of the previous coefficients cannot be used anymore)"""
+		super(Realization, self)._build_fromZ()
+		self._Cdouble = None
+
+
 	@property
 	def MSB(self):
 		"""Returns the MSB"""
diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..d2bd70b 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -24,6 +24,7 @@ from numpy import c_, r_, eye, zeros, matrix as mat, tril, all, count_nonzero
 from numpy.linalg import inv
 from math import log
 from copy import copy
+from functools import wraps
 from fixif.func_aux import mpf_matrix_lt_inverse, mpf_matrix_fadd, mpf_matrix_fmul
 from fixif.SIF.SIF_sensibility import SIF_sensibility
 
@@ -74,13 +75,28 @@ def _check_dimensions(JtoS):
 		# check for consistency
 		if (a[0], b[0]) != X.shape:
 			pb = a[1] if a[0] != X.shape[0] else b[1]
-			raise ValueError("The matrix %s is a %dx%d matrix, instead of being a %dx%d matrix (to be consistent with matrix %s)", name, X.shape[0], X.shape[1], a[0], b[0], pb)
+			raise ValueError("The matrix %s is a %dx%d matrix, instead of being a %dx%d matrix (to be consistent with matrix %s)" % (name, X.shape[0], X.shape[1], a[0], b[0], pb))
 
 	return l[0], n[0], p[0], q[0]
 
 
 
 
+def _update(setter):
+	"""
+	Decorator for the setters of the coefficients (J to S and Z)
+	The setter works on a copy of the SIF (with its own matrices), and the SIF is updated only when everything has been
+	rebuilt. So the SIF is unchanged if the setter fails (wrong size, J not invertible, etc.)
+	"""
+	@wraps(setter)
+	def wrapper(self, mymat):
+		new = copy(self)
+		new._Z = self._Z.copy()
+		setter(new, mymat)
+		self.__dict__.update(new.__dict__)
+	return wrapper
+
+
 class SIF(SIF_sensibility):
 	"""
 	Special Implicit Form (formely FWR, Finite Wordlength Realization)
@@ -159,7 +175,7 @@ class SIF(SIF_sensibility):
 		build Z or dZ depending on provided matrix tuple
 		"""
 		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
-		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
+		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]]).astype(float)
 
 
 
@@ -246,6 +262,10 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# the extra state-spaces should be computed again
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
@@ -308,7 +328,11 @@ class SIF(SIF_sensibility):
 
 	# Z, dZ setters
 	@Z.setter
+	@_update
 	def Z(self, mymat):
+		mymat = np.matrix(mymat, dtype=float)
+		if mymat.shape != self._Z.shape:
+			raise ValueError("The matrix Z is a %dx%d matrix, instead of being a %dx%d matrix" % (mymat.shape + self._Z.shape))
 		self._Z = mymat
 		self._invJ = inv(self.J)
 		self._build_fromZ()
@@ -406,48 +430,57 @@ class SIF(SIF_sensibility):
 	# J to N : we rebuild all matrices
 	# TODO: is it really useful ?
 	@J.setter
+	@_update
 	def J(self, mymat):
 		self._Z[0: self._l, 0: self._l] = - mymat
 		self._invJ = inv(mymat)
 		self._build_fromZ()
 
 	@K.setter
+	@_update
 	def K(self, mymat):
 		self._Z[self._l: self._l + self._n, 0: self._l] = mymat
 		self._build_fromZ()
 
 	@L.setter
+	@_update
 	def L(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
 		self._build_fromZ()
 
 	@M.setter
+	@_update
 	def M(self, mymat):
 		self._Z[0: self._l, self._l: self._l + self._n] = mymat
 		self._build_fromZ()
 
 	@N.setter
+	@_update
 	def N(self, mymat):
 		self._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
 		self._build_fromZ()
 
 	@P.setter
+	@_update
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
+	@_update
 	def Q(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
 		self._build_fromZ()
 
 	@R.setter
+	@_update
 	def R(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
 		self._build_fromZ()
 
 	@S.setter
+	@_update
 	def S(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
 		self._build_fromZ()
-- 
2.43.0


From 60f91ea268872f0365d6ac0b7617dab6baa97a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:49 +0000
Subject: [PATCH 04/52] fix: quantize (np.float does not exist anymore, and dZ
 was shared with the quantized realization)

---
 fixif/SIF/Realization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index e3f73f8..677cbaf 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -160,7 +160,8 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		R._dZ = copy(self._dZ)
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From 2bf3d9bea9a3bb8ef2ed1edb57b2d3caa057e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:11 +0000
Subject: [PATCH 05/52] fix: similarity invalidates the Gramians, and failures
 of the Lyapunov solvers are reported as such

---
 fixif/LTI/dSS.py | 51 +++++++++++++-----------------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..4865374 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -208,13 +208,7 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -226,15 +220,8 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except ValueError as ve:
-
-				if ve.info < 0:
-					e = ValueError(ve.message)
-					e.info = ve.info
-				else:
-					e = ValueError("dSS: Wo: The QR algorithm failed to compute all the eigenvalues "
-					               "(see LAPACK Library routine DGEES).")
-					e.info = ve.info
-				raise e
+				raise ValueError("dSS: Wo: The QR algorithm failed to compute all the eigenvalues "
+				                 "(see LAPACK Library routine DGEES) (%s)." % ve)
 			except NameError:
 				return self.calc_Wo('linalg')
 
@@ -284,13 +271,7 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -302,15 +283,8 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except ValueError as ve:
-
-				if ve.info < 0:
-					e = ValueError(ve.message)
-					e.info = ve.info
-				else:
-					e = ValueError("dSS: Wc: The QR algorithm failed to compute all the eigenvalues "
-					               "(see LAPACK Library routine DGEES).")
-					e.info = ve.info
-				raise e
+				raise ValueError("dSS: Wc: The QR algorithm failed to compute all the eigenvalues "
+				                 "(see LAPACK Library routine DGEES) (%s)." % ve)
 			except NameError:
 				return self.calc_Wc(method='linalg')
 
@@ -439,13 +413,16 @@ class dSS(object):
 		"""
 		Apply a similarity transform T
 		"""
-		#TODO: check T size
 		#TODO: check computational errors !
+		T = mat(T)
+		if T.shape != (self._n, self._n):
+			raise ValueError("dSS: similarity: T should be a %dx%d matrix" % (self._n, self._n))
 		Tinv = inv(T)
-		self._A = Tinv * self._A * T
-		self._B = Tinv * self._B
-		self._C = self._C * T
-		# D is unchanged
+		A = Tinv * self._A * T
+		B = Tinv * self._B
+		C = self._C * T
+		# D is unchanged (and so are the norms and the gains), but not the Gramians
+		self._A, self._B, self._C, self._Wo, self._Wc = A, B, C, None, None
 
 	# ======================================================================================
 	def _check_dimensions(self):
-- 
2.43.0


From 49d2e2bf276630b9191ff65cb210771233b117a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:11 +0000
Subject: [PATCH 06/52] fix: random_dSS never ended when pBCmask=1 and masked
 at least one coefficient (so everything for n=1)

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 4865374..fa8feb1 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -875,12 +875,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any() or pBCmask <= 0:  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any() or pBCmask <= 0:  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -889,7 +889,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any() or pDmask <= 0:  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From 8a8feb1d961bb9ae3d684fcc17cb5fbb32eccfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:11 +0000
Subject: [PATCH 07/52] fix: random generators with seed=0 or without seed, and
 endless choice of the two frequencies

---
 fixif/LTI/Butter.py   | 5 +++--
 fixif/LTI/Elliptic.py | 5 +++--
 fixif/LTI/Filter.py   | 2 +-
 fixif/LTI/Gabarit.py  | 2 +-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..664a4ab 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -101,6 +101,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		W = [Wn1, Wn2]
 	else:
@@ -111,4 +112,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 0:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..d6c0a21 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -112,6 +112,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		W = [Wn1, Wn2]
 	else:
@@ -129,7 +130,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' if seed is None else 'Elliptic-random-%d' % seed)
 
 
 
diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..56df8aa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From 2a7ed952faea4ccda7c30178444026ad2d712856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:58 +0000
Subject: [PATCH 08/52] fix: to_dTFmp restores the working precision when it
 fails

---
 fixif/LTI/dSSmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..fd6e3c6 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -288,10 +288,13 @@ class dSSmp(object):
 		TF - a dTFmp object
 
 		"""
-		# converting the dSS matrices to mp type
+		# the working precision is set to prec, and restored at the end (even if the computation fails)
+		with mpmath.workprec(prec):
+			return self._to_dTFmp(prec)
 
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
+
+	def _to_dTFmp(self, prec):
+		"""Compute the transfer function (see to_dTFmp), with the current working precision (prec)"""
 
 		from fixif.LTI import dTFmp
 
@@ -329,7 +332,6 @@ class dSSmp(object):
 			a[i, 0] = Q[i, 0].real
 			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
 		return dTFmp(b, a)
 
 	def WCPGmp(self, delta=2**-53):
-- 
2.43.0


From cd8b14a3b073b1c40033c0f586abc897a4f56cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 09/52] fix: exact multiprecision operations that rounded their
 operands, and sizes checked by mul_exact

---
 fixif/LTI/dSSmp.py                  | 2 +-
 fixif/LTI/dTFmp.py                  | 3 ++-
 fixif/func_aux/MPFMatrix.py         | 6 +++---
 fixif/func_aux/python2mpf_matrix.py | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index fd6e3c6..ddc9e6b 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..c7df112 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -124,7 +124,8 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for j in range(0, N - 1):
+			A[0, j] = mpmath.fneg(self.den[j + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..39fe229 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -63,7 +63,7 @@ class MPFMatrix(object):
 			self._M = mpmath.zeros(n, m)
 			for i in range(0, n):
 				for j in range(0, m):
-					self._M[i, j] = mpmath.mpf(M[i, j])
+					self._M[i, j] = mpmath.mp.convert(M[i, j])		# conversion without rounding
 		else:
 			raise ValueError('Cannot create a MPFmatrix: unknown object type %s' % type(M))
 
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index f493d45..6685ed2 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -11,7 +11,7 @@ def python2mpf_matrix(M):
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
 		for j in range(0, m):
-			Mmp[i, j] = mp.mpf(M[i, j])
+			Mmp[i, j] = mp.mp.convert(M[i, j])		# conversion without rounding (mpf(x) rounds x with the current precision)
 
 
 	return Mmp
-- 
2.43.0


From 8dc4c81d2b8ef54a5a45430560dabde2a9ac8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 10/52] fix: error messages of the exact operations raised
 TypeError instead of ValueError

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 39fe229..64ffc55 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From 8b05cc42d716c632843ad3ec717b2ce4d2456ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 11/52] fix: dSSmp.simulate ignored the initial state, and
 never updated the state when exact=False

---
 fixif/LTI/dSSmp.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index ddc9e6b..3cf802a 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -431,14 +431,15 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
-				if isinstance(x0, numpy.matrix):
-					xk = python2mpf_matrix(x0)
-				else:
-					raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
-
-		if xk.rows != self._n:
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0.copy()
+			elif isinstance(x0, numpy.matrix):
+				xk = python2mpf_matrix(x0)
+			else:
+				raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
+
+		if xk.rows != self._n or xk.cols != 1:
 			raise ValueError('Cannot perform simulation: initial state is of incorrect size')
 
 		T = u.cols
@@ -462,8 +463,8 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				for j in range(0, xk.rows):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=53, rounding='n')
 
 
 		return yk
-- 
2.43.0


From e131bf877f6d0ea9df84a6401e538d73f80eb80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 12/52] fix: normalisation of dTFmp (it divided by the wrong
 values and modified the matrices given)

---
 fixif/LTI/dTFmp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index c7df112..8e77294 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -50,10 +50,14 @@ class dTFmp(object):
 
 		n = a.rows
 		if a[0, 0] != mpmath.mp.one:
+			# division cannot be performed exactly but we do it with (at least) doubled precision
+			a0 = a[0, 0]
+			prec = 2 * max([53] + [x._mpf_[3] for M in (a, b) for x in M])
+			a, b = a.copy(), b.copy()
 			for i in range(0, n):
-				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+				a[i, 0] = mpmath.fdiv(a[i, 0], a0, prec=prec)
+			for i in range(0, b.rows):
+				b[i, 0] = mpmath.fdiv(b[i, 0], a0, prec=prec)
 
 		self._order = n - 1
 		self._num = b
-- 
2.43.0


From af125067b1d4f09ef9904afd8346fa5838c0ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:17 +0000
Subject: [PATCH 13/52] fix: word-length optimisation (wrong method name,
 negative powers, power-of-two bounds, AMPL parameters)

---
 fixif/SIF/Realization_FxP.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..9035418 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -13,13 +13,13 @@ __status__ = "Beta"
 from os import path
 import mpmath
 from numpy import zeros, ones, matrix, power, ndenumerate, kron, multiply, nditer
-from numpy import floor, log2, ceil, bmat, inf
+from numpy import floor, log2, ceil, bmat, inf, minimum
 from string import Template
 
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%.17g"):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
@@ -29,8 +29,8 @@ def generateAMPLParam(name, val, format="%f"):
 	"""
 	if isinstance(val, int):
 		return "param %s := %d;" % (name, val)
-	if val.shape[0] == 1 or val.shape[1] == 1:
-		# 1d vector
+	if val.shape[1] == 1:
+		# 1d (column) vector (a matrix with one row is still indexed by two indices)
 		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
@@ -87,11 +87,15 @@ class R_FxP:
 		We use:  w_tilde = 1 + ceil(log2(zeta_bar)) - floor(log2( 2^ceil(log2(zeta_bar)) - zeta_bar ))
 		with zeta_bar = <<Hzeta>>.u_bar
 		"""
-		#TODO: test if zeta_bar is a power of 2 (should be +Inf in that case)
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
+		wtilde = []
 		with mpmath.workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+mpmath.ceil(mpmath.log(x[0], 2)) - mpmath.floor(mpmath.log(mpmath.power(2, mpmath.ceil(mpmath.log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			for x in zeta_bar.tolist():
+				m = mpmath.ceil(mpmath.log(x[0], 2))
+				gap = mpmath.power(2, m) - x[0]
+				# when zeta_bar is a power of 2, no word-length is large enough for m bits
+				wtilde.append(int(1 + m - mpmath.floor(mpmath.log(gap, 2))) if gap > 0 else inf)
 
 		return wtilde
 
@@ -115,16 +119,16 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
-		return w_guess if all(E * power(2, -w_guess + delta(w_guess * ones((self.l + self.n + self.p, 1)))) < eps) else w_guess + 1
+		return w_guess if all(E * power(2., -w_guess + delta(w_guess * ones((self.l + self.n + self.p, 1)))) < eps) else w_guess + 1
 
 
 	def optimalWL(self, u_bar, eps, AMPLfilename='xmpl.dat', AMPLpath='.', wmax=64):
@@ -150,12 +154,12 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
@@ -164,7 +168,7 @@ class R_FxP:
 			'def_u': generateAMPLParam('u', wmax, "%d"),
 			'def_E': generateAMPLParam('E', E),
 			'def_eps': generateAMPLParam('eps', eps),
-			'def_wtilde': generateAMPLParam('wtilde', w_tilde, "%d")}
+			'def_wtilde': generateAMPLParam('wtilde', minimum(w_tilde, wmax + 1), "%d")}	# more than wmax is never reached
 
 		# generate the xmpl.dat file
 		with open(SIF_TEMPLATES_PATH + "xmpl.dat.template") as f:
-- 
2.43.0


From 3baee67ab6679778a4df851fbbf6a420497dd48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 14/52] fix: Sollya is considered as ready only when
 gabarit.sol has been loaded (from any directory)

---
 fixif/LTI/Gabarit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 56df8aa..f799787 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -18,6 +18,7 @@ __status__ = "Beta"
 from fixif.LTI import dTF
 from fixif.func_aux import MatlabHelper, isMatlabInstalled
 
+from os.path import abspath, dirname, join
 from scipy.signal import iirdesign, freqz
 from numpy import array, pi, log10, infty
 from numpy.random import seed as set_seed, choice, randint, uniform
@@ -188,12 +189,13 @@ class Gabarit(object):
 		"""load gabarit.sol and check if ready/ok"""
 
 		if not Gabarit.isSollyaRunning:
-			Gabarit.isSollyaRunning = True
 			try:
 				sollya.suppressmessage(57, 174, 130, 457)
-				sollya.execute("fixif/LTI/gabarit.sol")
+				sollya.execute(join(dirname(abspath(__file__)), "gabarit.sol"))
 			except NameError:
 				raise ValueError("Sollya and SollyaPython are not installed !")
+			# only once gabarit.sol is loaded (otherwise, try again at the next call)
+			Gabarit.isSollyaRunning = True
 
 
 
-- 
2.43.0


From 71f506188b0f53ad1556e1d6484b2d649706c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 15/52] fix: MatlabHelper starts a unique engine (and gives the
 matlab types)

---
 fixif/func_aux/MatlabHelper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fixif/func_aux/MatlabHelper.py b/fixif/func_aux/MatlabHelper.py
index 7339356..a52c0e2 100644
--- a/fixif/func_aux/MatlabHelper.py
+++ b/fixif/func_aux/MatlabHelper.py
@@ -30,12 +30,14 @@ class MatlabHelper(object):
 		"""
 		# try to import the matlab engine
 		try:
-			from matlab.engine import start_matlab, MatlabExecutionError
-			from matlab import double as matlab_double
-			self._engine = start_matlab()
+			from matlab.engine import start_matlab
 		except ImportError:
 			if raiseError:
 				raise ValueError("Matlab and the matlab python engine are not working correctly (may be not installed")
+			return
+		# start the (unique) engine, if it is not already started
+		if MatlabHelper._engine is None:
+			MatlabHelper._engine = start_matlab()
 
 	# TODO: useful ??
 	@property
@@ -50,9 +52,11 @@ class MatlabHelper(object):
 			return getattr(self._engine, name)
 
 	def double(self):
-		return matlab_double
+		from matlab import double
+		return double
 
 	def MatlabExecutionError(self):
+		from matlab.engine import MatlabExecutionError
 		return MatlabExecutionError
 
 
-- 
2.43.0


From fc6b50c91d44571fec4cdbecbab6f8fccf345aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 16/52] fix: Simulink import took the connections of another
 line or port when one is missing

---
 fixif/Structures/Simulink/diagram.py | 38 ++++++++++++----------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..c6486bb 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -12,7 +12,6 @@ __maintainer__ = "Thibault Hilaire"
 __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
-import sys
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -64,14 +63,14 @@ class System(object):
 				else:
 					newblock = blockclass[blocktype](b)
 			except KeyError:
-				print(blocktype + " is an unsupported block")
-				sys.exit()
+				raise ValueError("importSimulink: %s is an unsupported block" % blocktype)
 			blocks[b.get("SID")] = newblock 
 	
 		## Fill lines list
 		for l in lineels:
 			# find all children 'P' tag
 			# there must be only one 'Src
+			srctext = None
 			for p in  l.findall("P"):  
 				if p.get("Name") == "Src": 
 					srctext = p.text
@@ -80,6 +79,8 @@ class System(object):
 			# there can be more than one 'Dst'
 			for p in l.iter("P"):  
 				if p.get("Name") == "Dst": 
+					if srctext is None:
+						raise ValueError("importSimulink: a line has no source")
 					dsttext = p.text
 					newline = Line(srctext, dsttext)
 					lines.append(newline)
@@ -102,6 +103,7 @@ class System(object):
 			# Subsystem input shortcuting
 			for port in range(1, subsys.inports+1):
 				# Search block feeding SubSystem
+				inputline = None
 				for line in self.lines:
 					if line.dstsid == subsys.sid and line.dstport == str(port):
 						sblock = line.srcsid
@@ -112,13 +114,11 @@ class System(object):
 						break
 			
 				# check existence of inputline ( inport connection)	
-				try: 
-					inputline
-				except NameError:
-					print("error - SubSystem : Inport not connected")
-					sys.exit()
+				if inputline is None:
+					raise ValueError("importSimulink: SubSystem : Inport not connected")
 
 				# Search in Subsystem connection
+				inportline = None
 				for line in subsys.ioconnex:
 					if line.srcsid == subsys.sid and line.srcport == str(port):
 						iblock = line.dstsid
@@ -127,11 +127,8 @@ class System(object):
 						print(line)
 						break
 				
-				try:
-					inportline
-				except NameError:
-					print("error - SubSystem : internal connection")
-					sys.exit()
+				if inportline is None:
+					raise ValueError("importSimulink: SubSystem : internal connection")
 
 				# Search connected blocks in Subsystem and remake connection
 				# (put in a try except block)
@@ -147,6 +144,7 @@ class System(object):
 			# SubSystem Output shortcuting
 			for port in range(1, subsys.outports+1):
 				# Search line connected to outport in Subsystem
+				outportline = None
 				for line in subsys.ioconnex:
 					if line.dstsid == subsys.sid and line.dstport == str(port):
 						oblock = line.srcsid
@@ -156,13 +154,11 @@ class System(object):
 						print(line)
 						break
 
-				try:
-					outportline
-				except NameError:
-					print("error- SubSystem : internal connection")
-					sys.exit()
+				if outportline is None:
+					raise ValueError("importSimulink: SubSystem : internal connection")
 
 				# Search block feeding the outport
+				sline = None
 				for line in self.lines:
 					if line.dstsid == oblock and line.dstport == str(oport):
 						sblock = line.srcsid
@@ -171,10 +167,8 @@ class System(object):
 						print(line)
 						break
 
-				try:		
-					sline
-				except NameError:
-					print("error - Subsystem : Ouport not connected")
+				if sline is None:
+					raise ValueError("importSimulink: SubSystem : Outport not connected")
 
 				# Search connected blocks in Subsystem
 				# ( put in a try except block)
-- 
2.43.0


From 7dc0ced6d86bc84186c1cfc2116f7efffdcdb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 17/52] fix: Simulink import with several paths between two
 blocks, or cascaded gains

---
 fixif/Structures/Simulink/diagram.py | 48 +++++++++++++++-------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index c6486bb..8a0ef7e 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -214,7 +214,9 @@ class System(object):
 		for bsid in self.blocks.keys(): 
 			neweq = Equation(bsid)
 			# we list here all inputs blocks for a given block
-			neweq.termes = dict((block.sid, 1.0) for block in self.blocks[bsid].inlist.values()) # python2.6
+			# (the same block may feed several ports)
+			for block in self.blocks[bsid].inlist.values():
+				neweq.addterm(block.sid, 1.0)
 
 			# for a gain block : give right coeff for all inputs
 			#  bi : input block / termes[bi]: bi coeff
@@ -229,7 +231,7 @@ class System(object):
 				for pi in curblock.inlist.keys():
 					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
 						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
+						neweq.addterm(bi.sid, -2.0)		# from +1.0 to -1.0
 			
 				
 			if self.blocks[bsid].type != 'Inport':
@@ -242,40 +244,38 @@ class System(object):
 			Must be called N times if there is N cascading addition"""
 		# Important : Must be called before expandeqgain : to detect only the direct connected Sum
 		# ( merge is handled in equations list) 
-		for eq in self.equations:
+		for eq in list(self.equations):	# a copy (some equations are removed during the iteration)
 			bout = self.getblockbysid(eq.out)
-			if bout.type == 'Sum':
+			if bout.type == 'Sum' and eq in self.equations:
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
-					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
+					if inpb.type == 'Sum' and inpb is not bout and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
-						del eq.termes[inp]
-
 						subequa = self.getequation(inp)
+						del eq.termes[inp]
+						for inp2, coeff2 in subequa.termes.items():
+							eq.addterm(inp2, coeff2*inpcoeff)
 						self.equations.remove(subequa)
 
 
 	def expandeqgain(self):
 		"""Put gain as Sum coefficient"""
 		# It will act on  Sum bloc equation
-		# now, we assume there is no cascading gain block
-		# and gain will always be before Sum block
-		#
-		# ? keep cascading gain block : test if the current block is a sum
-		# 								and create also an inter var for upstream gain block
 		for eq in self.equations:
-			for eqin in eq.termes:
-				if self.blocks[eqin].type == 'Gain':
-					oldgain = eq.termes[eqin]	
-					del eq.termes[eqin] 
-
+			nbSteps = 0
+			gains = [eqin for eqin in eq.termes if self.blocks[eqin].type == 'Gain']
+			# as long as there are some gains (when they are cascaded)
+			while gains:
+				if nbSteps > len(self.blocks):
+					raise ValueError("importSimulink: there is a loop of gains")
+				nbSteps += 1
+				for eqin in gains:
+					oldgain = eq.termes.pop(eqin)
 					gaineq = self.getequation(eqin)
-					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+					for gin, gain in list(gaineq.termes.items()):
+						eq.addterm(gin, gain * oldgain)
+				gains = [eqin for eqin in eq.termes if self.blocks[eqin].type == 'Gain']
 
 
 	def isequationused(self,eq): 
@@ -380,6 +380,10 @@ class Equation(object):
 		self.out = eqid
 		self.termes = {}
 
+	def addterm(self, bsid, coeff):
+		"""Add coeff*(output of the block bsid) to the equation"""
+		self.termes[bsid] = self.termes.get(bsid, 0.0) + coeff
+
 	def __str__(self):
 		return str(self.out) + "-" + str(self.termes)
 
-- 
2.43.0


From c781bcc16043656fb2cbc6823d1a451d49a5fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:30 +0000
Subject: [PATCH 18/52] fix: Simulink import: outputs (order, several outputs,
 output of a delay or an input), algebraic loops, empty matrices

---
 fixif/Structures/Simulink/Simulink.py |  10 ++-
 fixif/Structures/Simulink/diagram.py  |  21 +++--
 fixif/Structures/Simulink/sif.py      | 111 +++++---------------------
 3 files changed, 35 insertions(+), 107 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..6d5e265 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -86,10 +86,14 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
+    def tomat(M, nbRows, nbCols):
+        """matrix with the right size (even if it is empty)"""
+        return mat(M, dtype='float').reshape(nbRows, nbCols)
+
     return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+                       (tomat(mysif.J, l, l), tomat(mysif.K, n, l), tomat(mysif.L, p, l),
+                        tomat(mysif.M, l, n), tomat(mysif.N, l, m), tomat(mysif.P, n, n),
+                        tomat(mysif.Q, n, m), tomat(mysif.R, p, n), tomat(mysif.S, p, m)),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 8a0ef7e..8e688a1 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -358,19 +358,16 @@ class System(object):
 			print(line)
 
 	def getsysvar(self):
-		""" Return classified System variables name lists
+		""" Return classified System variables SID lists
 			input, state, temporary result and output
-			(u, x, t, y)"""	
-		# there is no special operation in u and x : we can rely on blocks list 
-		u = [b.name for b in self.getinblocks()] 
-		x = [b.name for b in self.getblocksbytype('Delay')]
-		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
-		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
-		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+			(u, x, t, y)
+			The inputs and the outputs are in the order of their ports, and there is one output per Outport
+			(the equation of an Outport gives the block, with its gain, that feeds it)"""
+		u = [b.sid for b in sorted(self.getinblocks(), key=lambda b: int(b.port))]
+		x = [b.sid for b in self.getblocksbytype('Delay')]
+		# t is modified so we rely on equation list ( this hold final result on block diag processing)
+		t = [teq.out for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
+		y = [b.sid for b in sorted(self.getoutblocks(), key=lambda b: int(b.port))]
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..6e29f7d 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,8 +14,6 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
-from fixif.Structures.Simulink.diagram import Equation
-
 class Sif(object):
 	def __init__(self, l, m, n, p):
 		self.l = l # intermediary calculation variables number in the system
@@ -43,102 +41,32 @@ class Sif(object):
 	def build(self, system):
 		# Equations and Blocks list in the system are needed for SIF generation
 		# /!\ Matrix element value placement depend on variables order
-		u = [u.sid for u in system.getinblocks()]
-		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
-		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
-		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
-
-		# TODO: dirty work, just for test, clean useless variables and computation
-		# for block labeling : type+sid
-		self.u = [system.getblockbysid(i).label for i in u]
-		self.x = [system.getblockbysid(i).label for i in x]
-		self.t = [system.getblockbysid(i).label for i in t]
-		self.y = ["y"+system.getblockbysid(i).label[1:] for i in y]
-
-		# ________________________________________________________
-		#
-		# patch if there is output in the termes of the equations
-		# blocks list
-		bsids = []
-		for block in system.blocks:
-			bsids.append(block)
-		# get a new free SID
-		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
-			sids.append(sid) #update local blocks list
-			return str(sid) 
-		# correct equations
-		for outb in y:
-			for eq in system.equations:
-				feedback = False
-				for block in eq.termes:
-					if block == outb:
-						feedback = True
-						break	
-				if feedback:
-					t.append(outb)
-					y.remove(outb)
-					new_out = get_new_sid(bsids)
-					#bsids.append(new_out) #update done in get_new_sid()
-					# add a new equation
-					neweq=Equation(new_out)
-					neweq.termes[outb] = 1.0
-					system.equations.append(neweq)
-					y.append(new_out)
-					#correct matrix size
-					self.l +=1
-					def mat( a, b):
-						m = [[0.0 for i in range(b)] for j in range(a) ]
-						return m
-					self.J = mat(self.l,self.l)
-					self.K = mat(self.n,self.l) 
-					self.L = mat(self.p,self.l)
-					self.M = mat(self.l,self.n)
-					self.N = mat(self.l,self.m)
-					break
+		u, x, t, y = system.getsysvar()
 		# for block labeling : type+sid
 		self.u = ["u"+str(i) for i in u] #[system.getblockbysid(i).label for i in u]
 		self.x = ["x"+str(i) for i in x] #[system.getblockbysid(i).label for i in x]
 		self.t = ["t"+str(i) for i in t] #[system.getblockbysid(i).label for i in t]
 		self.y = ["y"+str(i) for i in y] #["y"+system.getblockbysid(i).label[1:] for i in y]
-		#system.printequations()
-		#________________________________________________________
+
+		def fill(coeff, line, block, T, X, U, sign=1):
+			"""put a coefficient in the matrix associated to T, X or U (according to the block)"""
+			for var, matrix, s in ((t, T, sign), (x, X, 1), (u, U, 1)):
+				if block in var:
+					matrix[line][var.index(block)] = s * coeff
+					return
+			raise ValueError("importSimulink: the output of the block %s cannot be used" % block)
 
 		# Fill SIF matrix
 		for eq in system.equations:
-			if eq.out in y: # output eq
-				for block,coeff in eq.termes.items(): # scan current equation inputs
-					if block in t:
-						self.L[y.index(eq.out)] [t.index(block)] = coeff
-					elif block in x:
-						self.R[y.index(eq.out)] [x.index(block)] = coeff
-					elif block in u:
-						self.S[y.index(eq.out)] [u.index(block)] = coeff
-		
-			elif eq.out in x: # state eq
-				for block,coeff in eq.termes.items(): # scan current equation inputs
-					if block in t:
-						self.K[x.index(eq.out)] [t.index(block)] = coeff
-					elif block in x:
-						self.P[x.index(eq.out)] [x.index(block)] = coeff
-					elif block in u:
-						self.Q[x.index(eq.out)] [u.index(block)] = coeff
-		
-			elif eq.out in t: # intermediate eq
-				for block,coeff in eq.termes.items() : # scan current equation inputs
-					if block in t:
-						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
-					elif block in x:
-						self.M[t.index(eq.out)] [x.index(block)] = coeff
-					elif block in u:
-						self.N[t.index(eq.out)] [u.index(block)] = coeff
+			for block, coeff in eq.termes.items(): # scan current equation inputs
+				if eq.out in y: # output eq
+					fill(coeff, y.index(eq.out), block, self.L, self.R, self.S)
+				elif eq.out in x: # state eq
+					fill(coeff, x.index(eq.out), block, self.K, self.P, self.Q)
+				elif eq.out in t: # intermediate eq
+					if block == eq.out:
+						raise ValueError("importSimulink: there is an algebraic loop")
+					fill(coeff, t.index(eq.out), block, self.J, self.M, self.N, sign=-1)
 
 
 		# additional assignement for J matrix
@@ -210,8 +138,7 @@ class Sif(object):
 			#print node[0], node[1], node[2]
 			
 			if node[1] == 1:
-				print("\nerror - not a D.A.G !!!")
-				sys.exit()
+				raise ValueError("importSimulink: there is an algebraic loop")
 			if node[1] == 0: # not yet visited	
 				node[1] = 1
 				for m in node[2]:
-- 
2.43.0


From 34f9cd0dde5be1ff97e4a6cd1913b8706062955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 19/52] fix: Simulink import ignored the length of the delays
 and the default values of the parameters

---
 fixif/Structures/Simulink/blocks.py  | 2 ++
 fixif/Structures/Simulink/diagram.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 8cc2c95..214e84b 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -78,6 +78,8 @@ class Delay(Block):
 		for p in bel.findall("P"):
 			if p.get("Name") == "DelayLength":
 				self.delay = int(p.text)
+		if self.delay != 1:
+			raise ValueError("importSimulink: only the delays of length 1 are supported")
 
 
 class Sum(Block):
diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 8e688a1..af04350 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -12,6 +12,7 @@ __maintainer__ = "Thibault Hilaire"
 __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
+from copy import deepcopy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -54,9 +55,15 @@ class System(object):
 			blockels = mysys.iter("Block") 
 			lineels = mysys.iter("Line")
 
+		# default values of the parameters, for each block type
+		defaults = {b.get("BlockType"): b.findall("P") for b in etree.xpath("/ModelInformation/Model/BlockParameterDefaults/Block")}
+
 		## Fill blocks dict
 		for b in blockels:
 			blocktype = b.get("BlockType")
+			# complete the parameters with the default values
+			names = [p.get("Name") for p in b.findall("P")]
+			b.extend([deepcopy(p) for p in defaults.get(blocktype, []) if p.get("Name") not in names])
 			try:
 				if blocktype=='Gain':
 					newblock = blockclass[blocktype](b,self.constants)
-- 
2.43.0


From 6973f4ba1526f53cea45d059c43134ab05f5aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 20/52] fix: rho Direct Form II with Delta=1 and given gamma

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..7bdec85 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -163,7 +163,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 3f8eea2a2ffc0edbbccbe59bf4d15253b3899dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 21/52] fix: algorithm without time computed the outputs with
 the next states

---
 fixif/SIF/Realization_algorithms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..cccedb6 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -52,7 +52,7 @@ class R_algorithm:
 			algoStr.insert(self._l, r"\tcp{States}" if self._n > 1 else r"\tcp{State}")
 		if self._l > 0:
 			algoStr.insert(0, r"\tcp{Temporary variables}" if self._l > 1 else r"\tcp{Temporary variable}")
-		if withTime is False and self.isPnut():
+		if withTime is False and self._isSwapNeeded(withTime):
 			algoStr.append(r"\tcp{Swap states}")
 			algoStr.append("$" + self._varNameX[0].name + ' \leftarrow ' + self._varNameX[0].name + "p$")
 
@@ -66,7 +66,7 @@ class R_algorithm:
 		# initialization
 		init = [declare(self._varNameU, 'KwIn'), declare(self._varNameY, 'KwOut'),
                 declare(self._varNameX, 'KwData', isStatic=True), declare(self._varNameT, 'KwData')]
-		if withTime is False and self.isPnut():
+		if withTime is False and self._isSwapNeeded(withTime):
 			init.append(declare(self._varNameX, 'KwData', suffix='p'))
 
 		return tpl.render(computations="\n".join(algoStr), caption=caption, initialization="\n".join(init), date=str(datetime.now()), SIF=self.name, label=label)
@@ -97,6 +97,14 @@ class R_algorithm:
 
 
 
+	def _isSwapNeeded(self, withTime):
+		"""
+		Returns True if x(k+1) cannot be directly stored in x(k): when it is used to compute the other states, or the outputs
+		(the outputs are computed after the states; with the time, x(k) and x(k+1) are not mixed up)
+		"""
+		return self.isPnut() or (not withTime and any(self.R[i, j] != 0 for i in range(self._p) for j in range(self._n)))
+
+
 	def _algorithmCore(self, LaTeX, assign, coefFormat, withTime, withSurname):
 		"""
 		Generate the algorithm core in text
@@ -121,7 +129,7 @@ class R_algorithm:
 		varTXU = varT + varX + varU
 		varTXUnoTime = varTnoTime + varX + varU
 		# names of the variables T, X and Y
-		varXp1 = [v.toStr(withTime=withTime, shift=1, withSurname=withSurname, suffix='p' if self.isPnut() else '', LaTeX=LaTeX) for v in self._varNameX]
+		varXp1 = [v.toStr(withTime=withTime, shift=1, withSurname=withSurname, suffix='p' if self._isSwapNeeded(withTime) else '', LaTeX=LaTeX) for v in self._varNameX]
 		varY = [v.toStr(withTime=withTime, shift=0, withSurname=withSurname, LaTeX=LaTeX) for v in self._varNameY]
 		varTXY = varT + varXp1 + varY
 		varTXYnoTime = varTnoTime + varXp1 + varY
-- 
2.43.0


From 6ee7017c86b3a3c597fb9c4b7c8595c9ca208fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 22/52] fix: LGS and LCW are not defined for a first order
 filter (iterAllRealizations raised an IndexError)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..2dda9df 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -369,9 +369,9 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO, stable, and (at least) of second order (the structures are not defined for a first order filter)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 1
 
 
 # build the Direct Form I
-- 
2.43.0


From 8fb7c78189ab59790f735520a6fec32464afb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 23/52] fix: LGS and LCW realizations of second order filters
 (wrong decomposition)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 2dda9df..60fdf73 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -110,7 +110,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -135,7 +135,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
-- 
2.43.0


From 42370e84ea3c8725c1d3ed12408d47284a041a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 24/52] fix: H2-norm computed from Wo (when Wc cannot be
 computed) was wrong for MIMO systems

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index fa8feb1..7b1eb8f 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -318,7 +318,7 @@ class dSS(object):
 			self._H2norm = sqrt(M.trace())[0,0]
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
-				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
+				M = self._B.transpose() * self.Wo * self._B + self._D.transpose() * self._D
 				self._H2norm = sqrt(M.trace())[0,0]
 			except ValueError:
 				raise ValueError("dSS: h2-norm : Impossible to compute M. Default value is 'inf'")
-- 
2.43.0


From de50409c1d001b8bdef1a70554c41a8a3638bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 25/52] fix: default ripples of random_Elliptic made half of
 the calls fail or give unstable filters, and differed from those of
 iter_random_Elliptic

---
 fixif/LTI/Elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index d6c0a21..b5a04d5 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -84,7 +84,7 @@ def iter_random_Elliptic(number, n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8)
 
 
 
-def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
+def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
 	"""
 	Generate a n-th order Butterworh filters
 	Parameters
-- 
2.43.0


From 874360f046e9ee314c95a1e9cf2247ec2c10a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 26/52] fix: iter_random_dSS raised a TypeError for p=1 or q=1,
 documented as valid

---
 fixif/LTI/dSS.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 7b1eb8f..7da3ec1 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -763,15 +763,14 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 	"""
 	for i in range(number):
 		if stable:
-			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
+			nn = randint(*n)
+			pp = 1 if p == 1 else randint(*p)
+			qq = 1 if q == 1 else randint(*q)
+			yield random_dSS(nn, pp, qq, pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
 			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
+			pp = 1 if p == 1 else randint(*p)
+			qq = 1 if q == 1 else randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From 42ece076902667e712b92f43296444aca16855ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 27/52] fix: the seed 0 of a random Gabarit was not shown

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index f799787..7c09d78 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -226,7 +226,7 @@ class Gabarit(object):
 		self._seed = seed
 
 	def __str__(self):
-		seed = "Seed=%s\n" % (self._seed,) if self._seed else ""
+		seed = "Seed=%s\n" % (self._seed,) if self._seed is not None else ""
 		return "%sType: %s (Fs=%sHz)\n%s" % (seed, self.type, self._Fs, "\n".join(str(b) for b in self._bands))
 
 	@property
-- 
2.43.0


From a7c64e178008ccd9e1a8855972ce84dd91b3d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 28/52] fix: random_Elliptic with quant failed when both
 frequencies had the same quantized value

---
 fixif/LTI/Elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b5a04d5..ff32016 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -111,7 +111,7 @@ def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.
 			raise ValueError("iter_random_Elliptic: W1 should be lower than W2")
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
-		while Wn2 <= Wn1:
+		while Wn2 <= Wn1 or (quant and quantify(Wn2, quant) <= quantify(Wn1, quant)):
 			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		W = [Wn1, Wn2]
-- 
2.43.0


From 1868e83859e3538b5212dc13f141293c5db9f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 29/52] fix: Simulink import: initial condition of the delays
 silently ignored

---
 fixif/Structures/Simulink/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 214e84b..8b8881c 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -78,6 +78,8 @@ class Delay(Block):
 		for p in bel.findall("P"):
 			if p.get("Name") == "DelayLength":
 				self.delay = int(p.text)
+			elif p.get("Name") == "InitialCondition" and float(p.text) != 0:
+				raise ValueError("importSimulink: only the delays with a null initial condition are supported")
 		if self.delay != 1:
 			raise ValueError("importSimulink: only the delays of length 1 are supported")
 
-- 
2.43.0


From 25caa3d313f78ce31f8b6309bc8026ab041af035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 30/52] fix: dZ given to a SIF was shared with it (and with the
 SIF it comes from)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index d2bd70b..9e574cd 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -339,7 +339,7 @@ class SIF(SIF_sensibility):
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
+		self._dZ = np.matrix(mymat)
 
 
 	#  JtoS getters
-- 
2.43.0


From 8c47e9513d0790ead53d8921bd1cc6c1da0675c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 31/52] fix: to_dTFmp raised ValueError for a first order
 system

---
 fixif/func_aux/mp_poly_product.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..10d5361 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,9 +27,12 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
-	if j == -1:
+	if degP == 1 and j == 0:
+		# product without any factor
+		c = mp.matrix([1])
+	elif j == -1:
 		c = mp.matrix([1, p[0]])
 		for i in range(1, degP):
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-- 
2.43.0


From 693502a5d6cbcee781b20aedb8819ab7dea7b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 32/52] fix: size check of the product of two state-spaces (the
 sensitivity of MIMO realizations raised ValueError)

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 7da3ec1..31f3b7e 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -505,8 +505,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: second state space should have same number of outputs as first state number of inputs")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 8a55f98c7b2437257e4ebff1e74f1a0e3f920ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 33/52] fix: sensitivity measures used the matrices of Hu
 (wrong values, ValueError when p and q differ) and lost the imaginary part of
 the sensitivity of complex poles

---
 fixif/SIF/SIF_sensibility.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..828895a 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -10,7 +10,7 @@ __status__ = "Beta"
 
 
 from fixif.LTI import dSS
-from numpy import zeros, matrix as mat, multiply, conj, transpose, real, diag
+from numpy import zeros, eye, r_, matrix as mat, multiply, conj, transpose, real, diag
 from numpy.linalg import norm, eig, inv
 
 
@@ -75,7 +75,7 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli else complex)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
 		if moduli == 1:
@@ -112,13 +112,22 @@ class SIF_sensibility:
 	This class adds methods to compute the sensibility (wrt Z)
 	"""
 
+	def _N1N2sensitivity(self):
+		r"""Returns the matrices N1 and N2, such that $\dd{A_Z}{Z_{ij}} = M1_{.i} N1_{j.}$, $\dd{B_Z}{Z_{ij}} = M1_{.i} N2_{j.}$, etc.
+		(from the states and the inputs to the variables t, x and u, ie to what is multiplied by the coefficients Z)"""
+		N1 = r_[self._invJ * self.M, eye(self._n), zeros((self._q, self._n))]
+		N2 = r_[self._invJ * self.N, zeros((self._n, self._q)), eye(self._q)]
+		return N1, N2
+
+
 	def dTFsensitivity(self):
 		"""Compute the transfer function sensitivity measure and matrix
 		Returns
 			- M: tf sensitivity measure
 			- MX: tf sensitivity matrix
 		"""
-		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, self._N1, self._N2), self.dZ)
+		N1, N2 = self._N1N2sensitivity()
+		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, N1, N2), self.dZ)
 		#TODO: check if the object is a controller, and use M1bar, M2bar, N1bar and N2bar instead of M1, M2, N1 and N2
 
 
@@ -132,7 +141,7 @@ class SIF_sensibility:
 			- MXk: pole sensitivity matrices for each pole
 		"""
 
-		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._N1, self.Z.shape, moduli)
+		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._N1N2sensitivity()[0], self.Z.shape, moduli)
 
 		#TODO: check if the object is a controller, and then
 		# Abar, Bbar, Cbar, Dbar, M1bar, M2bar, N1bar, N2bar = calc_plantSIF(R, plant)
-- 
2.43.0


From 46653cbcbaf651f24eab9b0e4661e3d30ce08240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 34/52] fix: a transfer function whose numerator and
 denominator have different lengths was converted to another system, or
 rejected, by every realization

---
 fixif/LTI/dTF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..64ba27f 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -38,6 +38,11 @@ class dTF(object):
 		if (num.shape[0] != 1) or (den.shape[0] != 1):
 			raise ValueError('dTF: num and den should be 1D matrixes')
 
+		# same number of coefficients for the numerator and the denominator (the missing ones are null)
+		length = max(num.shape[1], den.shape[1])
+		num = mat(r_[num.A1, zeros(length - num.shape[1])])
+		den = mat(r_[den.A1, zeros(length - den.shape[1])])
+
 		# we normalize if den[0] is not equal to 1
 		if den[0, 0] == 0:
 			raise ValueError('dTF: The 1st coefficient of the denominator cannot be ZERO !')
-- 
2.43.0


From a8336f2bdb29a08812e6e441d2ce8911f427e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:35 +0000
Subject: [PATCH 35/52] fix: exact conversion of a dTFmp to state-space ignored
 the last coefficients of a longer numerator (IndexError for a shorter one)

---
 fixif/LTI/dTFmp.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 8e77294..9cd484c 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -125,11 +125,18 @@ class dTFmp(object):
 
 		from fixif.LTI import dSSmp
 
-		N = self.order + 1
+		# the missing coefficients are null (and there is at least one state)
+		N = max(self.num.rows, self.den.rows, 2)
+		num = mpmath.mp.zeros(N, 1)
+		for i in range(0, self.num.rows):
+			num[i, 0] = self.num[i, 0]
+		den = mpmath.mp.zeros(N, 1)
+		for i in range(0, self.den.rows):
+			den[i, 0] = self.den[i, 0]
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
 		for j in range(0, N - 1):
-			A[0, j] = mpmath.fneg(self.den[j + 1, 0], exact=True)
+			A[0, j] = mpmath.fneg(den[j + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
@@ -138,8 +145,8 @@ class dTFmp(object):
 		# We compute matrix C exactly
 		C = mpmath.mp.zeros(1, N - 1)
 		for i in range(0, N - 1):
-			tmp = mpmath.fmul(self.num[0, 0], self.den[i + 1, 0], exact=True)
-			C[0, i] = mpmath.fsub(self.num[i + 1, 0], tmp, exact=True)
+			tmp = mpmath.fmul(num[0, 0], den[i + 1, 0], exact=True)
+			C[0, i] = mpmath.fsub(num[i + 1, 0], tmp, exact=True)
 
 		D = mpmath.matrix([self.num[0, 0]])
 
-- 
2.43.0


From 4a21fd21976c956e9c139eeaf944f1ca570b7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:35 +0000
Subject: [PATCH 36/52] fix: product, sum and difference of transfer functions
 lost a delay when the first coefficient of a numerator is null

---
 fixif/LTI/dTF.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 64ba27f..8df64e5 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, polyadd, convolve
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
@@ -98,8 +98,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(self._num * other, self._den)
 		elif isinstance(other, dTF):
-			numer = polymul(self.num.A1, other.num.A1)
-			denom = polymul(self.den.A1, other.den.A1)
+			numer = convolve(self.num.A1, other.num.A1)
+			denom = convolve(self.den.A1, other.den.A1)
 			return dTF(numer, denom)
 		else:
 			raise ValueError("Cannot multiply a dTF with a %s", type(other))
@@ -110,8 +110,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(polyadd(self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = polyadd(convolve(self._num.A1, other.den.A1), convolve(self._den.A1, other.num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot add a dTF with a %s", type(other))
 	__radd__ = __add__  # lazy definition
@@ -121,8 +121,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(polyadd(self._num.A1, -self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), -polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = polyadd(convolve(self._num.A1, other.den.A1), -convolve(self._den.A1, other.num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot substract a dTF with a %s", type(other))
 
@@ -131,8 +131,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(polyadd(-self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = polyadd(convolve(other.num.A1, self._den.A1), -convolve(other.den.A1, self._num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 
 
-- 
2.43.0


From 5a0197c1b451857d78516f484e1678a87d519eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 37/52] fix: algorithms with surnames and without time were
 generated (with the same name for all the states) for realizations whose
 states have surnames with time

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index cccedb6..68a5044 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -116,7 +116,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From b8b17a44b406af29cfe9b2320e9b58aa324b2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 38/52] fix: import Sollya in the conversions to and from
 Sollya (NameError before)

---
 fixif/func_aux/mpf_matrix_to_sollya.py   | 1 +
 fixif/func_aux/sollya_matrix_to_numpy.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index a56658b..f4f6695 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -34,6 +34,7 @@ def mpf_matrix_to_sollya(A):
 
 	(Y, N) = mpf_matrix_get_representation(A)
 
+	import sollya
 	m = A.rows
 	n = A.cols
 	S = list()
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..5981fc5 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -18,6 +18,8 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
+
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From 75e6edfb8d2ec8ca62003ad80e9bac760fc72cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 39/52] fix: WCPGmp loads wcpg.sol from its own directory (a
 path that does not exist before), Sollya imported in simulate_rounded

---
 fixif/LTI/dSSmp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 3cf802a..3aab3d7 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -13,6 +13,7 @@ __status__ = "Beta"
 import mpmath
 import numpy
 
+from os.path import join, dirname, abspath
 from numpy.random.mtrand import randint, rand
 from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mp_poly_product, mpf_matrix_fadd, mpf_matrix_fmul, mpf_matrix_to_sollya
 from fixif.LTI import random_dSS
@@ -357,7 +358,7 @@ class dSSmp(object):
 
 		# load gabarit.sol
 		# sollya.suppressmessage(57, 174, 130, 457)
-		sollya.execute("fipogen/LTI/wcpg.sol")
+		sollya.execute(join(dirname(abspath(__file__)), "wcpg.sol"))
 
 		wcpg = sollya.parse("wcpg")
 
@@ -376,6 +377,8 @@ class dSSmp(object):
 
 	def simulate_rounded(self, u, prec=53):
 
+		import sollya
+
 		# suppose u is a mpmath matrix
 		xk = mpmath.mp.zeros(self._n, 1)
 
-- 
2.43.0


From 4ca08b8544896b98f45841635acf3b8fe10cbcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 40/52] fix: dSS.simplify changed the system (a delayed input
 was considered as an input) and did not end for a singular A without null row

---
 fixif/LTI/dSS.py | 87 ++++++++++--------------------------------------
 1 file changed, 18 insertions(+), 69 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 31f3b7e..7428a6a 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -546,81 +546,30 @@ class dSS(object):
 
 	def simplify(self):
 		"""
-		This function tries to simplify the state-space msystem.
-		It may occur that matrix A contains one or several rows that contain only zeros.
-		In this case we have that the corresponding state-space variable depends only on
-		the term B[i,:]*u(k):
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = B[i,:]*u(k)
-		...
-		y(k) = C * x(k) + D * u(k)
+		This function tries to simplify the state-space system.
+		A state i can be removed (without changing the outputs) when it is
+		- always null, ie when A[i,:] and B[i,:] contain only zeros
+		- or never used, ie when A[:,i] and C[:,i] contain only zeros
+		(and removing it may allow to remove another one)
 
-		Then, we can re-write
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = 0
-		...
-		y(k) = C * x(k) + C[:,i]*(B[i,:]*u(k)) + D * u(k)
-
-		or in matrix form:
-
-			A' is the matrix A with column i and row i deleted
-			C' is the matrix C with column i deleted
-
-			then,
-
-			x(k+1) = A' * x(k) + B * u(k)
-			y(k)   = C' * x(k) + (D + C[:, i] * B[i,:]) * u(k)
+		(A state such that only A[i,:] is null, ie xi(k+1) = B[i,:]*u(k), is a delayed input: it cannot be removed)
 
 		Returns
 		-------
-
+		the simplified state-space (the system itself if there is nothing to simplify)
 		"""
 
-
-
-
-		newS = self
-
-		while newS.n > numpy.linalg.matrix_rank(newS._A):
-			l = list()
-			for i in range(0, newS.n):
-				if numpy.count_nonzero(newS._A[i, :]) == 0:
-					l.append(i)
-
-			A = newS._A
-			B = newS._B
-			C = newS._C
-			D = newS._D
-
-
-			while len(l) > 0:
-				index = l.pop()
-
-				A = numpy.delete(A, index, 1)
-				A = numpy.delete(A, index, 0)
-
-				D = D + C[:, index] * B[index, :]
-
-				C = numpy.delete(C, index, 1)
-
-				B = numpy.delete(B, index, 0)
-
-
-			newS = dSS(A, B, C, D)
-
-			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A)))
-
-		return newS
-
-
-
-
-
-
-
-
+		keep = list(range(self.n))
+		simplified = True
+		while simplified:
+			A = self._A[numpy.ix_(keep, keep)]
+			B = self._B[keep, :]
+			C = self._C[:, keep]
+			used = [k for i, k in enumerate(keep) if (A[i, :].any() or B[i, :].any()) and (A[:, i].any() or C[:, i].any())]
+			simplified = len(used) < len(keep)
+			keep = used
+
+		return self if len(keep) == self.n else dSS(A, B, C, self._D)
 
 
 	def assert_close(self, other, eps=1e-5):
-- 
2.43.0


From a800d50d3817c2895149b4336e0f73f07163962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 41/52] fix: random_Butter gave odd orders when only even
 orders are asked (onlyEven)

---
 fixif/LTI/Butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 664a4ab..e44329b 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -109,7 +109,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
 	order = randint(*n)
-	if onlyEven and order % 2 == 0:
+	if onlyEven and order % 2 == 1:
 		order += 1
 
 	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
-- 
2.43.0


From 8e092696abd8db954880f47ef1ed7fb2f0c86106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 42/52] fix: a stop band at 0 dB lost its gain when the gain
 was shifted (Band - gain)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 7c09d78..4ef7230 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -103,7 +103,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From 7f479a60984d9eb6943a702b6e9372f2907c4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 43/52] fix: bandstop specification with two different pass
 gains designed with the first one (the check compared the first band with
 itself)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 4ef7230..b69802a 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -316,7 +316,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains[0] != pass2b.passGains[0]:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From d506ac9348cb93afd3c464fe45f9fbb70973ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 44/52] fix: margin found for a gain below a pass band was too
 large (by the width of the band: distance to the upper bound taken)

---
 fixif/LTI/Gabarit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index b69802a..ff55813 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -508,9 +508,7 @@ def findMaxIssue(res):
 				H = dict(i)["H"]
 				betaInf = dict(dict(i)["specification"])["betaInf"]
 				betaSup = dict(dict(i)["specification"])["betaSup"]
-				if sollya.inf(H) > betaSup:
-					maxError = sollya.max(maxError, sollya.sup(H) - betaSup)
-				else:
-					maxError = sollya.max(maxError, betaSup - sollya.inf(H))
+				# the gain is too high (more than betaSup) or too low (less than betaInf)
+				maxError = sollya.max(maxError, sollya.sup(H) - betaSup, betaInf - sollya.inf(H))
 
 	return maxError
-- 
2.43.0


From eb298d09a8cc6aa615f1922f2f95bad86e4a9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 45/52] fix: dJ returned the opposite of the block of dZ
 (dJtodS did not give back the realization)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9e574cd..18152f0 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -391,7 +391,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From 6d3a152c042c97dffc87e90131c26c3f64d9f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 46/52] fix: LaTeX of a state-space (l=0): number of columns of
 the empty row (n+1+q instead of n+1+p)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 18152f0..9b9d741 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -752,7 +752,7 @@ class SIF(SIF_sensibility):
 		the null element are not shown when sparse=True
 		"""
 		l, n, p, q = self.size
-		code = [] if l > 0 else [r"\&" * (l + n + p) + r"\\" + "\n"]
+		code = [] if l > 0 else [r"\&" * (l + n + q) + r"\\" + "\n"]
 		for i in range(l+n+p):
 			line = [] if l>0 else [""]
 			for j in range(l+n+q):
-- 
2.43.0


From b5f0d8a1921be54bb3ab9ceaf4700258e1e1cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 47/52] fix: nbOp counted -1 addition for a null line (one
 product or no product at all)

---
 fixif/SIF/SIF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9b9d741..af63fb9 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -696,7 +696,8 @@ class SIF(SIF_sensibility):
 		# per line, the number of addition is equal to the number of non-zero coefficients - 1
 		# for the l first SoP, we need to decrease by 1 this number (the diagonal terms of J should not be counted)
 		# number of multiplication is equal to the number of non-trivial coefficients
-		return count_nonzero(self.dZ), count_nonzero(self.Z) - self.l - (self.l+self.n+self.p)
+		# (no addition for a line without coefficient)
+		return count_nonzero(self.dZ), sum(max(count_nonzero(line) - 1, 0) for line in self.Zcomp)
 
 	def isPnut(self):
 		"""
-- 
2.43.0


From 6c5996bb17f583d6f8d1ba5c190d30db1a9d692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 48/52] fix: dZ of another size than Z was accepted

---
 fixif/SIF/SIF.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index af63fb9..649c0ec 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -254,7 +254,7 @@ class SIF(SIF_sensibility):
 			self._dZ = np.vectorize(lambda x: int(not isTrivial(x, SIF.epsilondZ)))(self._Z)
 		else:
 			dJ, dK, dL, dM, dN, dP, dQ, dR, dS = [np.matrix(X) for X in dJtodS]
-			self._dZ = np.bmat([[dJ, dM, dN], [dK, dP, dQ], [dL, dR, dS]])
+			self.dZ = np.bmat([[dJ, dM, dN], [dK, dP, dQ], [dL, dR, dS]])
 
 
 
@@ -339,7 +339,10 @@ class SIF(SIF_sensibility):
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = np.matrix(mymat)
+		mymat = np.matrix(mymat)
+		if mymat.shape != self._Z.shape:
+			raise ValueError("The matrix dZ is a %dx%d matrix, instead of being a %dx%d matrix" % (mymat.shape + self._Z.shape))
+		self._dZ = mymat
 
 
 	#  JtoS getters
-- 
2.43.0


From a8aa0e43735446b411b54ce34135533a790b3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 49/52] fix: optimalWL exceeded the error budget when a
 word-length is below its threshold w_tilde

---
 fixif/SIF/Realization_FxP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 9035418..3d9d0b6 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -177,12 +177,14 @@ class R_FxP:
 			f.write(AMPL.substitute(AMPLcode))
 
 		if self.p == 1:
-			return [ int(ceil(log2(Ei*(self.n+self.p+self.l)) - log2(eps[0,0]))) for Ei in nditer(E) ]
+			weq = [ int(ceil(log2(Ei*(self.n+self.p+self.l)) - log2(eps[0,0]))) for Ei in nditer(E) ]
 		else:
 			weq=[]
 			for j in range(self.l+self.n+self.p):
 				weq.append( int(max(ceil(log2(E[i,j]*(self.n+self.p+self.l)) - log2(eps[i,0])) for i in range(self.p)) ))
-			return weq
+
+		# a word-length lower than w_tilde needs one more bit (the MSB is then m_tilde+1)
+		return [w + 1 if w < wt else w for w, wt in zip(weq, w_tilde.A1)]
 
 
 
-- 
2.43.0


From 4245032e4fd81153ca63ca67cc3d8f7e2238d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 50/52] fix: dTFmp.to_Sollya failed (sollya not imported)

---
 fixif/LTI/dTFmp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 9cd484c..8897596 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -161,6 +161,10 @@ class dTFmp(object):
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
 		if not self._sollya:
+			try:
+				import sollya
+			except ImportError:
+				raise ImportError("Sollya and SollyaPython are required (but not installed) !")
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
 			num = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(tf_num_sollya)))
-- 
2.43.0


From 52304deade7df9241094b06cb455aaa17c35276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 51/52] fix: dTF.bode failed with matplotlib >= 3.6 (the
 argument b of grid has been renamed)

---
 fixif/LTI/dTF.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 8df64e5..4248e90 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -201,15 +201,15 @@ class dTF(object):
 		plt.subplot(2, 1, 1)
 		plt.semilogx(w, mag, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.ylabel('Magnitude (dB)')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.subplot(2, 1, 2)
 		plt.semilogx(w, phase, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.ylabel('Phase')
 		plt.xlabel('Frequency ($rad.s^{-1}$)')
-- 
2.43.0


From a71512ee389358f7c36072f20d5c936646ace85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 52/52] fix: dTF.to_dSS('obs') keeps the first coefficients of
 the numerator, also when they are smaller than 1e-14

scipy's tf2ss drops them, and the system obtained is then another one (all the coefficients of the numerator of a
narrow low-pass filter may be that small)
---
 fixif/LTI/dTF.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 4248e90..e299109 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -16,7 +16,7 @@ __status__ = "Beta"
 
 
 from fixif.WCPG import WCPG_TF
-from numpy import ndenumerate, array, linspace
+from numpy import ndenumerate, array, linspace, frexp
 from numpy import matrix as mat, polyadd, convolve
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
@@ -158,7 +158,10 @@ class dTF(object):
 			D = mat(atleast_2d(self.num[0, 0]))
 		elif form == 'obs':
 			# TODO: to it manually!!
-			A, B, C, D = tf2ss(array(self.num)[0, :], array(self.den)[0, :])
+			# (tf2ss drops the first coefficients of the numerator when they are smaller than 1e-14: the numerator is first scaled)
+			scale = 2. ** (frexp(abs(self.num).max())[1] - 1)
+			A, B, C, D = tf2ss(array(self.num)[0, :] / scale, array(self.den)[0, :])
+			C, D = C * scale, D * scale
 		else:
 			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
 
-- 
2.43.0

