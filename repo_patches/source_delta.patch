From f57923810b17a569f15cbf50d0c4a1e2c0cc3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 01/56] fix: return a new matrix from each sparse ECORR kernel
 evaluation

---
 enterprise/signals/white_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..d2577a4 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,13 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # the returned matrix is cached, so it must not be modified by later calls
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 42eeebaa14a37c81b4a12830cb29371cac064134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 02/56] fix: return a new array from each
 PhysicalEphemerisSignal delay evaluation

---
 enterprise/signals/deterministic_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..ba38fcb 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -199,9 +199,11 @@ def PhysicalEphemerisSignal(
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # the returned array is cached, so it must not be modified by later calls
+                ret = np.zeros_like(self._delay)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    ret[slc] = val
+                return ret
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From 545b310b75345f07385ece0722e6775dfa7821dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 03/56] fix: include basis parameters in the delay cache key of
 coefficient GPs

---
 enterprise/signals/gp_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..aeeca84 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -135,7 +135,7 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                return self.basis_params + [cpar.name for cpar in self._coefficients.values()]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -357,7 +357,7 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                return self.basis_params + [cpar.name for cpar in self._coefficients.values()]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From aee79cf8857c845e53d3ef407c65f15f516348be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 04/56] fix: merge overlapping cliques when inverting phi

---
 enterprise/signals/signal_base.py | 2 +-
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..fe0471b 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -602,7 +602,7 @@ class PTA(object):
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..e4fbabd 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From 979bc941ff5543558670a11df51bc7c4327ce1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 05/56] fix: skip pulsars without a basis in the common-signal
 likelihood

---
 enterprise/signals/signal_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index fe0471b..d557f62 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -216,8 +216,9 @@ class LogLikelihood(object):
         if self.pta._commonsignals:
             phiinv, logdet_phi = phiinvs
 
-            TNT = self._block_TNT(TNTs)
-            TNr = self._block_TNr(TNrs)
+            # skip pulsars that have no basis
+            TNT = self._block_TNT([TNT for TNT in TNTs if TNT is not None])
+            TNr = self._block_TNr([TNr for TNr in TNrs if TNr is not None])
 
             if self.cholesky_sparse:
                 try:
-- 
2.43.0


From 11f8214b4d86c25101d7d1303e4b9e0496e88e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 06/56] fix: sample shared hyperparameters only once in
 parameter.sample

---
 enterprise/signals/parameter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..8a4cc43 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,9 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
-            # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+        if par.name not in parvalues:
+            # sample hyperpars for this par (unless we have them already), skip parameter itself
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From 1b31d7698fb2f8eec7392d4f492c4299658cd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 07/56] fix: account for common GPs in single-pulsar
 get_coefficients

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e4fbabd..2f59090 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -207,7 +207,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From 471f37f6d7d1e7c78fa487fdaef1ca46ba3bcb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 08/56] fix: drop cached results when default parameters are
 set

---
 enterprise/signals/signal_base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d557f62..2c9735d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -62,6 +62,15 @@ def simplememobyid(method):
     return memoizedfunc
 
 
+def _clear_caches(obj):
+    """Drop everything saved by `cache_call`, as well as the
+    combined-basis layout of a ``SignalCollection``."""
+
+    for attr in list(obj.__dict__):
+        if attr.startswith("_cache_") or attr in ("_idx", "_Fmat"):
+            del obj.__dict__[attr]
+
+
 class MetaSignal(type):
     """Metaclass for Signals. Allows addition of ``Signal`` classes."""
 
@@ -122,6 +131,9 @@ class Signal(object):
 
     def set_default_params(self, params):
         """Set default parameters."""
+        # results computed with the previous values are no longer valid
+        _clear_caches(self)
+
         for kw, par in self._params.items():
             if par.name in params and isinstance(par, ConstantParameter):
                 msg = "Setting {} to {}".format(par.name, params[par.name])
@@ -872,6 +884,9 @@ def SignalCollection(metasignals):  # noqa: C901
         # set default parameters
 
         def set_default_params(self, params):
+            # results computed with the previous values are no longer valid
+            _clear_caches(self)
+
             for signal in self._signals:
                 signal.set_default_params(params)
 
-- 
2.43.0


From be253922ac966018dc812132a731032290286a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 09/56] fix: support ECORR kernels for pulsars without
 multi-TOA epochs

---
 enterprise/signals/signal_base.py   | 4 ++--
 enterprise/signals/white_signals.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 2c9735d..2d39405 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1158,9 +1158,9 @@ class BlockMatrix(object):
 
         if np.any(nvec != 0):
             s1 = set(np.arange(len(nvec)))
-            s2 = set(np.concatenate([np.arange(len(nvec))[slc] for slc in slices]))
+            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
             sd = s1.difference(s2)
-            self._idx = np.array([s for s in sd])
+            self._idx = np.array([s for s in sd], dtype=int)
 
     def __add__(self, other):
         nvec = self._nvec + other
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index d2577a4..1e64621 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -278,6 +278,9 @@ def EcorrKernelNoise(
 
         def _get_ndiag_fast_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
+            # FastShermanMorrison requires at least one epoch
+            if len(slices) == 0:
+                return signal_base.ShermanMorrison(jvec, slices)
             return fastshermanmorrison.FastShermanMorrison(jvec, slices)
 
         def _get_ndiag_block(self, params):
-- 
2.43.0


From dd8dc3829f312b10f40541deb3a65b954fd730c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 10/56] fix: preserve array dimensions in BlockMatrix.solve

---
 enterprise/signals/signal_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 2d39405..6dd0e10 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1177,6 +1177,7 @@ class BlockMatrix(object):
         """Solves :math:`Z^T N^{-1}X`, where :math:`X`
         and :math:`Z` are 1-d or 2-d arrays.
         """
+        shape = Z.shape[1:] + X.shape[1:]
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
         if Z.ndim == 1:
@@ -1199,12 +1200,13 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        return ZNX.reshape(shape) if shape else float(ZNX[0, 0])
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
         is a 1-d or 2-d array.
         """
+        shape = X.shape
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
 
@@ -1214,7 +1216,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX.reshape(shape)
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
-- 
2.43.0


From 04357107deef346e86bbb0cc0bbf92f7fded357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 11/56] fix: keep apart same-named parameters of nested
 Functions

---
 enterprise/signals/parameter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 8a4cc43..705b27d 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -501,13 +501,16 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
                 else:
                     self._defaults[kw] = arg
 
+            # collect the parameters of nested functions; we qualify their
+            # keywords, so they do not clash with ours or with one another
+            for kw, parfunc in self._funcs.items():
+                for fkw, par in parfunc._params.items():
+                    self._params["{}.{}".format(kw, fkw)] = par
         def __call__(self, *args, **kwargs):
             # we call self._func (or possibly the `func` given in kwargs)
             # by passing it args, kwargs, after augmenting kwargs (see below)
-- 
2.43.0


From 66eb80c31489b22dff3d4f827d568955c8c3c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 12/56] fix: do not override parameters of nested Functions
 with same-named outer ones

---
 enterprise/signals/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 705b27d..9c2231b 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -511,6 +511,7 @@ def Function(func, name="", **func_kwargs):
             for kw, parfunc in self._funcs.items():
                 for fkw, par in parfunc._params.items():
                     self._params["{}.{}".format(kw, fkw)] = par
+
         def __call__(self, *args, **kwargs):
             # we call self._func (or possibly the `func` given in kwargs)
             # by passing it args, kwargs, after augmenting kwargs (see below)
@@ -539,6 +540,7 @@ def Function(func, name="", **func_kwargs):
             #   them only the parameters they may care about
             # - [if the func itself has default parameters, they may yet
             #   apply if none of the above does]
+            given = dict(kwargs)
             for kw, arg in self.func_kwargs.items():
                 if kw not in kwargs:
                     if kw in self._params:
@@ -552,7 +554,7 @@ def Function(func, name="", **func_kwargs):
                         kwargs[kw] = self._defaults[kw]
                     elif kw in self._funcs:
                         f = self._funcs[kw]
-                        fargs = {par: val for par, val in kwargs.items() if par in f.func_kwargs}
+                        fargs = {par: val for par, val in given.items() if par in f.func_kwargs}
                         fargs["params"] = params
                         kwargs[kw] = f(**fargs)
 
-- 
2.43.0


From ed5fa4885868d82a69c0ff4fd2fd1fee17dd473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 13/56] fix: keep combined basis columns distinct from those of
 other signals

---
 enterprise/signals/signal_base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 6dd0e10..46f54cd 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -900,7 +900,7 @@ def SignalCollection(metasignals):  # noqa: C901
             matrix to save computations when calling `get_basis` later.
             """
 
-            idx, hashlist, cc, nrow = {}, [], 0, None
+            idx, hashcols, cc, nrow = {}, {}, 0, None
             for signal in signals:
                 Fmat = signal.get_basis()
 
@@ -913,18 +913,17 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            if signal.basis_combine and hashcols.get(colhash, cc) not in idx[signal] + [cc]:
                                 # if we're combining the basis for this signal
-                                # and we have seen this column already, make a note
-                                # of where it was
+                                # and we have seen this column already (but not in
+                                # this same signal), make a note of where it was
 
-                                j = hashlist.index(colhash)
-                                idx[signal].append(j)
+                                idx[signal].append(hashcols[colhash])
                             else:
                                 # if we're not combining or we haven't seen it already
                                 # save the hash and make a note it's new
 
-                                hashlist.append(colhash)
+                                hashcols.setdefault(colhash, cc)
                                 idx[signal].append(cc)
                                 cc += 1
                     elif signal.basis_params:
-- 
2.43.0


From b786b9dca7d36c5fe889a0f8e6291b23b51081cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 14/56] fix: write only the diagonal when adding vectors to a
 dense KernelMatrix slice

---
 enterprise/signals/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 2f59090..d00d944 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -259,12 +259,12 @@ class KernelMatrix(np.ndarray):
         if self.ndim == 1:
             self[idx] += other
         else:
+            idx = np.arange(self.shape[0])[idx]
             if other.ndim == 1:
                 self[idx, idx] += other
             else:
                 self._setcliques(idx)
-                idx = (idx, idx) if isinstance(idx, slice) else (idx[:, None], idx)
-                self[idx] += other
+                self[idx[:, None], idx] += other
 
         return self
 
@@ -275,12 +275,12 @@ class KernelMatrix(np.ndarray):
         if self.ndim == 1:
             self[idx] = other
         else:
+            idx = np.arange(self.shape[0])[idx]
             if other.ndim == 1:
                 self[idx, idx] = other
             else:
                 self._setcliques(idx)
-                idx = (idx, idx) if isinstance(idx, slice) else (idx[:, None], idx)
-                self[idx] = other
+                self[idx[:, None], idx] = other
 
         return self
 
-- 
2.43.0


From 39534a8fcc17e24b0d92ee0383efbe197f7c011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 15/56] fix: return a new KernelMatrix from each
 BasisGP.get_phi call

---
 enterprise/signals/gp_signals.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index aeeca84..9d6c19a 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -102,9 +102,6 @@ def BasisGP(
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
 
-            # TODO: should this be defined here? it will cache phi
-            self._phi = KernelMatrix(nc)
-
             self._slices = {}
             nctot = 0
             for key, mask in zip(self._keys, self._masks):
@@ -174,10 +171,11 @@ def BasisGP(
             def get_phi(self, params):
                 self._construct_basis(params)
 
+                phi = KernelMatrix(self._basis.shape[1])
                 for key, slc in self._slices.items():
                     phislc = self._prior[key](self._labels[key], params=params)
-                    self._phi = self._phi.set(phislc, slc)
-                return self._phi
+                    phi = phi.set(phislc, slc)
+                return phi
 
             def get_phiinv(self, params):
                 return self.get_phi(params).inv()
-- 
2.43.0


From b58884801453bd3bfa52637218edc63558b7288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 16/56] fix: count the phi diagonal once with several common
 signals in partition inverse

---
 enterprise/signals/signal_base.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 46f54cd..5865c4c 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -477,8 +477,20 @@ class PTA(object):
             # this will only work if all common signals are shared among all
             # the pulsars and share the same basis
             invert = None
+            shared = None
 
             for csclass, csdict in self._commonsignals.items():
+                columns = [(csc, csc._idx[cs]) for cs, csc in csdict.items()]
+                shared = columns if shared is None else shared
+
+                if len(columns) != len(shared) or not all(
+                    c1 is c2 and np.array_equal(i1, i2) for (c1, i1), (c2, i2) in zip(columns, shared)
+                ):
+                    raise NotImplementedError(
+                        "get_phiinv with method='partition' requires that all common "
+                        "signals share the same pulsars and the same basis."
+                    )
+
                 for i, (cs1, csc1) in enumerate(csdict.items()):
                     for j, (cs2, csc2) in enumerate(csdict.items()):
                         if j <= i:
@@ -498,10 +510,18 @@ class PTA(object):
                         invert[:, i, j] += crossdiag
                         invert[:, j, i] += crossdiag
 
-                    invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
+            # the diagonal includes all signals, so we need it only once
+            for i, (csc, idx) in enumerate(shared):
+                phi = phivecs[self._signalcollections.index(csc)]
+                if phi.ndim == 2 and np.count_nonzero(phi[idx]) > len(idx):
+                    raise NotImplementedError(
+                        "get_phiinv with method='partition' does not " "support dense phi matrices."
+                    )
 
-                    if logdet:
-                        ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))
+                invert[:, i, i] += phidiag[slices[csc]][idx]
+
+                if logdet:
+                    ld -= np.sum(np.log(phidiag[slices[csc]][idx]))
 
             for k in range(len(crossdiag)):
                 cf = sl.cho_factor(invert[k, :, :])
-- 
2.43.0


From 7c152daee8164377e201d408b8c910f75f398a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 17/56] fix: allow MarginalizingTimingModel after ECORR kernels
 in a sum of signals

---
 enterprise/signals/gp_signals.py  | 3 +++
 enterprise/signals/signal_base.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 9d6c19a..6445964 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -818,6 +818,9 @@ def MarginalizingTimingModel(name="marginalizing_linear_timing_model", use_svd=F
 
 
 class MarginalizingNmat(object):
+    # see SignalCollection.get_ndiag
+    wraps_kernels = True
+
     def __init__(self, Mmat, Nmat=0):
         self.Mmat, self.Nmat = Mmat, Nmat
         self.Mprior = Mmat.shape[1] * np.log(1e40)
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5865c4c..5651678 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -968,7 +968,9 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
-            return sum(ndiag for ndiag in ndiags if ndiag is not None)
+            ndiags = [ndiag for ndiag in ndiags if ndiag is not None]
+            # kernels that wrap all others need to be on the left of the sum
+            return sum(sorted(ndiags, key=lambda ndiag: not getattr(ndiag, "wraps_kernels", False)))
 
         @cache_call("delay_params")
         def get_delay(self, params):
-- 
2.43.0


From 63c353dab223c08d6f9666fa9823ad0f2115d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 18/56] fix: refer to FeatherPulsar when saving pulsars to
 feather files

---
 enterprise/pulsar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..7404a29 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -731,8 +731,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
+        pydict["toas"] = pydict["toas"].astype(float)
 
         pydict.update(
             {
@@ -754,9 +754,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From fc13f58f178c5738688fe13c0dba4e30a1f485fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 19/56] fix: apply filter_data to all time-dependent pulsar
 data

---
 enterprise/pulsar.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 7404a29..2cb6144 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,19 +137,24 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask = np.logical_and(mask, self._toas >= start_time * 86400)
+        if end_time is not None:
+            mask = np.logical_and(mask, self._toas <= end_time * 86400)
 
         self._toas = self._toas[mask]
+        self._stoas = self._stoas[mask]
         self._toaerrs = self._toaerrs[mask]
         self._residuals = self._residuals[mask]
         self._ssbfreqs = self._ssbfreqs[mask]
+        self._telescope = self._telescope[mask]
+        self._pos_t = self._pos_t[mask, :]
 
         self._designmatrix = self._designmatrix[mask, :]
         dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
@@ -158,7 +163,10 @@ class BasePulsar(object):
                 self._flags[key] = self._flags[key][mask]
 
         if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
+            self._planetssb = self._planetssb[mask, :, :]
+
+        if self._sunssb is not None:
+            self._sunssb = self._sunssb[mask, :]
 
         self.sort_data()
 
-- 
2.43.0


From cfc3e3aecaaf1f3e25305a35c0a99d7e76912272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 20/56] fix: do not truncate backend flags built from fe and be
 flags

---
 enterprise/pulsar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 2cb6144..0b52d69 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -287,7 +287,8 @@ class BasePulsar(object):
         # setting or replacing values for each TOA
 
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            febe = np.array([(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])])
+            ret = febe.astype(np.promote_types(ret.dtype, febe.dtype))
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-- 
2.43.0


From 6d7b9a916a70a0fcebdfdc8dd52c5d3e7bd66c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 21/56] fix: keep shared pulsar arrays alive when a process
 that inflated them ends

---
 enterprise/pulsar_inflate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..b842efe 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -50,6 +50,10 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
+        # attaching also registers the memory, which would then be
+        # unlinked when this process ends
+        resource_tracker.unregister(shm._name, "shared_memory")
+
         c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
         c.shm = shm
 
-- 
2.43.0


From fb05da2342b0018a036d98df85519f548025ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 22/56] fix: count TOA lines next to INCLUDE statements in
 get_maxobs

---
 enterprise/pulsar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 0b52d69..acca8d2 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -60,11 +60,11 @@ def get_maxobs(timfile):
     with open(timfile) as tfile:
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
-        if any(["INCLUDE" in ln for ln in lines]):
-            for line in [ln for ln in lines if "INCLUDE" in ln]:
+        for line in lines:
+            if "INCLUDE" in line:
                 maxobs += get_maxobs(line.split()[-1])
-        else:
-            maxobs = sum(1 for line in lines if line.rstrip("\n"))
+            elif line.rstrip("\n"):
+                maxobs += 1
     return maxobs
 
 
-- 
2.43.0


From 808171ae84073a77a983e9a53a959c650ca740b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 23/56] fix: signals whose selection or basis is empty for a
 pulsar crash the likelihood

White noise and basis GPs with a selection that matches no TOAs of a pulsar,
and basis signals without columns (such as ECORR without multi-TOA epochs),
raised exceptions instead of contributing nothing.
---
 enterprise/signals/gp_signals.py    | 3 ++-
 enterprise/signals/signal_base.py   | 7 ++++---
 enterprise/signals/white_signals.py | 4 +++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 6445964..9af0a4e 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -48,6 +48,7 @@ def BasisGP(
 
             self._keys = sorted(sel.masks.keys())
             self._masks = [sel.masks[key] for key in self._keys]
+            self._ntoas = len(psr.toas)
             self._prior, self._bases = {}, {}
             self._params, self._coefficients = {}, {}
 
@@ -100,7 +101,7 @@ def BasisGP(
                 basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
 
             nc = sum(F.shape[1] for F in basis.values())
-            self._basis = np.zeros((len(self._masks[0]), nc))
+            self._basis = np.zeros((self._ntoas, nc))
 
             self._slices = {}
             nctot = 0
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5651678..84b8556 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -951,11 +951,12 @@ def SignalCollection(metasignals):  # noqa: C901
                         idx[signal] = list(range(cc, cc + nf))
                         cc += nf
 
-            if not idx:
+            # signals may have no columns at all, e.g., if there are no TOAs in their selection
+            ncol = len(np.unique(sum(idx.values(), [])))
+            if ncol == 0:
                 return {}, None
             else:
-                ncol = len(np.unique(sum(idx.values(), [])))
-                return ({key: np.array(idx[key]) for key in idx.keys()}, np.zeros((nrow, ncol)))
+                return ({key: np.array(idx[key], dtype=int) for key in idx.keys()}, np.zeros((nrow, ncol)))
 
         # goofy way to cache _idx
         def __getattr__(self, par):
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 1e64621..1782b3d 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -42,6 +42,7 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
             sel = selection(psr)
             self._keys = sorted(sel.masks.keys())
             self._masks = [sel.masks[key] for key in self._keys]
+            self._ntoas = len(psr.toas)
             self._ndiag, self._params = {}, {}
             for key, mask in zip(self._keys, self._masks):
                 pnames = [psr.name, name, key]
@@ -57,7 +58,8 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
 
         @signal_base.cache_call("ndiag_params")
         def get_ndiag(self, params):
-            ret = 0
+            # the selection may match no TOAs of this pulsar
+            ret = np.zeros(self._ntoas)
             for key, mask in zip(self._keys, self._masks):
                 ret += self._ndiag[key](params=params) * mask
             return signal_base.ndarray_alt(ret)
-- 
2.43.0


From 2f541a4c5f7ec88399ce170883fbcec1815b746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 24/56] fix: get_phiinv with method='partition' and dense
 priors failed without logdet

Without logdet, the first row of the inverse was taken for the inverse.
---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 84b8556..1815bd4 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -462,7 +462,7 @@ class PTA(object):
             # TODO: This is messy, maybe we should clean up
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
-                phiinvs = [phivec.inv(logdet) for phivec in phis]
+                phiinvs = [phivec.inv(logdet=True) for phivec in phis]
                 phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
                 phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
-- 
2.43.0


From 4e04187e332f95ed387b98302647a4203bf2e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 25/56] fix: EcorrKernelNoise crashes if its selection matches
 no TOAs of a pulsar

---
 enterprise/signals/white_signals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 1782b3d..999c14e 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -295,8 +295,10 @@ def EcorrKernelNoise(
 
         def _get_jvecs(self, params):
             idxs = sum([self._idxs[key] for key in sorted(self._idxs.keys())], [])
+            # the selection may match no TOAs of this pulsar
             jvec = np.concatenate(
-                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
+                [np.zeros(0)]
+                + [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
             )
             return (idxs, jvec)
 
-- 
2.43.0


From 431302446df204d92c976889eaa117242d1ae0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 26/56] fix: drop cached results of all signals that share a
 constant when its default is set

---
 enterprise/signals/signal_base.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 1815bd4..d949555 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -62,13 +62,21 @@ def simplememobyid(method):
     return memoizedfunc
 
 
-def _clear_caches(obj):
-    """Drop everything saved by `cache_call`, as well as the
-    combined-basis layout of a ``SignalCollection``."""
+# incremented whenever default parameters are set: since constants can be shared
+# among signals and pulsars, no result saved before is valid afterwards
+_defaults_count = 0
 
-    for attr in list(obj.__dict__):
-        if attr.startswith("_cache_") or attr in ("_idx", "_Fmat"):
-            del obj.__dict__[attr]
+
+def _check_caches(obj):
+    """Drop everything saved by `cache_call`, as well as the combined-basis
+    layout of a ``SignalCollection``, if defaults were set since."""
+
+    if obj.__dict__.get("_cache_defaults_count", 0) != _defaults_count:
+        for attr in list(obj.__dict__):
+            if attr.startswith("_cache_") or attr in ("_idx", "_Fmat"):
+                del obj.__dict__[attr]
+
+        obj._cache_defaults_count = _defaults_count
 
 
 class MetaSignal(type):
@@ -132,7 +140,8 @@ class Signal(object):
     def set_default_params(self, params):
         """Set default parameters."""
         # results computed with the previous values are no longer valid
-        _clear_caches(self)
+        global _defaults_count
+        _defaults_count += 1
 
         for kw, par in self._params.items():
             if par.name in params and isinstance(par, ConstantParameter):
@@ -904,9 +913,6 @@ def SignalCollection(metasignals):  # noqa: C901
         # set default parameters
 
         def set_default_params(self, params):
-            # results computed with the previous values are no longer valid
-            _clear_caches(self)
-
             for signal in self._signals:
                 signal.set_default_params(params)
 
@@ -1003,6 +1009,8 @@ def SignalCollection(metasignals):  # noqa: C901
 
         # returns a KernelMatrix object
         def get_phi(self, params):
+            _check_caches(self)
+
             if self._Fmat is None:
                 return None
 
@@ -1064,6 +1072,7 @@ def cache_call(attrs, limit=2):
 
     def cache_decorator(func):
         def wrapper(self, params={}):
+            _check_caches(self)
 
             # get the relevant parameters to be cached
             keys = sum([getattr(self, attr) for attr in attrs], [])
-- 
2.43.0


From 306681dc36b2e357bbee62378b403c90304059d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 27/56] fix: use transformed hyperparameters in
 PTA.get_hypercube_transform

---
 enterprise/signals/signal_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d949555..1976068 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -738,7 +738,12 @@ class PTA(object):
         # map parameter vector if needed
         params = params if isinstance(params, dict) else self.map_params(params)
 
-        return np.hstack([p.get_ppf(params=params) for p in self.params])
+        # start with hyperparameters, whose values (not quantiles) enter in the priors of other parameters
+        point = {}
+        for p in sorted(self.params, key=lambda par: len(par.params)):
+            point[p.name] = p.get_ppf(value=params[p.name], params=point)
+
+        return np.hstack([point[p.name] for p in self.params])
 
     def _set_signal_dict(self):
         """Set signal dictionary"""
-- 
2.43.0


From 4f974f43d31ff30c4d9a339eae4ecc16ca5812a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 28/56] fix: resample truncated normals with scalar and vector
 hyperparameters mixed

---
 enterprise/signals/parameter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 9c2231b..a880200 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -319,12 +319,11 @@ def TruncNormalSampler(mu, sigma, pmin, pmax, norm=None, size=None):
     """
     samp = np.random.normal(mu, sigma, size)
     if isinstance(samp, np.ndarray):
+        # mu and sigma may be scalars or vectors, independently of each other
+        mu, sigma = np.broadcast_to(mu, samp.shape), np.broadcast_to(sigma, samp.shape)
         mask = np.logical_or(samp > pmax, samp < pmin)
         while np.any(mask):
-            if isinstance(mu, np.ndarray):
-                samp[mask] = np.random.normal(mu[mask], sigma[mask], size=sum(mask))
-            else:
-                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
+            samp[mask] = np.random.normal(mu[mask], sigma[mask])
             mask = np.logical_or(samp > pmax, samp < pmin)
     else:
         while samp > pmax or samp < pmin:
-- 
2.43.0


From d22d426c75fc42c55bacd8aba21c6d4135804afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 29/56] fix: create_quantization_matrix fails for an empty set
 of TOAs

---
 enterprise/signals/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d00d944..991c83a 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -761,11 +761,12 @@ def create_quantization_matrix(toas, dt=1, nmin=2):
     """Create quantization matrix mapping TOAs to observing epochs."""
     isort = np.argsort(toas)
 
-    bucket_ref = [toas[isort[0]]]
-    bucket_ind = [[isort[0]]]
+    bucket_ref = []
+    bucket_ind = []
 
-    for i in isort[1:]:
-        if toas[i] - bucket_ref[-1] < dt:
+    # there may be no TOAs at all (empty selection)
+    for i in isort:
+        if bucket_ref and toas[i] - bucket_ref[-1] < dt:
             bucket_ind[-1].append(i)
         else:
             bucket_ref.append(toas[i])
-- 
2.43.0


From a26912003a7d35849a5632433a105c80f52751a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 30/56] fix: add ECORR kernels to white noise with zero entries
 in any order

---
 enterprise/signals/signal_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 1976068..f29e69d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1167,6 +1167,10 @@ class ndarray_alt(np.ndarray):
         return obj
 
     def __add__(self, other):
+        # kernels know how to add an array, numpy would add them to each of its elements
+        if hasattr(other, "solve") and not isinstance(other, np.ndarray):
+            return other + self
+
         try:
             ret = super(ndarray_alt, self).__add__(other)
         except:
-- 
2.43.0


From 6da52a72f0d8f68377e3675116bc154b87609552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:04 +0000
Subject: [PATCH 31/56] fix: skip pulsars and signals without a basis in
 conditional coefficients

---
 enterprise/signals/utils.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 991c83a..bfe3ded 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -48,8 +48,9 @@ class ConditionalGP:
         self.tm_params = tm_params
 
     def _make_conditional(self, params):
-        TNrs = self.pta.get_TNr(params)
-        TNTs = self.pta.get_TNT(params)
+        # pulsars without a basis have no coefficients
+        TNrs = [TNr for TNr in self.pta.get_TNr(params) if TNr is not None]
+        TNTs = [TNT for TNT in self.pta.get_TNT(params) if TNT is not None]
         phiinvs = self.pta.get_phiinv(params, logdet=False, method=self.phiinv_method)
 
         # TO DO: all this could be more efficient
@@ -64,7 +65,7 @@ class ConditionalGP:
             return ch, mn
         else:
             mns, chs = [], []
-            for TNr, TNT, phiinv in zip(TNrs, TNTs, phiinvs):
+            for TNr, TNT, phiinv in zip(TNrs, TNTs, [phiinv for phiinv in phiinvs if phiinv is not None]):
                 Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
                 ch = sl.cho_factor(Sigma, lower=True)
@@ -98,6 +99,9 @@ class ConditionalGP:
                         continue
 
                     sb = sig.get_basis(params=params)
+                    if sb is None:
+                        continue
+
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -147,6 +151,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # pulsars without a basis have no coefficients
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -169,7 +177,11 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            continue
+
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -189,6 +201,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            # pulsars without a basis have no coefficients
+            if d is None:
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
@@ -208,7 +224,11 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            continue
+
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From 555f11b8ea169ac5b6852ca51adfacedc980d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 32/56] fix: undo the permutation of the sparse factor in
 get_coefficients draws

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index bfe3ded..d2c7750 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -161,7 +161,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # the factor is that of the permuted matrix
+            Li = ch.apply_Pt(ch.solve_Lt(np.eye(len(TNr)), use_LDLt_decomposition=False))
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From 9f308a2dd7d3f6263e2de447447d8005f62957f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 33/56] fix: drop only all-zero design matrix columns in
 filter_data

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index acca8d2..e765a9b 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -152,7 +152,7 @@ class BasePulsar(object):
         self._pos_t = self._pos_t[mask, :]
 
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
         self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
 
-- 
2.43.0


From db0c33882f5b04f7bf716fc0d53e2f81a5b26505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 34/56] fix: allow pulsars without string flags in
 backend_flags

---
 enterprise/pulsar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index e765a9b..4c22b1b 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -280,8 +280,9 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
-        # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        # allocate array with widest string dtype (there may be no flags, or numerical ones)
+        dtypes = [self._flags[name].dtype for name in flagnames if self._flags[name].dtype.kind in "SU"]
+        ret = np.zeros(len(self._toas), dtype=max(dtypes, default=np.dtype("U1")))
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
-- 
2.43.0


From 9ce0404c10a13b4028c07cd19d546631a6c4e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 35/56] fix: deflate pulsars with empty arrays

---
 enterprise/pulsar_inflate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index b842efe..18e5560 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -37,7 +37,8 @@ class PulsarInflater:
     def __init__(self, array):
         self.dtype, self.shape, self.nbytes = array.dtype, array.shape, array.nbytes
 
-        shm = shared_memory.SharedMemory(create=True, size=array.nbytes)
+        # shared memory cannot be empty, but arrays can (e.g., flags if there are none)
+        shm = shared_memory.SharedMemory(create=True, size=max(array.nbytes, 1))
         self.shmname = shm.name
 
         # shm.buf[:array.nbytes] = array.view(dtype='uint8').flatten()
-- 
2.43.0


From d14b9903ae8202bc93b23e88032401c1959f1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 36/56] fix: keep fit and set parameters in feather files

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 4c22b1b..b048fe0 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -678,7 +678,7 @@ class FeatherPulsar:
     vector_columns = ["Mmat", "sunssb", "pos_t"]
     tensor_columns = ["planetssb"]
     # flags are done separately
-    metadata = ["name", "dm", "dmx", "pdist", "pos", "phi", "theta"]
+    metadata = ["name", "dm", "dmx", "pdist", "pos", "phi", "theta", "fitpars", "setpars"]
     # notes: currently ignores _isort/__isort and gets sorted versions
 
     def __init__(self):
-- 
2.43.0


From 0a703de408d891121a0dc0c4e1722d760d0215b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 37/56] fix: keep the type of numerical flags in feather files

---
 enterprise/pulsar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index b048fe0..d6d6912 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -721,7 +721,8 @@ class FeatherPulsar:
 
         self.flags = {}
         for array in [c for c in f.column_names if c.startswith("flags_")]:
-            self.flags["_".join(array.split("_")[1:])] = f[array].to_numpy().astype("U")
+            flag = f[array].to_numpy()
+            self.flags["_".join(array.split("_")[1:])] = flag.astype("U") if flag.dtype == object else flag
 
         meta = json.loads(f.schema.metadata[b"json"])
         for attr in FeatherPulsar.metadata:
-- 
2.43.0


From 278653c84614dd663220a3676569bdacd39a6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 38/56] fix: save noise parameters given as numpy scalars and
 arrays to feather files

---
 enterprise/pulsar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index d6d6912..306dee3 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -739,7 +739,7 @@ class FeatherPulsar:
         return self
 
     def to_list(a):
-        return a.tolist() if isinstance(a, np.ndarray) else a
+        return a.tolist() if isinstance(a, (np.ndarray, np.generic)) else a
 
     def save_feather(self, filename, noisedict=None):
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
@@ -775,7 +775,9 @@ class FeatherPulsar:
         noisedict = getattr(self, "noisedict", None) if noisedict is None else noisedict
         if noisedict:
             # only keep noisedict entries that are for this pulsar (requires pulsar name to be first part of the key!)
-            meta["noisedict"] = {par: val for par, val in noisedict.items() if par.startswith(self.name)}
+            meta["noisedict"] = {
+                par: FeatherPulsar.to_list(val) for par, val in noisedict.items() if par.startswith(self.name)
+            }
 
         feather.write_feather(Table.from_pydict(pydict, metadata={"json": json.dumps(meta)}), filename)
 
-- 
2.43.0


From 7b148d415997c2651c8cc0a7d8bfcc4c796ca816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 39/56] fix: save pulsars without planet positions to feather
 files

---
 enterprise/pulsar.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 306dee3..1ba4321 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -320,12 +320,12 @@ class BasePulsar(object):
     @property
     def planetssb(self):
         """Return planetary position vectors at all timestamps"""
-        return self._planetssb[self._isort, :, :]
+        return None if self._planetssb is None else self._planetssb[self._isort, :, :]
 
     @property
     def sunssb(self):
         """Return sun position vector at all timestamps"""
-        return self._sunssb[self._isort, :]
+        return None if self._sunssb is None else self._sunssb[self._isort, :]
 
     @property
     def telescope(self):
@@ -708,16 +708,14 @@ class FeatherPulsar:
 
         for array in FeatherPulsar.vector_columns:
             cols = [c for c in f.column_names if c.startswith(array)]
-            setattr(self, array, np.array([f[col].to_numpy() for col in cols]).swapaxes(0, 1).copy())
+            vectors = np.array([f[col].to_numpy() for col in cols]).swapaxes(0, 1).copy() if cols else None
+            setattr(self, array, vectors)
 
         for array in FeatherPulsar.tensor_columns:
             rows = sorted(set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)]))
             cols = [[c for c in f.column_names if c.startswith(row)] for row in rows]
-            setattr(
-                self,
-                array,
-                np.array([[f[col].to_numpy() for col in row] for row in cols]).swapaxes(0, 2).swapaxes(1, 2).copy(),
-            )
+            tensors = np.array([[f[col].to_numpy() for col in row] for row in cols])
+            setattr(self, array, tensors.swapaxes(0, 2).swapaxes(1, 2).copy() if rows else None)
 
         self.flags = {}
         for array in [c for c in f.column_names if c.startswith("flags_")]:
@@ -749,6 +747,7 @@ class FeatherPulsar:
             {
                 f"{array}_{i}": getattr(self, array)[:, i]
                 for array in FeatherPulsar.vector_columns
+                if getattr(self, array) is not None
                 for i in range(getattr(self, array).shape[1])
             }
         )
@@ -757,6 +756,7 @@ class FeatherPulsar:
             {
                 f"{array}_{i}_{j}": getattr(self, array)[:, i, j]
                 for array in FeatherPulsar.tensor_columns
+                if getattr(self, array) is not None
                 for i in range(getattr(self, array).shape[1])
                 for j in range(getattr(self, array).shape[2])
             }
-- 
2.43.0


From f7f8529cdbfcca6568568b57d45289aa84a11aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 40/56] fix: find the par file when the tim file is in a
 symlinked directory

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 1ba4321..e498259 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -825,7 +825,7 @@ def Pulsar(*args, **kwargs):
         timfiletup = os.path.split(timfile[0])
         dirname = timfiletup[0] or "./"
         reltimfile = timfiletup[-1]
-        relparfile = os.path.relpath(parfile[0], dirname)
+        relparfile = os.path.relpath(os.path.realpath(parfile[0]), os.path.realpath(dirname))
 
         if timing_package is None:
             if t2 is not None:
-- 
2.43.0


From 04648149f26e077a0ff0f6be66368ac0268166fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 41/56] fix: count observations whose flags mention INCLUDE

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index e498259..1e083e4 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -61,7 +61,7 @@ def get_maxobs(timfile):
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
         for line in lines:
-            if "INCLUDE" in line:
+            if line.split()[:1] == ["INCLUDE"]:
                 maxobs += get_maxobs(line.split()[-1])
             elif line.rstrip("\n"):
                 maxobs += 1
-- 
2.43.0


From ffad7ed3fba2d677e5e4d2d563e907e14c49e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 42/56] fix: DMX parameters that are not fitted were recorded
 as fitted (tempo2)

---
 enterprise/pulsar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 1e083e4..afb9a75 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -563,6 +563,7 @@ class Tempo2Pulsar(BasePulsar):
     # gather DM/DMX information if available
     def _set_dm(self, t2pulsar):
         pars = t2pulsar.pars(which="set")
+        fitpars = t2pulsar.pars(which="fit")
 
         if "DM" in pars:
             self._dm = float(t2pulsar["DM"].val)
@@ -573,7 +574,7 @@ class Tempo2Pulsar(BasePulsar):
                 "DMXerr": float(t2pulsar[par].err),
                 "DMXR1": float(t2pulsar[par[:3] + "R1" + par[3:]].val),
                 "DMXR2": float(t2pulsar[par[:3] + "R2" + par[3:]].val),
-                "fit": par in pars,
+                "fit": par in fitpars,
             }
             for par in pars
             if "DMX_" in par
-- 
2.43.0


From 00358d2ec6ec1142fea4fe89fca6b4a2535e3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 43/56] fix: wideband timing model accepted TOAs outside all
 DMX intervals if others were in two

---
 enterprise/signals/gp_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 9af0a4e..fcbe838 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -626,7 +626,7 @@ def WidebandTimingModel(
 
                 check += self._dmwhich[-1]
 
-            if np.sum(check) != self._ntoas:
+            if np.any(check != 1):
                 raise ValueError("WidebandTimingModel: cannot account for all TOAs in DMX intervals.")
 
             if "DM" in psr.fitpars:
-- 
2.43.0


From 2f9e051b872c74ad1174bc916fc7c8870380064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 44/56] fix: pulsar model + array of models built an unusable
 array

---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f29e69d..bceefcb 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -837,7 +837,10 @@ def SignalCollection(metasignals):  # noqa: C901
             self._set_cache_parameters()
 
         def __add__(self, other):
-            return PTA([self, other])
+            if isinstance(other, PTA):
+                return PTA([self] + other._signalcollections, lnlikelihood=other.lnlikelihood)
+            else:
+                return PTA([self, other])
 
         # TODO: this could be implemented more cleanly
         def _set_cache_parameters(self):
-- 
2.43.0


From e77c98cc534dfbaf57928507fd3af35c96064b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 45/56] fix: epoch-averaged ephemeris delay was wrong for
 pulsars whose TOAs are not sorted

---
 enterprise/signals/deterministic_signals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index ba38fcb..0246822 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -178,16 +178,20 @@ def PhysicalEphemerisSignal(
                 avetoas = np.array([psr.toas[sc].mean() for sc in self._uinds])
                 self._avetoas = avetoas
 
+                # np.interp needs increasing times
+                isort = np.argsort(psr.toas)
+                toas = psr.toas[isort]
+
                 # interpolate ssb planet position vectors to avetoas
                 planetssb = np.zeros((len(avetoas), 9, 3))
                 for jj in range(9):
                     planetssb[:, jj, :] = np.array(
-                        [np.interp(avetoas, psr.toas, psr.planetssb[:, jj, aa]) for aa in range(3)]
+                        [np.interp(avetoas, toas, psr.planetssb[isort, jj, aa]) for aa in range(3)]
                     ).T
                 self._planetssb = planetssb
 
                 # Interpolating the pulsar position vectors onto epoch TOAs
-                pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
+                pos_t = np.array([np.interp(avetoas, toas, psr.pos_t[isort, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
             # initialize delay
-- 
2.43.0


From 0908389a5c08648d16a964474eae803655f7b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 46/56] fix: accept a list of modes in
 createfourierdesignmatrix_red

---
 enterprise/signals/gp_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..bff45b1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -49,7 +49,7 @@ def createfourierdesignmatrix_red(
     # define sampling frequencies
     if modes is not None:
         nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From fb2674b88138081443b324a38846c0cf36604f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 47/56] fix: hd_orf was not a number for nearly identical
 positions

---
 enterprise/signals/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d2c7750..5dc0d3c 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -870,8 +870,9 @@ def hd_orf(pos1, pos2):
     if np.all(pos1 == pos2):
         return 1
     else:
-        omc2 = (1 - np.dot(pos1, pos2)) / 2
-        return 1.5 * omc2 * np.log(omc2) - 0.25 * omc2 + 0.5
+        # rounding can make this zero or negative for nearly identical positions
+        omc2 = max((1 - np.dot(pos1, pos2)) / 2, 0)
+        return 1.5 * ss.xlogy(omc2, omc2) - 0.25 * omc2 + 0.5
 
 
 @function
-- 
2.43.0


From df6962c2d11994fb76e37b4b3ba4eec509e35756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 48/56] fix: use the equinox of 1950 only for pulsars with B
 names

Names of globular cluster pulsars such as J0024-7204B contain a B as well.
---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index afb9a75..fc6a83e 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -97,7 +97,7 @@ class BasePulsar(object):
             ec = Ecliptic(elong, elat)
 
             # check for B name
-            if "B" in self.name:
+            if self.name.startswith("B"):
                 epoch = "1950"
             else:
                 epoch = "2000"
-- 
2.43.0


From cd18cd86c31eaf4a4a461c8c62909dcdaea4b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 49/56] fix: PTA.summary failed for Gaussian processes with
 explicit coefficients

The basis of such a signal is used in its delay: get_basis() is None.
---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index bceefcb..ec5b9c7 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -798,7 +798,10 @@ class PTA(object):
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
-                    summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(sig.get_basis().shape))
+                    # the basis of a GP with explicit coefficients is evaluated in its delay
+                    basis = sig.get_basis()
+                    if basis is not None:
+                        summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(basis.shape))
                     summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
                 if include_params:
                     summary += "\n"
-- 
2.43.0


From 98ccb0c5beec6f243e0879812c1a982737e5a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 50/56] fix: PTA.summary counted shared parameters once per
 signal

Constants and common parameters that appear in several signals or pulsars
were counted repeatedly, so that the total disagreed with the number of
parameters there are; and no constant was counted unless the list of
parameters was included.
---
 enterprise/signals/signal_base.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ec5b9c7..7f09848 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -789,12 +789,12 @@ class PTA(object):
         row = ["Signal Name", "Signal Class", "no. Parameters"]
         summary += "{: <40} {: <30} {: <20}\n".format(*row)
         summary += "=" * 90 + "\n"
-        cpcount, copcount = 0, 0
+        # parameters shared among signals or pulsars count once
+        common, fixed = set(), set()
         for sc in self._signalcollections:
             for sig in sc._signals:
-                for p in sig.param_names:
-                    if sc.psrname not in p:
-                        cpcount += 1
+                common.update(p for p in sig.param_names if sc.psrname not in p)
+                fixed.update(par.name for par in sig._params.values() if isinstance(par, ConstantParameter))
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
@@ -807,15 +807,13 @@ class PTA(object):
                     summary += "\n"
                     summary += "params:\n"
                     for par in sig._params.values():
-                        if isinstance(par, ConstantParameter):
-                            copcount += 1
                         summary += "{!s: <90}\n".format(par.__repr__())
                 summary += "_" * 90 + "\n"
         summary += "=" * 90 + "\n"
-        summary += "Total params: {}\n".format(len(self.param_names) + copcount)
+        summary += "Total params: {}\n".format(len(self.param_names) + len(fixed))
         summary += "Varying params: {}\n".format(len(self.param_names))
-        summary += "Common params: {}\n".format(cpcount)
-        summary += "Fixed params: {}\n".format(copcount)
+        summary += "Common params: {}\n".format(len(common))
+        summary += "Fixed params: {}\n".format(len(fixed))
         summary += "Number of pulsars: {}\n".format(len(self._signalcollections))
         if to_stdout:
             logger.info(summary)
-- 
2.43.0


From c9039621d3134a9ac45bfe294ff9bbb3c6fd357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 51/56] fix: PTA.summary failed for a Gaussian process whose
 selection has no groups

Only the first group was looked at, so that the number of selected TOAs
was also too small for several groups.
---
 enterprise/signals/signal_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 7f09848..d36269d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -802,7 +802,8 @@ class PTA(object):
                     basis = sig.get_basis()
                     if basis is not None:
                         summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(basis.shape))
-                    summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
+                    # the selection may have any number of groups, or none
+                    summary += "\nN selected toas: {}\n".format(np.sum(np.any(sig._masks, axis=0)))
                 if include_params:
                     summary += "\n"
                     summary += "params:\n"
-- 
2.43.0


From 46fea8b8e15d35006db9a29395bb19a7acab1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 52/56] fix: PTA.summary counted a parameter once for every
 group that shares it

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d36269d..2d56130 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -795,7 +795,7 @@ class PTA(object):
             for sig in sc._signals:
                 common.update(p for p in sig.param_names if sc.psrname not in p)
                 fixed.update(par.name for par in sig._params.values() if isinstance(par, ConstantParameter))
-                row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
+                row = [sig.name, sig.__class__.__name__, len(set(sig.param_names))]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
                     # the basis of a GP with explicit coefficients is evaluated in its delay
-- 
2.43.0


From 140603a9b24f5ae3ae435b80ff713b90503c3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 53/56] fix: binary evolution functions changed arrays of
 masses and distances in place

The next call with the same array used masses in seconds as solar masses.
---
 enterprise/signals/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 5dc0d3c..9ee0648 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -388,7 +388,7 @@ def get_edot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dedt = -304 / (15 * mc) * (2 * np.pi * mc * F) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / ((1 - e**2) ** (5 / 2))
 
@@ -407,7 +407,7 @@ def get_Fdot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dFdt = (
         48
@@ -433,7 +433,7 @@ def get_gammadot(F, mc, q, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     # total mass
     m = (((1 + q) ** 2) / q) ** (3 / 5) * mc
@@ -571,8 +571,8 @@ def get_an(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -606,8 +606,8 @@ def get_bn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -635,8 +635,8 @@ def get_cn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
-- 
2.43.0


From d9c8d18d15218c10511066c9d5ced6081e81c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 54/56] fix: show the classes of Constants given as prior
 arguments by their values in the description of a Parameter

---
 enterprise/signals/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index a880200..254c008 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -187,7 +187,7 @@ def UserParameter(prior=None, logprior=None, sampler=None, ppf=None, size=None):
 def _argrepr(typename, **kwargs):
     args = []
     for par, arg in kwargs.items():
-        if isinstance(arg, type) and issubclass(arg, (Parameter, FunctionBase)):
+        if isinstance(arg, type) and issubclass(arg, (Parameter, ConstantParameter, FunctionBase)):
             args.append("{}={{{}}}".format(par, par))
         elif isinstance(arg, (Parameter, FunctionBase)):
             args.append("{}={}".format(par, arg))
-- 
2.43.0


From 0b2c15cbd916274ed544b74c99f4adeaeeb7634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 55/56] fix: releasing the timing package's objects of a pulsar
 twice, or after to_pickle, raised AttributeError

---
 enterprise/pulsar.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index fc6a83e..54019e6 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -401,11 +401,9 @@ class PintPulsar(BasePulsar):
         self.sort_data()
 
     def drop_pintpsr(self):
-        with contextlib.suppress(NameError):
-            del self.model
-            del self.parfile
-            del self.pint_toas
-            del self.timfile
+        for attr in ["model", "parfile", "pint_toas", "timfile"]:
+            with contextlib.suppress(AttributeError):
+                delattr(self, attr)
 
     def drop_not_picklable(self):
         with contextlib.suppress(AttributeError):
@@ -557,7 +555,7 @@ class Tempo2Pulsar(BasePulsar):
                 self.timfile = open(tim_name).read()
 
     def drop_tempopsr(self):
-        with contextlib.suppress(NameError):
+        with contextlib.suppress(AttributeError):
             del self.t2pulsar
 
     # gather DM/DMX information if available
-- 
2.43.0


From d94f85f7849ee242adf0a0a03aae54e641601f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 56/56] fix: vector parameters with one component were given to
 the model as numbers when the point was a vector

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 2d56130..fdb9344 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -719,7 +719,7 @@ class PTA(object):
         ct = 0
         for p in self.params:
             n = p.size if p.size else 1
-            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
+            ret[p.name] = xs[ct : ct + n] if p.size else float(xs[ct])
             ct += n
         return ret
 
-- 
2.43.0

