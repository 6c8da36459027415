From a469a21fd9ab8ef1e71b5e7ef9c357b56af3e2b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 01/55] fix: HPELM.project with istart > 0 wrote to wrong rows
 of the output

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From 0522a142ffb9e68b656755d9b765fea5b6bba29d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 02/55] fix: models with custom numpy.ufunc neurons could not
 be trained or used

---
 hpelm/nnets/slfn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..1dc539b 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -116,7 +116,9 @@ class SLFN(object):
             H (matrix): an SLFN hidden layer representation, size (N * `L`) where 'L' is number of neurons
         """
         assert self.neurons is not None, "ELM has no neurons"
-        return np.hstack([self.func[ftype](X, W, B) for _, ftype, W, B in self.neurons])
+        return np.hstack([self.func[ftype](X, W, B) if ftype in self.func  # standard neurons
+                          else ftype(np.dot(X, W) + B).astype(self.precision)  # custom <numpy.ufunc> neurons
+                          for _, ftype, W, B in self.neurons])
 
     def _predict(self, X):
         """Predict a batch of data. Auxiliary function that implements a particular prediction.
-- 
2.43.0


From 5f9bcf09757a044a3b12dd7c67437b0cb68a8888 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 03/55] fix: make_hdf5 from text files failed, file mode 'rU'
 is removed in Python 3.11

---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From dbf214e080491bb642e4b2cb764ed150195a177d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 04/55] fix: full HH matrices were symmetrised twice in
 SLFNPython

---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..7795214 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T  # use the same upper triangle as 'posv'
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 6c2d8b8bb1506edd7dc8939c2d77e0761f57de78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 05/55] fix: compare the accelerator name by value, not
 identity

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..db2e8ac 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -72,11 +72,11 @@ class ELM(object):
 
         # create SLFN solver to do actual computations
         self.accelerator = accelerator
-        if accelerator is "GPU":
+        if accelerator == "GPU":
             print("Using CUDA GPU acceleration with Scikit-CUDA")
             from .nnets.slfn_skcuda import SLFNSkCUDA
             self.nnet = SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
-        elif accelerator is "basic":
+        elif accelerator == "basic":
             print("Using slower basic Python solver")
             self.nnet = SLFN(inputs, outputs, precision=self.precision, norm=norm)
         else: # double precision Numpy solver
-- 
2.43.0


From e254ed06a6b78b81b9ec4ccddbe7885149b6cb0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 06/55] fix: load() did not replace the model of ELM with an
 accelerator, and changed the default solver

---
 hpelm/elm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index db2e8ac..f7d9227 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -459,8 +459,7 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         self.nnet.norm = m["norm"]
-- 
2.43.0


From ba2f5cdd4bfc8b208c67f54bd57bdb5d7fd17c8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 07/55] fix: train() silently ignored lower-case 'v', 'cv' and
 'loo'

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index f7d9227..f296382 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -181,6 +181,7 @@ class ELM(object):
         """
         X, T = self._checkdata(X, T)
         self._train_parse_args(args, kwargs)
+        args = [a.upper() for a in args]
 
         # TODO: test upper case and lower case 'V', ...
         # train ELM with desired model structure selection
-- 
2.43.0


From 390bbfc17cbe5d61a847a505f1f38bc43010bc0a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 08/55] fix: class weights were lost in model structure
 selection, 'CV' with 'wc' failed without weights

---
 hpelm/elm.py     | 12 ++++++++----
 hpelm/mss_cv.py  |  4 ++--
 hpelm/mss_loo.py |  2 +-
 hpelm/mss_v.py   |  2 +-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index f296382..584f762 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -196,6 +196,7 @@ class ELM(object):
             assert "k" in kwargs.keys(), "Provide Cross-Validation number of splits (k)"
             k = kwargs['k']
             assert k >= 3, "Use at least k=3 splits for Cross-Validation"
+            self._auto_weights(T)
             e = train_cv(self, X, T, k)
             return e
         elif "LOO" in args:  # use Leave-One-Out error on training set
@@ -205,6 +206,12 @@ class ELM(object):
             self.nnet.solve()
         # TODO: Adaptive ELM model for timeseries (someday)
 
+    def _auto_weights(self, T):
+        """Find automatic weights for weighted classification if none are given."""
+        if self.classification == "wc" and self.wc is None:
+            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+            self.wc = ns.sum() / ns  # weights of classes
+
     def add_data(self, X, T):
         """Feed new training data (X,T) to ELM model in batches; does not solve ELM itself.
 
@@ -222,10 +229,7 @@ class ELM(object):
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
 
-        # find automatic weights if none are given
-        if self.classification == "wc" and self.wc is None:
-            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
-            self.wc = ns.sum() / ns  # weights of classes
+        self._auto_weights(T)
 
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
                           np.array_split(T, nb, axis=0)):
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..aa4ac7f 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -46,7 +46,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -118,7 +118,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..14e8095 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..b29c31c 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 5bb94bbe5301c8cf9fe482a052873d679d04d6d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 09/55] fix: cross-validation failed for networks with less
 than 3 neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index aa4ac7f..72a1924 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -68,7 +68,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From e2c4bdf02ba93667dfcca0f6c97cecf2402ca171 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 10/55] fix: cross-validation returned the test error of all
 neurons, not of the optimal model

---
 hpelm/mss_cv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 72a1924..73323e3 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -112,9 +112,10 @@ def train_cv(self, X, T, k):
 
     # get test error
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From fee175c39967bc0084964003e76c88febc7604a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 11/55] fix: selection with 'kmax' used the error of all
 neurons as the error of kmax neurons

---
 hpelm/mss_cv.py  | 3 ++-
 hpelm/mss_loo.py | 3 ++-
 hpelm/mss_v.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 73323e3..c507890 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -61,7 +61,8 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # not the error of `kmax` best neurons
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 14e8095..a301142 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,8 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # not the error of `kmax` best neurons
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index b29c31c..987937e 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,8 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
+    if L == self.nnet.L:  # not the error of `kmax` best neurons
+        e[L] = err + L*penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From 74c5efe84214f4ff9103e6edd88e65b7582c59b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 12/55] fix: mrsr failed on singular matrices,
 numpy.linalg.linalg is removed

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From a7dad55d623339117b1a33d3720bc45797cf501c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 13/55] fix: mrsr failed with one regressor, zero targets or an
 exact fit

---
 hpelm/modules/mrsr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..d8c812d 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,7 +71,7 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    g     = G[G>=0].min()
+    g     = G[G>=0].min() if np.any(G>=0) else 1  # no other regressors, or nothing left to fit
     Y = g*Yols
 
     # Rest of the steps
@@ -113,7 +113,7 @@ def mrsr(X, T, kmax):
         if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
-            g = G[G>=0].min()
+            g = G[G>=0].min() if np.any(G>=0) else 1
             Y = (1-g)*Y+g*Yols
 		
     return i1
-- 
2.43.0


From 97fdc46989cb9bbc7d3d754884e2115647db1806 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 14/55] fix: mrsr2 limited the number of regressors by the
 number of samples

---
 hpelm/modules/mrsr2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 067cec5..62bc8da 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -47,7 +47,7 @@ def mrsr2(X, T, kmax, norm=2):
     Yk1 = np.zeros(T.shape)
     Wk1 = np.zeros((1, outs))
     j_current = None  # currently added input dimension
-    kmax = min(kmax, X.shape[0])    
+    kmax = min(kmax, ins)
     
     # get ranking
     for _ in xrange(kmax):
-- 
2.43.0


From b04074ce6e0420e37be2414a40ba2170745123de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 15/55] fix: weighted classification error of HPELM was NaN if
 a class has no samples

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..a46d7c3 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -363,7 +363,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for classes without samples
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From 2a4eff45b07fc7a3341f1899f1c44ff1491dd0a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 16/55] fix: validation_corr reported more neurons than exist,
 and did not accept a vector of steps

---
 hpelm/hp_elm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index a46d7c3..d020e0b 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -417,8 +417,12 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
+        if np.ndim(steps) > 0:  # exact numbers of neurons
+            Ls = np.array(steps, dtype=int)
+            assert Ls.min() > 0 and Ls.max() <= L, "Numbers of neurons must be between 1 and %d" % L
+        else:
+            Ls = np.logspace(np.log(min(3, L)), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.ceil(Ls - 1e-9).astype(int)  # ignore rounding errors of logarithms
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
-- 
2.43.0


From c675f792bc30621b25a3d76e1eff4f9e7e855172 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 17/55] fix: weighted classification error in validation_corr
 depended on the batch size

---
 hpelm/hp_elm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d020e0b..853eff1 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -453,6 +453,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":  # error is computed per class, cannot sum up errors of batches
+            for i in range(k):
+                countc = confs[i].sum(axis=1)
+                errc = (countc - np.diag(confs[i])) / np.maximum(countc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From ed2c63eb378b67871a9285c15e4331bd7552735e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 18/55] fix: writing HH to a file removed L2-normalization from
 the in-memory HH of the basic solver

---
 hpelm/hp_elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 853eff1..fbbe714 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,7 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            HH = HH - np.eye(self.nnet.L)*self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
     def solve_corr(self, fHH, fHT):
@@ -563,7 +563,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            HH = HH - np.eye(self.nnet.L)*self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
-- 
2.43.0


From fce18f21aabdb90932ece708ad404f6d2d94abe8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 19/55] fix: normalize_hdf5 did not apply computed
 normalization, failed when called twice, changed std of a caller

---
 hpelm/modules/hdf5_tools.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..6535dc7 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -116,7 +116,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         nb += 1  # add last incomplete step
 
     if mean is None or std is None:
-        if node.attrs.mean is None:  # data was not normalized before
+        if getattr(node.attrs, "mean", None) is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
@@ -128,24 +128,25 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
             mean = E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
-            node.attrs.mean = mean
-            node.attrs.std = std
-            h5.close()
-            return mean, std
+            var = E_x2 - E2_x
+            var[var < E_x2 * 1E-14] = 0  # constant features, ignoring rounding errors
+            std = var**0.5
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
+            mean, std = node.attrs.mean, node.attrs.std
             h5.close()
-            return node.attrs.mean, node.attrs.std
+            return mean, std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
-        node.attrs.mean = mean
-        node.attrs.std = std
+        mean = np.array(mean)
+        std = np.array(std)
     std[std == 0] = 1  # prevent division by zero for std=0
+    node.attrs.mean = mean
+    node.attrs.std = std
 
     print("applying normalization")
     for b in range(nb):
-- 
2.43.0


From 0865132ab171beb87624885f5382d61673207487 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 20/55] fix: rbf_param failed to store a distance in new Numpy

---
 hpelm/modules/rbf_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 2124194..c4148d3 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -39,7 +39,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         j = ix[i]
         if i == j:
             j += 1
-        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)
+        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From b9aee3ba8fde11c8981d81af732dd78b33e2e638 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 21/55] fix: parallel add_data() could delete results of
 another process while creating fHH, fHT

---
 hpelm/modules/hdf5_tools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6535dc7..7794dfc 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -18,7 +18,15 @@ import fasteners  # inter-process file lock
 
 
 def _prepare_fHH(fHH, fHT, nnet, precision):
-    """Prepares files for fHH, fHT if they are needed.
+    """Prepares files for fHH, fHT if they are needed, multi-process safe with lock files.
+    """
+    if (fHH is not None) and (fHT is not None):
+        with fasteners.InterProcessLock(fHH + ".lock"), fasteners.InterProcessLock(fHT + ".lock"):
+            _create_fHH(fHH, fHT, nnet, precision)
+
+
+def _create_fHH(fHH, fHT, nnet, precision):
+    """Creates fHH, fHT files or checks existing ones; must be protected by lock files.
 
     Args:
         fHH (string): hdf5 filename to store HH, None for ignore disk storage
-- 
2.43.0


From 4610030ae72862a158a9db301e22ee7b1cf537f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 22/55] fix: classification type and weights given at
 initialization were ignored by train()

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 584f762..fd65a26 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -91,6 +91,7 @@ class ELM(object):
             w = np.array(w)
             assert len(w) == outputs, "Number of class weights must be equal to the number of classes"
             self.wc = w
+        self.init_params = (self.classification, self.wc)  # used in training unless overwritten
         self.opened_hdf5 = []  # list of opened HDF5 files, they are closed in ELM descructor
         self.ranking = None
         self.kmax_op = None
@@ -114,8 +115,7 @@ class ELM(object):
         self.nnet.reset()  # remove previous training
         self.ranking = None
         self.kmax_op = None
-        self.classification = None  # c / wc / ml
-        self.wc = None  # weigths for weighted classification
+        self.classification, self.wc = self.init_params  # c / wc / ml, weigths for weighted classification
 
         # check exclusive parameters
         assert len(set(args).intersection({"V", "CV", "LOO"})) <= 1, "Use only one of V / CV / LOO"
-- 
2.43.0


From fed9a9270084348fcc7ef8e29ae91e81b531d89d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 23/55] fix: upper-case classification type at initialization
 had no effect

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index fd65a26..2a2eaa7 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -85,7 +85,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-- 
2.43.0


From c1bcebd35f6764ee24c560b3460d6b6e0290fee2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 24/55] fix: HDF5 files stayed open after use and could not be
 written again

---
 hpelm/elm.py    | 19 +++++++++++++++++++
 hpelm/hp_elm.py | 11 ++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 2a2eaa7..aabe145 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -6,6 +6,7 @@ Created on Mon Oct 27 17:48:33 2014
 """
 
 import numpy as np
+from functools import wraps
 from six.moves import cPickle, xrange
 from six import integer_types, string_types
 from tables import open_file
@@ -17,6 +18,19 @@ from .mss_cv import train_cv
 from .mss_loo import train_loo
 
 
+def closing_hdf5(method):
+    """Closes HDF5 files opened by a method at its end, keeps files opened by a caller of that method."""
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        nfiles = len(self.opened_hdf5)
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            while len(self.opened_hdf5) > nfiles:
+                self.opened_hdf5.pop().close()
+    return wrapper
+
+
 class ELM(object):
     """Interface for training Extreme Learning Machines (ELM).
 
@@ -147,6 +161,7 @@ class ELM(object):
         if "batch" in kwargs.keys():
             self.batch = int(kwargs["batch"])
 
+    @closing_hdf5
     def train(self, X, T, *args, **kwargs):
         """Universal training interface for ELM model with model structure selection.
 
@@ -291,6 +306,7 @@ class ELM(object):
         # add prepared neurons to the model
         self.nnet.add_neurons(number, func, W, B)
 
+    @closing_hdf5
     def error(self, T, Y):
         """Calculate error of model predictions.
 
@@ -318,6 +334,7 @@ class ELM(object):
         _, Y = self._checkdata(None, Y)
         return self._error(T, Y)
 
+    @closing_hdf5
     def confusion(self, T, Y):
         """Computes confusion matrix for classification.
 
@@ -361,6 +378,7 @@ class ELM(object):
                         conf[c1, c1h] += np.sum(Tb[:, c1] * Yb[:, c1h])
         return conf
 
+    @closing_hdf5
     def project(self, X):
         """Get ELM's hidden layer representation of input data.
 
@@ -374,6 +392,7 @@ class ELM(object):
         H = self.nnet._project(X)
         return H
 
+    @closing_hdf5
     def predict(self, X):
         """Predict outputs Y for the given input data X.
 
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index fbbe714..85b89fb 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -12,7 +12,7 @@ from six import string_types
 from time import time
 from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
 from tables import open_file
-from .elm import ELM
+from .elm import ELM, closing_hdf5
 
 
 class HPELM(ELM):
@@ -54,6 +54,7 @@ class HPELM(ELM):
         A 2-dimensional Numpy.ndarray can also be used.
     """
 
+    @closing_hdf5
     def train(self, fX, fT, *args, **kwargs):
         """Universal training interface for HP-ELM model.
 
@@ -93,6 +94,7 @@ class HPELM(ELM):
         self.add_data(X, T, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @closing_hdf5
     def add_data(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Feed new training data (X,T) to HP-ELM model in batches: does not solve ELM itself.
 
@@ -180,6 +182,7 @@ class HPELM(ELM):
         B = self.nnet.solve_corr(HH, HT)
         self.nnet.set_B(B)
 
+    @closing_hdf5
     def predict(self, fX, fY=None, istart=0, icount=np.inf):
         """Iterative predict outputs and save them to HDF5, can use custom range.
 
@@ -238,6 +241,7 @@ class HPELM(ELM):
         elif fY is None:
             return Y
 
+    @closing_hdf5
     def project(self, fX, fH=None, istart=0, icount=np.inf):
         """Iteratively project input data from HDF5 into HPELM hidden layer, and save in another HDF5.
 
@@ -296,6 +300,7 @@ class HPELM(ELM):
         elif fH is None:
             return H
 
+    @closing_hdf5
     def error(self, fT, fY, istart=0, icount=np.inf):
         """Calculate error of model predictions of HPELM.
 
@@ -388,6 +393,7 @@ class HPELM(ELM):
 
         return err
 
+    @closing_hdf5
     def validation_corr(self, fHH, fHT, fXv, fTv, steps=10):
         """Quick batch error evaluation with different numbers of neurons on a validation set.
 
@@ -471,6 +477,7 @@ class HPELM(ELM):
 
     # async-IO versions of methods
 
+    @closing_hdf5
     def train_async(self, fX, fT, *args, **kwargs):
         """Training HPELM with asyncronous I/O, good for network drives, etc. See `train()` for reference.
 
@@ -488,6 +495,7 @@ class HPELM(ELM):
         self.add_data_async(fX, fT, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @closing_hdf5
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -566,6 +574,7 @@ class HPELM(ELM):
             HH = HH - np.eye(self.nnet.L)*self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
+    @closing_hdf5
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
-- 
2.43.0


From 1db66dd349f3702f19758c6c9e43063b911c4a91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 25/55] fix: MSE of integer data overflowed

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index aabe145..168675c 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -514,7 +514,7 @@ class ELM(object):
             elif self.classification == "ml":
                 err = np.not_equal(Y > 0.5, T > 0.5).mean()
             else:
-                err = np.mean((Y - T)**2)
+                err = np.mean(np.subtract(Y, T, dtype=np.float64)**2)  # integers may overflow
         else:  # LOO_PRESS error
             if self.classification == "c":
                 err = np.not_equal(Y.argmax(1), T.argmax(1)) / R.ravel()
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 85b89fb..55a08ce 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -388,7 +388,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 Tb = T[start:stop]
                 Yb = Y[start:stop]
-                errb = np.mean((Tb - Yb)**2)
+                errb = np.mean(np.subtract(Tb, Yb, dtype=np.float64)**2)  # integers may overflow
                 err += errb * float(stop-start)/icount
 
         return err
-- 
2.43.0


From 447b3e1a5aa7ec058bb136bb5ee43768d2a98781 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 26/55] fix: solving without training data replaced the
 solution by NaN

---
 hpelm/nnets/slfn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 1dc539b..23fc919 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -166,6 +166,7 @@ class SLFN(object):
     def solve(self):
         """Redirects to solve_corr, to avoid duplication of code.
         """
+        assert self.HH is not None, "Add training data before solving"
         self.B = self.solve_corr(self.HH, self.HT)
 
     def solve_corr(self, HH, HT):
-- 
2.43.0


From 082ae5dfbb6839f0d981d9d62ddfdcf1de003e94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 27/55] fix: mrsr2 step goes towards the solution with the
 previous inputs, not with the new one

---
 hpelm/modules/mrsr2.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 62bc8da..348883c 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -110,6 +110,11 @@ def mrsr2(X, T, kmax, norm=2):
                 j_min = j_new
             j_current = j_min
 
+            # perform variable length step towards the solution with the previous inputs
+            Y = (1-y_min)*Y + y_min*Yk1
+            W = (1-y_min)*W     
+            W[rank] += y_min*Wk1   
+
             # add new input into model
             rank.append(j_current)
             nonrank.remove(j_current)
@@ -125,12 +130,6 @@ def mrsr2(X, T, kmax, norm=2):
         X1 = XA[:,:len(rank)]  # replace fancy indexing with simple one
         Yk1 = np.dot(X1, Wk1)  
 
-        if len(rank) > 1:
-            # perform variable length step
-            Y = (1-y_min)*Y + y_min*Yk1
-            W = (1-y_min)*W     
-            W[rank] += y_min*Wk1   
-               
     # done, return ranking
     return rank
 
-- 
2.43.0


From f4b2f17207c86ecc46c8584761d6a96b58d60e7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 28/55] fix: rbf_param never ended if all selected pairs of
 rows were equal

---
 hpelm/modules/rbf_param.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index c4148d3..46c346c 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -40,6 +40,14 @@ def rbf_param(data, k, kind="sqeuclidean"):
         if i == j:
             j += 1
         dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
+    if not dist.any():  # same rows were selected everywhere, find a different one
+        for i in xrange(N):
+            d0 = cdist(X[0][None, :], X[i][None, :], kind)[0, 0]
+            if d0 > 0:
+                dist = np.array([d0])
+                break
+        else:
+            assert False, "Data must have at least two different rows"
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From b7a29d62a41419db8517233c4f00a7fe8623d2fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 29/55] fix: make_hdf5 turned a compressed text file with one
 row into one column

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 7794dfc..a219c91 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -188,7 +188,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From 57fadfe44a3c913eca3345a24328bb5754d477a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 30/55] fix: make_hdf5 failed on empty lines in text files

---
 hpelm/modules/hdf5_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index a219c91..21ddd14 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -198,6 +198,8 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
             for line in reader:
+                if len(line) == 0:  # skip empty lines
+                    continue
                 X = np.fromiter(line, dtype=dtype)
                 break
     elif isinstance(data, tuple) and len(data) == 2:
@@ -225,6 +227,8 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
             for line in reader:
+                if len(line) == 0:  # skip empty lines
+                    continue
                 row = np.fromiter(line, dtype=dtype)
                 h5data.append(row[np.newaxis, :])
     elif fill == "empty":  # no fill at all
-- 
2.43.0


From cd5db543e203c2b269e4bc56d80cef80ebadc68a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 31/55] fix: make_hdf5 stored wrong values for arrays with
 negative strides

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 21ddd14..24a36a8 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -235,7 +235,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
     else:  # write whole data matrix
         h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-        h5data[:] = X
+        h5data[:] = np.ascontiguousarray(X)  # PyTables ignores negative strides
     # close the file
     h5data.attrs.mean = None
     h5data.attrs.std = None
-- 
2.43.0


From f49ea3963ef53cfa0ceb65a7e2750b628156119a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 32/55] fix: normalize_hdf5 keeps rounding errors as deviation
 of constant features

---
 hpelm/modules/hdf5_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 24a36a8..67c31e1 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -128,13 +128,14 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             print("calculating mean and standard deviation of data")
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
+            x0 = node[0].astype(np.float64)  # shift by a sample: exact for constant features, no cancellation
             for b in range(nb):
                 start = b*batch
                 step = min(batch, N-start)
-                X1 = node[start: start+step, :].astype(np.float64)
+                X1 = node[start: start+step, :].astype(np.float64) - x0
                 E_x += np.mean(X1, 0) * (1.0*step/N)
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
-            mean = E_x
+            mean = x0 + E_x
             E2_x = E_x**2
             var = E_x2 - E2_x
             var[var < E_x2 * 1E-14] = 0  # constant features, ignoring rounding errors
-- 
2.43.0


From ddbbd075a51404ebb1438354d5b6f10ee43bd6d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 33/55] fix: normalize_hdf5 leaves the file open if it refuses
 the given parameters

---
 hpelm/modules/hdf5_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 67c31e1..cc34452 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -147,6 +147,8 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             h5.close()
             return mean, std
     else:
+        if len(mean) != d or len(std) != d:
+            h5.close()  # do not leave the file open after an error
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
-- 
2.43.0


From c0f5569c46db9d739d5c4615a2cede986a2d5ec7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 34/55] fix: leave-one-out selection with weighted classes used
 residuals of the unweighted model

---
 hpelm/mss_loo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index a301142..db077ad 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -29,10 +29,14 @@ def train_loo(self, X, T):
     e = np.ones((L+1,)) * -1  # errors for all numbers of neurons
     rank, L = self._ranking(L, H, T)  # create ranking of neurons
 
+    w = np.ones((N,))  # weights of samples, same as in HH and HT
+    if self.classification == "wc":
+        w = self.wc[np.where(T == 1)[1]]
+
     # PRESS_LOO
     P = np.linalg.inv(HH)
     Bt = np.dot(P, HT)
-    R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H, P), H.T)
+    R = np.ones((N,)) - w * np.einsum('ij,ji->i', np.dot(H, P), H.T)
     Y = np.dot(H, Bt)
     err = self._error(T, Y, R)
 
@@ -65,7 +69,7 @@ def train_loo(self, X, T):
 
                 P = np.linalg.inv(HH1)
                 Bt1 = np.dot(P, HT1)
-                R = np.ones((N,)) - np.einsum('ij,ji->i', np.dot(H1, P), H1.T)
+                R = np.ones((N,)) - w * np.einsum('ij,ji->i', np.dot(H1, P), H1.T)
                 Y1 = np.dot(H1, Bt1)
                 err = self._error(T, Y1, R)
                 e[idx] = err + idx * penalty
-- 
2.43.0


From 12ffc2aad47b68b1f1432903d4ba84856883bf0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 35/55] fix: ELM.add_data did not check its data and could add
 a part of it before failing

---
 hpelm/elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 168675c..fccf774 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -227,6 +227,7 @@ class ELM(object):
             ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
             self.wc = ns.sum() / ns  # weights of classes
 
+    @closing_hdf5
     def add_data(self, X, T):
         """Feed new training data (X,T) to ELM model in batches; does not solve ELM itself.
 
@@ -240,6 +241,7 @@ class ELM(object):
             X (matrix): input training data
             T (matrix): output training data
         """
+        X, T = self._checkdata(X, T)
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-- 
2.43.0


From 1983870947d614409440eab5d099fcf5e463a883 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 36/55] fix: train() accepted regression together with a
 classification type

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index fccf774..6edc706 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -133,8 +133,8 @@ class ELM(object):
 
         # check exclusive parameters
         assert len(set(args).intersection({"V", "CV", "LOO"})) <= 1, "Use only one of V / CV / LOO"
-        msg = "Use only one of: C (classification) / WC (weighted classification) / ML (multi-label classification)"
-        assert len(set(args).intersection({"C", "WC", "ML", "MC"})) <= 1, msg
+        msg = "Use only one of: C (classification) / WC (weighted classification) / ML (multi-label classification) / R (regression)"
+        assert len(set(args).intersection({"C", "WC", "ML", "MC", "R"})) <= 1, msg
 
         # parse parameters
         for a in args:
-- 
2.43.0


From e92cd11921ad4b1f4b23ab66f8baee1dacda6a28 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 37/55] fix: HPELM.predict into a too small array dropped rows
 of the last batch

---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 55a08ce..c8f4079 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -215,6 +215,7 @@ class HPELM(ELM):
             Y = np.zeros((icount, self.nnet.outputs), dtype=self.precision)
         else:  # fY is Numpy array
             _, Y = self._checkdata(None, fY)
+            assert Y.shape[0] >= icount, "Numpy matrix fY has not enough rows to store predicted outputs"
 
         t = time()
         t0 = time()
-- 
2.43.0


From 346e7fa07c3ad552682e72ff431962a05c0480a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 38/55] fix: HDF5 files with text were not refused before their
 processing

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 6edc706..08652db 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -583,9 +583,9 @@ class ELM(object):
                     raise IOError("Empty HDF5 file at %s" % X)
             else:
                 # assert isinstance(X, np.ndarray) and
-                assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
                 if len(X.shape) == 1:
                     X = X.reshape(-1, 1)
+            assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
             assert len(X.shape) == 2, "X must have 2 dimensions"
             assert X.shape[1] == self.nnet.inputs, "X has wrong dimensionality: expected %d, found %d" % \
                                                    (self.nnet.inputs, X.shape[1])
@@ -606,9 +606,9 @@ class ELM(object):
                     raise IOError("Empty HDF5 file at %s" % X)
             else:
                 # assert isinstance(T, np.ndarray) and
-                assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
                 if len(T.shape) == 1:
                     T = T.reshape(-1, 1)
+            assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
             assert len(T.shape) == 2, "T must have 2 dimensions"
 
             assert T.shape[1] == self.nnet.outputs, "T has wrong dimensionality: expected %d, found %d" % \
-- 
2.43.0


From 92c70ef4f00c47b4bf1b0928f6d6329f490b1d8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 39/55] fix: predict_async waited forever for data that is not
 in a file

---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index c8f4079..d2599a5 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -583,6 +583,7 @@ class HPELM(ELM):
         """
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM and train it before using"
         assert self.nnet.B is not None, "Train ELM before predicting"
+        assert isinstance(fX, string_types), "Asynchronous prediction needs input data in an HDF5 file"
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-- 
2.43.0


From 9e5683c125370ca6e33cd1736f31e0b0cd6712bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 40/55] fix: an unsuitable file with HH or HT matrix stayed
 open

---
 hpelm/hp_elm.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d2599a5..7bf55ff 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -638,27 +638,31 @@ class HPELM(ELM):
             h5 = open_file(fHH, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHH)
-        node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        if node:
-            HH = node[:]
-        else:
-            raise IOError("Empty HDF5 file at %s" % fHH)
-        h5.close()
+        try:
+            node = None
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            if node:
+                HH = node[:]
+            else:
+                raise IOError("Empty HDF5 file at %s" % fHH)
+        finally:
+            h5.close()
 
         try:
             h5 = open_file(fHT, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHT)
-        node = None
-        for node in h5.walk_nodes():
-            pass  # find a node with whatever name
-        if node:
-            HT = node[:]
-        else:
-            raise IOError("Empty HDF5 file at %s" % fHT)
-        h5.close()
+        try:
+            node = None
+            for node in h5.walk_nodes():
+                pass  # find a node with whatever name
+            if node:
+                HT = node[:]
+            else:
+                raise IOError("Empty HDF5 file at %s" % fHT)
+        finally:
+            h5.close()
 
         L = self.nnet.L
         c = self.nnet.outputs
-- 
2.43.0


From 4ac1a9456a9bfa7ae6400c7490a08664190bd236 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 41/55] fix: make_hdf5 left its file open after an error in the
 data

---
 hpelm/modules/hdf5_tools.py | 46 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index cc34452..2fbfe93 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -220,30 +220,28 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         flt = Filters(complevel=comp_level, shuffle=True)
     else:
         flt = Filters(complevel=0)
-    h5 = open_file(h5file, "w")
-    a = Atom.from_dtype(np.dtype(dtype), dflt=0)
-    # write data to hdf5 file
-    if fill == "iter":  # iteratively fill the data
-        h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "r") as f:
-            for _ in range(skiprows):
-                f.readline()
-            reader = csv.reader(f, delimiter=delimiter)
-            for line in reader:
-                if len(line) == 0:  # skip empty lines
-                    continue
-                row = np.fromiter(line, dtype=dtype)
-                h5data.append(row[np.newaxis, :])
-    elif fill == "empty":  # no fill at all
-        h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
-    else:  # write whole data matrix
-        h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-        h5data[:] = np.ascontiguousarray(X)  # PyTables ignores negative strides
-    # close the file
-    h5data.attrs.mean = None
-    h5data.attrs.std = None
-    h5.flush()
-    h5.close()
+    with open_file(h5file, "w") as h5:
+        a = Atom.from_dtype(np.dtype(dtype), dflt=0)
+        # write data to hdf5 file
+        if fill == "iter":  # iteratively fill the data
+            h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
+            with open(data, "r") as f:
+                for _ in range(skiprows):
+                    f.readline()
+                reader = csv.reader(f, delimiter=delimiter)
+                for line in reader:
+                    if len(line) == 0:  # skip empty lines
+                        continue
+                    row = np.fromiter(line, dtype=dtype)
+                    h5data.append(row[np.newaxis, :])
+        elif fill == "empty":  # no fill at all
+            h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
+        else:  # write whole data matrix
+            h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
+            h5data[:] = np.ascontiguousarray(X)  # PyTables ignores negative strides
+        h5data.attrs.mean = None
+        h5data.attrs.std = None
+        h5.flush()
 
 
 def _ireader(fX, q_in, q_out):
-- 
2.43.0


From 9b232b7106ec40956cb607f89233bec588769e71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 42/55] fix: ELM.error failed for HDF5 files

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 08652db..b751581 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -334,7 +334,7 @@ class ELM(object):
         """
         _, T = self._checkdata(None, T)
         _, Y = self._checkdata(None, Y)
-        return self._error(T, Y)
+        return self._error(T[:], Y[:])  # an HDF5 node is read into memory
 
     @closing_hdf5
     def confusion(self, T, Y):
-- 
2.43.0


From e9ccc9af2a5f8472858eb652b67172228663760f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 43/55] fix: ELM trains from HDF5 files in every mode and model
 structure selection

---
 hpelm/elm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index b751581..4415475 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -195,6 +195,7 @@ class ELM(object):
                 split of data during the cross-validation procedure
         """
         X, T = self._checkdata(X, T)
+        X, T = X[:], T[:]  # HDF5 nodes are read into memory
         self._train_parse_args(args, kwargs)
         args = [a.upper() for a in args]
 
@@ -206,6 +207,7 @@ class ELM(object):
             Xv = kwargs['Xv']
             Tv = kwargs['Tv']
             Xv, Tv = self._checkdata(Xv, Tv)
+            Xv, Tv = Xv[:], Tv[:]
             train_v(self, X, T, Xv, Tv)
         elif "CV" in args:  # use cross-validation
             assert "k" in kwargs.keys(), "Provide Cross-Validation number of splits (k)"
@@ -242,6 +244,7 @@ class ELM(object):
             T (matrix): output training data
         """
         X, T = self._checkdata(X, T)
+        X, T = X[:], T[:]  # HDF5 nodes are read into memory
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-- 
2.43.0


From 5eda143ea2de17d02908fa6e0b022f37f0a18a52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 44/55] fix: a failed save() does not destroy the existing
 model file

---
 hpelm/elm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 4415475..7531090 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -424,9 +424,10 @@ class ELM(object):
             fname (string): filename to save model into.
         """
         assert isinstance(fname, string_types), "Model file name must be a string"
-        m = self._get_output_format()
+        m = cPickle.dumps(self._get_output_format(), -1)  # fails before an existing file is overwritten
         try:
-            cPickle.dump(m, open(fname, "wb"), -1)
+            with open(fname, "wb") as f:
+                f.write(m)
         except IOError:
             raise IOError("Cannot create a model file at: %s" % fname)
 
-- 
2.43.0


From 017d97a1a49a6b82e5c3990e5a4bffd3fa08fb90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 45/55] fix: automatic class weights are finite for classes
 without samples

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 7531090..769bee4 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -227,7 +227,7 @@ class ELM(object):
         """Find automatic weights for weighted classification if none are given."""
         if self.classification == "wc" and self.wc is None:
             ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
-            self.wc = ns.sum() / ns  # weights of classes
+            self.wc = ns.sum() / np.maximum(ns, 1)  # weights of classes, finite for classes without samples
 
     @closing_hdf5
     def add_data(self, X, T):
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 7bf55ff..12d70a5 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -143,7 +143,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 ns += T[start:stop].sum(axis=0)
             ns = ns.astype(self.precision)
-            self.wc = ns.sum() / ns  # class weights normalized to number of samples
+            self.wc = ns.sum() / np.maximum(ns, 1)  # class weights normalized to number of samples
 
         # main loop over all the data
         t = time()
@@ -520,7 +520,7 @@ class HPELM(ELM):
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 ns += T[start:stop].sum(axis=0)
             ns = ns.astype(self.precision)
-            self.wc = ns.sum() / ns  # class weights normalized to number of samples
+            self.wc = ns.sum() / np.maximum(ns, 1)  # class weights normalized to number of samples
 
         # close X and T files opened by _checkdata()
         h5 = self.opened_hdf5.pop()
-- 
2.43.0


From c6ba1a3ef29851f2934df77d13f3f673a81d677b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 46/55] fix: predict and project close their output file after
 an error

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 12d70a5..3901297 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -209,6 +209,7 @@ class HPELM(ELM):
         if isinstance(fY, string_types):
             make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
             h5 = open_file(fY, "a")
+            self.opened_hdf5.append(h5)  # closed also after an error
             for Y in h5.walk_nodes():
                 pass  # find a node with whatever name
         elif fY is None:  # create Numpy array
@@ -267,6 +268,7 @@ class HPELM(ELM):
         if isinstance(fH, string_types):
             make_hdf5((icount, self.nnet.L), fH, dtype=self.precision)
             h5 = open_file(fH, "a")
+            self.opened_hdf5.append(h5)  # closed also after an error
             for H in h5.walk_nodes():
                 pass  # find a node with whatever name
         elif fH is None:  # create Numpy array
-- 
2.43.0


From bfd2dccf6c1e20748cdf136643067e056aa252ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 47/55] fix: rbf_param reads HDF5 files with any node name and
 closes them after an error

---
 hpelm/modules/rbf_param.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 46c346c..5d687b5 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -26,10 +26,21 @@ def rbf_param(data, k, kind="sqeuclidean"):
         kind = "sqeuclidean"
     if isinstance(data, string_types):
         h5 = open_file(data, "r")
-        X = h5.root.data
+        try:
+            for X in h5.walk_nodes():
+                pass  # find a node with whatever name
+            return _rbf_param(X, k, kind)
+        finally:
+            h5.close()  # also after an error
     else:
         X = np.array(data)
         assert len(X.shape) == 2, "Data must be a 2-dim matrix"
+        return _rbf_param(X, k, kind)
+
+
+def _rbf_param(X, k, kind):
+    """Calculates parameters for RBF neurons from a matrix or an HDF5 node.
+    """
     N = X.shape[0]
     Nk = min(10*k, N-1)
     dist = np.zeros((Nk,))
@@ -67,7 +78,5 @@ def rbf_param(data, k, kind="sqeuclidean"):
             i += 1
             if i == k:
                 break
-    if isinstance(data, string_types):
-        h5.close()
 
     return W, B
-- 
2.43.0


From f07970afcdb2445fc80314cb6c6ea0e7ec65c19d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 48/55] fix: normalize_hdf5 closes its file after an error

---
 hpelm/modules/hdf5_tools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 2fbfe93..8608db4 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -112,6 +112,15 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     """
 
     h5 = open_file(h5file, "a")
+    try:
+        return _normalize_hdf5(h5, mean, std, batch)
+    finally:
+        h5.close()  # do not leave the file open after an error
+
+
+def _normalize_hdf5(h5, mean, std, batch):
+    """Calculates and applies normalization to data in an opened HDF5 file.
+    """
     node = None
     for node in h5.walk_nodes():
         pass  # find a node with whatever name
@@ -144,11 +153,8 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
             mean, std = node.attrs.mean, node.attrs.std
-            h5.close()
             return mean, std
     else:
-        if len(mean) != d or len(std) != d:
-            h5.close()  # do not leave the file open after an error
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
@@ -167,7 +173,6 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         X = (X - mean) / std
         node[start: start+step] = X.astype(dt)
 
-    h5.close()  # closing file
     return mean, std
 
 
-- 
2.43.0


From daf28372d56235a69a30f594e26eec98f4269766 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 49/55] fix: a refused load() leaves the model as it was

---
 hpelm/elm.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 769bee4..95aef48 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -485,16 +485,18 @@ class ELM(object):
     def _update_from_output(self, m: dict):
         inputs = m["inputs"]
         outputs = m["outputs"]
-        self.classification = m["Classification"]
-        self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
+        nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
         for number, func, W, B in m["neurons"]:
-            self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
-        self.nnet.norm = m["norm"]
+            nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
+        nnet.norm = m["norm"]
         if m["Beta"] is not None:
-            self.nnet.set_B(np.array(m["Beta"], dtype=self.precision))
+            nnet.set_B(np.array(m["Beta"], dtype=self.precision))
+
+        # everything is loaded, model stays unchanged after an error above
+        self.classification, self.wc = m["Classification"], m["Weights_WC"]
+        self.nnet = nnet
 
     def __del__(self):
         # Closes any HDF5 files opened during HPELM usage.
-- 
2.43.0


From 43b2b1cab0d9efe26a1044df6b2a7e17476eba42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 50/55] fix: asynchronous methods waited forever for a failed
 reader, ignored a failed writer

---
 hpelm/hp_elm.py             | 33 ++++++++++++++++++++++++----
 hpelm/modules/__init__.py   |  2 +-
 hpelm/modules/hdf5_tools.py | 43 ++++++++++++++++++++++++++++++++-----
 3 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 3901297..982b8e8 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -7,14 +7,31 @@ Created on Mon Oct 27 17:48:33 2014
 
 import numpy as np
 import multiprocessing as mp
+from functools import wraps
 from six.moves import xrange
 from six import string_types
 from time import time
-from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .modules import make_hdf5, _ireader, _iwriter, _iget, _prepare_fHH, _write_fHH
 from tables import open_file
 from .elm import ELM, closing_hdf5
 
 
+def stopping_helpers(method):
+    """Stops asynchronous readers and writers that are still running after an error in a method."""
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        self.helpers = []
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            for process in self.helpers:
+                if process.is_alive():
+                    process.terminate()
+                    process.join()
+            self.helpers = []
+    return wrapper
+
+
 class HPELM(ELM):
     """Interface for training High-Performance Extreme Learning Machines (HP-ELM).
 
@@ -499,6 +516,7 @@ class HPELM(ELM):
         self.nnet.solve()
 
     @closing_hdf5
+    @stopping_helpers
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -536,11 +554,13 @@ class HPELM(ELM):
         readerX = mp.Process(target=_ireader, args=(fX, qX_in, qX_out))
         readerX.daemon = True
         readerX.start()
+        self.helpers.append(readerX)
         qT_in = mp.Queue()
         qT_out = mp.Queue(1)
         readerT = mp.Process(target=_ireader, args=(fT, qT_in, qT_out))
         readerT.daemon = True
         readerT.start()
+        self.helpers.append(readerT)
 
         # main loop over all the data
         t = time()
@@ -554,8 +574,8 @@ class HPELM(ELM):
             qT_in.put((start_next, stop_next))
 
             if b > 0:  # first iteration only prefetches data
-                Xb = qX_out.get()
-                Tb = qT_out.get()
+                Xb = _iget(qX_out)
+                Tb = _iget(qT_out)
                 if self.classification == "wc":
                     wc_vector = self.wc[np.where(Tb == 1)[1]]  # weights for samples in the batch
 
@@ -578,6 +598,7 @@ class HPELM(ELM):
             _write_fHH(fHH, fHT, HH, HT)
 
     @closing_hdf5
+    @stopping_helpers
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
@@ -600,10 +621,12 @@ class HPELM(ELM):
         reader = mp.Process(target=_ireader, args=(fX, qr_in, qr_out))
         reader.daemon = True
         reader.start()
+        self.helpers.append(reader)
         qw_in = mp.Queue(1)
         writer = mp.Process(target=_iwriter, args=(fY, qw_in))
         writer.daemon = True
         writer.start()
+        self.helpers.append(writer)
 
         t = time()
         t0 = time()
@@ -615,7 +638,7 @@ class HPELM(ELM):
 
             if b > 0:  # first iteration only prefetches data
                 # get data
-                Xb = qr_out.get()
+                Xb = _iget(qr_out)
                 # process data
                 Yb = self.nnet._predict(Xb)
                 # save data
@@ -632,6 +655,8 @@ class HPELM(ELM):
         qw_in.put(None)
         reader.join()
         writer.join()
+        if writer.exitcode != 0:
+            raise IOError("Cannot write HDF5 file at %s" % fY)
 
     def _checkcorr(self, fHH, fHT):
         """Analog of `_checkdata()` for correlation matrices.
diff --git a/hpelm/modules/__init__.py b/hpelm/modules/__init__.py
index d8f1006..1270869 100644
--- a/hpelm/modules/__init__.py
+++ b/hpelm/modules/__init__.py
@@ -7,5 +7,5 @@ Created on Sat Feb 21 20:46:31 2015
 
 from .mrsr import mrsr
 from .mrsr2 import mrsr2
-from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _iget, _prepare_fHH, _write_fHH
 from .rbf_param import rbf_param
\ No newline at end of file
diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 8608db4..3e07ae7 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -12,6 +12,7 @@ import numpy as np
 from six import string_types
 from six.moves import range
 import csv
+from functools import wraps
 from tables import open_file, Atom, Filters
 import os
 import fasteners  # inter-process file lock
@@ -249,6 +250,28 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         h5.flush()
 
 
+def _reporting_errors(reader):
+    """Sends an error in an asyncronous reader to the main process, that waits for data from this reader.
+    """
+    @wraps(reader)
+    def wrapper(fX, q_in, q_out):
+        try:
+            reader(fX, q_in, q_out)
+        except Exception as e:
+            q_out.put(IOError("Cannot read HDF5 file at %s: %s" % (fX, e)))
+    return wrapper
+
+
+def _iget(q):
+    """Get a data chunk from an asyncronous reader, or raise an error that happened in that reader.
+    """
+    data = q.get()
+    if isinstance(data, Exception):
+        raise data
+    return data
+
+
+@_reporting_errors
 def _ireader(fX, q_in, q_out):
     """Asyncronous reader for an HDF5 file.
 
@@ -275,17 +298,27 @@ def _iwriter(fX, q_in):
     q_in - a (Xbatch, start, stop) tuple of data to write indexes; if q_in is None then writer terminates
     """
     assert isinstance(fX, string_types), "Asyncronous I/O only supported with HDF5 data files"
-    hX = open_file(fX, "a")
-    X = None
-    for X in hX.walk_nodes():
-        pass  # find a node with whatever name
+    error = None
+    try:
+        hX = open_file(fX, "a")
+        X = None
+        for X in hX.walk_nodes():
+            pass  # find a node with whatever name
+    except Exception as e:
+        error = e
 
     while True:  # returning data chunks on demand
         data = q_in.get()
         if data is None:
             break
         Xb, start, stop = data
-        X[start:stop] = Xb
+        if error is None:  # after an error, continue taking data because the main process waits for that
+            try:
+                X[start:stop] = Xb
+            except Exception as e:
+                error = e
+    if error is not None:
+        raise error
     X.flush()
     hX.close()
 
-- 
2.43.0


From 24ef9144b416b2af5d096caa61bd154c6ec41e80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 51/55] fix: an error in creation of fHH, fHT left an
 incomplete file, that broke or corrupted later parts

---
 hpelm/modules/hdf5_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 3e07ae7..8cd21cf 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -58,7 +58,8 @@ def _create_fHH(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH + ".part", precision)
+            os.rename(fHH + ".part", fHH)  # never leave an incomplete file after an error
 
         # process fHT
         if os.path.isfile(fHT):
@@ -75,7 +76,8 @@ def _create_fHH(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5((L, outputs), fHT, precision)
+            make_hdf5((L, outputs), fHT + ".part", precision)
+            os.rename(fHT + ".part", fHT)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 8f55174f2ccc011daf21eb792a0f2f285028747b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 52/55] fix: fHH, fHT stayed open for writing after an error in
 _write_fHH

---
 hpelm/modules/hdf5_tools.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 8cd21cf..7a1a780 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -91,18 +91,22 @@ def _write_fHH(fHH, fHT, HH, HT):
         node = None
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
-        node[:] += HH
-        h5.flush()
-        h5.close()
+        try:
+            node[:] += HH
+            h5.flush()
+        finally:
+            h5.close()  # other processes cannot use a file that is open for writing
 
     fHT_lock = fHT + ".lock"
     with fasteners.InterProcessLock(fHT_lock):
         h5 = open_file(fHT, "a")
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
-        node[:] += HT
-        h5.flush()
-        h5.close()
+        try:
+            node[:] += HT
+            h5.flush()
+        finally:
+            h5.close()  # other processes cannot use a file that is open for writing
 
 
 def normalize_hdf5(h5file, mean=None, std=None, batch=None):
-- 
2.43.0


From 5cbcd77370d631a2285069a42bd4842dc809ea77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 53/55] fix: a failed creation of fHH, fHT leaves no partial
 file behind

---
 hpelm/modules/hdf5_tools.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 7a1a780..82d72ed 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -58,8 +58,7 @@ def _create_fHH(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH + ".part", precision)
-            os.rename(fHH + ".part", fHH)  # never leave an incomplete file after an error
+            _make_complete(np.eye(L, L, dtype=precision)*norm, fHH, precision)
 
         # process fHT
         if os.path.isfile(fHT):
@@ -76,8 +75,19 @@ def _create_fHH(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5((L, outputs), fHT + ".part", precision)
-            os.rename(fHT + ".part", fHT)
+            _make_complete((L, outputs), fHT, precision)
+
+
+def _make_complete(data, h5file, dtype):
+    """Version of `make_hdf5()` that never leaves an incomplete file after an error.
+    """
+    part = h5file + ".part"
+    try:
+        make_hdf5(data, part, dtype)
+        os.rename(part, h5file)
+    finally:
+        if os.path.isfile(part):
+            os.remove(part)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 5d087bda95f53849c5b661fd66745ae98dfd25f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 54/55] fix: normalize_hdf5 fails on data stored without chunks

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 82d72ed..1f23b55 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -144,7 +144,7 @@ def _normalize_hdf5(h5, mean, std, batch):
     dt = node.dtype
     N, d = node.shape  # HDF5 files are transposed, for Matlab compatibility
     if batch is None:
-        batch = node.chunkshape[0]
+        batch = node.chunkshape[0] if node.chunkshape else node.nrowsinbuf  # no chunks in a contiguous array
     nb = N//batch
     if N > nb*batch:
         nb += 1  # add last incomplete step
-- 
2.43.0


From 7d66a34cb6c00750436bee8936597d340b68c5ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:26 +0000
Subject: [PATCH 55/55] fix: mrsr2 used the L2 norm for its steps also if given
 norm=1

---
 hpelm/modules/mrsr2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 348883c..02108ec 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -85,7 +85,7 @@ def mrsr2(X, T, kmax, norm=2):
             #c_max = np.linalg.norm(np.dot(T2, X[:, j_current]), norm)
             
             #fun = lambda y,x_new: (1-y)*c_max - np.linalg.norm(T2.dot(x_new) - y*Yk2.dot(x_new))
-            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2)  # super fast parametrized function
+            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2, norm)  # super fast parametrized function
     
             # find optimal step (minimum over possible additional inputs) 
             y_min = 1  # upper interval
@@ -94,7 +94,7 @@ def mrsr2(X, T, kmax, norm=2):
                 # pre-calculate constant parts of the optimization function for the given x_new
                 p1 = T2.dot(x_new)
                 p2 = Yk2.dot(x_new)
-                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2):  # skip optimization if min(fun) > y_min
+                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2, norm):  # skip optimization if min(fun) > y_min
                     try:
                         zero = 1E-15  # finding a value greater than zero
                         y_kj = optimize.brentq(fun_p, zero, y_min, xtol=1E-6, args=(p1,p2))
-- 
2.43.0

