From 205d443cbbb582a86ad72c36d186f996b648b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 01/28] fix: adaptive filters work on their own float copy of
 the samples

adapt() let GNGD and the VSLMS filters keep a reference to the caller's
buffer as previous input, and narrow integer inputs overflowed in the
normalisation terms of the learning rules.
---
 padasip/filters/base_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..6cde7d0 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -161,6 +161,8 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        # own float copy - some learning rules keep the input for later
+        x = np.array(x, dtype="float64")
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -194,8 +196,8 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
@@ -306,8 +308,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From 7834d9ac38b845afb732a63319a3bfa69795606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/28] fix: a batch run refuses inputs of another width before
 changing the filter

The size of the filter was overwritten from the data before the mismatch
was found, so a refused run left a filter that could not adapt any more.
---
 padasip/filters/base_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 6cde7d0..90dced5 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -193,13 +193,14 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
         # prepare data
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not len(x[0]) == self.n:
+            raise ValueError('The number of columns of x must agree with the filter size.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
@@ -305,13 +306,14 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
         # prepare data
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not len(x[0]) == self.n:
+            raise ValueError('The number of columns of x must agree with the filter size.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
-- 
2.43.0


From 33f7d650f15bbd2775245d35f1a8fec5f69c815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 03/28] fix: filters without own constructor can be created
 from the size alone

The documentation creates LMS, LMF, SSLMS and AP filters without mu and
describes mu as optional, but they had no default learning rate.
---
 padasip/filters/base_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 90dced5..7457a2f 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -11,7 +11,7 @@ class AdaptiveFilter():
     Base class for adaptive filter classes. It puts together some functions
     used by all adaptive filters.
     """
-    def __init__(self, n, mu, w="random"):
+    def __init__(self, n, mu=0.01, w="random"):
         """
         This class represents an generic adaptive filter.
 
-- 
2.43.0


From 58106a4ccd6d8aa6a800b108a4411a9452eb5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 04/28] fix: predict of the OCNLMS filter does not move the
 filter memory

Every prediction moved the memory index, so predicting a sample before
adapting to it (the documented online usage) changed all later results.
Batch results are unchanged.
---
 padasip/filters/ocnlms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..7578dce 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -98,8 +98,10 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         Override the parent class.
         """
+        self.move_memory()
         self.update_memory_x(x)
         m_d, m_x = self.read_memory()
+        self.move_memory()
         y = np.dot(self.w, x-m_x) + m_d
         self.update_memory_d(e + y)
         return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
@@ -157,8 +159,13 @@ class FilterOCNLMS(AdaptiveFilter):
         else:
             m_x = np.mean(self.mem_x, axis=0)
             m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def move_memory(self):
+        """
+        This function moves the memory index to the next position.
+        """
         self.mem_idx += 1
         if self.mem_idx > len(self.mem_x)-1:
             self.mem_idx = 0
             self.mem_empty = False
-        return m_d, m_x
-- 
2.43.0


From 1a79482dca9f03c11fcaf6395991456d8d936717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 05/28] fix: learning entropy accepts sensitivities given as an
 array

The documented 1d array raised 'truth value of an array is ambiguous'.
---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..cef975e 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -167,7 +167,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     dw[order:] = np.abs(np.diff(dw, n=order, axis=0))
     # average floting window - window is k-m ... k-1
     awd = np.zeros(w.shape)
-    if not alpha:
+    if alpha is None or np.size(alpha) == 0 or alpha is False:
         # estimate the ALPHA with multiscale approach
         swd = np.zeros(w.shape)
         for k in range(m, N):
-- 
2.43.0


From 1b5a52a1565a03a603fcd9cae8555454e1beaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 06/28] fix: ESE passes the fixed location of the Pareto fit as
 a number

A list is not accepted by SciPy, so every evaluation with at least one
increment over the threshold failed.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..bae8d95 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -133,7 +133,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From 73d48a5b1e32e6c68c90b9dff1e9c7df4d6cdf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 07/28] fix: ESE does not take the first weights for an
 increment

The raw initial weights were part of the first evaluated window.
---
 padasip/detection/ese.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index bae8d95..dc957a2 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -122,8 +122,8 @@ def ESE(w, window=1000, pot_method="10%"):
 
     """
     filter_len = w.shape[1]
-    dw = np.copy(w)
-    dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
+    dw = np.zeros(w.shape)
+    dw[1:] = np.abs(np.diff(w, n=1, axis=0))
     dw_count = int(dw.shape[0])
 
     hpp = np.ones((dw_count - window, filter_len))
-- 
2.43.0


From ddf4737250e18670f169a76a0a4f3bba96dc62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/28] fix: ESE supports the documented 30% peak selection

It selected no peaks, so the evaluation failed with an IndexError.
---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index dc957a2..978fe0d 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,6 +96,8 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
     return sorted_data[:k]
-- 
2.43.0


From 491db6ec6ade304c2aa870b2c3d58056fb0653ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 09/28] fix: ESE stays finite for many improbable increments

The product of the probabilities underflowed to zero with 17 or more
weights and the entropy became infinite.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 978fe0d..99c557c 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -139,5 +139,5 @@ def ESE(w, window=1000, pot_method="10%"):
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-    ese_value = -np.log10(np.prod(hpp, axis=1))
+    ese_value = -np.sum(np.log10(hpp), axis=1)
     return np.append(np.zeros(window), ese_value)
-- 
2.43.0


From 3bfe4470efd459efc6764d94c92ed89143e05aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 10/28] fix: standardize estimates offset and scale from the
 converted series

Mean and deviation of half and single precision series were computed in
that precision, and non-numeric series failed with a TypeError before
they reached the check that should refuse them.
---
 padasip/preprocess/standardize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/padasip/preprocess/standardize.py b/padasip/preprocess/standardize.py
index f402b32..1492772 100644
--- a/padasip/preprocess/standardize.py
+++ b/padasip/preprocess/standardize.py
@@ -78,6 +78,10 @@ def standardize(x, offset=None, scale=None):
 
     * `xs` : standardized series
     """
+    try:
+        x = np.array(x, dtype="float64")
+    except:
+        raise ValueError('The argument x is not numpy array or similar.')
     if offset is None:
         offset = np.array(x).mean()
     else:
@@ -92,8 +96,4 @@ def standardize(x, offset=None, scale=None):
             scale = float(scale)
         except:
             raise ValueError('The argument scale is not None or float')
-    try:
-        x = np.array(x, dtype="float64")
-    except:
-        raise ValueError('The argument x is not numpy array or similar.')
     return (x - offset) / scale
-- 
2.43.0


From 4a529444a083186227664f9a4a08066c7f552609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 11/28] fix: error metrics of integer series do not overflow

The difference of unsigned series and the squares of narrow integers
wrapped around, for example MSE of 16 bit audio data.
---
 padasip/misc/error_evaluation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..3692db8 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -96,6 +96,14 @@ Code Explanation
 """
 import numpy as np
 
+def to_float_array(x):
+    """
+    Function that converts a series to a numpy array with at least double
+    precision (integers could overflow in the evaluation of the error).
+    """
+    x = np.array(x)
+    return x.astype(np.result_type(x, np.float64))
+
 def get_valid_error(x1, x2=-1):
     """
     Function that validates:
@@ -109,14 +117,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = to_float_array(x1)
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = to_float_array(x1)
+            x2 = to_float_array(x2)
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From b476e89be431603fb68ce6bd7b9a82918be038b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 12/28] fix: PCA uses the symmetric eigenvalue solver

The general solver returns complex arrays (always with recent NumPy) and
eigenvectors that are not orthogonal for repeated eigenvalues, so the
components were complex and could be correlated. The sign of each
direction, which is arbitrary, is fixed by its first coefficient.
---
 padasip/preprocess/pca.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..14cbb74 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -90,10 +90,8 @@ def PCA_components(x):
         x = np.array(x)
     except:
         raise ValueError('Impossible to convert x to a numpy array.')
-    # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
-    # sort eigen vectors according biggest eigen value
-    eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
+    # eigen values of data covariance matrix (symmetric)
+    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
     # form output - order the eigenvalues
     return eigen_values[(-eigen_values).argsort()]
 
@@ -118,8 +116,10 @@ def PCA(x, n=False):
     n = n if n else x.shape[1] - 1
     assert x.shape[1] > n, "The requested n is bigger than \
         number of features in x."
-    # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    # eigen values and eigen vectors of data covariance matrix (symmetric)
+    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
+    # the sign of an eigen vector is arbitrary - first coefficient is positive
+    eigen_vectors = np.where(eigen_vectors[0] < 0, -1, 1) * eigen_vectors
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - reduced x matrix
-- 
2.43.0


From 20ea65258c5d46e17ea032d4d3228e74f5b33819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/28] fix: LDA results are real

The eigenvalues of the scatter matrix product are real, but the general
solver returns complex arrays (always with recent NumPy). The problem is
solved in its equivalent symmetric form.
---
 padasip/preprocess/lda.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..1238021 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -133,9 +133,13 @@ def LDA_base(x, labels):
         dif = mean - total_mean
         dif_product = np.dot(dif.reshape(cols, 1), dif.reshape(1, cols))
         scatter_between += x[labels == cl, :].shape[0] * dif_product
-    # eigenvalues and eigenvectors from scatter matrices
-    scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
-    eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
+    # eigenvalues and eigenvectors from scatter matrices (symmetric problem
+    # in the space where the within-class scatter is the identity)
+    whitening = np.linalg.inv(np.linalg.cholesky(scatter_within))
+    scatter_product = np.dot(whitening, np.dot(scatter_between, whitening.T))
+    eigen_values, eigen_vectors = np.linalg.eigh(scatter_product)
+    eigen_vectors = np.dot(whitening.T, eigen_vectors)
+    eigen_vectors /= np.linalg.norm(eigen_vectors, axis=0)
     return eigen_values, eigen_vectors
 
 def LDA(x, labels, n=False):
-- 
2.43.0


From 3659a759ced85e88d190f8f3347d4468d8c11f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 14/28] fix: LDA accepts labels in any iterable

The documented list of labels was compared as a whole with each class, so
no sample was found for any class. The classes are processed in sorted
order, so that the result does not depend on the hash seed.
---
 padasip/preprocess/lda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 1238021..13f26cd 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,7 +113,8 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
-    classes = np.array(tuple(set(labels)))
+    labels = np.array(labels)
+    classes = np.unique(labels)
     cols = x.shape[1]
     # mean values for every class
     means = np.zeros((len(classes), cols))
-- 
2.43.0


From 2f1058166a4d52dedbf333a918ecb1dbac8c9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 15/28] fix: MSE of a training epoch counts its last sample

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From 306622a621662800e941ea615c9a9cf4d0b10194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 16/28] fix: training data are shuffled in every epoch, as
 documented

---
 padasip/ann/mlp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..e09ab79 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -313,14 +313,14 @@ class NetworkMLP():
         else:
             e = np.zeros((epochs*N, self.outputs))
         MSE = np.zeros(epochs)
-        # shuffle data if demanded
-        if shuffle:
-            randomize = np.arange(len(x))
-            np.random.shuffle(randomize)
-            x = x[randomize]
-            d = d[randomize]
         # adaptation loop
         for epoch in range(epochs):
+            # shuffle data if demanded
+            if shuffle:
+                randomize = np.arange(len(x))
+                np.random.shuffle(randomize)
+                x = x[randomize]
+                d = d[randomize]
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-- 
2.43.0


From 2cd91e0b314e48c7c3515bf89dd559503ba5e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 17/28] fix: errors are propagated through the network by the
 gradient

---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index e09ab79..b5e07e6 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,9 +183,9 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w)[:, 1:]
         self.w += dw
         return w, e
 
-- 
2.43.0


From fec4675f47eb00ea7b1fe86451c0adb809b483d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 18/28] fix: output of the network is not shared with the
 caller

---
 padasip/ann/mlp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index b5e07e6..fe1889d 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -427,7 +427,8 @@ class NetworkMLP():
             self.y = np.dot(self.w, self.x)
         else:
             self.y = np.sum(self.w*self.x, axis=1)
-        return self.y
+        # own copy for the caller - the output is needed for the update
+        return self.y.copy()
 
     def update(self, d):
         """
-- 
2.43.0


From f54b4bfe325f0de0c8a43d4addf6d5a03f6f422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 19/28] fix: MLP training and test refuse data of wrong
 dimension with ValueError

---
 padasip/ann/mlp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index fe1889d..fe9aead 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -294,13 +294,13 @@ class NetworkMLP():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        if not len(x[0]) == self.n_input:
+        if not np.shape(x[0]) == (self.n_input,):
             raise ValueError('The number of network inputs is not correct.')
         if self.outputs == 1:
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
             x = np.array(x)
@@ -381,13 +381,13 @@ class NetworkMLP():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        if not len(x[0]) == self.n_input:
+        if not np.shape(x[0]) == (self.n_input,):
             raise ValueError('The number of network inputs is not correct.')
         if self.outputs == 1:
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
             x = np.array(x)
-- 
2.43.0


From 44f901d81547c69f1f4659327c470400e4aaf4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 20/28] fix: learning_entropy of narrow integer or half
 precision weights (differences wrapped around or lost precision)

---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index cef975e..037bcb9 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -159,7 +159,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     * Learning Entropy of data (1 d array) - one value for every sample
 
     """
-    w = np.array(w)
+    w = np.array(w, dtype="float64")
     # get length of data and number of parameters
     N, n = w.shape
     # get abs dw from w
-- 
2.43.0


From 797b2e3675e7be1c1bdef86fe0c1f35eb67b7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 21/28] fix: ELBND of narrow integer or half precision weights
 (differences wrapped around or lost precision)

---
 padasip/detection/elbnd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/elbnd.py b/padasip/detection/elbnd.py
index 491f14e..d87725c 100644
--- a/padasip/detection/elbnd.py
+++ b/padasip/detection/elbnd.py
@@ -115,7 +115,7 @@ def ELBND(w, e, function="max"):
         raise ValueError('Unknown output function')
     # get abs dw from w
     dw = np.zeros(w.shape)
-    dw[:-1] = np.abs(np.diff(w, axis=0))
+    dw[:-1] = np.abs(np.diff(np.array(w, dtype="float64"), axis=0))
     # absolute values of product of increments and error
     elbnd = np.abs((dw.T*e).T)
     # apply output function
-- 
2.43.0


From 30ea50b6420a4d4115d84d55842f7b633a547573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 22/28] fix: ESE of narrow integer or half precision weights
 (differences wrapped around or lost precision)

---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 99c557c..8d517d1 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -125,7 +125,7 @@ def ESE(w, window=1000, pot_method="10%"):
     """
     filter_len = w.shape[1]
     dw = np.zeros(w.shape)
-    dw[1:] = np.abs(np.diff(w, n=1, axis=0))
+    dw[1:] = np.abs(np.diff(np.array(w, dtype="float64"), n=1, axis=0))
     dw_count = int(dw.shape[0])
 
     hpp = np.ones((dw_count - window, filter_len))
-- 
2.43.0


From bc3fa904b8bf65ac31006d3fd7bc93d4f94333e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 23/28] fix: LDA of half precision data (class means were
 computed in the precision of the data)

---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 13f26cd..329ac6a 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    x = np.array(x, dtype="float64")
     labels = np.array(labels)
     classes = np.unique(labels)
     cols = x.shape[1]
-- 
2.43.0


From 550b11ff3c05bc275023517088df7cfc4b242d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 24/28] fix: AdaptiveFilterAP.adapt uses the learning rule of
 the class (it was hard coded, a derived class was ignored)

---
 padasip/filters/base_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 7457a2f..f315725 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -274,10 +274,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.y_mem = np.dot(self.x_mem.T, self.w)
         self.e_mem = self.d_mem - self.y_mem
         # update
-        dw_part1 = np.dot(self.x_mem.T, self.x_mem) + self.ide_ifc
-        dw_part2 = np.linalg.solve(dw_part1, self.ide)
-        dw = np.dot(self.x_mem, np.dot(dw_part2, self.e_mem))
-        self.w += self.mu * dw
+        self.w += self.learning_rule(self.e_mem, self.x_mem)
 
     def run(self, d, x):
         """
-- 
2.43.0


From 2ad607346cc8e173a8ec9a1da317be869b4c53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:18 +0000
Subject: [PATCH 25/28] fix: OCNLMS interrupted while its memory wraps around
 stays usable

The index of the memory was out of range between two statements, so that an
exception from outside (Ctrl-C) at that point made every later call fail.
---
 padasip/filters/ocnlms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7578dce..64c382e 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -165,7 +165,9 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         This function moves the memory index to the next position.
         """
-        self.mem_idx += 1
-        if self.mem_idx > len(self.mem_x)-1:
-            self.mem_idx = 0
+        next_idx = self.mem_idx + 1
+        if next_idx > len(self.mem_x)-1:
+            next_idx = 0
             self.mem_empty = False
+        # never out of range, also if the filter is interrupted here
+        self.mem_idx = next_idx
-- 
2.43.0


From 881e7d2e0a43e040a03c9eae42fa2b85c220f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:32 +0000
Subject: [PATCH 26/28] fix: AP adapt refuses a wrong sample before it changes
 its memory

---
 padasip/filters/base_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index f315725..c9bb5c7 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -265,6 +265,11 @@ class AdaptiveFilterAP(AdaptiveFilter):
 
         * `x` : input array (1-dimensional array)
         """
+        # a sample of wrong shape or type has to fail before the memory changes
+        x_new, d_new = np.zeros(self.n), np.zeros(1)
+        x_new[:] = x
+        d_new[0] = d
+        x, d = x_new, d_new[0]
         # create input matrix and target vector
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
-- 
2.43.0


From 9a806564c5f15046e0ab5ecebdf3dc21067c7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:32 +0000
Subject: [PATCH 27/28] fix: an AP run with data of wrong dimensions is refused
 before the memory changes

---
 padasip/filters/base_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index c9bb5c7..26826e6 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -314,6 +314,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not (x.ndim == 2 and d.ndim == 1):
+            raise ValueError('The x must be a matrix and d a vector.')
         if not len(x[0]) == self.n:
             raise ValueError('The number of columns of x must agree with the filter size.')
         # create empty arrays
-- 
2.43.0


From dfe5863c4fa73df5cba3ec542b59907295f18645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:32 +0000
Subject: [PATCH 28/28] fix: pretrained_run refuses wrong data before the
 training, not after it

---
 padasip/filters/base_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 26826e6..14eeaa2 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -143,6 +143,14 @@ class AdaptiveFilter():
 
         * `w` : vector of final weights (1 dimensional array).
         """
+        # refuse wrong data before the training, not after it
+        if not len(d) == len(x):
+            raise ValueError('The length of vector d and matrix x must agree.')
+        try:
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
+        except:
+            raise ValueError('Impossible to convert x or d to a numpy array')
         Ntrain = int(len(d)*ntrain)
         # train
         for _ in range(epochs):
-- 
2.43.0

