From 82e950e5ba1bcbe59b3315cecd25917207d78530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:02 +0000
Subject: [PATCH 01/58] fix: lda_vb_python.query no longer retrains the word
 distributions

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..de0cd89 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,6 +407,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab: # only the topics are being inferred, the word distributions stay as they are
+            continue
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From 8bea9da48ed833d68d58b408e30a72e919d41907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:02 +0000
Subject: [PATCH 02/58] fix: keep the online step size at or below one, so word
 weights stay positive

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index de0cd89..e9a3f53 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -414,7 +414,7 @@ def train(data, model, query, plan, updateVocab=True):
             wordDists[:, :] = grad[:, :]
         else:
             if rateAlgor == RateAlgorTimeKappa:
-                stepSize[:] = (b + plan.rate_delay)**(-plan.forgetting_rate)
+                stepSize[:] = min(1.0, (b + plan.rate_delay)**(-plan.forgetting_rate))
             elif rateAlgor == RateAlgorVariance:
                 update_inplace_v(gradStep, ex_grad, change=grad)
                 gtg = stepSize.copy()
-- 
2.43.0


From d6dfc8673f48e2e259ad08fc2d86e69aeae90fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:11 +0000
Subject: [PATCH 03/58] fix: a zero draw in the Gibbs sampler selected topic -1

---
 sidetopics/model/lda_gibbs_fast.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..ff85346 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -248,6 +248,8 @@ def sample ( \
                     while draw > 0:
                         k = (k + 1) % K # shouldn't need mod, but to be safe...
                         draw -= dist[k]
+                    if k < 0: # rand() returned zero, so the loop was never entered
+                        k = 0
                         
                     z_list[n] = k
                     
-- 
2.43.0


From f18fff92a687995df03df6245369495a0f903e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:11 +0000
Subject: [PATCH 04/58] fix: lda_gibbs.seed_rng ignored the seed it was given

---
 sidetopics/model/lda_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..916a3bc 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -176,8 +176,8 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
 
 
 def seed_rng(seed):
-    rd.seed(0xC0FFEE)
-    compiled.initGlobalRng(0xC0FFEE)
+    rd.seed(seed)
+    compiled.initGlobalRng(seed & 0x7FFFFFFF)
 
 
 def train (_, model, query, plan):
-- 
2.43.0


From 109177419d57eea3c9ac0d9afa3cbbc6d5356942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:11 +0000
Subject: [PATCH 05/58] fix: short Gibbs runs took no samples, and so returned
 NaNs

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 916a3bc..bee4119 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -171,6 +171,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
+    thin = max(1, min(thin, iterations)) # so that there is always at least one sample
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From a3d17c201a86ceb4dcbbfd36d80e391b4a18245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:11 +0000
Subject: [PATCH 06/58] fix: lda_gibbs.query replaced the sample count of the
 model it was given

---
 sidetopics/model/lda_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index bee4119..0569adc 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -254,7 +254,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From 82645ccf58629a06b0a9950b16ca1f55911dea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:11 +0000
Subject: [PATCH 07/58] fix: Gibbs models could not be scored by perplexity

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 0569adc..0acce19 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -24,6 +24,7 @@ import numpy.random as rd
 import sidetopics.model.lda_gibbs_fast as compiled
 
 from sidetopics.util.misc import constantArray
+from sidetopics.model.evals import perplexity_from_like
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 import sidetopics.model.lda_vb_python as lda_vb
 
-- 
2.43.0


From 9bc2fe4df9a84a730babb3c16103d6201a3a2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:11 +0000
Subject: [PATCH 08/58] fix: short runs of mom_gibbs divided by zero

---
 sidetopics/model/mom_gibbs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..6c0a4a5 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -140,7 +140,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
@@ -330,6 +330,10 @@ def query(data, model, queryState, queryPlan):
             sample_accum += topicDists
             sample_count += 1
 
+    if sample_count == 0: # too few iterations to have passed burn-in
+        sample_accum += topicDists
+        sample_count  = 1
+
     sample_accum /= sample_count
     return model, QueryState(queryState.docLens, sample_accum, True)
 
-- 
2.43.0


From 5455efdf6ba72cc41179ca872b3134c4ae3189a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:37 +0000
Subject: [PATCH 09/58] fix: lda_vb.query called the 64-bit kernel for 32-bit
 models

---
 sidetopics/model/lda_vb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index b87e766..67da478 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -328,7 +328,7 @@ def query(data, modelState, queryState, queryPlan):
 
     if modelState.dtype == np.float32:
         for _ in range(queryPlan.iterations):
-            compiled.query_f64 (D, T, K, \
+            compiled.query_f32 (D, T, K, \
                      W_list, docLens, \
                      topicPrior, z_dnk, topicDists,
                      vocabDists)
-- 
2.43.0


From 2cda46e9b0ccae4642fa9674184ab2ccc6a2040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:37 +0000
Subject: [PATCH 10/58] fix: asking lda_vb for its distributions normalised the
 model's own parameters

---
 sidetopics/model/lda_vb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 67da478..9944f1c 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -346,7 +346,7 @@ def wordDists (modelState):
     '''
     The K x T matrix of  word distributions inferred for the K topics
     '''
-    result = modelState.wordDists
+    result = modelState.wordDists.copy()
     norm   = np.sum(modelState.wordDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -357,7 +357,7 @@ def topicDists (queryState):
     The D x K matrix of topics distributions inferred for the K topics
     across all D documents
     '''
-    result = queryState.topicDists
+    result = queryState.topicDists.copy()
     norm   = np.sum(queryState.topicDists, axis=1)
     result /= norm[:,np.newaxis]
 
-- 
2.43.0


From 8e8db514d69b90be937296a038cfb4f3c09361e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:37 +0000
Subject: [PATCH 11/58] fix: lda_vb.log_likelihood failed unless words had the
 model's dtype

---
 sidetopics/model/lda_vb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 9944f1c..78d261e 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -371,7 +371,8 @@ def log_likelihood (data, modelState, queryState):
 
     Actually returns a vector of D document specific log likelihoods
     '''
-    return sparseScalarProductOfSafeLnDot(data.words, topicDists(queryState), wordDists(modelState)).sum()
+    W = data.words if data.words.dtype == modelState.dtype else data.words.astype(modelState.dtype)
+    return sparseScalarProductOfSafeLnDot(W, topicDists(queryState), wordDists(modelState)).sum()
 
 
 def var_bound(data, modelState, queryState, z_dnk = None):
-- 
2.43.0


From 8ceba9ba18fb72c26e6c6c34cedd07e5e0119573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:37 +0000
Subject: [PATCH 12/58] fix: the lda_vb bound summed over uninitialised memory

---
 sidetopics/model/lda_vb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 78d261e..139c632 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -388,7 +388,7 @@ def var_bound(data, modelState, queryState, z_dnk = None):
     W   = data.words
     D,T = W.shape
     maxN = docLens.max()
-    if z_dnk == None:
+    if z_dnk is None:
         z_dnk = np.empty(shape=(maxN, K), dtype=dtype)
 
     wordDistsMatrix = wordDists(modelState)
@@ -420,6 +420,7 @@ def var_bound(data, modelState, queryState, z_dnk = None):
         lnWordProbs = lnWordDists[:,W_list[d,0:docLens[d]]]
         diTopic     = fns.digamma(topicDists[d,:])
         z_dnk[0:docLens[d],:] = lnWordProbs.T + diTopic[np.newaxis,:]
+        z_dnk[docLens[d]:maxN,:] = 0 # otherwise left uninitialised
 
         # We've been working in log-space till now, before we go to true
         # probability space rescale so we don't underflow everywhere
@@ -430,6 +431,7 @@ def var_bound(data, modelState, queryState, z_dnk = None):
         # Now normalize so probabilities sum to one
         sums   = z_dnk.sum(axis=1)
         z_dnk /= sums[:,np.newaxis]
+        z_dnk[docLens[d]:maxN,:] = 0 # zero probablities for words that don't exist
 #        z_dnk[docLens[d]:maxN,:] = 0 # zero probablities for words that don't exist
 
         # Now use to calculate  E[ln p(Z|topics), E[ln p(W|Z) and H[Z] in that order
-- 
2.43.0


From 153e25e94eed0171f51aa259242421616c2fddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 13/58] fix: CVB scoring no longer rescales the counts of the
 model it scores

The counts were normalised in place and scaled back afterwards, leaving
rounding errors in the model, even small negative counts.
---
 sidetopics/model/lda_cvb.py  | 9 +--------
 sidetopics/model/lda_cvb0.py | 9 +--------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..42bb5e4 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -393,7 +393,7 @@ def log_likelihood (data, modelState, queryState):
 
     Actually returns a vector of D document specific log likelihoods
     '''
-    n_dk, n_kt = queryState.n_dk, modelState.n_kt
+    n_dk, n_kt = queryState.n_dk.copy(), modelState.n_kt.copy()
     a, b       = modelState.topicPrior, modelState.vocabPrior
 
     if np.isscalar(a) or type(a) is float:
@@ -413,13 +413,6 @@ def log_likelihood (data, modelState, queryState):
     # faster still by not materializing the (admittedly sparse) matrix
     ln_likely = sparseScalarProductOfSafeLnDot(data.words.astype(n_dk.dtype), n_dk, n_kt).sum()
 
-    # Rescale back to word-counts
-    n_dk *= doc_norm[:,np.newaxis]
-    n_kt *= voc_norm[:,np.newaxis]
-
-    n_dk -= a[np.newaxis, :]
-    n_kt -= b
-
     return ln_likely
 
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..b62e90f 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -360,7 +360,7 @@ def log_likelihood_point(data, modelState, queryState):
 
     Actually returns a vector of D document specific log likelihoods
     '''
-    n_dk, n_kt = queryState.n_dk, modelState.n_kt
+    n_dk, n_kt = queryState.n_dk.copy(), modelState.n_kt.copy()
     a, b       = modelState.topicPrior, modelState.vocabPrior
 
     if type(a) is float or np.isscalar(a):
@@ -382,13 +382,6 @@ def log_likelihood_point(data, modelState, queryState):
     # faster still by not materializing the (admittedly sparse) matrix
     ln_likely = sparseScalarProductOfSafeLnDot(W, n_dk, n_kt).sum()
 
-    # Rescale back to word-counts
-    n_dk *= doc_norm[:,np.newaxis]
-    n_kt *= voc_norm[:,np.newaxis]
-
-    n_dk -= a[np.newaxis, :]
-    n_kt -= b
-
     return ln_likely
 
 
-- 
2.43.0


From 533430b299e4856fc199d52212d9b5a527b43842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 14/58] fix: a copied CVB model got counts in place of
 variances

---
 sidetopics/model/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 42bb5e4..86566e8 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -76,9 +76,9 @@ def newModelFromExisting(model):
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
-- 
2.43.0


From f31ed02a96a304cad8f0daa4e022943971e545e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 15/58] fix: refitting a CVB model corrupted its counts

On a second fit CVB wrote the variance totals over the topic totals, and both
CVB kinds left the model counts in the returned query state, so that resuming
from it counted them twice.
---
 sidetopics/model/lda_cvb.py  | 17 ++++++++++++-----
 sidetopics/model/lda_cvb0.py |  9 +++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 86566e8..96a6426 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -314,12 +314,19 @@ def train (data, modelState, queryState, trainPlan, query=False):
     else: # train # Model is changed. Query is changed
         if m_n_dk is not None: # Amend existing
             m_n_dk = np.vstack((m_n_dk, q_n_dk))
-            m_n_kt[:,:] = q_n_kt # Recall we _added_ the m_n_kt counts to the query
-            m_n_k[:]    = q_n_k  # before training, so now the query-counts contain the
-                                 # sum of old and new, and can just be copied across
+            old_n_kt, old_n_k, old_v_kt, old_v_k = m_n_kt, m_n_k, m_v_kt, m_v_k
+            m_n_kt = q_n_kt.copy() # Recall we _added_ the m_n_kt counts to the query
+            m_n_k  = q_n_k.copy()  # before training, so now the query-counts contain the
+                                   # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
-            m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_kt = q_v_kt.copy()
+            m_v_k  = q_v_k.copy()
+
+            # The query itself should only ever count its own documents
+            np.subtract(q_n_kt, old_n_kt, out=q_n_kt)
+            np.subtract(q_v_kt, old_v_kt, out=q_v_kt)
+            np.subtract(q_n_k,  old_n_k,  out=q_n_k)
+            np.subtract(q_v_k,  old_v_k,  out=q_v_k)
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index b62e90f..86e5534 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -295,8 +295,13 @@ def train (data, modelState, queryState, trainPlan, query=False):
     else: # train # Model is changed (or flat-out created). Query is changed
         if m_n_dk is not None: # Amend existing
             m_n_dk = np.vstack((m_n_dk, q_n_dk))
-            m_n_kt[:,:] = q_n_kt
-            m_n_k[:]    = q_n_k
+            old_n_kt, old_n_k = m_n_kt, m_n_k
+            m_n_kt = q_n_kt.copy()
+            m_n_k  = q_n_k.copy()
+
+            # The query itself should only ever count its own documents
+            np.subtract(q_n_kt, old_n_kt, out=q_n_kt)
+            np.subtract(q_n_k,  old_n_k,  out=q_n_k)
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From 289ba1d66f97dd841d730ea896115f3ecf5e61a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:59 +0000
Subject: [PATCH 16/58] fix: interrupted fits and transforms left the topic
 model half updated

A fit that failed left an untrained model looking trained, or an already
trained one with partly updated parameters; and a failed resume left
the persisted query state partly updated.
---
 sidetopics/model/sklearn/lda_cvb.py | 37 ++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..e28372f 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -13,6 +13,7 @@ from sklearn.base import TransformerMixin
 import numpy as np
 import numpy.random as rd
 import scipy.sparse as ssp
+import copy
 import math
 import logging
 from typing import List, Tuple, NamedTuple
@@ -273,23 +274,27 @@ class TopicModel(BaseEstimator, TransformerMixin):
         module = TopicModelType[self.kind].value
         if self._model_state is None:
             logging.info("Creating new model-state at random")
-            self._model_state = module.newModelAtRandom(data=X,
-                                                        topicPrior=self.doc_topic_prior,
-                                                        vocabPrior=self.topic_word_prior,
-                                                        K=self.n_components)
+            model_state = module.newModelAtRandom(data=X,
+                                                  topicPrior=self.doc_topic_prior,
+                                                  vocabPrior=self.topic_word_prior,
+                                                  K=self.n_components)
         else:
             logging.info("Resuming fit using previous model state")
-
+            # Training may work in-place, so work on a copy in case we're interrupted
+            model_state = copy.deepcopy(self._model_state)
 
         iters = kwargs.get('iterations') or self.iterations
         train_plan = self._new_train_plan(module, iters, **kwargs)
-        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'))
+        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'), model_state)
 
-        self._model_state, inferred_query_state, m = module.train(X, self._model_state, input_query, train_plan)
+        model_state, inferred_query_state, m = module.train(X, model_state, input_query, train_plan)
+        fit_metrics = EpochMetrics.from_ibl_tuple(m)
+
+        # Everything has succeeded, so only now make any changes to this object
+        self._model_state = model_state
         self.bound_ = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
-
-        self.fit_metrics_ = EpochMetrics.from_ibl_tuple(m)
+        self.fit_metrics_ = fit_metrics
         logging.info(f"Fit model to data after {iters} iterations")
         return self
 
@@ -374,27 +379,31 @@ class TopicModel(BaseEstimator, TransformerMixin):
         iters = kwargs.get('iterations') or self.query_iterations
         query_plan = self._new_train_plan(module, iters, **kwargs)
 
-        self._model_state, inferred_query_state = module.query(X, self._model_state, input_query, query_plan)
+        _, inferred_query_state = module.query(X, self._model_state, input_query, query_plan)
+        ret_val = module.topicDists(inferred_query_state)
 
+        # Everything has succeeded, so only now make any changes to this object
         self.transform_metrics_ = None
         self._bound = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
 
-        ret_val = module.topicDists(inferred_query_state)
         logging.info(f"Obtained a {ret_val.shape} topic-assignments matrix after {iters} iterations")
         return ret_val
 
-    def make_or_resume_query_state(self, X: DataSet, should_resume: bool):
+    def make_or_resume_query_state(self, X: DataSet, should_resume: bool, model_state: object = None):
         module = TopicModelType[self.kind].value
         if should_resume:
             if self._last_X is X:
                 logging.info("Resuming from last query state")
-                input_query = self._last_query_state
+                # Inference works in-place, so work on a copy in case we're interrupted
+                input_query = copy.deepcopy(self._last_query_state)
             else:
                 raise ValueError("Attempting to resume with a different dataset to last fit/transform run")
         else:
             logging.info("Creating new query state")
-            input_query = module.newQueryState(X, self._model_state, self.debug)
+            input_query = module.newQueryState(
+                X, self._model_state if model_state is None else model_state, self.debug
+            )
         return input_query
 
     @property
-- 
2.43.0


From da97e34be6cd3b77cf80045c8ace12a567f67268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:59 +0000
Subject: [PATCH 17/58] fix: TopicModel.copy always failed

---
 sidetopics/model/sklearn/lda_cvb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index e28372f..04a53d7 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -231,10 +231,10 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
-        result._last_query_state = self._last_query_state
+        result = TopicModel.__new__(type(self))
+        result.__dict__.update(self.__dict__) # directly, as setting the seed restarts the RNGs
+        result._model_state = copy.deepcopy(self._model_state)
+        result._last_query_state = copy.deepcopy(self._last_query_state)
         return result
     
     
-- 
2.43.0


From bb3c324b94a7f8f0107b7299f89fc49f67b65a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:59 +0000
Subject: [PATCH 18/58] fix: scoring without mixtures failed for bounds, and
 forgot the kept query state

---
 sidetopics/model/sklearn/lda_cvb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 04a53d7..f0f1dff 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -460,11 +460,12 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                y = self.transform(X)
+                query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
             else:
                 test_infer, test_eval = X.doc_completion_split()
-                y = self.transform(test_infer)
+                query_state = self.find_query_state_via_transform(test_infer, {}, persist_query_state=False)
                 X = test_eval
+            y = module.topicDists(query_state)
         elif y is not None:
             if not method.is_point_estimate():
                 raise ValueError("Only support point scoring methods for point estimates of y. "
-- 
2.43.0


From 3f374d2fe0f86270489bef512f18c45da850e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:59 +0000
Subject: [PATCH 19/58] fix: fit_transform refused to resume unless given a
 DataSet

---
 sidetopics/model/sklearn/lda_cvb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index f0f1dff..25d78fb 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -240,6 +240,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
     
 
     def fit_transform(self,  X: Union[np.ndarray, DataSet], y: np.ndarray = None, **kwargs) -> np.ndarray:
+        if type(X) is not DataSet:
+            X = DataSet(words=X) # once, as we can only resume with the very same dataset
         return self.fit(
             X, y,
             persist_query_state=True,
-- 
2.43.0


From 25790069c740d51f8f9ea54582f4ef0d1fdef59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 20/58] fix: reordering or splitting a dataset failed unless it
 had categories in an array

and a failure part way through reordering left the parts out of step.
---
 sidetopics/model/common.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..43db286 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -166,7 +166,7 @@ class DataSet:
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        pruned_dict = _select(self._word_dict, retain_word_ids)
 
         return DataSet(
             pruned_words,
@@ -300,10 +300,13 @@ class DataSet:
 
         Maybe this should update the order property as well...
         """
-        self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
-        self._feats = None if self._feats is None else self._feats[order, :]
-        self._links = _reorder_link_matrix(self._links, order)
+        words = self._words[order, :]
+        doc_categories = _select(self._doc_categories, order)
+        feats = None if self._feats is None else self._feats[order, :]
+        links = _reorder_link_matrix(self._links, order)
+
+        # Nothing can fail from here on, so the parts cannot go out of step.
+        self._words, self._doc_categories, self._feats, self._links = words, doc_categories, feats, links
 
 
     def convert_to_undirected_graph(self):
@@ -420,7 +423,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_select(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -429,7 +432,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_select(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -557,7 +560,7 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            return None if matrix is None else (matrix[row_order,:])[:,col_order]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
@@ -565,19 +568,19 @@ class DataSet:
 
         mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(self._feats[:,features[0]].toarray().ravel() > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
@@ -743,6 +746,16 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
     return L, R, docSubset
 
 
+def _select(values, indices):
+    """
+    Returns the elements of the given list or array at the given indices, or None
+    if there is no list.
+    """
+    if values is None:
+        return None
+    return values[indices] if isinstance(values, np.ndarray) else [values[i] for i in indices]
+
+
 def _reorder_link_matrix(matrix, order):
     """
     Returns a matrix containing only the given rows (in order).
-- 
2.43.0


From cb709957328bb8c16aa0dd16a7def42e5c179c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 21/58] fix: prune_and_shuffle changes the dataset in one step,
 and runs on current numpy

It failed as np.bool is gone; and having replaced the order before
the matrices, any failure left the order describing other rows.
---
 sidetopics/model/common.py | 44 ++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 43db286..8ddf789 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -342,41 +342,39 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
-            self._order = good_rows
+            order = good_rows
             print ("Removed %d documents with fewer than %d unique words. %d documents remain" \
                    % (len(unique_word_counts) - len(good_rows), min_unique_word_count, len(good_rows)))
         else:
             doc_count = self._words.shape[0]
             if self._order is not None:
                 print("Overwriting old _order member")
-            self._order = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
-
-        rng.shuffle(self._order)
-        self._reorder(self._order)
-
-        if min_link_count == 0 or not self.has_links():
-            return self._order
-
-        trimmed = False
-        original_num_docs = self.doc_count
-        link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
-        sufficient_docs = np.where(link_counts >= min_link_count)[0]
-        while len(sufficient_docs) < self._links.shape[0]:
-            trimmed = True
-            self._reorder(sufficient_docs)
-            self._order = self._order[sufficient_docs]
-            link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
-            sufficient_docs = np.where(link_counts >= min_link_count)[0]
+            order = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
 
-        if trimmed:
-            print("Removed %d documents whose out-link counts were less than %d. %d documents remain" \
-                   % (original_num_docs - self.doc_count, min_link_count, self.doc_count))
+        rng.shuffle(order)
 
+        if min_link_count > 0 and self.has_links():
+            original_num_docs = len(order)
+            links = _reorder_link_matrix(self._links, order)
+            link_counts = np.array(links.sum(axis=1)).ravel()
+            sufficient_docs = np.where(link_counts >= min_link_count)[0]
+            while len(sufficient_docs) < len(order):
+                order = order[sufficient_docs]
+                links = _reorder_link_matrix(self._links, order)
+                link_counts = np.array(links.sum(axis=1)).ravel()
+                sufficient_docs = np.where(link_counts >= min_link_count)[0]
+
+            if len(order) < original_num_docs:
+                print("Removed %d documents whose out-link counts were less than %d. %d documents remain" \
+                       % (original_num_docs - len(order), min_link_count, len(order)))
+
+        self._reorder(order)
+        self._order = order
         return self._order
 
 
-- 
2.43.0


From 7cf2df1a8a7c34e3f0a422a6c3c741e8b019d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 22/58] fix: a dataset's limit never limited it, and loading
 with an order did not report it

---
 sidetopics/model/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 8ddf789..18ec161 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -60,6 +60,7 @@ class DataSet:
                 if order is None \
                 else order[:limit]
             num_docs = limit
+            self._reorder(np.arange(limit))
 
         if order is not None:
             self._order = order
@@ -125,9 +126,11 @@ class DataSet:
 
         result = DataSet(words, feats, links,
                          doc_categories=doc_categories, word_dict=word_dict,
-                         order=None, limit=limit)
+                         order=None, limit=limit if order is None else 0)
         if order is not None:
+            order = np.array(order[:limit] if limit > 0 else order)
             result._reorder(order)
+            result._order = order
 
         return result
 
-- 
2.43.0


From dc002ff231e4027923c0c4f9635f7abb13b66c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 23/58] fix: deep copies of datasets always failed

---
 sidetopics/model/common.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 18ec161..706841c 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -6,6 +6,7 @@ import scipy.sparse as ssp
 import pickle as pkl
 from math import ceil
 import logging
+from copy import deepcopy
 
 from gensim.corpora.dictionary import Dictionary
 
@@ -147,12 +148,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
-                list(self._word_dict) if self._word_dict is not None else None,
-                list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
+                deepcopy(self._word_dict),
+                deepcopy(self._doc_categories),
+                deepcopy(self._order)
             )
         else:
             return DataSet(
-- 
2.43.0


From 444bea192684646bc41436db9321a09846f54c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 24/58] fix: a failed conversion left only some parts of a
 dataset converted

---
 sidetopics/model/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 706841c..4d2f760 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -272,9 +272,10 @@ class DataSet:
         """
         Inplace conversion to given dtypes
         """
-        self._words = self._words.astype(words_dtype)
-        self._feats = None if self._feats is None else self._feats.astype(feats_dtype)
-        self._links = None if self._links is None else self._links.astype(links_dtype)
+        words = self._words.astype(words_dtype)
+        feats = None if self._feats is None else self._feats.astype(feats_dtype)
+        links = None if self._links is None else self._links.astype(links_dtype)
+        self._words, self._feats, self._links = words, feats, links
 
 
     def add_intercept_to_feats_if_required(self):
-- 
2.43.0


From d550e4edca40a7f5857f979d56ee4950b9b7ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 25/58] fix: document completion splits made negative counts
 and lost track of documents

Uneven proportions gave negative counts; removing short documents
always failed; and the halves did not know which documents they held.
---
 sidetopics/model/common.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 4d2f760..d57af50 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -475,7 +475,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
@@ -484,9 +484,10 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        order, doc_categories = self._order, self._doc_categories
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
@@ -494,15 +495,17 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
-                
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
+                order = order[tq_good]
+                doc_categories = _select(doc_categories, tq_good)
+
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, order=order, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, order=order, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
-- 
2.43.0


From 14206531d01add92b5b5bca9b573145ccd690438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 26/58] fix: link splits always failed, and doubled links of
 documents to themselves

---
 sidetopics/model/common.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index d57af50..87a992e 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -528,8 +528,8 @@ class DataSet:
             links_train, links_query = _split(self._links, rng)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories)
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order)
 
 
     def folded_link_prediction_split(self, min_link_count, fold_id, fold_count, symmetric=False):
@@ -551,8 +551,8 @@ class DataSet:
             links_train, links_query, docSubset = _folded_split(self._links, fold_id, fold_count, min_link_count)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories), \
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order), \
             docSubset
 
     def split_on_feature(self, features):
@@ -623,7 +623,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -639,20 +639,11 @@ def _symm_csr(dat, row, col, shape):
     where the coorindates are for the upper triangle only. These are then copied
     to create the lower-triangle. The returned matrix is in CSR format.
     """
-    count = len(dat)
+    off_diag = row != col # the diagonal is its own mirror-image
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off_diag]))
+    nu_row = np.concatenate((row, col[off_diag]))
+    nu_col = np.concatenate((col, row[off_diag]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
@@ -674,7 +665,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From 72255965e6ab1c74799fcf660a8a7ea437b42199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:42 +0000
Subject: [PATCH 27/58] fix: the command-line runner could not start

Its imports and its call to prune_and_shuffle had fallen behind the modules.
---
 sidetopics/run/__main__.py | 60 +++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index f260cb8..6a0640a 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -48,15 +48,15 @@ StmYvBohningFakeOnline = "stm_yv_bohning_fake_online"
 
 ModelNames = ', '.join([CtmBouchard, CtmBohning, StmYvBouchard, StmYvBohning, StmYvBohningFakeOnline, StmUyvBohning, LdaCvb, LdaCvbZero, LdaVb, LdaSvb, LdaGibbs, Rtm, Mtm, Lro, Dmr, MomEm, MomGibbs])
 
-from model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
-from model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
-from model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
-from model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
-
-from model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
-from model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
-from model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
-from model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
+from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
+from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
+from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
+from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
+
+from sidetopics.model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
+from sidetopics.model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
+from sidetopics.model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
+from sidetopics.model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
 LDA_SIM_MODEL_NAME = SIM_MODEL_NAME_PREFIX + SIM_MODEL_NAME_SUFFIX
 
 DefaultPriorCov = 0.001
@@ -165,7 +165,7 @@ def run(args):
     #
     data = DataSet.from_files(args.words, args.feats, args.links, limit=args.limit)
     data.convert_to_dtype(input_dtype)
-    data.prune_and_shuffle(min_doc_len=MinDocLen, min_link_count=MinLinkCountPrune)
+    data.prune_and_shuffle(min_unique_word_count=MinDocLen, min_link_count=MinLinkCountPrune)
 
     print ("The combined word-count of the %d documents is %.0f, drawn from a vocabulary of %d distinct terms" % (data.doc_count, data.word_count, data.words.shape[1]))
     if data.add_intercept_to_feats_if_required():
@@ -182,64 +182,64 @@ def run(args):
 
     print ("Building template model... ", end="")
     if args.model == CtmBouchard:
-        import model.ctm as mdl
+        import sidetopics.model.ctm as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == CtmBohning:
-        import model.ctm_bohning as mdl
+        import sidetopics.model.ctm_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBouchard:
-        import model.stm_yv as mdl
+        import sidetopics.model.stm_yv as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohning:
-        import model.stm_yv_bohning as mdl
+        import sidetopics.model.stm_yv_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohningFakeOnline:
-        import model.stm_yv_bohning_fake_online as mdl
+        import sidetopics.model.stm_yv_bohning_fake_online as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == MomEm:
-        import model.mom_em as mdl
+        import sidetopics.model.mom_em as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == MomGibbs:
-        import model.mom_gibbs as mdl
+        import sidetopics.model.mom_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == StmUyvBohning:
-        import model.stm_uv_vec_y_bohning as mdl
+        import sidetopics.model.stm_uv_vec_y_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K=K, Q=Q, P=P,  tv=tv, ltv=ltv, fv=fv, lfv=lfv, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaCvb:
-        import model.lda_cvb as mdl
+        import sidetopics.model.lda_cvb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaCvbZero:
-        import model.lda_cvb0 as mdl
+        import sidetopics.model.lda_cvb0 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
-        import model.lda_gibbs as mdl
+        import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Rtm:
-        import model.rtm as mdl
+        import sidetopics.model.rtm as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm:
-        import model.mtm2 as mdl
+        import sidetopics.model.mtm2 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm2:
-        import model.mtm3 as mdl
+        import sidetopics.model.mtm3 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Dmr:
-        import model.dmr as mdl
+        import sidetopics.model.dmr as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Lro:
-        import model.lro_vb as mdl
+        import sidetopics.model.lro_vb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == SimLda:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.LDA, dtype=output_dtype)
     elif args.model == SimTfIdf:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.TF_IDF, dtype=output_dtype)
     else:
         raise ValueError ("Unknown model identifier " + args.model)
-- 
2.43.0


From b28b9645774a4eecc75fa69e2c1b97f8757f347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:42 +0000
Subject: [PATCH 28/58] fix: folds which could not be saved still counted in
 the totals

and a run none of whose folds could be completed died dividing by zero.
---
 sidetopics/run/__main__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6a0640a..30a489b 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -453,25 +453,29 @@ def cross_val_and_eval_perplexity(data, mdl, sample_model, train_plan, query_pla
             query_word_count = query_eval.word_count
             query_perp       = perplexity_from_like(query_like, query_word_count)
 
-            # Keep a record of the cumulative likelihood and query-set word-count
-            train_like_sum += train_like
-            train_wcount_sum  += train_word_count
-            query_like_sum += query_like
-            query_wcount_sum  += query_word_count
-            folds_finished  += 1
-
             # Write out the output
             print("Fold %d: Train-set Perplexity: %12.3f \t Query-set Perplexity: %12.3f" % (fold, train_perp, query_perp))
             print("")
 
             # Save the model
             model_files = save_if_necessary(model_files, model_dir, model, data, fold, train_itrs, train_vbs, train_likes, train_tops, query_tops, mdl)
+
+            # The fold is complete: keep a record of the cumulative likelihood and query-set word-count
+            train_like_sum += train_like
+            train_wcount_sum  += train_word_count
+            query_like_sum += query_like
+            query_wcount_sum  += query_word_count
+            folds_finished  += 1
         except Exception as e:
             traceback.print_exc()
             print("Abandoning fold %d due to the error : %s" % (fold, str(e)))
         finally:
             fold += 1
 
+    if folds_finished == 0:
+        print ("Total (0): No fold could be completed")
+        return model_files
+
     print ("Total (%d): Train-set Likelihood: %12.3f \t Train-set Perplexity: %12.3f" % (folds_finished, train_like_sum, perplexity_from_like(train_like_sum, train_wcount_sum)))
     print ("Total (%d): Query-set Likelihood: %12.3f \t Query-set Perplexity: %12.3f" % (folds_finished, query_like_sum, perplexity_from_like(query_like_sum, query_wcount_sum)))
 
-- 
2.43.0


From fe470f3683deb0b04b448d5e34b2588374db2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:42 +0000
Subject: [PATCH 29/58] fix: a save cut short left a broken result file under
 its final name

---
 sidetopics/run/__main__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 30a489b..8dd2380 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -7,6 +7,7 @@ import argparse as ap
 import pickle as pkl
 import numpy as np
 import numpy.random as rd
+import os
 import scipy.sparse as ssp
 import sys
 import time
@@ -781,8 +782,18 @@ def save_model(model_dir, model, data, fold, train_itrs, train_vbs, train_likes,
                 query_tops.docLens
             )
 
-    with open (model_file, 'wb') as f:
-        pkl.dump ((data.order, train_itrs, train_vbs, train_likes, model, train_tops, query_tops), f)
+    # Only give the file its proper name once it's safely on disk
+    temp_file = model_file + ".part"
+    try:
+        with open (temp_file, 'wb') as f:
+            pkl.dump ((data.order, train_itrs, train_vbs, train_likes, model, train_tops, query_tops), f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_file, model_file)
+    except BaseException:
+        if os.path.exists(temp_file):
+            os.remove(temp_file)
+        raise
 
     return model_file
 
-- 
2.43.0


From 3581dcc6dcbab370a8bee046f8438bf519c80ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:16 +0000
Subject: [PATCH 30/58] fix: scoring passed its inference results through the
 shared model object

Another caller using the model at that moment could swap them.
---
 sidetopics/model/sklearn/lda_cvb.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 25d78fb..474248c 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -373,15 +373,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
         logging.debug("Transforming data")
         module = TopicModelType[self.kind].value
-        if self._model_state is None:
-            raise ValueError("Untrained model")
-
-        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'))
-
-        iters = kwargs.get('iterations') or self.query_iterations
-        query_plan = self._new_train_plan(module, iters, **kwargs)
-
-        _, inferred_query_state = module.query(X, self._model_state, input_query, query_plan)
+        iters  = kwargs.get('iterations') or self.query_iterations
+        inferred_query_state = self._infer_query_state(X, iters, **kwargs)
         ret_val = module.topicDists(inferred_query_state)
 
         # Everything has succeeded, so only now make any changes to this object
@@ -392,6 +385,20 @@ class TopicModel(BaseEstimator, TransformerMixin):
         logging.info(f"Obtained a {ret_val.shape} topic-assignments matrix after {iters} iterations")
         return ret_val
 
+    def _infer_query_state(self, X: DataSet, iters: int, **kwargs) -> object:
+        """
+        Infers the query-state for the given data, without making any change to this object.
+        """
+        module = TopicModelType[self.kind].value
+        if self._model_state is None:
+            raise ValueError("Untrained model")
+
+        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'))
+        query_plan = self._new_train_plan(module, iters, **kwargs)
+
+        _, inferred_query_state = module.query(X, self._model_state, input_query, query_plan)
+        return inferred_query_state
+
     def make_or_resume_query_state(self, X: DataSet, should_resume: bool, model_state: object = None):
         module = TopicModelType[self.kind].value
         if should_resume:
@@ -462,10 +469,10 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
+                query_state = self._infer_query_state(X, self.query_iterations)
             else:
                 test_infer, test_eval = X.doc_completion_split()
-                query_state = self.find_query_state_via_transform(test_infer, {}, persist_query_state=False)
+                query_state = self._infer_query_state(test_infer, self.query_iterations)
                 X = test_eval
             y = module.topicDists(query_state)
         elif y is not None:
-- 
2.43.0


From 8e6d946922edb46ce705716492c47ce86262aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 31/58] fix: lda_vb failed to train if the log frequency
 exceeded the iterations

---
 sidetopics/model/lda_vb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 139c632..4a28726 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -185,7 +185,7 @@ def train (data, modelState, queryState, trainPlan):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = np.zeros(shape=(logPoints,))
     boundValues  = np.zeros(shape=(logPoints,))
     likelyValues = np.zeros(shape=(logPoints,))
-- 
2.43.0


From ac4d50d055de09ec8cf6050f4d19fc0f4b6716f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:20 +0000
Subject: [PATCH 32/58] fix: ctm and stm_yv failed unless the log frequency
 divided the iterations

---
 sidetopics/model/ctm.py    | 7 ++++---
 sidetopics/model/stm_yv.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 1f2ade9..d687fd6 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -182,9 +182,10 @@ def train (dataset, modelState, queryState, trainPlan):
     K, topicMean, sigT, vocab, vocabPrior, dtype = modelState.K, modelState.topicMean, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters   = np.zeros(shape=(iterations // logFrequency,))
-    boundValues  = np.zeros(shape=(iterations // logFrequency,))
-    likelyValues = np.zeros(shape=(iterations // logFrequency,))
+    logPoints    = 0 if logFrequency == 0 else (iterations + logFrequency - 1) // logFrequency
+    boundIters   = np.zeros(shape=(logPoints,))
+    boundValues  = np.zeros(shape=(logPoints,))
+    likelyValues = np.zeros(shape=(logPoints,))
     bvIdx = 0
     
     debugFn = _debug_with_bound if debug else _debug_with_nothing
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index e8653fd..29ebb4e 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    likeValues  = np.zeros(shape=(iterations // logFrequency,))
+    logPoints   = 0 if logFrequency == 0 else (iterations + logFrequency - 1) // logFrequency
+    boundIters  = np.zeros(shape=(logPoints,))
+    boundValues = np.zeros(shape=(logPoints,))
+    likeValues  = np.zeros(shape=(logPoints,))
     bvIdx = 0
     
     _debug_with_bound.old_bound = 0
-- 
2.43.0


From be766a7312a5779b84ba4166495d385c4a8d04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:20 +0000
Subject: [PATCH 33/58] fix: a log frequency above the iterations made CVB run
 further iterations

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 96a6426..a228443 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 86e5534..229aa68 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -228,7 +228,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
-- 
2.43.0


From 77139bf1ef8ef92d088a8b4c0847ca3e8b5c37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 34/58] fix: CVB and CVB0 reported tiny negative probabilities
 left over by rounding

---
 sidetopics/model/lda_cvb.py  | 10 ++++++++--
 sidetopics/model/lda_cvb0.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index a228443..21709cb 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -170,10 +170,16 @@ def newQueryState(data, modelState, debug=False):
 
 
 def topicDists(query):
-    return query.n_dk / query.n_dk.sum(axis=1)[:,np.newaxis]
+    return _normalised(query.n_dk)
 
 def wordDists(model):
-    return model.n_kt / model.n_kt.sum(axis=1)[:,np.newaxis]
+    return _normalised(model.n_kt)
+
+def _normalised(counts):
+    # Adding to and subtracting from the same count over and over may leave a tiny
+    # negative value due to rounding, where the count should have been zero
+    counts = np.maximum(counts, 0)
+    return counts / counts.sum(axis=1)[:,np.newaxis]
 
 
 def toWordList (w_csr):
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 229aa68..f0ec9a8 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -183,10 +183,16 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
 
 
 def topicDists(query):
-    return query.n_dk / query.n_dk.sum(axis=1)[:,np.newaxis]
+    return _normalised(query.n_dk)
 
 def wordDists(model):
-    return model.n_kt / model.n_kt.sum(axis=1)[:,np.newaxis]
+    return _normalised(model.n_kt)
+
+def _normalised(counts):
+    # Adding to and subtracting from the same count over and over may leave a tiny
+    # negative value due to rounding, where the count should have been zero
+    counts = np.maximum(counts, 0)
+    return counts / counts.sum(axis=1)[:,np.newaxis]
 
 
 def train (data, modelState, queryState, trainPlan, query=False):
-- 
2.43.0


From 50d34a66e2826e4a32fe51b2638e66d132b06caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:48 +0000
Subject: [PATCH 35/58] fix: mixture-model scores added a likelihood to a
 log-likelihood

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 474248c..bc9c9af 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -576,7 +576,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From 8e962bb5613189ba9927d0f2049df9513d257810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:08 +0000
Subject: [PATCH 36/58] fix: CVB's single-precision kernel let the variances
 grow without bound

---
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From 15ae21bc8482de89e09eec3f23e4716f53e6dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:27 +0000
Subject: [PATCH 37/58] fix: stm_yv_bohning took the log of a random draw which
 may be zero

---
 sidetopics/model/stm_yv_bohning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 9d2eb83..1aa9d19 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -142,6 +142,7 @@ def newQueryState(data, model):
     means    = base[:,:K]
     expMeans = base[:,K:]
 
+    np.maximum(means, np.finfo(dtype).eps, out=means) # random() may return zero, which has no log
     np.log(means, out=means) # Try to start with a system where taking the exp makes sense
     varcs = np.ones((D,K), dtype=dtype)
 
-- 
2.43.0


From ba0bf79f72d6d531de09a26de2fde018e6551458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:54 +0000
Subject: [PATCH 38/58] fix: mtm2 and mtm3's link likelihood read past the end
 of its matrix

---
 sidetopics/model/mtm2.py | 2 +-
 sidetopics/model/mtm3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index e21b653..6934a75 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -405,7 +405,7 @@ def log_likelihood (data, modelState, queryState):
     queryState object.
     '''
     probs = rowwise_softmax(queryState.means)
-    doc_dist = colwise_softmax(queryState.means)
+    doc_dist = colwise_softmax(queryState.means).T.copy() # K x D
 
     word_likely = np.sum( \
         sparseScalarProductOfSafeLnDot(\
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7f36378..92b0c46 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -575,7 +575,7 @@ def log_likelihood (data, modelState, queryState):
     queryState object.
     '''
     probs = rowwise_softmax(queryState.outMeans)
-    doc_dist = colwise_softmax(queryState.inMeans)
+    doc_dist = colwise_softmax(queryState.inMeans).T.copy() # K x D
 
     word_likely = np.sum( \
         sparseScalarProductOfSafeLnDot(\
-- 
2.43.0


From 26694bbc488cdf56d63c9b190e83eed72affc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 39/58] fix: the hashtag evaluation ignored the requested
 number of folds

---
 sidetopics/run/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 8dd2380..d3cd7d7 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -566,6 +566,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
 
             # Save the model
             model_files = save_if_necessary(model_files, model_dir, model, data, fold, train_itrs, train_vbs, train_likes, train_tops, None, mdl)
+            folds_finished += 1
         except Exception as e:
             traceback.print_exc()
             print("Abandoning fold %d due to the error : %s" % (fold, str(e)))
-- 
2.43.0


From a6b305961a1b873b412a9191ff77eee7b2c731be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 40/58] fix: stm_yv's bound overwrote the means it was
 measuring

Taking their exponent and then its logarithm in place does not give back the
same values, and gives minus infinity where the exponent underflows.
---
 sidetopics/model/stm_yv.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 29ebb4e..dd0dbe0 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -482,9 +482,7 @@ def var_bound(data, modelState, queryState, XTX = None):
     # The last term of line 1 gets cancelled out by part of the first term in line 2
     # so neither are included here.
     
-    row_maxes = means.max(axis=1)
-    means -= row_maxes[:,np.newaxis]
-    expMeans = np.exp(means, out=means)
+    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis])
     bound -= -np.sum(sparseScalarProductOfSafeLnDot(W, expMeans, vocab).data)
     
     bound -= np.sum(docLens[:,np.newaxis] * lxi * ((s*s)[:,np.newaxis] - (xi * xi)))
@@ -494,9 +492,6 @@ def var_bound(data, modelState, queryState, XTX = None):
     
     bound -= np.dot(s, docLens)
     
-    means = np.log(expMeans, out=expMeans)
-    means += row_maxes[:,np.newaxis]
-    
     return bound
 
 
-- 
2.43.0


From 68a045fd0a2d74ddb268292032856e47952658fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 41/58] fix: topics of the wrapped HDP had negative
 probabilities

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index bc9c9af..5657c53 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -826,7 +826,7 @@ class WrappedScikitHdp(HdpTransformer):
 
     @property
     def components_(self) -> np.ndarray:
-        return self.gensim_model.m_lambda / self.gensim_model.m_lambda_sum[:, np.newaxis]
+        return self.gensim_model.get_topics()
 
     def fit(self,
             X: Union[DataSet, np.ndarray],
-- 
2.43.0


From c55ff84599b8b1c73868708402343e51bf8522c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 42/58] fix: mixtures of the wrapped HDP lacked their rare
 topics

---
 sidetopics/model/sklearn/lda_cvb.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 5657c53..029e10e 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -864,7 +864,16 @@ class WrappedScikitHdp(HdpTransformer):
             X = matutils.Sparse2Corpus(sparse=X, documents_columns=False)
         if y is not None:
             raise ValueError("y is not allowed for wrapped scikit learn LDA")
-        return super().transform(X)
+        if self.gensim_model is None:
+            return super().transform(X)  # which raises the appropriate error
+        if isinstance(X[0], tuple):  # a single document
+            X = [X]
+
+        # The inherited method drops rare topics, so rows would not sum to one, and if a topic
+        # is rare in every document may return fewer columns than there are topics.
+        gamma = self.gensim_model.inference(X)
+        gamma[gamma.sum(axis=1) == 0, :] = self.gensim_model.lda_alpha  # documents with no words
+        return gamma / gamma.sum(axis=1)[:, np.newaxis]
 
     def score(self, X: Union[DataSet, np.ndarray], y: np.ndarray = None, y_query_state: object = None,
               method: Union[ScoreMethod, str] = None, **kwargs) -> float:
-- 
2.43.0


From 84bc1acab1ce4718b4b6809b4af5facc8e22ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 43/58] fix: the wrapped HDP scored integer word counts with
 truncated probabilities

---
 sidetopics/model/sklearn/lda_cvb.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 029e10e..898f0b9 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -932,12 +932,13 @@ class WrappedScikitHdp(HdpTransformer):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        if y.dtype != X.words.dtype:
-            y =  y.astype(X.words.dtype)
-        if component_dists.dtype != X.words.dtype:
-            component_dists =  component_dists.astype(X.words.dtype)
+        words = X.words
+        if words.dtype != component_dists.dtype:
+            words = words.astype(component_dists.dtype)
+        if y.dtype != component_dists.dtype:
+            y = y.astype(component_dists.dtype)
 
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        log_probs = sparseScalarProductOfSafeLnDot(words, y, component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
-- 
2.43.0


From e08265c72b05c9f10e54401eb1d65c04251e21d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 44/58] fix: interrupting the wrapped HDP left it half-trained

---
 sidetopics/model/sklearn/lda_cvb.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 898f0b9..14dc7c4 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -842,7 +842,14 @@ class WrappedScikitHdp(HdpTransformer):
                 logging.warning(f"Ignoring kwargs parameter {k}={v}")
 
         if kwargs.get('resume'):
-            super().partial_fit(X)
+            # This works in-place, so work on a copy in case we're interrupted
+            gensim_model = self.gensim_model
+            self.gensim_model = copy.deepcopy(gensim_model)
+            try:
+                super().partial_fit(X)
+            except BaseException:
+                self.gensim_model = gensim_model
+                raise
         else:
             super().fit(X, y)
         return self
-- 
2.43.0


From 22ed8c2ff23760cbd637f837ed44ceb007fadc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 45/58] fix: the gensim dictionary lacked the last words if no
 document used them

---
 sidetopics/model/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 87a992e..b29efa8 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -254,7 +254,9 @@ class DataSet:
             for row in range(self._words.shape[0]):
                 yield [(w, int(self._words[row, w])) for w in self._words[row, :].nonzero()[1]]
 
-        return Dictionary.from_corpus(per_doc_word_freq_iter())
+        # Name every word, as otherwise those after the last one that's used would be left out
+        id2word = {w: str(w) for w in range(self._words.shape[1])}
+        return Dictionary.from_corpus(per_doc_word_freq_iter(), id2word)
 
 
     def __len__(self):
-- 
2.43.0


From da46547c552ddba99fb221dfc6ade26fd1dff1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 46/58] fix: Gibbs-sampled evaluations depended on what ran
 before in the process

---
 sidetopics/run/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index d3cd7d7..71e554c 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -53,6 +53,7 @@ from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQuerySta
 from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
 from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
 from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
+from sidetopics.model.lda_gibbs import seed_rng as seed_lda_gibbs
 
 from sidetopics.model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
 from sidetopics.model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
@@ -151,6 +152,7 @@ def run(args):
     #
     print("Random seed is 0xC0FFEE")
     rd.seed(0xC0FFEE)
+    seed_lda_gibbs(0xC0FFEE) # the compiled sampler draws from a generator of its own
 
     print("Args are : " + str(args))
     args = parser.parse_args(args)
-- 
2.43.0


From 5ac7b17554240b33277cdb46c6ad711cccb1821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 47/58] fix: an evaluation stopped if one of its groups had no
 documents

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 71e554c..d6151a8 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1205,7 +1205,7 @@ def combine_map (old_avgs, old_counts, new_avgs, new_counts):
                { g:cnt for g,cnt in new_counts.items() }
 
     upd_counts = { g:old_count + new_counts[g] for g,old_count in old_counts.items() }
-    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / upd_counts[g] \
+    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / max(upd_counts[g], 1) \
                       for o,n in zip(lst,new_avgs[g])] \
                    for g,lst in old_avgs.items() }
 
-- 
2.43.0


From cccb9fbb93e1c054adfa248d18935c7de1557087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:24 +0000
Subject: [PATCH 48/58] fix: a one-row weighting for the whole corpus could not
 be scored

---
 sidetopics/model/sklearn/lda_cvb.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 14dc7c4..9637a3a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -563,10 +563,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # Get the log-likelihoods for each component
             per_doc_log_likes = (X.words @ lnComps.T)
-            if lnWeights.ndim == 1 or ((lnWeights.shape[0] == 1) and (X.words.shape[0] > 1)):
-                per_doc_log_likes += lnWeights[np.newaxis, :]
-            else:
-                per_doc_log_likes += lnWeights
+            per_doc_log_likes += lnWeights # one row per document, or one row (or vector) for the corpus
 
             # substract off a factor to avoid overflow/ underflow, then exponentiate to get likelioods
             # (this is the usual log-sum-exp formula used for multinomial likelihoods)
-- 
2.43.0


From 3ce033b8de98cbec020406215289b3b7cf17b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 49/58] fix: a dataset of one document could be neither fitted,
 transformed nor scored

---
 sidetopics/model/common.py          | 8 ++++----
 sidetopics/model/ctm.py             | 2 +-
 sidetopics/model/ctm_bohning.py     | 2 +-
 sidetopics/model/lda_cvb.py         | 2 +-
 sidetopics/model/lda_cvb0.py        | 2 +-
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 sidetopics/model/lda_vb_python.py   | 2 +-
 sidetopics/model/mom_em.py          | 4 ++--
 sidetopics/model/mom_gibbs.py       | 2 +-
 sidetopics/model/stm_yv_bohning.py  | 2 +-
 10 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index b29efa8..fd08878 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -217,7 +217,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.array(self.words.sum(axis=1)).reshape(-1)
 
     @property
     def order(self):
@@ -351,7 +351,7 @@ class DataSet:
 
         tmp = self._words.astype(bool).astype(np.int32)
 
-        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
+        unique_word_counts = np.asarray(tmp.sum(axis=1)).reshape(-1)
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
             order = good_rows
@@ -488,8 +488,8 @@ class DataSet:
 
         order, doc_categories = self._order, self._doc_categories
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.asarray(words_train.astype(bool).sum(axis=1)).reshape(-1)
+            q_lens = np.asarray(words_query.astype(bool).sum(axis=1)).reshape(-1)
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index d687fd6..0f10de5 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -131,7 +131,7 @@ def newQueryState(data, modelState):
     W   = data.words
     D,T = W.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(W.sum(axis=1)))
+    docLens = np.asarray(W.sum(axis=1)).reshape(-1)
     
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6159fb8..bd0118c 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 21709cb..2b7e2dc 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -183,7 +183,7 @@ def _normalised(counts):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index f0ec9a8..e527ed3 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index ff85346..be6ad9e 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -309,7 +309,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index e9a3f53..45893f9 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,7 +122,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..c9a259b 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -127,7 +127,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
@@ -343,7 +343,7 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
     #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
 
     # p(X = x|z=k, beta)
-    doc_lens = np.squeeze(np.array(data.words.sum(axis=1)))
+    doc_lens = np.array(data.words.sum(axis=1)).reshape(-1)
 
     beta = wordDistsDirichletParam(model)  # K x T
     beta_sum = beta.sum(axis=1)  # K x 1
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 6c0a4a5..f010b7f 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -113,7 +113,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 1aa9d19..141f2d1 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -136,7 +136,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
-- 
2.43.0


From ff25ddc5022ae63ce06edd2615998ed8b5c17b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 50/58] fix: an evaluation stopped if no document of a fold had
 a link to check

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..aa3a17b 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -74,7 +74,7 @@ def mean_reciprocal_rank(expected_links, estim_link_probs):
 
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return rank_sum / rank_count
+    return rank_sum / max(1, rank_count)
 
 #@nb.autojit Does not support cellvars
 def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
-- 
2.43.0


From 6a99b1376a338abb59f4e091a6f7e5d3c5a574c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 51/58] fix: report_generator accepts the model names its help
 lists

ctm_bohning and the like were cut to 'ctm_', which no model is called.
---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 931e700..75058b3 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -77,10 +77,10 @@ def run(args):
     
     if args.model.endswith(Bohning):
         bounds = [Bohning]
-        model  = args.model[:-len(Bohning)]
+        model  = args.model[:-len(Bohning)].rstrip('_')
     elif args.model.endswith(Bouchard):
         bounds = [Bouchard]
-        model  = args.model[:-len(Bouchard)]
+        model  = args.model[:-len(Bouchard)].rstrip('_')
     else:
         bounds = [Bouchard, Bohning]
         model = args.model
-- 
2.43.0


From b223af02b618105a0b010309aa745f77fda99934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 52/58] fix: reports list exactly the saved folds, in their
 order

The outputs of CTM runs, which are saved with the latent size in their names,
and folds from the eleventh on were never found; unfinished files were taken
for folds; and the order was that of the directory listing.
---
 sidetopics/run/report_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 75058b3..05d9a59 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -10,7 +10,7 @@ import shutil
 import argparse as ap
 from sys import stderr
 from string import Template
-from re import match
+from re import fullmatch
 
 from os.path import sep
 
@@ -19,8 +19,8 @@ StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
 TemplateDir = os.path.dirname (os.path.dirname (__file__)) + os.path.sep + 'notebooks'
 CodeDir     = os.path.dirname(TemplateDir)
-CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
-StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
+CtmOutFileNameFormat = r"ctm_%s_k_%d(?:_p_0)?_fold_(\d+)_\d{8}_\d{4}\.pkl"
+StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_(\d+)_\d{8}_\d{4}\.pkl"
 
 CtmReportFileFormat = "ctm_%s_k_%d.ipynb"
 StmReportFileFormat = "stm_yv_%s_k_%d_p_%d.ipynb"
@@ -112,7 +112,8 @@ def _generate_report(fnameRegex, rawOutDir, reportFile, templateDir, modelType,
     '''
     # Load the files and check we have the expected number of outputs for a 
     # n-fold cross validation
-    fnames = [fname for fname in os.listdir(rawOutDir) if match(fnameRegex, fname)]
+    fnames = [fname for fname in os.listdir(rawOutDir) if fullmatch(fnameRegex, fname)]
+    fnames.sort(key=lambda fname: (int(fullmatch(fnameRegex, fname).group(1)), fname))
     folds  = len(fnames)
     
     if folds == 0:
-- 
2.43.0


From 778ca51e04ef23c94ee7f9d8f6572218c7a52f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 53/58] fix: the reporting and conversion tools never leave
 half-written files

A full disk, an interrupt or a power loss left a cut-off report or matrix at
its final name, in place of the previous one; a cut-off conversion script was
never replaced, as it was present.
---
 sidetopics/run/arxiv_author_ids.py |  4 +++-
 sidetopics/run/arxiv_to_aan.py     |  6 ++++--
 sidetopics/run/report_generator.py |  8 ++++++--
 sidetopics/run/reshape_results.py  |  4 +++-
 sidetopics/run/text_to_numpy.py    |  6 ++++--
 sidetopics/util/files.py           | 25 +++++++++++++++++++++++++
 6 files changed, 45 insertions(+), 8 deletions(-)
 create mode 100644 sidetopics/util/files.py

diff --git a/sidetopics/run/arxiv_author_ids.py b/sidetopics/run/arxiv_author_ids.py
index 4e261a0..b45ecd7 100644
--- a/sidetopics/run/arxiv_author_ids.py
+++ b/sidetopics/run/arxiv_author_ids.py
@@ -4,6 +4,8 @@ import sys
 import os
 import re
 
+from sidetopics.util.files import whole_file
+
 
 def run(infile, outfile):
     authors = set()
@@ -19,7 +21,7 @@ def run(infile, outfile):
     author_list = [a for a in authors]
     author_list.sort()
     i = 1
-    with open(outfile, "w") as f:
+    with whole_file(outfile) as f:
         for author in author_list:
             f.write("%d\t%s\n" % (i, author))
             i += 1
diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index b48ee6f..9fe7dab 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -4,6 +4,8 @@ import sys
 import os
 import re
 
+from sidetopics.util.files import whole_file
+
 LatexEscape = re.compile(r"\\['`^" + '"' + r"H~ckl=b.druvtoi]")
 Dashes = re.compile(r"^-{15,}$")
 StartsWithWhiteSpace = re.compile(r"^\s{2,}\S.*$")
@@ -210,13 +212,13 @@ def run(args):
     if args[1] == "-":
         write_paper_metadata (sys.stdout, paper)
     else:
-        with open(args[1], "w") as f_out:
+        with whole_file(args[1]) as f_out:
             write_paper_metadata (f_out, paper)
 
 
 def run_on_dirs():
     parent_dir = "/Users/bryanfeeney/Downloads/cit-HepTh-abstracts"
-    with open("/Users/bryanfeeney/Desktop/arxiv-metadata.txt", "w") as f:
+    with whole_file("/Users/bryanfeeney/Desktop/arxiv-metadata.txt") as f:
         for year in [1996, 1997, 1998, 1999, 2000, 2001, 2002, 2003]:
             files_dir = parent_dir + "/" + str(year)
             infiles = os.listdir(files_dir)
diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 05d9a59..5a342b9 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -14,6 +14,8 @@ from re import fullmatch
 
 from os.path import sep
 
+from sidetopics.util.files import whole_file
+
 CtmTemplateFileName = "CtmResultsSheet-Template.ipynb"
 StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
@@ -137,7 +139,7 @@ def _generate_report(fnameRegex, rawOutDir, reportFile, templateDir, modelType,
         implName = implNames[modelType][bound])
     
     # Save the report
-    with open(reportFile, 'w') as f:
+    with whole_file(reportFile) as f:
         f.write(report)
     print("Wrote report to " + reportFile)
     
@@ -244,7 +246,9 @@ def _copyIfAbsent(dst, src, fname):
     '''
     
     if not os.path.exists(dst + sep + fname):
-        shutil.copy (src + sep + fname, dst + sep + fname)
+        with open(src + sep + fname, 'rb') as f_in, whole_file(dst + sep + fname, 'wb') as f_out:
+            shutil.copyfileobj(f_in, f_out)
+            shutil.copymode(src + sep + fname, f_out.name)
 
 
 if __name__ == '__main__':
diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 3af598e..cea8dff 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -6,6 +6,8 @@ __author__ = 'bryanfeeney'
 
 import sys
 
+from sidetopics.util.files import whole_file
+
 All, Range0_3, Range3_up, Range3_5, Range5_up, Range5_10, Range10_up = \
     "0->", "0->3", "3->", "3->5", "5->", "5->10", "10->"
 FullGroups=[All, Range0_3, Range3_up, Range3_5, Range5_up, Range5_10, Range10_up]
@@ -241,7 +243,7 @@ def write_all_results(path, results_dict):
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-    with open (path, "w") as f:
+    with whole_file(path) as f:
         f.write(ColDelim.join (["Algor", "TopicCount", "TrainDesc", "MRR", "MAP", "Perplexity", "Group", "M", "DocCount", "Precision", "Recall"]))
         f.write(RowDelim)
 
diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index e0ea142..0b4a9c7 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -4,6 +4,8 @@ import numpy as np
 import pickle as pkl
 import scipy.sparse as sp
 
+from sidetopics.util.files import whole_file
+
 # InputDir="/Users/bryanfeeney/Downloads/NUS_WID_Low_Level_Features/Low_Level_Features"
 InputDir="/Users/bryanfeeney/Downloads/NUS_WID_Low_Level_Features/tags"
 
@@ -39,7 +41,7 @@ def save_as_numpy_sparse (infile, row_count):
         die ("Rows read is %d but expected row-count is %d" % (row, row_count))
 
     outfile = infile[:-4] + OutFileExt
-    with open(outfile, "wb") as f:
+    with whole_file(outfile, "wb") as f:
         pkl.dump(matrix.tocsr(), f)
 
 def save_as_numpy (infile, row_count):
@@ -64,7 +66,7 @@ def save_as_numpy (infile, row_count):
         die ("Rows read is %d but expected row-count is %d" % (row, row_count))
 
     outfile = infile[:-4] + OutFileExt
-    with open(outfile, "wb") as f:
+    with whole_file(outfile, "wb") as f:
         pkl.dump(matrix, f)
 
 
diff --git a/sidetopics/util/files.py b/sidetopics/util/files.py
new file mode 100644
index 0000000..135a02b
--- /dev/null
+++ b/sidetopics/util/files.py
@@ -0,0 +1,25 @@
+"""
+Writing files so that they are never seen half-written
+"""
+import os
+from contextlib import contextmanager
+
+
+@contextmanager
+def whole_file(path, mode="w"):
+    """
+    Opens a file for writing, whose contents only appear at the given path once
+    they are all safely on disk. If anything goes wrong before that, whatever
+    was at the path stays as it was.
+    """
+    temp_path = path + ".part"
+    try:
+        with open(temp_path, mode) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
-- 
2.43.0


From 64e881faad3f3df9cbb651a314f6f735e02db658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 54/58] fix: text_to_numpy refuses lines with missing numbers

A line cut short was filled with zeros, or with copies of its only number.
---
 sidetopics/run/text_to_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index 0b4a9c7..f2fd618 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -29,6 +29,8 @@ def save_as_numpy_sparse (infile, row_count):
         for line in f:
             try:
                 vals = [float(fstr) for fstr in line.split()]
+                if len(vals) != col_count:
+                    raise ValueError ("Found %d columns but expected %d" % (len(vals), col_count))
                 for (col, val) in enumerate(vals):
                     if val > 0:
                         matrix[row, col] = val
@@ -56,6 +58,8 @@ def save_as_numpy (infile, row_count):
         for line in f:
             try:
                 vals = [float(fstr) for fstr in line.split()]
+                if len(vals) != col_count:
+                    raise ValueError ("Found %d columns but expected %d" % (len(vals), col_count))
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
                 die(str(e))
-- 
2.43.0


From cf70210b764f9919c866a5a9dd49618d5b9bf71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 55/58] fix: reshape_results escapes quotes once

---
 sidetopics/run/reshape_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index cea8dff..70f8ea5 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -239,7 +239,8 @@ def write_all_results(path, results_dict):
     def quoteText(value):
         # Use Pascal / Excel style quote escaping
         value = value.replace(TextLeftQuote,  TextQuoteEscape + TextLeftQuote)
-        value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
+        if TextRightQuote != TextLeftQuote:
+            value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-- 
2.43.0


From 0a24d58bdae1b205ee2b6039cdd7f5be8cc5c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 56/58] fix: training of the mixture models can be watched

With a log-frequency set, training stopped at the first measurement, on
variables and functions which do not exist.
---
 sidetopics/model/mom_em.py    | 20 +++++---------------
 sidetopics/model/mom_gibbs.py |  4 ++--
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index c9a259b..304c8be 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -392,30 +392,20 @@ def var_bound(data, model, query, topicDistOverride=None):
     '''
     Determines the variational bounds.
     '''
-    bound = 0
-
     # Unpack the the structs, for ease of access and efficiency
     docLens, topicMeans = \
         query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
-
-    tops = topicDistOverride \
-        if topicDistOverride is not None \
-        else topicDists(query)
+    if topicDistOverride is not None:
+        topicMeans = topicDistOverride
 
     # Initialize z matrix if necessary
     W = data.words
     D, T = W.shape
 
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
-
-
     # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
-    like += corpusTopicDist[np.newaxis,:]
-    like *= safe_log(topicMeans)
+    like = W.dot(safe_log(wordDists(model)).T) # D*K
+    like += safe_log(corpusTopicDist(model))[np.newaxis, :]
+    like *= topicMeans
 
     # Entropy
     ent = (-topicMeans * safe_log(topicMeans)).sum()
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index f010b7f..32e3efe 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -175,7 +175,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    wordLikely = sparseScalarProductOfSafeLnDot(data.words.astype(model.dtype, copy=False), tops, wordDists(model)).sum()
     return wordLikely
     # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
 
@@ -282,7 +282,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From fb2be0d7e6da63d02879607b017da5a43a14297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 57/58] fix: ctm_grad_arb could not be queried with a dataset
 of one document

---
 sidetopics/model/ctm_grad_arb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6159fb8..bd0118c 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
-- 
2.43.0


From a2c1b04f4a95c72653a050f1b388c9fffdcf9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:31 +0000
Subject: [PATCH 58/58] fix: evaluating ranked links extended the caller's list
 of groups

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index aa3a17b..3058cf1 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -123,7 +123,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     if groups is None:
         groups = [ AllGroups ]
     if not AllGroups in groups:
-        groups.append(AllGroups)
+        groups = groups + [ AllGroups ]
 
     precs_at_m = {group : [0] * len(ms) for group in groups}
     recs_at_m  = {group : [0] * len(ms) for group in groups}
-- 
2.43.0

