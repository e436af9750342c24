From b63024faeedb1060cdff336b17d96f3d989e254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 01/60] fix: do not consume the prior array of the observation
 model during a fit

A prior supplied as a Numpy array was re-normalized in place and then multiplied with the
likelihood by the forward pass, so that every subsequent fit (and every individual fit of a
HyperStudy, and every change-point) started from the last filtering distribution.
---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..008ebca 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -207,6 +207,7 @@ class Study(object):
         # check whether correctly shaped numpy array is provided
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
+                prior = np.array(prior, dtype=float)  # copy, as the array supplied by the user must not be altered
                 norm = np.sum(prior)
                 if norm != 1.:
                     prior /= norm
-- 
2.43.0


From dea3c3925301c904fe6d587455398ce72712185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:51 +0000
Subject: [PATCH 02/60] fix: convert custom priors that sum to exactly one to a
 density, too

Prior arrays/functions whose values happen to sum to exactly one were not divided by the
grid volume, so the model evidence was off by the factor prod(latticeConstant).
---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 008ebca..894fe23 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -209,9 +209,9 @@ class Study(object):
             if np.all(prior.shape == self.grid[0].shape):
                 prior = np.array(prior, dtype=float)  # copy, as the array supplied by the user must not be altered
                 norm = np.sum(prior)
+                prior /= norm
+                prior /= np.prod(self.latticeConstant)  # convert to prob. density
                 if norm != 1.:
-                    prior /= norm
-                    prior /= np.prod(self.latticeConstant)
                     if not silent:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
                 else:
@@ -225,9 +225,9 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
+            values /= norm
+            values /= np.prod(self.latticeConstant)  # convert to prob. density
             if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
                 if not silent:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
             else:
-- 
2.43.0


From 475bc45c1896b5673183279e709e7ad39f789079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:34 +0000
Subject: [PATCH 03/60] fix: backward pass of change-points and independent
 observations must not re-apply the prior

Going backwards across a change-point, the data beyond it contain no information about the
parameters. Returning the prior instead of a flat message multiplied the smoothed posterior
with the prior a second time (visible for every non-flat prior, e.g. Jeffreys priors).
---
 bayesloop/transitionModels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..cfa5bc1 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -314,7 +314,11 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # data after the change-point contain no information about parameter values before the change-point
+        if t - 1 == self.hyperParameterValues[0]:
+            return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
+        else:
+            return posterior
 
 
 class Independent(TransitionModel):
@@ -360,7 +364,8 @@ class Independent(TransitionModel):
         return prior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # subsequent data contain no information about the current parameter values
+        return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
 
 
 class RegimeSwitch(TransitionModel):
-- 
2.43.0


From 2c2309daebc44ef8e5c0c672bf78ed0adcbe5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:54 +0000
Subject: [PATCH 04/60] fix: change-points and independent observations respect
 every form of prior

Priors defined by SymPy random variables were silently replaced by a flat prior when a
change-point resets the parameters, and constant prior functions (lambda x: 1.) yielded a
scalar instead of a distribution.
---
 bayesloop/transitionModels.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index cfa5bc1..2ceb3ee 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -298,13 +298,8 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # prior of the observation model, in any of its supported forms
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -351,13 +346,8 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        # prior of the observation model, in any of its supported forms
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -804,13 +794,8 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # prior of the observation model, in any of its supported forms
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From d555b2b8c0f198afc3e5e38d46b7394ffec18be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:59 +0000
Subject: [PATCH 05/60] fix: pass the current time step to transition models in
 OnlineStudy

The time handed over to the transition models was always -1 (formattedData is never filled in
an online study), so that change-points, break-points and deterministic models behaved
differently from a forward-only fit of the same data.
---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 894fe23..27f8d90 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2165,7 +2165,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From 0adeb284987cb4e5a5458a0d7c8f3b1c68093cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:31 +0000
Subject: [PATCH 06/60] fix: post-processing methods must not alter the stored
 distributions

If no axis has to be marginalized, numpy.apply_over_axes returns (a view of) its input, so
that the conversion to probabilities was applied to the stored hyper-parameter distribution
(again with every call), and the plotting clean-up to the stored posterior sequence.
---
 bayesloop/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 27f8d90..c0d88f7 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1043,7 +1043,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
@@ -1566,7 +1567,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x = self.flatHyperParameters[paramIndex]
@@ -1642,7 +1643,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
@@ -2756,7 +2757,7 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
-- 
2.43.0


From 3ee4d6f65e6dd246b930261c62b924dd2537ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 07/60] fix: return a copy of the current transition model
 distribution in OnlineStudy

The internal array is overwritten with log-probabilities by the next call of the step method,
which silently changed results that had been returned before.
---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c0d88f7..d814115 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2396,9 +2396,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), self.localTransitionModelDistribution.copy()
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), self.transitionModelDistribution.copy()
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From 980ba213e254e6615a7ee3b3b7c62b5cd334b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:38 +0000
Subject: [PATCH 08/60] fix: OnlineStudy.getPD ignored the argument density

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d814115..09d1d00 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2265,7 +2265,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
-- 
2.43.0


From 6b429eafb97d1fe1b3de38cae5e26219226c5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 09/60] fix: OnlineStudy.getParameterMeanValue indexed the
 distribution twice

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 09d1d00..8ad5e73 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2541,7 +2541,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From c89b44482ccb4cdd0114f1c47984836f64e0792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:06 +0000
Subject: [PATCH 10/60] fix: OnlineStudy.getHyperParameterDistribution returns
 probabilities, also on time average

The method returned density values for a given time step (in contrast to its documentation and
to getCurrentHyperParameterDistribution), and failed for t='avg' if the transition models of
the study have different numbers of hyper-parameter values.
---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 8ad5e73..14b3eb2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2683,23 +2683,23 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = np.mean([hps[tmIndex] for hps in self.hyperParameterSequence], axis=0)
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
                 raise PostProcessingError('Supplied time ({}) does not exist in data or is out of range.'.format(t))
             timeIndex = list(self.formattedTimestamps).index(t)  # to select corresponding posterior distribution
 
-            hyperParameterDistribution = self.hyperParameterSequence[timeIndex]
+            hyperParameterDistribution = self.hyperParameterSequence[timeIndex][tmIndex]
 
-        hyperParameterDistribution = hyperParameterDistribution[tmIndex]
         axesToMarginalize = list(range(len(self.hyperParameterNames[tmIndex])))
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 651cf7ebee0b4c4fb35fbb1d06c00ab38f51338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:11 +0000
Subject: [PATCH 11/60] fix: allow single hyper-parameter values in
 hyper-parameter distributions of OnlineStudy

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 14b3eb2..c1594ce 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2696,7 +2696,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
@@ -2755,7 +2755,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
-- 
2.43.0


From f9a85942398a63bfbdac43b9d5b85e9c77f56282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:36 +0000
Subject: [PATCH 12/60] fix: a failed query must not break an OnlineStudy

If the name or time passed to a post-processing method does not exist, the stored history was
left behind as Numpy arrays and the next call of the step method failed.
---
 bayesloop/core.py | 50 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c1594ce..5e5391f 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2251,14 +2251,15 @@ class OnlineStudy(HyperStudy):
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
         # plotting function of Study class can only handle arrays, not lists
-        self.formattedTimestamps = np.array(self.formattedTimestamps)
-        self.posteriorSequence = np.array(self.posteriorSequence)
+        timestamps, posteriors = self.formattedTimestamps, self.posteriorSequence
+        self.formattedTimestamps = np.array(timestamps)
+        self.posteriorSequence = np.array(posteriors)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # restore lists (even if the query fails), so online study may continue to append values
+            self.formattedTimestamps, self.posteriorSequence = timestamps, posteriors
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2342,14 +2343,15 @@ class OnlineStudy(HyperStudy):
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
         # plotting function of Study class can only handle arrays, not lists
-        self.formattedTimestamps = np.array(self.formattedTimestamps)
-        self.posteriorSequence = np.array(self.posteriorSequence)
-
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        timestamps, posteriors = self.formattedTimestamps, self.posteriorSequence
+        self.formattedTimestamps = np.array(timestamps)
+        self.posteriorSequence = np.array(posteriors)
 
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # restore lists (even if the query fails), so online study may continue to append values
+            self.formattedTimestamps, self.posteriorSequence = timestamps, posteriors
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2374,16 +2376,18 @@ class OnlineStudy(HyperStudy):
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
         # plotting function of Study class can only handle arrays, not lists
-        self.formattedTimestamps = np.array(self.formattedTimestamps)
-        self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
-        self.posteriorSequence = np.array(self.posteriorSequence)
-
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        timestamps, means, posteriors = self.formattedTimestamps, self.posteriorMeanValues, self.posteriorSequence
+        self.formattedTimestamps = np.array(timestamps)
+        self.posteriorMeanValues = np.array(means).T
+        self.posteriorSequence = np.array(posteriors)
 
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # restore lists (even if the query fails), so online study may continue to append values
+            self.formattedTimestamps = timestamps
+            self.posteriorMeanValues = means
+            self.posteriorSequence = posteriors
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 8b1f92b08f74a5535d7af3253504cd008c6f70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:59 +0000
Subject: [PATCH 13/60] fix: parameter distributions of studies with a single
 time step

getParameterDistributions and the evolution plot failed for a single data point, and the time
axis of the result was dropped.
---
 bayesloop/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5e5391f..4f8752b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -953,7 +953,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if len(dt) > 0 and not np.all(dt == dt[0]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -977,8 +977,7 @@ class Study(object):
 
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize))
 
         if density:
             marginalPosteriorSequence /= dx
@@ -1022,7 +1021,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if len(dt) > 0 and not np.all(dt == dt[0]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1043,8 +1042,7 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize))
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 2a056cbdeea67a212e35124231812b5a546012d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:48 +0000
Subject: [PATCH 14/60] fix: Poisson likelihood for float data and for large
 counts

Count data of dtype float (lists, or any series with missing values) raised a TypeError with
recent Python versions, counts above 170 raised an OverflowError, and smaller ones could
overflow silently, so that the evidence was reported as zero.
---
 bayesloop/observationModels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..16b9587 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -13,6 +13,7 @@ from sympy import lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
 from scipy.special import iv, factorial
+from scipy.stats import poisson
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
 import warnings
@@ -499,7 +500,7 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        return poisson.pmf(dataSegment[0], grid[0])
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From ed8daaa9a2368345596103e771a5a5b116837804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:30 +0000
Subject: [PATCH 15/60] fix: Bernoulli likelihood outside of the interval [0,
 1]

The slice used as a copy is a view, so invalid parameter values were set to zero in the
parameter grid of the study, and data points with value zero had likelihood one there.
---
 bayesloop/observationModels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 16b9587..b181cb4 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -428,15 +428,16 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
-        temp[temp > 1.] = 0.  # p < 1
-        temp[temp < 0.] = 0.  # p > 0
+        temp = grid[0].copy()  # make copy of parameter grid
 
         if dataSegment[0]:
             pass  # pdf = p
         else:
             temp = 1. - temp  # pdf = 1 - p
 
+        temp[grid[0] > 1.] = 0.  # p < 1
+        temp[grid[0] < 0.] = 0.  # p > 0
+
         return temp
 
     def estimateParameterValues(self, name, rawData):
-- 
2.43.0


From 4bba3923d233c5541c0f32e342e70dcf8407ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 16/60] fix: default parameter values of the Bernoulli model

The default (Jeffreys) prior diverges at both ends of the closed interval that was chosen by
default, so the model evidence was always reported as zero.
---
 bayesloop/observationModels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index b181cb4..5116b94 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -455,7 +455,8 @@ class Bernoulli(ObservationModel):
 
         if name == self.parameterNames[0]:
             # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval
-            return cint(0, 1, 1000)
+            # (open interval, as the Jeffreys prior diverges at the boundaries)
+            return oint(0, 1, 1000)
         else:
             raise ConfigurationError('Bernoulli model does not contain a parameter "{}".'.format(name))
 
-- 
2.43.0


From 8d2ccbccb44e9da0188f4c973622168b15d9f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:47 +0000
Subject: [PATCH 17/60] fix: alpha-stable random walk for two parameters and
 odd grid sizes

The kernels along both axes had different lengths if a parameter grid has an odd number of
values, so that the fit failed.
---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 2ceb3ee..7c1e761 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -227,7 +227,7 @@ class AlphaStableRandomWalk(TransitionModel):
         kernel = np.roll(kernel, int(3*l1/2-1))
 
         if len(gs) == 2:
-            kernel = np.array([kernel]*(3*l2))
+            kernel = np.array([kernel]*(2*int(3*l2/2)))  # same length as kernel along other axis (see above)
 
         if axis == 1:
             return kernel.T
-- 
2.43.0


From 9b35fc3fd6233a3fae7b2b0f2f0a830c69a925c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:54 +0000
Subject: [PATCH 18/60] fix: re-create kernels of random walk models if the
 parameter grid has changed

The kernel of the alpha-stable and the bivariate random walk was only updated for new
hyper-parameter values. After setting another observation model, the kernel of the previous
parameter grid was used.
---
 bayesloop/transitionModels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 7c1e761..d3deba8 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,8 +167,10 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or the parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, self.latticeConstant, self.study.gridSize,
+                            list(self.study.observationModel.parameterNames)]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -184,7 +186,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -871,13 +873,14 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or the parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, self.latticeConstant]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 40494f7802aef07456cb0a38f1dfa9d4bc15f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:21 +0000
Subject: [PATCH 19/60] fix: allow integer hyper-parameter values in NotEqual
 transition model

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index d3deba8..c9c725d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -456,7 +456,7 @@ class NotEqual(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         newPrior = posterior.copy()
-        limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
+        limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From da6740ac0ded6a5d06820bdee2ca865510c78072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 20/60] fix: NotEqual transition model must not fail for flat
 distributions

The inverted distribution of a flat one cannot be normalized. The resulting NaN values stopped
the fit with zero evidence, e.g. if the first data point is missing.
---
 bayesloop/transitionModels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index c9c725d..0f94832 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -459,7 +459,8 @@ class NotEqual(TransitionModel):
         limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        if np.sum(newPrior) > 0.:  # a flat distribution cannot be inverted
+            newPrior /= np.sum(newPrior)
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From 473f31dd3febe156b903744762b37d0b27e90139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:30 +0000
Subject: [PATCH 21/60] fix: list of correlation coefficients in
 BivariateRandomWalk overwrote the second standard deviation

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 0f94832..3d3bd7d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -848,7 +848,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From 04d6a48e51a11648c9090f474637d3c7f8bb7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 22/60] fix: Deterministic transition model ignored (and later
 failed with) a list of hyper-priors

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 3d3bd7d..de6de2f 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -536,6 +536,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 8f6a431642e526e8703a90ec57786fd20764d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:03 +0000
Subject: [PATCH 23/60] fix: use default timestamps if the supplied timestamps
 are omitted

The timestamps of previously loaded data (or none at all) were kept if the number of supplied
timestamps does not match the number of data points.
---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 4f8752b..082c000 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -115,6 +115,7 @@ class Study(object):
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
+                self.rawTimestamps = np.arange(len(self.rawData))
         else:  # set default timestamps (integer range)
             self.rawTimestamps = np.arange(len(self.rawData))
 
-- 
2.43.0


From fff684572735f6b57351633065af75095a7f17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 24/60] fix: re-normalize transition model priors that are
 supplied as integers

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 082c000..c6c5466 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2051,7 +2051,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From b03b0981f875eb4954cc084db46308bdee587ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:13 +0000
Subject: [PATCH 25/60] fix: do not alter hyper-prior arrays supplied by the
 user, and accept integer values

The array was re-normalized in place, which also mixed up the grid constants if the same array
was used for several hyper-parameters. Integer values could not be re-normalized at all.
---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c6c5466..f11e20a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1193,7 +1193,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1208,7 +1208,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # copy, array supplied by the user must not be altered
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From 236a96d023d2c5c16ffbaa110971f80601e5b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:44 +0000
Subject: [PATCH 26/60] fix: always restore the hyper-parameter values set by
 the user after a HyperStudy fit

If a fit failed or was interrupted, the transition model was left with a single combination of
hyper-parameter values. Change-/break-points with the value 'all' were replaced by the
timestamps of the current data set, so a fit of newly loaded data used outdated times.
---
 bayesloop/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f11e20a..9d3bb5b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1263,6 +1263,17 @@ class HyperStudy(Study):
             customHyperGrid(bool): If set to true, the method "_createHyperGrid" is not called before starting the fit.
                 This is used by the class "ChangepointStudy", which employs a custom version of "_createHyperGrid".
         """
+        # individual hyper-parameter values are set during fitting, the values set by the user are restored afterwards
+        userValues = self._unpackAllHyperParameters()
+        try:
+            self._fitHyperGrid(forwardOnly, evidenceOnly, silent, nJobs, customHyperGrid)
+        finally:
+            self._setAllHyperParameters(userValues)
+
+    def _fitHyperGrid(self, forwardOnly, evidenceOnly, silent, nJobs, customHyperGrid):
+        """
+        Carries out the fit for all hyper-parameter values; see :meth:`.HyperStudy.fit`.
+        """
         self.fitWarningCounter = 0
 
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
@@ -1425,9 +1436,6 @@ class HyperStudy(Study):
             # clear localEvidenceList (to keep file size small for stored studies)
             self.localEvidenceList = []
 
-            # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
-
             if not silent:
                 print('+ Finished fit.')
 
-- 
2.43.0


From 194c24e74c504168c3769717c50ce7481041af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:34 +0000
Subject: [PATCH 27/60] fix: hyper-studies with a single (valid) combination of
 hyper-parameter values

The combination was never set in the transition model, so 'all' was treated as a value, and a
ChangepointStudy with only one ordered combination of change-points failed. If there is no such
combination at all, a ConfigurationError is raised.
---
 bayesloop/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9d3bb5b..67799ef 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1447,6 +1447,11 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
+            # set the only combination of values (may be a subset of the values set by the user in ChangepointStudy)
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(self.hyperGridValues[0])
+                self.hyperParameterDistribution = np.ones(1)/np.prod(self.hyperGridConstant)
+
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
@@ -1839,6 +1844,11 @@ class ChangepointStudy(HyperStudy):
         self.hyperGridValues = self.allHyperGridValues[self.mask]
         self.flatHyperPriorValues = self.allHyperPriorValues[self.mask]
 
+        # at least one combination of change-/break-points has to be in order
+        if not np.any(self.mask):
+            raise ConfigurationError('No combination of change-/break-points in ascending order. Check transition '
+                                     'model.')
+
         # correct prior values to ensure correct normalization after sorting out combinations
         self.flatHyperPriorValues *= np.sum(self.allHyperPriorValues)/np.sum(self.allHyperPriorValues[self.mask])
 
-- 
2.43.0


From 66d522eca7ec262d0a1a01fb7c46baa8238ec79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:38 +0000
Subject: [PATCH 28/60] fix: transition model instances that are shared by
 several studies

A fit used the parameter grid and prior of the study to which the transition model was assigned
last (and the time offset of a serial transition model it has been part of).
---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 67799ef..3ab7dfa 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -282,6 +282,7 @@ class Study(object):
         self.transitionModel = T
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
+        self.transitionModel.tOffset = 0
         if not silent:
             print('+ Transition model: {}. Hyper-Parameter(s): {}'
                   .format(T, self._unpackAllHyperParameters(values=False)))
@@ -345,6 +346,9 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # transition model instance may have been used by another study in the meantime
+        self.setTransitionModel(self.transitionModel, silent=True)
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 17d8d039520ac2a2056fe6e98619a8cf920e2b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:11 +0000
Subject: [PATCH 29/60] fix: OnlineStudy must not alter the hyper-parameter
 values of its transition models

After a time step, only the last combination of hyper-parameter values was left in the
transition model instance, so adding it to another study ignored all other values.
---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3ab7dfa..3ec5f1a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2197,6 +2197,9 @@ class OnlineStudy(HyperStudy):
                 # store parameter posterior
                 self.parameterPosterior[i][j] = alphai/ni
 
+            # restore hyper-parameter values set by the user
+            self._setAllHyperParameters(self.allFlatHyperParameterValues[i])
+
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
-- 
2.43.0


From 49edd32fa198eab0a6816e86a47f2db5b8e9613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 30/60] fix: do not expose uninitialized or outdated results
 after a fit

If a fit stops because the evidence is zero, the remaining local evidence values (which enter
the average of a HyperStudy) and posterior distributions were uninitialized memory, and the mean
values those of the previous fit. With evidenceOnly=True, the posterior distributions of the
previous fit were kept.
---
 bayesloop/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3ec5f1a..39c9295 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -357,13 +357,15 @@ class Study(object):
         if not silent:
             print('    + Formatted data.')
 
-        # initialize array for posterior distributions
+        # initialize array for posterior distributions (and remove results of previous fits)
+        self.posteriorSequence = []
+        self.posteriorMeanValues = []
         if not evidenceOnly:
-            self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+            self.posteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize)
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
-- 
2.43.0


From 96344a3e790262b1f5ba00c3de432c94e5aa8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:54 +0000
Subject: [PATCH 31/60] fix: normalization of the local evidence

Posterior (and subsequent prior) distributions are stored as probabilities, not as densities.
The additional factor of the grid volume in the local evidence is only needed for the first
time step of the forward pass, where the prior density is used. Now, the product of all local
evidence values of a forward pass equals the model evidence.
---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 39c9295..fa9973d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -409,7 +409,9 @@ class Study(object):
 
             # update log-evidence and compute local evidence
             self.logEvidence += np.log(norm)
-            self.localEvidence[i] = norm * np.prod(self.latticeConstant)  # integration yields evidence, not only sum
+            self.localEvidence[i] = norm
+            if i == 0:  # prior of the first time step is a density: integration yields evidence, not only sum
+                self.localEvidence[i] *= np.prod(self.latticeConstant)
 
             # alphas are stored as preliminary posterior distributions
             if not evidenceOnly:
@@ -468,8 +470,7 @@ class Study(object):
 
                 # compute local evidence
                 with np.errstate(invalid='ignore'):
-                    self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
-                                                np.prod(self.latticeConstant))  # integration, not only sum
+                    self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
                 # compute beta for next iteration
                 beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
-- 
2.43.0


From a075143796ee16fcf5513186276baffb02bee725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 32/60] fix: backward pass for time stamps with a spacing other
 than one

The transition models were evaluated one time unit before the current time stamp, instead of at
the previous time stamp, so change- and break-points were only effective in the forward pass.
---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index fa9973d..a8683e4 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -472,8 +472,8 @@ class Study(object):
                 with np.errstate(invalid='ignore'):
                     self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
-                # compute beta for next iteration
-                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
+                # compute beta for next iteration (transition models expect the step following the previous timestamp)
+                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i-1]+1)
 
                 # normalize beta (for numerical stability)
                 beta /= np.sum(beta)
-- 
2.43.0


From a30dc698dd3e5809f82e489e97d1628cf0ebb983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 33/60] fix: look up the timestamp of a query in each study
 individually

The parser used the index of the timestamp within the first study for all studies, and thus the
wrong time step if the studies cover different periods.
---
 bayesloop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..bf6db49 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -284,10 +284,10 @@ class Parser:
                                                          time=study.formattedTimestamps[-1],
                                                          study=study))
         else:
-            # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                # compute index of timestamp
+                timeIndex = list(study.formattedTimestamps).index(t)
+
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -332,7 +332,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From f3a8cdf6b7c5f851443d86a811320b074e8441e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:17 +0000
Subject: [PATCH 34/60] fix: parser queries that consist of a single parameter
 or function

Distributions of single parameters or functions thereof, e.g. 'sqrt(rate@1910)', could not be
evaluated.
---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index bf6db49..a266aa1 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -374,7 +374,7 @@ class Parser:
         # reduce equation
         splitQuery = re.split('>=|<=|==|>|<', query)
         if len(splitQuery) == 1:
-            reducedQuery = query
+            reducedQuery = '0+('+query+')'  # ensures that there is at least one arithmetic operation to evaluate
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-- 
2.43.0


From 5ed74d63aacdb586f2394d98b2ffcfabe1d52d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:45 +0000
Subject: [PATCH 35/60] fix: parser queries that combine several time steps or
 transition models

If different parameters of one study are evaluated at different time steps (or hyper-parameters
of an OnlineStudy at different time steps or of different transition models), the compound
distribution has to be used. Instead, the probabilities of only one of them were used.
---
 bayesloop/parser.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index a266aa1..10e6264 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -20,12 +20,13 @@ class Parameter(np.ndarray):
     Behaves like a Numpy array, but features additional attributes. This allows us to apply arithmetic operations to
     the grid of parameter values while keeping track of the corresponding probability grid and the parameter's origin.
     """
-    def __new__(cls, values, prob, name=None, time=None, study=None):
+    def __new__(cls, values, prob, name=None, time=None, study=None, origin=None):
         obj = np.asarray(values).view(cls)
         obj.prob = prob
         obj.name = name
         obj.time = time
         obj.study = study
+        obj.origin = origin  # transition model that contains the hyper-parameter (OnlineStudy only)
         return obj
 
     def __array_finalize__(self, obj):
@@ -36,6 +37,7 @@ class Parameter(np.ndarray):
         self.name = getattr(obj, 'name', None)
         self.time = getattr(obj, 'time', None)
         self.study = getattr(obj, 'study', None)
+        self.origin = getattr(obj, 'origin', None)
 
 
 class HyperParameter(Parameter):
@@ -236,9 +238,11 @@ class Parser:
             # compute compound distribution of two (hyper-)parameters
             if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
                                                                        (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
+                                                                       not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
+                                                                                      (a.study is None and b.study is None) or
+                                                                                      not (a.time == b.time) or
+                                                                                      not (a.origin is b.origin))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
@@ -321,14 +325,16 @@ class Parser:
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       hps,
                                                                       name=name,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      origin=study.transitionModels[j]))
                             else:
                                 dist = study.hyperParameterDistribution[j]/np.sum(study.hyperParameterDistribution[j])
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       dist,
                                                                       name=name,
                                                                       time=study.formattedTimestamps[-1],
-                                                                      study=study))
+                                                                      study=study,
+                                                                      origin=study.transitionModels[j]))
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
@@ -341,7 +347,8 @@ class Parser:
                                                                       dist,
                                                                       name=name,
                                                                       time=t,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      origin=study.transitionModels[j]))
                             else:
                                 raise ConfigurationError('OnlineStudy instance is not configured to store history, '
                                                          'cannot access t={}.'.format(t))
-- 
2.43.0


From 58fa8602c90eaf382aabfa7e85d06be20e14bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:50 +0000
Subject: [PATCH 36/60] fix: derived distributions lost the probability of the
 largest value

The largest derived value was not part of any bin, the values of the bins were not those of the
bin centers, and derived distributions with one or two distinct values failed. Also removes
debug output.
---
 bayesloop/parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 10e6264..261c40b 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -401,12 +401,11 @@ class Parser:
             dmax = np.nanmax(derivedParameter)
 
             # bin size is chosen as maximal difference between two derived values
-            print(f"dmax {dmax}")
-            print(f"dmin {dmin}")
-            print(np.diff(np.sort(derivedParameter)))
-            nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
+            maxDiff = np.nanmax(np.diff(np.sort(derivedParameter)))
+            nBins = max(int((dmax-dmin)/maxDiff), 2) if maxDiff > 0. else 2
             bins = np.linspace(dmin, dmax, nBins)
-            binnedValues = bins[:-1] + (bins[1]-bins[0])
+            binnedValues = bins[:-1] + (bins[1]-bins[0])/2.
+            bins[-1] = np.inf  # last bin includes the largest value
             binnedProbs = []
 
             if not silent:
-- 
2.43.0


From 372210c32ff4e5d7683cb48eea5fe22e6fcc8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:23 +0000
Subject: [PATCH 37/60] fix: a failed attempt to save a study must not destroy
 the existing file

The file was truncated before the study has been serialized successfully.
---
 bayesloop/fileIO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/fileIO.py b/bayesloop/fileIO.py
index 5fa3a32..7649687 100644
--- a/bayesloop/fileIO.py
+++ b/bayesloop/fileIO.py
@@ -15,8 +15,9 @@ def save(filename, study):
         filename(str): Path + filename to store bayesloop study
         study: Instance of study class (Study, HyperStudy, etc.)
     """
+    data = cloudpickle.dumps(study)  # may fail, so an existing file is only overwritten afterwards
     with open(filename, 'wb') as f:
-        cloudpickle.dump(study, f)
+        f.write(data)
     print('+ Successfully saved current study.')
 
 
-- 
2.43.0


From b74694c6fd993e46974ae76ed930b9d6866797e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:09 +0000
Subject: [PATCH 38/60] fix: check configuration of hyper- and change-point
 studies before starting the fit

If data, observation model or transition model are missing, or if names of hyper-parameters are
not unique, a ConfigurationError is raised (as in Study), instead of some internal error.
---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a8683e4..5cf53d1 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1270,6 +1270,8 @@ class HyperStudy(Study):
             customHyperGrid(bool): If set to true, the method "_createHyperGrid" is not called before starting the fit.
                 This is used by the class "ChangepointStudy", which employs a custom version of "_createHyperGrid".
         """
+        self._checkConsistency()
+
         # individual hyper-parameter values are set during fitting, the values set by the user are restored afterwards
         userValues = self._unpackAllHyperParameters()
         try:
@@ -1800,6 +1802,8 @@ class ChangepointStudy(HyperStudy):
             silent(bool): If set to True, reduced output is generated by the fitting method.
             nJobs(int): Number of processes to employ. Multiprocessing is based on the 'pathos' module.
         """
+        self._checkConsistency()
+
         # format data/timestamps once, so number of data segments is known
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
-- 
2.43.0


From c479d981b0d9cf783cc3f3b886c0cbbe7afee8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 39/60] fix: hyper-parameter values and transition models ruled
 out by the data must not spoil an OnlineStudy

---
 bayesloop/core.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5cf53d1..64cd2fc 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2197,13 +2197,15 @@ class OnlineStudy(HyperStudy):
                                                                       self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
-                # update log-evidence list
-                self.logEvidenceList[i][j] += np.log(ni)
+                # update log-evidence list and store parameter posterior
+                if ni > 0.:
+                    self.logEvidenceList[i][j] += np.log(ni)
+                    self.parameterPosterior[i][j] = alphai/ni
+                else:  # data rule out these hyper-parameter values
+                    self.logEvidenceList[i][j] = -np.inf
+                    self.parameterPosterior[i][j] = 0.
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
-                # store parameter posterior
-                self.parameterPosterior[i][j] = alphai/ni
-
             # restore hyper-parameter values set by the user
             self._setAllHyperParameters(self.allFlatHyperParameterValues[i])
 
@@ -2214,6 +2216,13 @@ class OnlineStudy(HyperStudy):
             self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
                                                        np.log(self.transitionModelPrior[i])
 
+            # transition models that are ruled out by the data do not contribute (and have no hyper-parameter distribution)
+            if np.isneginf(self.hyperLogEvidenceList[i]):
+                self.localTransitionModelDistribution[i] = -np.inf
+                self.hyperParameterDistribution[i] = np.zeros(self.tmCounts[i])
+                self.transitionModelPosterior[i] = 0.
+                continue
+
             # normalize hyper-parameter distribution of current transition model
             self.hyperParameterDistribution[i] -= np.amax(self.hyperParameterDistribution[i])
             self.hyperParameterDistribution[i] = np.exp(self.hyperParameterDistribution[i])
-- 
2.43.0


From 6764bb04ce4d085eb0095c45f4c29131cbfcb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 40/60] fix: deterministic transition models must not create
 negative probabilities

---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index de6de2f..b76402d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -573,6 +573,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # cubic interpolation may overshoot, but probabilities cannot be negative
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
@@ -598,6 +599,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # cubic interpolation may overshoot, but probabilities cannot be negative
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From d114e7f9af8369a1a842bac54ea9aefe2300e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:30 +0000
Subject: [PATCH 41/60] fix: alpha-stable random walk must not create negative
 probabilities

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index b76402d..36f5a21 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -189,6 +189,7 @@ class AlphaStableRandomWalk(TransitionModel):
             self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
+        newPrior[newPrior < 0.] = 0.  # discretized kernels may oscillate, but probabilities cannot be negative
         newPrior /= np.sum(newPrior)
         return newPrior
 
-- 
2.43.0


From 374e9cddfe58be7b08418e88bed25db44fb803a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:41 +0000
Subject: [PATCH 42/60] fix: duration distribution of studies with more than
 two change-points

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 64cd2fc..a1dce70 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1935,7 +1935,7 @@ class ChangepointStudy(HyperStudy):
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
-            if values[1] > values[0]:
+            if self.mask[i]:  # only combinations in ascending order were analyzed
                 # get matching index in duration (rounding needed because of finite precision)
                 idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
-- 
2.43.0


From 6c77aa52a7ff62f2dc269f71fa70e6e8bf46de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 43/60] fix: SymPy observation models with gamma or beta
 functions in their density

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 5116b94..d2dce56 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -12,7 +12,7 @@ import sympy.abc as abc
 from sympy import lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
-from scipy.special import iv, factorial
+from scipy.special import iv, factorial, gamma, beta
 from scipy.stats import poisson
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
@@ -376,7 +376,7 @@ class SymPy(ObservationModel):
         x = abc.x
         symDensity = density(rv)(x)
         self.density = lambdify([x]+rvParamsSorted, symDensity,
-                                modules=['numpy', {'factorial': factorial, 'besseli': iv}])
+                                modules=['numpy', {'factorial': factorial, 'besseli': iv, 'gamma': gamma, 'beta': beta}])
 
     def pdf(self, grid, dataSegment):
         """
-- 
2.43.0


From e18434fc561e890e1a295f1c5c3470b6091748f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 44/60] fix: queries with several parameters of one study on
 the left side of a relation

The right side was combined with the first summand of the left side only, so that
the remaining parameters on the left side were treated as independent of the
first one, if the right side contains a hyper-parameter or another time step.
---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 261c40b..0697d8d 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -385,7 +385,7 @@ class Parser:
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-            reducedQuery = '-1*('+splitQuery[1]+')+'+splitQuery[0]
+            reducedQuery = '-1*('+splitQuery[1]+')+('+splitQuery[0]+')'
         else:
             raise ConfigurationError('Use exactly one operator out of (<, >, <=, >=, ==) to obtain probability value, '
                                      'or none to obtain derived distribution.')
-- 
2.43.0


From 8fdf3ad1593bbd3743febc351796f62edcdbbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:10 +0000
Subject: [PATCH 45/60] fix: reject queries that can only be parsed in part

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 0697d8d..34694de 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -391,7 +391,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
-- 
2.43.0


From 15adb430adaff52fa5f9d900dd9382905f930967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:10 +0000
Subject: [PATCH 46/60] fix: powers of change-points with negative exponents in
 queries

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 34694de..8283c99 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -21,7 +21,7 @@ class Parameter(np.ndarray):
     the grid of parameter values while keeping track of the corresponding probability grid and the parameter's origin.
     """
     def __new__(cls, values, prob, name=None, time=None, study=None, origin=None):
-        obj = np.asarray(values).view(cls)
+        obj = np.asarray(values, dtype=float).view(cls)
         obj.prob = prob
         obj.name = name
         obj.time = time
-- 
2.43.0


From f4c7ec3c6fc1c19764abe5178cf2cf1dd37bd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:52 +0000
Subject: [PATCH 47/60] fix: an interrupted or failing write must not destroy
 the existing file

---
 bayesloop/fileIO.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bayesloop/fileIO.py b/bayesloop/fileIO.py
index 7649687..4ad1962 100644
--- a/bayesloop/fileIO.py
+++ b/bayesloop/fileIO.py
@@ -4,6 +4,7 @@ The following functions save or load instances of all `Study` types using the Py
 """
 
 from __future__ import division, print_function
+import os
 import cloudpickle
 
 
@@ -16,8 +17,14 @@ def save(filename, study):
         study: Instance of study class (Study, HyperStudy, etc.)
     """
     data = cloudpickle.dumps(study)  # may fail, so an existing file is only overwritten afterwards
-    with open(filename, 'wb') as f:
-        f.write(data)
+    temporary = '{}.tmp'.format(filename)
+    try:
+        with open(temporary, 'wb') as f:
+            f.write(data)
+        os.replace(temporary, filename)  # existing file stays intact unless all data has been written
+    finally:
+        if os.path.exists(temporary):
+            os.remove(temporary)
     print('+ Successfully saved current study.')
 
 
-- 
2.43.0


From e6561b67c4fd4547c4d2dbd1c43190182ff20427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:23 +0000
Subject: [PATCH 48/60] fix: optimize() without names does not touch
 change-/break-points

If a transition model has no other hyper-parameters, the list of selected
hyper-parameters was empty, which means 'all': the change-/break-points were
optimised although they are documented to be excluded. An unknown name no
longer leaves the selection behind.
---
 bayesloop/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a1dce70..a50ccde 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -532,14 +532,17 @@ class Study(object):
                      list(flatten(self._unpackBreakpointNames(self.transitionModel)))
             self.selectedHyperParameters = [x for x in allHyperParameters if x not in points]
 
-        # create parameter list to set start values for optimization
-        x0 = self._unpackSelectedHyperParameters()
+            # an empty list would be understood as "all hyper-parameters", including the change/break-points
+            if len(self.selectedHyperParameters) == 0:
+                raise ConfigurationError('No parameters to optimize. Check parameter names.')
 
-        # check if valid parameter names were entered
-        if len(x0) == 0:
+        # create parameter list to set start values for optimization
+        try:
+            x0 = self._unpackSelectedHyperParameters()
+        except ConfigurationError:
             # reset list of parameters to optimize, so that unpacking and setting hyper-parameters works as expected
             self.selectedHyperParameters = []
-            raise ConfigurationError('No parameters to optimize. Check parameter names.')
+            raise
 
         # perform optimization (maximization of log-evidence)
         result = minimize(self._optimizationStep, x0, method='COBYLA', **kwargs)
-- 
2.43.0


From e2ae34f1afc389dda66e9553e7b5281298f34698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:02 +0000
Subject: [PATCH 49/60] fix: change-points at fractional time stamps take
 effect in the backward pass, too

The backward pass hands over the time stamp plus one, from which the transition
models subtract one again. For many fractional time stamps (e.g. 0.1), this does
not give back the time stamp, so that change-points were only recognised in the
forward pass.
---
 bayesloop/transitionModels.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 36f5a21..300897e 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -313,7 +313,9 @@ class ChangePoint(TransitionModel):
 
     def computeBackwardPrior(self, posterior, t):
         # data after the change-point contain no information about parameter values before the change-point
-        if t - 1 == self.hyperParameterValues[0]:
+        # (compare with tc + 1 instead of t - 1, as the latter may suffer from round-off errors for fractional time stamps)
+        tc = self.hyperParameterValues[0]
+        if not isinstance(tc, str) and t == tc + 1:
             return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
         else:
             return posterior
@@ -778,7 +780,8 @@ class SerialTransitionModel(TransitionModel):
 
     def computeBackwardPrior(self, posterior, t):
         # the index of the model to choose at time t is given by the number of break times <= t
-        modelIndex = np.sum(np.array(self.hyperParameterValues) <= t-1)
+        # (written this way, because t - 1 may suffer from round-off errors for fractional time stamps)
+        modelIndex = np.sum(np.array(self.hyperParameterValues) + 1 <= t)
 
         self.models[modelIndex].latticeConstant = self.latticeConstant  # latticeConstant needs to be propagated
         self.models[modelIndex].study = self.study  # study needs to be propagated
@@ -812,7 +815,10 @@ class SerialTransitionModel(TransitionModel):
             return posterior
 
     def _backwardChangePointCheck(self, posterior, t):
-        return self._forwardChangePointCheck(posterior, t - 1)
+        for tc in np.array(self.hyperParameterValues)[self.changePointMask]:
+            if t == tc + 1:
+                return self._forwardChangePointCheck(posterior, tc)
+        return posterior
 
 
 class BreakPoint(TransitionModel):
-- 
2.43.0


From eb76f85acd291b83b9a1a2489c7d16b6fe05e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:33 +0000
Subject: [PATCH 50/60] fix: a rejected first step of an OnlineStudy leaves it
 usable

---
 bayesloop/core.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a50ccde..d16e510 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2103,25 +2103,30 @@ class OnlineStudy(HyperStudy):
         if (self.tmCount is None) and (self.transitionModel is None):
             raise ConfigurationError('No transition model set or added.')
 
-        # if one only sets a transition model, but does not use addTransitionModel, we add it here
-        if (self.tmCount is None) and (self.transitionModel is not None):
-            self.addTransitionModel('transition model', self.transitionModel)
-
         if not isinstance(dataPoint, list):
             dataPoint = [dataPoint]
 
         if len(self.rawData) == 0:
-            print('+ Start model fit')
+            # check the model consistency the first time that 'step' is called; if a check fails, neither the data point nor
+            # the transition model are kept, so that the study can be corrected
+            self.rawData = np.array(dataPoint)
+            try:
+                Study._checkConsistency(self)
+                self._computePrior(silent=True)
 
-            # consistency check to detect duplicate hyper-parameter names in different transition models
-            allNames = list(flatten(self.hyperParameterNames))
-            if len(allNames) != len(np.unique(allNames)):
-                raise ConfigurationError('Detected duplicate hyper-parameter names. Choose unique identifiers.')
+                # if one only sets a transition model, but does not use addTransitionModel, we add it here
+                if self.tmCount is None:
+                    self.addTransitionModel('transition model', self.transitionModel)
 
-            # check the model consistency the first time that 'step' is called
-            self.rawData = np.array(dataPoint)
-            Study._checkConsistency(self)
+                # consistency check to detect duplicate hyper-parameter names in different transition models
+                allNames = list(flatten(self.hyperParameterNames))
+                if len(allNames) != len(np.unique(allNames)):
+                    raise ConfigurationError('Detected duplicate hyper-parameter names. Choose unique identifiers.')
+            except Exception:
+                self.rawData = np.array([])
+                raise
 
+            print('+ Start model fit')
             self.rawTimestamps = np.array([0])
             self.formattedTimestamps = []
         else:
-- 
2.43.0


From f60938652938938fff1d9b43f5414dbcdf726e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:29 +0000
Subject: [PATCH 51/60] fix: optimize() does not return hyper-parameter values
 that are worse than the starting values

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d16e510..f025f58 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -545,12 +545,13 @@ class Study(object):
             raise
 
         # perform optimization (maximization of log-evidence)
+        initialValue = self._optimizationStep(x0)
         result = minimize(self._optimizationStep, x0, method='COBYLA', **kwargs)
 
         print('+ Finished optimization.')
 
-        # set optimal hyperparameters in transition model
-        self._setSelectedHyperParameters(result.x)
+        # set optimal hyperparameters in transition model; the starting values are kept if COBYLA could not improve on them
+        self._setSelectedHyperParameters(result.x if result.fun <= initialValue else x0)
 
         # run analysis with optimal parameter values
         self.fit(forwardOnly=forwardOnly)
-- 
2.43.0


From 92f9adb1406ceedb2cbba68b9014b00b97aa4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:32 +0000
Subject: [PATCH 52/60] fix: simulate() works with all built-in observation
 models

Observation models receive data segments as NumPy arrays in a fit, but simulate()
passed a list, which GaussianMean cannot index.
---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f025f58..ae753d4 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -607,7 +607,7 @@ class Study(object):
             post = self.posteriorSequence[timeIndex]
 
         # compute distribution of observations/data at the given points x
-        prob = np.array([np.sum(self.observationModel.pdf(self.grid, [xi]) * post) for xi in x])
+        prob = np.array([np.sum(self.observationModel.pdf(self.grid, np.array([xi])) * post) for xi in x])
 
         if not density:
             prob /= np.sum(prob)
-- 
2.43.0


From b9785400bf3ada5cf83096b4472d7f24e0c4a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:12 +0000
Subject: [PATCH 53/60] fix: simulate() without stored parameter distributions
 raises an error instead of returning NaN

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ae753d4..71595c1 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -596,6 +596,9 @@ class Study(object):
             raise NotImplementedError('Method "simulate" is only available for observation models with '
                                       'segment length 1.')
 
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('No parameter distributions stored to compute the probability of observations from.')
+
         # if no time is provided, use time-averaged posterior distribution
         if t is None:
             post = np.sum(self.posteriorSequence, axis=0) / len(self.posteriorSequence)
-- 
2.43.0


From 167dde1c0e2acf7d3cc0008571663ee32ef2615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:51 +0000
Subject: [PATCH 54/60] fix: local evidence of a HyperStudy does not depend on
 the spacing of hyper-parameter values

The hyper-prior values are probability densities and have to be multiplied with
the hyper-grid constant to average over local evidence values.
---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 71595c1..e30ae6e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1436,6 +1436,7 @@ class HyperStudy(Study):
 
             # compute local evidence of average model
             self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0)
+            self.localEvidence *= np.prod(self.hyperGridConstant)  # hyper-prior values are probability densities
 
             if not silent:
                 print('    + Computed local evidence of average model')
-- 
2.43.0


From f540b5d1fead28e841d5747e0f25a2c8346dd651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:08 +0000
Subject: [PATCH 55/60] fix: regular grids are recognised independently of the
 magnitude of their values

The absolute tolerance of 1e-10 took regular grids with large values (round-off
errors, e.g. values around 1e8) for categorical parameters, and irregular grids
with tiny values for regular ones.
---
 bayesloop/core.py   | 21 ++++++++++-----------
 bayesloop/helper.py | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index e30ae6e..d289dab 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -23,7 +23,7 @@ from copy import copy, deepcopy
 from collections import OrderedDict
 from collections.abc import Iterable
 from tqdm.auto import tqdm
-from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols
+from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, equallySpaced
 from .preprocessing import movingWindow
 from .observationModels import ObservationModel
 from .transitionModels import TransitionModel, CombinedTransitionModel, SerialTransitionModel
@@ -159,7 +159,7 @@ class Study(object):
             self.boundaries.append([v[0], v[-1]])
 
             # check if parameter values are equally spaced
-            if np.any(np.abs(np.diff(np.diff(v))) > 10 ** -10):
+            if not equallySpaced(v):
                 print('! WARNING: Supplied parameter values for "{}" are not equally spaced. Assuming categorical '
                       'parameter.'.format(n))
                 self.latticeConstant.append(1.)
@@ -1185,8 +1185,7 @@ class HyperStudy(Study):
             if isinstance(values, Iterable) and len(values) > 1:
                 a = np.array(values)
                 d = a[1:] - a[:-1]
-                dd = d[1:] - d[:-1]
-                if np.all(np.abs(dd) < 10 ** -10):  # for equally spaced values, set difference as grid-constant
+                if equallySpaced(a):  # for equally spaced values, set difference as grid-constant
                     self.hyperGridConstant.append(np.abs(d[0]))
                 else:  # for irregularly spaced values (e.g. categorical), set grid-constant to 1
                     self.hyperGridConstant.append(1)
@@ -1602,7 +1601,7 @@ class HyperStudy(Study):
         x = self.flatHyperParameters[paramIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
@@ -1676,12 +1675,12 @@ class HyperStudy(Study):
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
-        if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+        if not equallySpaced(x):
             x2 = np.tile(np.arange(len(x)), (len(y), 1)).T
         else:
             x2 = np.tile(x, (len(y), 1)).T
 
-        if np.any(np.abs(np.diff(np.diff(y))) > 10 ** -10):
+        if not equallySpaced(y):
             y2 = np.tile(np.arange(len(y)), (len(x), 1))
         else:
             y2 = np.tile(y, (len(x), 1))
@@ -1707,9 +1706,9 @@ class HyperStudy(Study):
                      )
 
             # check for categorical hyper-parameter values
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.xticks(np.arange(len(x)), x)
-            if np.any(np.abs(np.diff(np.diff(y))) > 10 ** -10):
+            if not equallySpaced(y):
                 plt.yticks(np.arange(len(y)), y)
 
             ax.set_xlabel(self.flatHyperParameterNames[paramIndices[0]])
@@ -2761,7 +2760,7 @@ class OnlineStudy(HyperStudy):
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
@@ -2820,7 +2819,7 @@ class OnlineStudy(HyperStudy):
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index f9fa49a..be502d4 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -44,6 +44,25 @@ def recursiveIndex(nestedList, query):
     return []
 
 
+def equallySpaced(values):
+    """
+    Check whether values are equally spaced, up to round-off errors.
+
+    Args:
+        values: array-like of numbers
+
+    Returns:
+        bool: True if values are equally spaced
+    """
+    values = np.asarray(values, dtype=float)
+    if len(values) < 3:
+        return True
+
+    # deviations are judged relative to the range of the values; round-off errors depend on the largest value
+    tolerance = 10 ** -10 * np.ptp(values) + 8 * np.finfo(float).eps * np.max(np.abs(values))
+    return not np.any(np.abs(np.diff(np.diff(values))) > tolerance)
+
+
 def flatten(lst):
     """
     Flatten arbitrarily nested list. Returns a generator object.
-- 
2.43.0


From a742dea6b965a51638957cc028eed27f2d5d8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:34 +0000
Subject: [PATCH 56/60] fix: local evidence is nan if a data point rules out
 parameter values

---
 bayesloop/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d289dab..538a811 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -469,8 +469,15 @@ class Study(object):
                     likelihood = likelihood.astype(float)
 
                 # compute local evidence
-                with np.errstate(invalid='ignore'):
+                if np.all(likelihood > 0.):
                     self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
+                else:  # parameter values ruled out by the data point: distribution based on all other data points is needed
+                    if i == 0:
+                        others = self._computePrior(silent=True)*beta
+                    else:
+                        others = self.transitionModel.computeForwardPrior(self.posteriorSequence[i-1],
+                                                                          self.formattedTimestamps[i-1])*beta
+                    self.localEvidence[i] = np.sum(others*likelihood)/np.sum(others)
 
                 # compute beta for next iteration (transition models expect the step following the previous timestamp)
                 beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i-1]+1)
-- 
2.43.0


From 0a9f78df98fcdfbae2f581238ddaed4e2e1de9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 57/60] fix: NotEqual inverted the round-off errors of flat
 distributions

---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 300897e..9d7c6db 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -462,8 +462,10 @@ class NotEqual(TransitionModel):
         limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        if np.sum(newPrior) > 0.:  # a flat distribution cannot be inverted
+        if np.amax(newPrior) > 1e-12*np.amax(posterior):  # a flat distribution (up to round-off errors) cannot be inverted
             newPrior /= np.sum(newPrior)
+        else:
+            newPrior[...] = 0.
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From ddb556e39ea1cb8b6db73d7d74e4ebfbc625fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:24 +0000
Subject: [PATCH 58/60] fix: SymPy models could not be defined with a
 dictionary of parameters

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index d2dce56..d5c31da 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -323,8 +323,8 @@ class SymPy(ObservationModel):
                           "future version. Pass parameter names and values as successive arguments.",
                           DeprecationWarning)
             valueDict = args[0]
-            self.parameterNames = valueDict.keys()
-            self.parameterValues = valueDict.values()
+            self.parameterNames = list(valueDict.keys())
+            self.parameterValues = list(valueDict.values())
         else:
             self.parameterNames = args[::2]
             self.parameterValues = args[1::2]
-- 
2.43.0


From 18195452270ba89a2089047b6f87273b7a9cf49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 59/60] fix: names that begin with the name of a function
 cannot be parsed

---
 bayesloop/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 8283c99..a76daab 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -111,7 +111,11 @@ class Parser:
                 pass
 
         # initialize operators for parsing
+        # (names such as "log10pMin" begin with the name of a function, but do not refer to this function)
         funcop = pp.oneOf(self.functions)
+        ambiguous = [name for name in self.names if any(name.startswith(f) for f in self.functions)]
+        if len(ambiguous) > 0:
+            funcop = ~pp.oneOf(ambiguous) + funcop
         atop = pp.Literal('@')
         expop = pp.Literal('^')
         signop = pp.oneOf('+ -')
-- 
2.43.0


From 9f6a9ba913c7983ca983650b9e3b5990679e2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 60/60] fix: parser removes functions that NumPy and SciPy
 share only once if they collide with names

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index a76daab..8a8f543 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -101,7 +101,7 @@ class Parser:
                              pp.Optional(e + pp.Word("+-" + pp.nums, pp.nums)))
 
         # initialize list of all numpy functions, remove functions that collide with (hyper-)parameter names
-        self.functions = dir(np) + dir(sp)
+        self.functions = sorted(set(dir(np) + dir(sp)))
         for name in self.names:
             try:
                 self.functions.remove(name)
-- 
2.43.0

