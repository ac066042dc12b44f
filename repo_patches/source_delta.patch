From a859448faefee7dba7c5beab0cfda8174a8caf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:56 +0000
Subject: [PATCH 01/78] fix: geno() of an unbounded, linearly scaled genotype
 with a custom function returned uninitialised values

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..3f8c9b6 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -311,7 +311,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
-- 
2.43.0


From 418ad5a8573dcd2c09e3eccecac6057eae405cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:56 +0000
Subject: [PATCH 02/78] fix: geno() of a matrix of candidates did not compile
 for unbounded genotypes

---
 include/libcmaes/genopheno.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 3f8c9b6..d5a044f 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -290,6 +290,13 @@ namespace libcmaes
 	}
     }
 
+  template<> inline dMat GenoPheno<NoBoundStrategy,NoScalingStrategy>::geno(const dMat &candidates) const
+    {
+      if (_id)
+	return candidates;
+      else return geno_candidates(candidates);
+    }
+
   template<> inline dVec GenoPheno<NoBoundStrategy,linScalingStrategy>::pheno(const dVec &candidate) const
     {
       dVec ncandidate(candidate.rows());
@@ -332,6 +339,21 @@ namespace libcmaes
 	}
       return ncandidates;
     }
+  template<> inline dMat GenoPheno<NoBoundStrategy,linScalingStrategy>::geno(const dMat &candidates) const
+    {
+      // reverse scaling.
+      dMat ncandidates = candidates;
+#pragma omp parallel for if (ncandidates.cols() >= 100)
+      for (int i=0;i<ncandidates.cols();i++)
+	{
+	  dVec ycoli;
+	  _scalingstrategy.scale_to_internal(ycoli,ncandidates.col(i));
+	  ncandidates.col(i) = ycoli;
+	}
+      if (_id)
+	return ncandidates;
+      else return geno_candidates(ncandidates);
+    }
   
   template<> inline GenoPheno<NoBoundStrategy,linScalingStrategy>::GenoPheno(const dVec &scaling,
 									     const dVec &shift,
-- 
2.43.0


From 766babd070ac9a8617e60c8ba941dc0a1e24b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 03/78] fix: algorithm names sepaipop and sepabipop were not
 recognised

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..0b37bb0 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -328,7 +328,7 @@ namespace libcmaes
     };
 
   template<class TGenoPheno>
-    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepipop",10},{"sepbipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
+    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepaipop",10},{"sepabipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
 }
 
 #endif
-- 
2.43.0


From 3d91f45f3e3cdaf6601cbceb28e628b91438dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 04/78] fix: set_elitism(0) did not switch elitism off

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 0b37bb0..41cde8a 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
-- 
2.43.0


From 173c62dbb0b4ebcbde84c6f487a48a8a5af8af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 05/78] fix: set_seed() tested the previous seed instead of its
 argument

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..a0ea93d 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -276,7 +276,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From 55b8e204ac7121eee85dcde5c83ee90b315a6f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 06/78] fix: a stopping criterion could not be switched a
 second time

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 41cde8a..17af439 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
-- 
2.43.0


From 70144b83c843b64b13fded78a2a2009d3d6625df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 07/78] fix: the value of an already frozen parameter could not
 be changed

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index a0ea93d..f8e7192 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -194,7 +194,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
-- 
2.43.0


From 72bd7163a2893f46c08806e0f32ee574c719602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 08/78] fix: uncertainty handling ranked candidates with an
 inconsistent order

---
 src/esostrategy.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..f1957da 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -298,19 +298,16 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
-		    if (c1._delta == c2._delta)
+		    double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
+		    double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
+		    if (c1d == c2d)
 		      return c1.get_fvalue() + c1._fvalue_mut < c2.get_fvalue() + c2._fvalue_mut;
-		    else
-		      {
-			double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
-			double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
-			return c1d < c2d;
-		      }
+		    else return c1d < c2d;
 		  }
-		else return c1._r1 + c1._r2 < c2._r1 + c2._r2;
+		else return s1 < s2;
 	      });
     std::vector<Candidate> ncandidates;
     vit = _solutions._candidates_uh.begin();
-- 
2.43.0


From fbe13f0a6f917361ad9be431d5803225c4b16510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 09/78] fix: with lazy updates, candidates were sampled around
 an outdated mean

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..0390686 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -154,11 +154,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0


From 02ca21727a16e4818fd6b30f9706b477469bbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 10/78] fix: the numerical gradient step was limited by the
 bound of the internal space instead of that of the objective

---
 include/libcmaes/genopheno.h | 2 +-
 src/esostrategy.cc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index d5a044f..063eac2 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -380,7 +380,7 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index f1957da..de5b0fe 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -175,7 +175,7 @@ namespace libcmaes
       {
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
+	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-- 
2.43.0


From e5b30b9304cba2156f0baa0288dff84d6c189708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 11/78] fix: re-evaluated candidates of the uncertainty
 handling could leave the bounds

---
 src/esostrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index de5b0fe..c7afb5d 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -345,13 +345,13 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	if (phenocandidates.size())
+	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From e5c4479ad223125c8b68fb975a9fe776b534ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 12/78] fix: with scaling, the initial mean of a fixed
 parameter differed from its fixed value

---
 src/cmasolutions.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..a2b1e4e 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -53,6 +53,10 @@ namespace libcmaes
 	_xmean = 0.5*(dVec::Random(p._dim) + dVec::Constant(p._dim,1.0)); // scale to [0,1].
 	_xmean = _xmean.cwiseProduct(p._x0max - p._x0min) + p._x0min; // scale to bounds.
       }
+    // if scaling, need to apply to xmean.
+    if (!p._gp._scalingstrategy._id)
+      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
+    // fixed parameters are given in genotype.
     if (!p._fixed_p.empty())
       {
 	auto fpmit = p._fixed_p.begin();
@@ -62,9 +66,6 @@ namespace libcmaes
 	    ++fpmit;
 	  }
       }
-    // if scaling, need to apply to xmean.
-    if (!p._gp._scalingstrategy._id)
-      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
     if (static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init > 0.0)
       _sigma = static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init;
     else static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init = _sigma = 1.0/static_cast<double>(p._dim); // XXX: sqrt(trace(cov)/dim)
-- 
2.43.0


From 25bba7679a1aa9909cd1916ae38078ba7f84d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:08 +0000
Subject: [PATCH 13/78] fix: points far outside of the bounds overflowed an
 integer conversion and were mapped outside of the bounds

---
 src/pwq_bound_strategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..e613c93 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -28,6 +28,7 @@
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
 #include <limits>
+#include <cmath>
 #include <iostream>
 
 namespace libcmaes
@@ -97,9 +98,9 @@ namespace libcmaes
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] = _xup[i] - std::fmod(_xup[i]-x_s[i],_r[i]); // shift up.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] = _xlow[i] + std::fmod(x_s[i]-_xlow[i],_r[i]); // shift down;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
-- 
2.43.0


From 92ed68a198defb42a0753aea3587d16e5a0967d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 14/78] fix: with bounds and linear scaling, rounding errors
 let the objective be evaluated outside of the bounds

---
 include/libcmaes/genopheno.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 063eac2..d9c1e8b 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -26,6 +26,7 @@
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/scaling.h>
 #include <vector>
+#include <algorithm>
 
 namespace libcmaes
 {
@@ -112,6 +113,13 @@ namespace libcmaes
       return candidates;
     }
 
+    // rounding errors of the scaling may otherwise let parameters slip out of their bounds.
+    void clamp_to_bounds(dVec &y) const
+    {
+      for (int i=0;i<y.rows();i++)
+	y[i] = std::min(std::max(y[i],_boundstrategy.getPhenoLBound(i)),_boundstrategy.getPhenoUBound(i));
+    }
+
     dMat geno_candidates(const dMat &candidates) const
     {
       if (!_id)
@@ -152,6 +160,7 @@ namespace libcmaes
 	    {
 	      dVec ycoli;
 	      _scalingstrategy.scale_to_f(ncandidates.col(i),ycoli);
+	      clamp_to_bounds(ycoli);
 	      ncandidates.col(i) = ycoli;
 	    }
 	}
@@ -208,6 +217,7 @@ namespace libcmaes
 	{
 	  dVec sphen = dVec::Zero(phen.rows());
 	  _scalingstrategy.scale_to_f(phen,sphen);
+	  clamp_to_bounds(sphen);
 	  phen = sphen;
 	}
       return phen;
-- 
2.43.0


From db62928eae5750d22cc34378ab7f62064b770e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:05 +0000
Subject: [PATCH 15/78] fix: a vector of initial step sizes without bounds read
 from empty vectors

---
 include/libcmaes/pwq_bound_strategy.h | 11 ++++++-----
 src/cmaparameters.cc                  |  2 +-
 src/pwq_bound_strategy.cc             |  8 ++++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/libcmaes/pwq_bound_strategy.h b/include/libcmaes/pwq_bound_strategy.h
index dc5d555..4b4905a 100644
--- a/include/libcmaes/pwq_bound_strategy.h
+++ b/include/libcmaes/pwq_bound_strategy.h
@@ -25,6 +25,7 @@
 #include <libcmaes/eo_matrix.h>
 #include <libcmaes/cmaes_export.h>
 #include <vector>
+#include <limits>
 
 namespace libcmaes
 {
@@ -45,10 +46,10 @@ namespace libcmaes
 
     void shift_into_feasible(const dVec &x, dVec &x_s) const;
 
-    double getLBound(const int &k) const { return _lbounds[k]; }
-    double getUBound(const int &k) const { return _ubounds[k]; }
-    double getPhenoLBound(const int &k) const { return _phenolbounds[k]; }
-    double getPhenoUBound(const int &k) const { return _phenoubounds[k]; }
+    double getLBound(const int &k) const { return _id ? -std::numeric_limits<double>::max() : _lbounds[k]; }
+    double getUBound(const int &k) const { return _id ? std::numeric_limits<double>::max() : _ubounds[k]; }
+    double getPhenoLBound(const int &k) const { return _id ? -std::numeric_limits<double>::max() : _phenolbounds[k]; }
+    double getPhenoUBound(const int &k) const { return _id ? std::numeric_limits<double>::max() : _phenoubounds[k]; }
 
     double getAL(const int &k) const { return _al[k]; }
     double getAU(const int &k) const { return _au[k]; }
@@ -70,7 +71,7 @@ namespace libcmaes
     dVec _r;
     dVec _phenolbounds; /**< differ from _lbounds when another geno/pheno transform applies before bounds. */
     dVec _phenoubounds; /**< differ from _ubounds when another geno/pheno transform applies before bounds. */
-    bool _id = false;
+    bool _id = false; /**< no bounds apply. */
   };
 }
 
diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..10288d1 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -59,7 +59,7 @@ namespace libcmaes
   {
     dVec scaling = dVec::Constant(x0.size(),1.0).cwiseQuotient(Eigen::Map<dVec>(const_cast<double*>(&sigma.front()),sigma.size()));
     dVec shift = dVec::Constant(x0.size(),0.0);
-    TGenoPheno gp(scaling,shift,&lbounds.front(),&ubounds.front()); // XXX: is only effective when GenoPheno has linScalingStrategy
+    TGenoPheno gp(scaling,shift,lbounds.empty() ? nullptr : &lbounds.front(),ubounds.empty() ? nullptr : &ubounds.front()); // XXX: is only effective when GenoPheno has linScalingStrategy
     this->set_gp(gp);
     _sigma_init = *std::min_element(sigma.begin(),sigma.end());
     initialize_parameters();
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index e613c93..5443c3a 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -34,6 +34,7 @@
 namespace libcmaes
 {
   pwqBoundStrategy::pwqBoundStrategy()
+    :_id(true)
   {
   }
   
@@ -82,6 +83,11 @@ namespace libcmaes
 
   void pwqBoundStrategy::to_f_representation(const dVec &x, dVec &y) const
   {
+    if (_id) // no bounds.
+      {
+	y = x;
+	return;
+      }
     shift_into_feasible(x,y);
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
@@ -116,6 +122,8 @@ namespace libcmaes
   void pwqBoundStrategy::to_internal_representation(dVec &x, const dVec &y) const
   {
     x = y;
+    if (_id) // no bounds.
+      return;
     for (int i=0;i<y.rows();i++)
       {
 	if (x[i] < _lbounds[i] + _al[i])
-- 
2.43.0


From 5e836940bed6361f8471599954c8250d95bba2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 16/78] fix: the expected distance to minimum ignored the axes
 of the distribution and read out of bounds with VD updates

---
 src/esostrategy.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index c7afb5d..dfe48b4 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -199,8 +199,14 @@ namespace libcmaes
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
     dMat gradmn;
-    if (!_parameters._sep)
-      gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
+    if (_parameters._vd)
+      {
+	dVec dgrad = _solutions._sepcov.cwiseProduct(gradff);
+	gradmn = dVec(n+1);
+	gradmn << dgrad, _solutions._v.dot(dgrad); // C = D * (I + v * v^T) * D
+      }
+    else if (!_parameters._sep)
+      gradmn = _solutions._leigenvalues.cwiseSqrt().asDiagonal() * _solutions._leigenvectors.transpose() * gradff;
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
     double gradn = _solutions._sigma * gradmn.norm();
     edm *= gradn;
-- 
2.43.0


From d01e2a57cf54109e4250e114494f186dc267fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 17/78] fix: restarts lost the learning rates of the separable
 and VD updates, two-point adaptation and fixed parameters

---
 src/cmaparameters.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 10288d1..37e6093 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -115,6 +115,20 @@ namespace libcmaes
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
     this->_alphathuh = 1 + 2.0/(Parameters<TGenoPheno>::_dim+10.0);
+
+    // settings made so far remain in force when parameters are reinitialized, e.g. on restarts.
+    if (_sep)
+      set_sep();
+    if (_vd)
+      set_vd();
+    if (this->_tpa == 2)
+      set_tpa(2);
+    if (!Parameters<TGenoPheno>::_fixed_p.empty())
+      {
+	double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
+	_chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
+	_lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
+      }
   }
   
   template <class TGenoPheno>
-- 
2.43.0


From 3a110b20693e23a1281a08bf2b0bf98342f17277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 18/78] fix: BIPOP never ended once its progress function asked
 every run to stop

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..bd00416 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -87,6 +87,8 @@ namespace libcmaes
 	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
 	    budgets[1] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(best_run);
+	    if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter == 0)
+	      break; // the run was stopped by the progress function before its first iteration.
 	  }
 	if (r > 0) // use lambda_def on first call.
 	  {
-- 
2.43.0


From ba72b083270c022706bf9e6dc0133aea7c8ac5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 19/78] fix: BIPOP started from a solution used an
 uninitialised step-size and budget

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index bd00416..875d069 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -57,6 +57,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From 3102c2b7f3f3dc4e249e898ed38af4d1b4172c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:03 +0000
Subject: [PATCH 20/78] fix: TOLX compared against a tolerance scaled the wrong
 way round and was reported for diverging runs

---
 src/cmastopcriteria.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..0251536 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -166,16 +166,15 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (fabs(cmas._pc[i])*factor>=tolx)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))*factor>=tolx)
+	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))*factor>=tolx))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From b3b38b78d57885de5059858c6080763662b52387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 21/78] fix: starting from a solution ignored maximization,
 stopping criteria settings and output precision

---
 include/libcmaes/esostrategy.h |  1 -
 src/cmastrategy.cc             | 11 ++++++++++-
 src/esostrategy.cc             |  9 +++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 5bd1aa4..17ae9ec 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -253,7 +253,6 @@ namespace libcmaes
     ProgressFunc<TParameters,TSolutions> _pfunc; /**< possibly custom progress function. */
     GradFunc _gfunc = nullptr; /**< gradient function, when available. */
     PlotFunc<TParameters,TSolutions> _pffunc; /**< possibly custom stream data to file function. */
-    FitFunc _funcaux;
     bool _initial_elitist = false; /**< restarts from and re-injects best seen solution if not the final one. */
 
   private:
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 0390686..585c715 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -133,7 +133,16 @@ namespace libcmaes
     _esolver = Eigen::EigenMultivariateNormal<double>(false,eostrat<TGenoPheno>::_parameters._seed); // seeding the multivariate normal generator.
     LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "CMA-ES / dim=" << eostrat<TGenoPheno>::_parameters._dim << " / lambda=" << eostrat<TGenoPheno>::_parameters._lambda << " / sigma0=" << eostrat<TGenoPheno>::_solutions._sigma << " / mu=" << eostrat<TGenoPheno>::_parameters._mu << " / mueff=" << eostrat<TGenoPheno>::_parameters._muw << " / c1=" << eostrat<TGenoPheno>::_parameters._c1 << " / cmu=" << eostrat<TGenoPheno>::_parameters._cmu << " / lazy_update=" << eostrat<TGenoPheno>::_parameters._lazy_update << std::endl;
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
-      _fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+      {
+	_fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+	_fplotstream->precision(std::numeric_limits<double>::digits10);
+      }
+    auto mit=eostrat<TGenoPheno>::_parameters._stoppingcrit.begin();
+    while(mit!=eostrat<TGenoPheno>::_parameters._stoppingcrit.end())
+      {
+	_stopcriteria.set_criteria_active((*mit).first,(*mit).second);
+	++mit;
+      }
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index dfe48b4..21c1fb0 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -45,8 +45,8 @@ namespace libcmaes
   {
     if (parameters._maximize)
       {
-	_funcaux = _func;
-	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+	FitFunc funcaux = _func;
+	_func = [funcaux](const double *x, const int N) { return -1.0*funcaux(x,N); };
       }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     _solutions = TSolutions(_parameters);
@@ -64,6 +64,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters)
   {
+    if (parameters._maximize)
+      {
+	FitFunc funcaux = _func;
+	_func = [funcaux](const double *x, const int N) { return -1.0*funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From 1615a0ae3884a2a97b324bb2e812e00b2ff42d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 22/78] fix: starting from a separable or VD solution, or with
 another population size, used vectors of the wrong size

---
 include/libcmaes/esostrategy.h | 2 ++
 src/cmasolutions.cc            | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 17ae9ec..c7bb6de 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -156,6 +156,8 @@ namespace libcmaes
       _parameters.set_x0(sol.best_candidate().get_x_dvec());
       _solutions = sol;
       _solutions.reset();
+      _solutions._candidates.resize(_parameters._lambda); // the solution may come from another population size.
+      _solutions._kcand = std::min(_parameters._lambda-1,static_cast<int>(1.0+ceil(0.1+_parameters._lambda/4.0)));
     }
 
     /**
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a2b1e4e..ac0d049 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -210,13 +210,15 @@ namespace libcmaes
     //_leigenvalues.setZero(); // beware.
     //_leigenvectors.setZero();
     //_cov /= 1e-3;//_sigma;
-    _cov = dMat::Identity(_csqinv.rows(),_csqinv.cols());
+    if (_cov.size())
+      _cov = dMat::Identity(_cov.rows(),_cov.cols());
+    else _sepcov = dMat::Constant(_sepcov.rows(),1,1.0);
     //std::cout << "cov: " << _cov << std::endl;
     _niter = 0;
     _nevals = 0;
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
-    _psigma = dVec::Zero(_cov.rows());
-    _pc = dVec::Zero(_cov.rows());
+    _psigma = dVec::Zero(_xmean.rows());
+    _pc = dVec::Zero(_xmean.rows());
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
-- 
2.43.0


From 96e08c25de07a90d2df6cb8d1ff9463e5df09fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 23/78] fix: two-point adaptation evaluated NaN points when the
 mean had not moved

---
 src/cmastrategy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 585c715..40a4b1d 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -241,7 +241,9 @@ namespace libcmaes
 
 	dMat rz = _esolver.samples_ind(1);
 	double mfactor = rz.norm();
-	dVec z = mfactor * (mean_shift / mean_shift_norm);
+	dVec z = dVec::Zero(mean_shift.rows());
+	if (mean_shift_norm > 0.0) // the mean may not have moved.
+	  z = mfactor * (mean_shift / mean_shift_norm);
 	eostrat<TGenoPheno>::_solutions._tpa_x1 = eostrat<TGenoPheno>::_solutions._xmean + z;
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
-- 
2.43.0


From fcb345d37a271f1dd9d512e215e2cb5daabd7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 24/78] fix: elitist restart did not start from the best seen
 solution with scaling, and dropped custom functions

---
 src/cmastrategy.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 40a4b1d..8c709d8 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -386,11 +386,14 @@ namespace libcmaes
 	    this->set_initial_elitist(true);
 
 	    // reinit solution and re-optimize.
-	    eostrat<TGenoPheno>::_parameters.set_x0(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref());
+	    dVec nx0 = eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec();
+	    if (!eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().is_id())
+	      eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_f(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec(),nx0); // x0 is given before scaling.
+	    eostrat<TGenoPheno>::_parameters.set_x0(nx0);
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-	    optimize();
+	    optimize(evalf,askf,tellf);
 	  }
       }
     
-- 
2.43.0


From 6858bff4d1e8beac1d6211ef25fa0946b0a1768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 25/78] fix: surrogate-assisted optimization applied the
 separable and VD learning rates twice

---
 include/libcmaes/surrcmaes.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/libcmaes/surrcmaes.h b/include/libcmaes/surrcmaes.h
index 609ab97..ed93b08 100644
--- a/include/libcmaes/surrcmaes.h
+++ b/include/libcmaes/surrcmaes.h
@@ -72,63 +72,72 @@ namespace libcmaes
 	}
 	case sepCMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<CMAStrategy,CovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<IPOPCMAStrategy,CovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepBIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<BIPOPCMAStrategy,CovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepaCMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<CMAStrategy,ACovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepaIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<IPOPCMAStrategy,ACovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepaBIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<BIPOPCMAStrategy,ACovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case VD_CMAES:
 	{
-	  parameters.set_vd();
+	  if (!parameters.is_vd())
+	    parameters.set_vd();
 	  ESOptimizer<RSVMSurrogateStrategy<CMAStrategy,VDCMAUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case VD_IPOP_CMAES:
 	{
-	  parameters.set_vd();
+	  if (!parameters.is_vd())
+	    parameters.set_vd();
 	  ESOptimizer<RSVMSurrogateStrategy<IPOPCMAStrategy,VDCMAUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case VD_BIPOP_CMAES:
 	{
-	  parameters.set_vd();
+	  if (!parameters.is_vd())
+	    parameters.set_vd();
 	  ESOptimizer<RSVMSurrogateStrategy<BIPOPCMAStrategy,VDCMAUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
-- 
2.43.0


From 60eea2a7495f7a3da7561d4825216c3e378aa689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 26/78] fix: the full output to file was never written by
 cmaes()

---
 include/libcmaes/parameters.h | 9 +++++++++
 src/cmastrategy.cc            | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index f8e7192..9f16817 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -415,6 +415,15 @@ namespace libcmaes
 	_full_fplot = b;
       }
 
+      /**
+       * \brief returns whether the full output is activated.
+       * @return full output status
+       */
+      inline bool get_full_fplot() const
+      {
+	return _full_fplot;
+      }
+
       /**
        * \brief returns the current output filename.
        * @return output filename
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 8c709d8..dc2e83f 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -73,6 +73,8 @@ namespace libcmaes
   template<class TCovarianceUpdate, class TGenoPheno>
   int fpfuncdef_impl(const CMAParameters<TGenoPheno> &cmaparams, const CMASolutions &cmasols, std::ofstream &fplotstream)
   {
+    if (cmaparams.get_full_fplot())
+      return fpfuncdef_full_impl<TCovarianceUpdate,TGenoPheno>(cmaparams,cmasols,fplotstream);
     std::string sep = " ";
     fplotstream << fabs(cmasols.best_candidate().get_fvalue()) << sep << cmasols.fevals() << sep << cmasols.sigma() << sep << (cmasols.min_eigenv() == 0 ? 1.0 : sqrt(cmasols.max_eigenv()/cmasols.min_eigenv())) << sep;
     if (!cmasols.eigenvalues().size())
-- 
2.43.0


From 3ecbe1c1dee762212852e26d50b6d6b2e1433316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:21 +0000
Subject: [PATCH 27/78] fix: initial elitism with ask/tell reinjected a
 solution that was never evaluated, and crashed

---
 src/esostrategy.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 21c1fb0..57d0b0d 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -111,6 +111,14 @@ namespace libcmaes
 				perform_uh(candidates,phenocandidates,nfcalls);
       }
 
+    // with ask/tell the initial solution has not been evaluated yet.
+    if (_niter == 0 && _parameters._initial_elitist && !_solutions._initial_candidate.get_x_size())
+      {
+	_solutions._initial_candidate = Candidate(_func(_parameters._gp.pheno(_solutions._xmean).data(),_parameters._dim),_solutions._xmean);
+	_solutions._best_seen_candidate = _solutions._initial_candidate;
+	++nfcalls;
+      }
+
     // if an elitist is active, reinject initial solution as needed.
     if (_niter > 0 && (_parameters._elitist || _parameters._initial_elitist || (_initial_elitist && _parameters._initial_elitist_on_restart)))
       {
-- 
2.43.0


From 8f2c68e6fdb2460ef88c26dbb5fce88c1acc94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:24 +0000
Subject: [PATCH 28/78] fix: elitist restarts with uncertainty handling could
 go on for ever

---
 src/cmastrategy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index dc2e83f..1a009ad 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -380,6 +380,7 @@ namespace libcmaes
     if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart)
       {
 	if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart
+	    && !(eostrat<TGenoPheno>::_parameters._uh && eostrat<TGenoPheno>::_initial_elitist) // uncertain values may never be met again, restart once.
 	    && eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue()
 	    < eostrat<TGenoPheno>::_solutions.best_candidate().get_fvalue()
 	    && eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._best_seen_iter >= 3) // elitist
-- 
2.43.0


From 31c011a14b21b8afa9ecba3ed47ba14b23cc93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 29/78] fix: elitist restarts read the iteration of the best
 seen solution before it was set, and could recurse without end

---
 include/libcmaes/cmasolutions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 23aca8a..c026655 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -526,7 +526,7 @@ namespace libcmaes
     double _edm = 0.0; /**< expected vertical distance to the minimum. */
 
     Candidate _best_seen_candidate; /**< best seen candidate along the run. */
-    int _best_seen_iter;
+    int _best_seen_iter = 0;
     Candidate _worst_seen_candidate;
     Candidate _initial_candidate;
     
-- 
2.43.0


From 80c6af70fab073e27d77d486de08c947af19dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 30/78] fix: elitist reinjection could discard the best
 candidate of the generation, and mixed up two-point adaptation

---
 src/esostrategy.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 57d0b0d..112b195 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -149,7 +149,20 @@ namespace libcmaes
 #ifdef HAVE_DEBUG
 	    std::cout << "reinjecting solution=" << ref_fvalue << std::endl;
 #endif
-	    _solutions._candidates.at(1) = ref_candidate;
+	    // replace the worst candidate, so that no better one is lost, and leave those of tpa in place.
+	    int wr = -1;
+	    for (int r=0;r<candidates.cols();r++)
+	      {
+		if (_parameters._tpa == 2 && (r == _solutions._tpa_p1 || r == _solutions._tpa_p2))
+		  continue;
+		if (wr == -1 || _solutions._candidates.at(r).get_fvalue() > _solutions._candidates.at(wr).get_fvalue())
+		  wr = r;
+	      }
+	    if (wr != -1)
+	      {
+		_solutions._candidates.at(wr) = ref_candidate;
+		_solutions._candidates.at(wr).set_id(wr);
+	      }
 	  }
       }
     
-- 
2.43.0


From e4495bdd56f652d5a85917fc8111b65f1fdff7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:08 +0000
Subject: [PATCH 31/78] fix: the active update could make the covariance
 indefinite with large populations, and NaN points were evaluated

---
 src/acovarianceupdate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acovarianceupdate.cc b/src/acovarianceupdate.cc
index 335e0ef..bc6af92 100644
--- a/src/acovarianceupdate.cc
+++ b/src/acovarianceupdate.cc
@@ -106,6 +106,7 @@ namespace libcmaes
     else cminustmp = cminusdenom.maxCoeff();
     double cminusmin = parameters._alphaminusmin * (1.0-parameters._cmu)*(1.0-parameters._lambdamintarget) / cminustmp;
     double cminus = std::min(cminusmin,(1-parameters._cmu)*parameters._alphacov/8.0*(parameters._muw/(pow(parameters._dim+2.0,1.5)+2.0*parameters._muw)));
+    cminus = std::min(cminus,std::max(0.0,1.0-parameters._c1-parameters._cmu)/cminustmp); // keeps the covariance positive definite, even with large populations.
     if (!parameters._sep)
       solutions._cov = (1-parameters._c1-parameters._cmu + cminus*parameters._alphaminusold)*solutions._cov + parameters._c1*spc + (parameters._cmu + cminus * (1.0-parameters._alphaminusold))*cmuplus - cminus * cmuminus;
     else solutions._sepcov = (1-parameters._c1-parameters._cmu + cminus*parameters._alphaminusold)*solutions._sepcov + parameters._c1*spc + (parameters._cmu + cminus * (1.0-parameters._alphaminusold))*cmuplus - cminus * cmuminus;
-- 
2.43.0


From d5980ebb324ea5e35de0cc1cb04aeaecde86b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:59 +0000
Subject: [PATCH 32/78] fix: the separable update normalised its evolution path
 with the learning rate of the full update

---
 src/cmaparameters.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 37e6093..97fb3ea 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -170,6 +170,7 @@ namespace libcmaes
     _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
     _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
     _cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+    _fact_pc = sqrt(_cc * (2.0 - _cc) * _muw);
   }
   
   template <class TGenoPheno>
-- 
2.43.0


From e3422ca7069477d3a2f54579e40c5ef4133143c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:44 +0000
Subject: [PATCH 33/78] fix: setting the separable or VD update twice applied
 its learning rates twice

---
 src/cmaparameters.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 97fb3ea..82e4dae 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -118,9 +118,15 @@ namespace libcmaes
 
     // settings made so far remain in force when parameters are reinitialized, e.g. on restarts.
     if (_sep)
-      set_sep();
+      {
+	_sep = false;
+	set_sep();
+      }
     if (_vd)
-      set_vd();
+      {
+	_vd = false;
+	set_vd();
+      }
     if (this->_tpa == 2)
       set_tpa(2);
     if (!Parameters<TGenoPheno>::_fixed_p.empty())
@@ -165,6 +171,8 @@ namespace libcmaes
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_sep()
   {
+    if (_sep)
+      return; // learning rates are already set.
     _sep = true;
     _c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
     _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
@@ -181,6 +189,8 @@ namespace libcmaes
 	std::cerr << "[Warning]: set_vd on non VD algorithm " << this->_algo << ". Not activating VD update\n";
 	return;
       }
+    if (_vd)
+      return; // learning rates are already set.
     _vd = true;
     _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
     _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
-- 
2.43.0


From 167f54a270d4e4b0da971451024c6679f1e55e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 34/78] fix: a user gradient function was used with the wrong
 sign when maximizing

---
 src/esostrategy.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 112b195..f873572 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -192,7 +192,11 @@ namespace libcmaes
   dVec ESOStrategy<TParameters,TSolutions,TStopCriteria>::gradf(const dVec &x)
   {
     if (_gfunc != nullptr)
-      return _gfunc(x.data(),_parameters._dim);
+      {
+	if (_parameters._maximize) // the internal objective is the opposite of the user function.
+	  return -1.0*_gfunc(x.data(),_parameters._dim);
+	return _gfunc(x.data(),_parameters._dim);
+      }
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
-- 
2.43.0


From 4243d69501200e146e29f6bdd20679a69e66b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 35/78] fix: the gradient candidate of VD-CMA took the vector D
 for the variances

---
 src/cmastrategy.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 1a009ad..728aec3 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -226,6 +226,14 @@ namespace libcmaes
 		double normq = q.squaredNorm();
 		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._cov * grad_at_mean;
 	      }
+	    else if (eostrat<TGenoPheno>::_parameters._vd)
+	      {
+		// C = D * (I + v * v^T) * D, with D in _sepcov.
+		dVec dgrad = eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
+		double vdgrad = eostrat<TGenoPheno>::_solutions._v.dot(dgrad);
+		dVec covgrad = eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(dgrad + vdgrad * eostrat<TGenoPheno>::_solutions._v);
+		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * sqrt(eostrat<TGenoPheno>::_parameters._dim / (dgrad.squaredNorm() + vdgrad*vdgrad)) * covgrad;
+	      }
 	    else nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim) / ((eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseProduct(grad_at_mean)).norm())) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
 	    pop.col(0) = nx;
 	  }
-- 
2.43.0


From 34fa7556777bd8dece4c5f2af992d9c9c1d73e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 36/78] fix: the two-point adaptation points of VD-CMA took the
 vector D for the variances

---
 src/cmastrategy.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 728aec3..7801ed6 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -246,6 +246,13 @@ namespace libcmaes
 	double mean_shift_norm = 1.0;
 	if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
 	  mean_shift_norm = (_esolver._eigenSolver.eigenvalues().cwiseSqrt().cwiseInverse().cwiseProduct(_esolver._eigenSolver.eigenvectors().transpose()*mean_shift)).norm() / eostrat<TGenoPheno>::_solutions._sigma;
+	else if (eostrat<TGenoPheno>::_parameters._vd)
+	  {
+	    // C = D * (I + v * v^T) * D, with D in _sepcov.
+	    dVec dshift = eostrat<TGenoPheno>::_solutions._sepcov.cwiseInverse().cwiseProduct(mean_shift);
+	    double vdshift = eostrat<TGenoPheno>::_solutions._v.dot(dshift);
+	    mean_shift_norm = std::sqrt(dshift.squaredNorm() - vdshift*vdshift / (1.0 + eostrat<TGenoPheno>::_solutions._v.squaredNorm())) / eostrat<TGenoPheno>::_solutions._sigma;
+	  }
 	else mean_shift_norm = eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseInverse().cwiseProduct(mean_shift).norm() / eostrat<TGenoPheno>::_solutions._sigma;
 	//std::cout << "mean_shift_norm=" << mean_shift_norm << " / sqrt(N)=" << std::sqrt(std::sqrt(eostrat<TGenoPheno>::_parameters._dim)) << std::endl;
 
-- 
2.43.0


From d68e9ea32db53b5bc51852f0ba8ba14a5c35f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:22 +0000
Subject: [PATCH 37/78] fix: the numerical gradient evaluated points with moved
 fixed parameters

---
 src/esostrategy.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index f873572..9046a0d 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -203,13 +203,18 @@ namespace libcmaes
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int i=0;i<_parameters._dim;i++)
       {
+	if (_parameters._fixed_p.count(i)) // fixed parameters do not move.
+	  {
+	    vgradf(i,0) = 0.0;
+	    continue;
+	  }
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
 	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-    update_fevals(_parameters._dim+1); // numerical gradient increases the budget.
+    update_fevals(_parameters._dim-_parameters._fixed_p.size()+1); // numerical gradient increases the budget.
     return vgradf;
   }
 
-- 
2.43.0


From 4c2f75c22be79907cd53385a3fb7f31037993db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:22 +0000
Subject: [PATCH 38/78] fix: the re-evaluations of uncertainty handling moved
 fixed parameters

---
 src/esostrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 9046a0d..923e46a 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -391,6 +391,8 @@ namespace libcmaes
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it) // fixed parameters do not move.
+	  candidates_uh.row((*it).first).setConstant((*it).second);
 	if (phenocandidates.size())
 	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
-- 
2.43.0


From 0b8c5da7fa6281bbb992500c9ac7868faf2bfc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:22 +0000
Subject: [PATCH 39/78] fix: per-parameter initial step sizes were multiplied
 by the smallest of them

---
 src/cmaparameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 82e4dae..7be8196 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -57,11 +57,11 @@ namespace libcmaes
 					   const uint64_t &seed)
     :Parameters<TGenoPheno>(x0.size(),&x0.front(),lambda,seed,TGenoPheno()),_nrestarts(9),_lazy_update(false),_lazy_value(0),_cm(1.0),_alphacov(2.0),_alphaminusold(0.5),_lambdamintarget(0.66),_alphaminusmin(1.0)
   {
-    dVec scaling = dVec::Constant(x0.size(),1.0).cwiseQuotient(Eigen::Map<dVec>(const_cast<double*>(&sigma.front()),sigma.size()));
+    _sigma_init = *std::min_element(sigma.begin(),sigma.end());
+    dVec scaling = dVec::Constant(x0.size(),_sigma_init).cwiseQuotient(Eigen::Map<dVec>(const_cast<double*>(&sigma.front()),sigma.size())); // so that the initial step sizes are those of sigma.
     dVec shift = dVec::Constant(x0.size(),0.0);
     TGenoPheno gp(scaling,shift,lbounds.empty() ? nullptr : &lbounds.front(),ubounds.empty() ? nullptr : &ubounds.front()); // XXX: is only effective when GenoPheno has linScalingStrategy
     this->set_gp(gp);
-    _sigma_init = *std::min_element(sigma.begin(),sigma.end());
     initialize_parameters();
   }
   
-- 
2.43.0


From 72489df3845515f925bd0b107e1b518619bb1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:53 +0000
Subject: [PATCH 40/78] fix: reinjecting a solution far from the mean made the
 step-size infinite

---
 include/libcmaes/cmaparameters.h | 2 +-
 src/cmaparameters.cc             | 2 +-
 src/covarianceupdate.cc          | 2 +-
 src/vdcmaupdate.cc               | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 17af439..157c3d8 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -311,7 +311,7 @@ namespace libcmaes
       double _cm; /**< learning rate for the mean. */
       double _alphacov; /**< = 2 (active CMA only) */
       double _alphaminusold; /**< in [0,1] (active CMA only) */
-      double _deltamaxsigma; /**< infinite (active CMA only) */
+      double _deltamaxsigma; /**< largest factor of step-size increase in one iteration. */
       double _lambdamintarget; /**< = 0.66 (active CMA only) */
       double _alphaminusmin; /**< = 1 (active CMA only) */
       
diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 7be8196..3250642 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -110,7 +110,7 @@ namespace libcmaes
     _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
 
     // active cma.
-    _deltamaxsigma = std::numeric_limits<double>::max();
+    _deltamaxsigma = std::exp(1.0); // a solution reinjected from far away must not make the step-size infinite.
 
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
diff --git a/src/covarianceupdate.cc b/src/covarianceupdate.cc
index bb5756d..e685207 100644
--- a/src/covarianceupdate.cc
+++ b/src/covarianceupdate.cc
@@ -83,7 +83,7 @@ namespace libcmaes
     
     // sigma update, Eq. (6)
     if (parameters._tpa < 2)
-      solutions._sigma *= std::exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0));
+      solutions._sigma *= std::min(parameters._deltamaxsigma,std::exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0)));
     else if (solutions._niter > 0)
       solutions._sigma *= std::exp(solutions._tpa_s / parameters._dsigma);
     
diff --git a/src/vdcmaupdate.cc b/src/vdcmaupdate.cc
index 2653bae..ca8af1d 100644
--- a/src/vdcmaupdate.cc
+++ b/src/vdcmaupdate.cc
@@ -115,7 +115,7 @@ namespace libcmaes
 
     // update sigma.
     if (parameters._tpa < 2)
-      solutions._sigma *= exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0));
+      solutions._sigma *= std::min(parameters._deltamaxsigma,exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0)));
     else if (solutions._niter > 0)
       solutions._sigma *= std::exp(solutions._tpa_s / parameters._dsigma);
     
-- 
2.43.0


From 9f2543633ed73cb81ab6ae8b2acf871f82adf78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:53 +0000
Subject: [PATCH 41/78] fix: the variance of fixed parameters vanished and made
 the covariance singular

---
 src/cmastrategy.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 7801ed6..3b576c1 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -321,7 +321,18 @@ namespace libcmaes
     eostrat<TGenoPheno>::_solutions.update_best_candidates();
     
     // CMA-ES update, depends on the selected 'flavor'.
+    dMat fcov;
+    if (!eostrat<TGenoPheno>::_parameters._fixed_p.empty())
+      fcov = eostrat<TGenoPheno>::_solutions._sepcov.size() ? eostrat<TGenoPheno>::_solutions._sepcov : dMat(eostrat<TGenoPheno>::_solutions._cov.diagonal());
     TCovarianceUpdate::update(eostrat<TGenoPheno>::_parameters,_esolver,eostrat<TGenoPheno>::_solutions);
+    // fixed parameters show no variance, keep theirs as it is or it would vanish and make the covariance singular.
+    for (auto it=eostrat<TGenoPheno>::_parameters._fixed_p.begin();
+	 it!=eostrat<TGenoPheno>::_parameters._fixed_p.end();++it)
+      {
+	if (eostrat<TGenoPheno>::_solutions._sepcov.size())
+	  eostrat<TGenoPheno>::_solutions._sepcov((*it).first,0) = fcov((*it).first,0);
+	else eostrat<TGenoPheno>::_solutions._cov((*it).first,(*it).first) = fcov((*it).first,0);
+      }
     
     if (eostrat<TGenoPheno>::_parameters._uh)
       if (eostrat<TGenoPheno>::_solutions._suh > 0.0)
-- 
2.43.0


From 5d1d66c36e83bc850cc53473f3f6f1e16539352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:07 +0000
Subject: [PATCH 42/78] fix: the no-effect-axis criterion paired the length of
 an axis with a row of the axes

---
 src/cmastopcriteria.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 0251536..21419af 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -228,7 +228,7 @@ namespace libcmaes
 	  {
 	    double ei = fact * sqrt(cmas._leigenvalues(i));
 	    for (int j=0;j<cmap._dim;j++)
-	      if ((!cmap._sep && !cmap._vd && cmas._xmean[i] != cmas._xmean[i] + ei * cmas._leigenvectors(i,j))
+	      if ((!cmap._sep && !cmap._vd && cmas._xmean[j] != cmas._xmean[j] + ei * cmas._leigenvectors(j,i))
 		  || ((cmap._sep || cmap._vd) && cmas._xmean[i] != cmas._xmean[i] + ei))
 		return CONT;
 	  }
-- 
2.43.0


From 9c46c4ad7e241123d8129910bc9c31b72dfe5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 43/78] fix: removing several dimensions of bounds and scaling
 removed the wrong ones

---
 include/libcmaes/scaling.h | 4 +++-
 src/pwq_bound_strategy.cc  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 86aedb1..3fc8a97 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -136,7 +136,9 @@ namespace libcmaes
 
     void remove_dimensions(const std::vector<int> &k)
     {
-      for (const int i: k)
+      std::vector<int> sk(k);
+      std::sort(sk.rbegin(),sk.rend()); // from the last dimension, so that other indexes remain valid
+      for (const int i: sk)
 	{
 	  removeElement(_scaling,i);
 	  removeElement(_shift,i);
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5443c3a..998f8d5 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -135,7 +135,9 @@ namespace libcmaes
 
   void pwqBoundStrategy::remove_dimensions(const std::vector<int> &k)
   {
-    for (const int i: k)
+    std::vector<int> sk(k);
+    std::sort(sk.rbegin(),sk.rend()); // from the last dimension, so that other indexes remain valid
+    for (const int i: sk)
       {
 	removeElement(_lbounds,i);
 	removeElement(_ubounds,i);
-- 
2.43.0


From 5fccb42a343e6a7ef949fa7058689fa5a3ce0a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 44/78] fix: optimizing with several fixed parameters mixed
 them up unless they were given in increasing order

---
 src/errstats.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..b87275b 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -233,12 +233,24 @@ namespace libcmaes
   CMASolutions errstats<TGenoPheno>::optimize_vpk(FitFunc &func,
 						  const CMAParameters<TGenoPheno> &parameters,
 						  const CMASolutions &cmasol,
-						  const std::vector<int> &k,
-						  const std::vector<double> &vk,
+						  const std::vector<int> &fk,
+						  const std::vector<double> &fvk,
 						  const dVec &x0,
 						  const bool &pheno_x0,
 						  const bool &pheno_vk)
   {
+    // removing and adding dimensions works in increasing order.
+    std::vector<std::pair<int,double>> kvk;
+    for (size_t i=0;i<fk.size();i++)
+      kvk.push_back(std::pair<int,double>(fk.at(i),fvk.at(i)));
+    std::sort(kvk.begin(),kvk.end());
+    std::vector<int> k;
+    std::vector<double> vk;
+    for (const std::pair<int,double> &p: kvk)
+      {
+	k.push_back(p.first);
+	vk.push_back(p.second);
+      }
     dVec rx0;
     if (!pheno_x0)
       rx0 = parameters.get_gp().pheno(x0);
-- 
2.43.0


From 61c07fa4c6427e3ce8f1a441393aa42f7081058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 45/78] fix: with all parameters fixed, the best candidate
 returned was the original one

---
 src/errstats.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index b87275b..e49ab23 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -275,8 +275,8 @@ namespace libcmaes
       {
 	double fval = func(pvk.data(),pvk.size());
 	CMASolutions rcmasol;
-	rcmasol._candidates.emplace_back(fval,pvk);
-	rcmasol._best_candidates_hist.push_back(cmasol._candidates.at(0));
+	rcmasol._candidates.emplace_back(fval,parameters.get_gp().geno(pvk)); // in genotype
+	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
 	rcmasol._nevals++;
 	return rcmasol;
       }
-- 
2.43.0


From 6129042b9a82ab6e57d30f71c323e001d43ec07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 46/78] fix: profile likelihood used missing eigenvectors with
 separable and VD covariances

---
 src/errstats.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index e49ab23..8695a13 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -180,10 +180,12 @@ namespace libcmaes
     
     dVec dv = dVec::Zero(parameters.dim());
     dv[k] = d;
+    // no eigenvectors with separable and VD covariances, in which case the search is along the axis
+    const dMat rot = eigenve.rows() == dv.size() && eigenve.cols() == dv.size() ? dMat(eigenve.transpose()) : dMat::Identity(dv.size(),dv.size());
     int i = n;
     if (fdiff > fup + fdelta) // above
       {
-	x -= eigenve.transpose() * dv;
+	x -= rot * dv;
 	while (fdiff > fup + fdelta
 	       && i > 0
 	       && phenoxtmp[k] >= parameters._gp.get_boundstrategy().getPhenoLBound(k)
@@ -191,7 +193,7 @@ namespace libcmaes
 	  {
 	    d /= 2.0;
 	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp = x + rot * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
@@ -213,7 +215,7 @@ namespace libcmaes
 	  {
 	    d *= 2.0;
 	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp = x + rot * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
-- 
2.43.0


From d3d7338e21b0d33550824ba53ce220b2fca92bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:54 +0000
Subject: [PATCH 47/78] fix: the simple surrogate strategy trained with a
 missing covariance in the separable and VD flavours

---
 src/surrogatestrategy.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..443668a 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -176,8 +176,11 @@ namespace libcmaes
     // train surrogate as required.
     if (do_train())
       {
-	this->train(this->_tset,
-		    eostrat<TGenoPheno>::_solutions._csqinv);
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->train(this->_tset,
+		      eostrat<TGenoPheno>::_solutions._csqinv);
+	else this->train(this->_tset,
+			 eostrat<TGenoPheno>::_solutions._sepcsqinv);
       }
   }
   
-- 
2.43.0


From 2cc263c6c95eb706a60119b2e8c64af390977fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 48/78] fix: the simple surrogate strategy switched on the
 target criterion against the user setting

---
 include/libcmaes/cmaparameters.h | 1 +
 src/surrogatestrategy.cc         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 157c3d8..56e43a5 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -45,6 +45,7 @@ namespace libcmaes
       friend class ACovarianceUpdate;
       template <class U> friend class errstats;
       friend class VDCMAUpdate;
+      template <template <class X, class Y> class U, class V, class W> friend class SimpleSurrogateStrategy;
       
     public:
       CMAParameters() {} //TODO: var init even if this constructor is not supposed to be used for now.
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 443668a..809ea4d 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -130,8 +130,9 @@ namespace libcmaes
   {
     if (!this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
       {
-	// reactivate fvalue-based stopping criteria
-	this->_stopcriteria.set_criteria_active(FTARGET,true);
+	// reactivate fvalue-based stopping criteria, unless the user has deactivated them
+	auto mit = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
+	this->_stopcriteria.set_criteria_active(FTARGET,mit==eostrat<TGenoPheno>::_parameters._stoppingcrit.end() || (*mit).second);
 	
 	// compute test error if needed.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
-- 
2.43.0


From 2b464b19e434d8aefccd6f80464a6017ac322b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 49/78] fix: training a ranking SVM shared its random generator
 between threads

---
 include/libcmaes/surrogates/rankingsvm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index 03e30fb..1e50190 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -258,6 +258,8 @@ class RankingSVM
     // initialization of temporary variables
     dVec sum_alphas = dVec::Zero(_dKij.cols());
     dMat div_dKij = dMat::Zero(_dKij.rows(),_dKij.cols());
+    for (int i=0;i<_dKij.rows();i++) // not in parallel, the random generator is shared.
+      _alpha(i) = _C(i) * (0.95 + 0.05*_udist(_rng));
 #pragma omp parallel
     {
 #pragma omp for
@@ -267,8 +269,6 @@ class RankingSVM
 	    {
 	      _dKij(i,j) = _K(i,j) - _K(i,j+1) - _K(i+1,j) + _K(i+1,j+1);
 	    }
-	  double fact = _udist(_rng);
-	  _alpha(i) = _C(i) * (0.95 + 0.05*fact);
 	}
 #pragma omp for
       for (int i=0;i<_dKij.rows();i++)
-- 
2.43.0


From e074474186ea0439abba34f42fd6f7234ae075ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 50/78] fix: the ACM surrogate strategy did not rank the
 candidates of the generation that fills the training set

---
 src/surrogatestrategy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 809ea4d..b5c2426 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -272,6 +272,7 @@ namespace libcmaes
 	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
+	eostrat<TGenoPheno>::_solutions.sort_candidates(); // tell() doesn't, once the training set is full.
       }
   }
 
-- 
2.43.0


From 89096b54c492f14e6183328e8e8cc99284625867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 51/78] fix: the simple surrogate strategy used its surrogate
 before having trained it

---
 include/libcmaes/surrogatestrategy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..478dffe 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -73,7 +73,7 @@ namespace libcmaes
      * @return training status
      */
     int train(const std::vector<Candidate> &candidates,
-	      const dMat &cov) { return _train(candidates,cov); }
+	      const dMat &cov) { _trained = true; return _train(candidates,cov); }
 
     /**
      * \brief predict from a surrogate model
@@ -204,6 +204,7 @@ namespace libcmaes
     double _beta_err = 0.2; /**< smoothing constant. */
     int _nsteps = 1; /**< steps in between two training phases. */
     int _auto_nsteps = false; /**< whether to automatically set the surrogate lifelength. */
+    bool _trained = false; /**< whether the surrogate has been trained yet. */
     };
 
   /**
@@ -269,7 +270,7 @@ namespace libcmaes
     {
       if (!SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::_exploit && (int)this->_tset.size() >= this->_l)
 	return true;
-      return ((this->_niter == 0 || this->_niter % this->_nsteps == 0) && (int)this->_tset.size() >= this->_l);
+      return ((this->_niter == 0 || this->_niter % this->_nsteps == 0 || !this->_trained) && (int)this->_tset.size() >= this->_l);
     }
 
     public:
-- 
2.43.0


From 7cd616e7c86c41f287b0fcd941f8692888e3aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 52/78] fix: cmaes() ignored the initial solutions object with
 the separable and VD flavours

---
 include/libcmaes/cmaes.h | 97 +++++++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 27 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..b02243a 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -250,6 +250,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -258,7 +259,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -274,6 +275,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		sepcmaes.set_gradient_func(gfunc);
 	      sepcmaes.set_progress_func(pfunc);
+	      sepcmaes.set_plot_func(pffunc);
 	      sepcmaes.optimize();
 	      return sepcmaes.get_solutions();
 	    }
@@ -282,7 +284,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -298,6 +300,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		ipop.set_gradient_func(gfunc);
 	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
 	      ipop.optimize();
 	      return ipop.get_solutions();
 	    }
@@ -306,7 +309,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -322,6 +325,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -330,37 +334,76 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
-	  if (gfunc != nullptr)
-	    vdcma.set_gradient_func(gfunc);
-	  vdcma.set_progress_func(pfunc);
-	  vdcma.set_plot_func(pffunc);
-	  vdcma.optimize();
-	  return vdcma.get_solutions();
+	  if (solutions.sepcov().size()==0)
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
 	}
 	case VD_IPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
-	  if (gfunc != nullptr)
-	    ipop.set_gradient_func(gfunc);
-	  ipop.set_progress_func(pfunc);
-	  ipop.set_plot_func(pffunc);
-	  ipop.optimize();
-	  return ipop.get_solutions();
+	  if (solutions.sepcov().size()==0)
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
 	}
 	case VD_BIPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
-	  if (gfunc != nullptr)
-	    bipop.set_gradient_func(gfunc);
-	  bipop.set_progress_func(pfunc);
-	  bipop.set_plot_func(pffunc);
-	  bipop.optimize();
-	  return bipop.get_solutions();
+	  if (solutions.sepcov().size()==0)
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
 	}
 	default:
 	return CMASolutions();
-- 
2.43.0


From 24af23d6fabee12765e756e977fedfe1c568007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 53/78] fix: get_solution_sepcov of the Python bindings
 returned the missing full covariance

---
 python/lcmaes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index cd1953b..06e7f64 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -130,7 +130,7 @@ PyObject* get_solution_sepcov_py(const CMASolutions &s)
 
 boost::python::object get_solution_sepcov(const CMASolutions &s)
 {
-  PyObject *pobj = get_solution_cov_py(s);
+  PyObject *pobj = get_solution_sepcov_py(s);
   boost::python::object boostobj(boost::python::handle<>((PyObject*)pobj));
   return boostobj;
 }
-- 
2.43.0


From 40f030bea310dac38f6d377965f824f18f942fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:33 +0000
Subject: [PATCH 54/78] fix: starting from a solution of another flavor left
 the search without a covariance

---
 include/libcmaes/esostrategy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index c7bb6de..3935d10 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -156,6 +156,12 @@ namespace libcmaes
       _parameters.set_x0(sol.best_candidate().get_x_dvec());
       _solutions = sol;
       _solutions.reset();
+      // the solution may come from another flavor, with another form of covariance.
+      TSolutions nsol(_parameters);
+      _solutions._cov = nsol._cov;
+      _solutions._sepcov = nsol._sepcov;
+      if (_solutions._v.size() != nsol._v.size())
+	_solutions._v = nsol._v;
       _solutions._candidates.resize(_parameters._lambda); // the solution may come from another population size.
       _solutions._kcand = std::min(_parameters._lambda-1,static_cast<int>(1.0+ceil(0.1+_parameters._lambda/4.0)));
     }
-- 
2.43.0


From ce4f33b6c1fb5d51f170e34200cbd84b0ed0012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 55/78] fix: the surrogate test error was not measured on new
 points against the trained surrogate

---
 src/surrogatestrategy.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index b5c2426..ee729fa 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -134,7 +134,10 @@ namespace libcmaes
 	auto mit = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
 	this->_stopcriteria.set_criteria_active(FTARGET,mit==eostrat<TGenoPheno>::_parameters._stoppingcrit.end() || (*mit).second);
 	
-	// compute test error if needed.
+	// use original objective function and collect points.
+	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+
+	// compute test error if needed, on these new points.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
 	  {
 	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
@@ -145,9 +148,7 @@ namespace libcmaes
 	    if (this->_auto_nsteps)
 	      this->_nsteps = compute_lifelength();
 	  }
-	
-	// use original objective function and collect points.
-	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
       }
@@ -258,7 +259,10 @@ namespace libcmaes
       }
     else
       {
-	// compute test error if needed.
+	// use original objective function and collect points.
+	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+
+	// compute test error if needed, on these new points.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
 	  {
 	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
@@ -267,9 +271,7 @@ namespace libcmaes
 	    else this->set_test_error(this->compute_error(eostrat<TGenoPheno>::_solutions.candidates(),
 							  eostrat<TGenoPheno>::_solutions._sepcsqinv));
 	  }
-	
-	// use original objective function and collect points.
-	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
 	eostrat<TGenoPheno>::_solutions.sort_candidates(); // tell() doesn't, once the training set is full.
@@ -368,7 +370,6 @@ namespace libcmaes
     ncandidates.at(0).set_fvalue(this->_func(eostrat<TGenoPheno>::_parameters._gp.pheno(ncandidates.at(0).get_x_dvec()).data(),ncandidates.at(0).get_x_size()));
     this->update_fevals(1);
     test_set.push_back(ncandidates.at(0));
-    this->add_to_training_set(ncandidates.at(0));
     int count = 1;
     uh.clear();
     uh.insert(0);
@@ -383,7 +384,6 @@ namespace libcmaes
 	    double fvalue = this->_func(eostrat<TGenoPheno>::_parameters._gp.pheno(ncandidates.at(a).get_x_dvec()).data(),ncandidates.at(a).get_x_size());
 	    ncandidates.at(a).set_fvalue(fvalue);
 	    test_set.push_back(ncandidates.at(a));
-	    this->add_to_training_set(ncandidates.at(a));
 	    this->update_fevals(1);
 	    ++count;
 	  }
@@ -405,6 +405,8 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
       this->set_test_error(this->compute_error(test_set,eostrat<TGenoPheno>::_solutions._csqinv));
     else this->set_test_error(this->compute_error(test_set,eostrat<TGenoPheno>::_solutions._sepcsqinv));
+    for (size_t i=0;i<test_set.size();i++) // once the error is known, prediction relies on the training set.
+      this->add_to_training_set(test_set.at(i));
     
     // set candidate set.
     eostrat<TGenoPheno>::_solutions._candidates = ncandidates;
-- 
2.43.0


From bb38d33ab63f3a0a131989592fd8f360cb7ecdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:14 +0000
Subject: [PATCH 56/78] fix: the surrogate error over a single point was not a
 number

---
 src/surrogatestrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index ee729fa..2d4bd79 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -78,6 +78,8 @@ namespace libcmaes
   double SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::compute_error(const std::vector<Candidate> &test_set,
 									const dMat &cov)
   {
+    if (test_set.size() < 2)
+      return 0.0; // no pair to compare.
     double test_set_size = test_set.size();
     double factor = 2.0 / static_cast<double>((test_set_size*(test_set_size-1)));
     std::vector<Candidate> ctest_set = test_set;
-- 
2.43.0


From 6248bfa2d62370e17af8e6405fca62e16048c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:48 +0000
Subject: [PATCH 57/78] fix: the ACM surrogate strategy looped forever when the
 population was smaller than lambdaprime

---
 src/surrogatestrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 2d4bd79..69945db 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -375,7 +375,7 @@ namespace libcmaes
     int count = 1;
     uh.clear();
     uh.insert(0);
-    while(count < _lambdaprime)
+    while(count < std::min(_lambdaprime,(int)ncandidates.size())) // the population may be smaller on restart.
       {
 	// XXX: do we need to drop the samples with a > lambda and if a == 0 ? weird bias on sampling...
 	double da = std::fabs(_norm_sel1(_gen1));
-- 
2.43.0


From 212ecc99bb4c80876c008235243cb34837aec324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:01 +0000
Subject: [PATCH 58/78] fix: IPOP and BIPOP without restarts did not run at all
 and returned an empty solution

---
 src/bipopcmastrategy.cc | 2 +-
 src/ipopcmastrategy.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 875d069..120f80d 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -79,7 +79,7 @@ namespace libcmaes
   {
     std::array<int,2> budgets = {{0,0}}; // 0: r1, 1: r2
     CMASolutions best_run;
-    for (int r=0;r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++)
+    for (int r=0;r==0 || r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++) // there is always a first run.
       {
 	while(budgets[0]>budgets[1])
 	  {
diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index b6faf8b..cd8d0cb 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -58,7 +58,7 @@ namespace libcmaes
 							      const TellFunc &tellf)
   {
     CMASolutions best_run;
-    for (int r=0;r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++)
+    for (int r=0;r==0 || r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++) // there is always a first run.
       {
 	LOG_IF(INFO,!(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._quiet)) << "r: " << r << " / lambda=" << CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda << std::endl;
 	CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
-- 
2.43.0


From e4e37c183897269173cbea1fbe562e04a7b3cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:29 +0000
Subject: [PATCH 59/78] fix: cmaes() ignored an initial solutions object of
 another flavor

---
 include/libcmaes/cmaes.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index b02243a..89a6e4f 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -44,7 +44,7 @@ namespace libcmaes
 	case CMAES_DEFAULT:
 	{
 	  // if / else as object cannot be reused for now, and we're avoiding pointers.
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> cmaes_vanilla(func,parameters);
 	      if (gfunc != nullptr)
@@ -67,7 +67,7 @@ namespace libcmaes
 	}
 	case IPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -90,7 +90,7 @@ namespace libcmaes
 	}
 	case BIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -113,7 +113,7 @@ namespace libcmaes
 	}
 	case aCMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> acmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -136,7 +136,7 @@ namespace libcmaes
 	}
 	case aIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> aipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -159,7 +159,7 @@ namespace libcmaes
 	}
 	case aBIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> abipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -259,7 +259,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -284,7 +284,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -309,7 +309,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -334,7 +334,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
 	      if (gfunc != nullptr)
@@ -359,7 +359,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -384,7 +384,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  if (solutions.sepcov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
 	      if (gfunc != nullptr)
-- 
2.43.0


From 6920c8061921a0103e3055c9245a320853bd1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:29 +0000
Subject: [PATCH 60/78] fix: restarts after starting from a solution began at a
 wrongly scaled point

---
 include/libcmaes/esostrategy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 3935d10..a9a94de 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -153,7 +153,10 @@ namespace libcmaes
      */
     void start_from_solution(const TSolutions &sol)
     {
-      _parameters.set_x0(sol.best_candidate().get_x_dvec());
+      dVec nx0 = sol.best_candidate().get_x_dvec();
+      if (!_parameters._gp.get_scalingstrategy().is_id())
+	_parameters._gp.get_scalingstrategy().scale_to_f(sol.best_candidate().get_x_dvec(),nx0); // x0 is given before scaling.
+      _parameters.set_x0(nx0);
       _solutions = sol;
       _solutions.reset();
       // the solution may come from another flavor, with another form of covariance.
-- 
2.43.0


From 4f440416ad7b8c48e8d7f2671bf6ab5235850272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:29 +0000
Subject: [PATCH 61/78] fix: starting from a solution kept its history length
 instead of the one set

---
 include/libcmaes/esostrategy.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index a9a94de..d5245e6 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -166,7 +166,8 @@ namespace libcmaes
       if (_solutions._v.size() != nsol._v.size())
 	_solutions._v = nsol._v;
       _solutions._candidates.resize(_parameters._lambda); // the solution may come from another population size.
-      _solutions._kcand = std::min(_parameters._lambda-1,static_cast<int>(1.0+ceil(0.1+_parameters._lambda/4.0)));
+      _solutions._kcand = nsol._kcand;
+      _solutions._max_hist = nsol._max_hist;
     }
 
     /**
-- 
2.43.0


From fb211c3a2a0474028afb3142b01c6fa01414c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 62/78] fix: starting from a solution did not move its mean to
 the values of fixed parameters

---
 include/libcmaes/esostrategy.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index d5245e6..bd0bb0c 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -168,6 +168,8 @@ namespace libcmaes
       _solutions._candidates.resize(_parameters._lambda); // the solution may come from another population size.
       _solutions._kcand = nsol._kcand;
       _solutions._max_hist = nsol._max_hist;
+      for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it)
+	_solutions._xmean((*it).first) = (*it).second;
     }
 
     /**
-- 
2.43.0


From 4463350baa263dd94cbb4aabadf311cbee9704ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 63/78] fix: starting from a solution kept the two-point
 adaptation state of the earlier run

---
 src/cmasolutions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index ac0d049..eeaf86d 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -219,6 +219,7 @@ namespace libcmaes
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
     _psigma = dVec::Zero(_xmean.rows());
     _pc = dVec::Zero(_xmean.rows());
+    _tpa_s = 0.0;
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
-- 
2.43.0


From 6abfabbd6cb24d270c7ba4aa295d3871ffcbbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:00 +0000
Subject: [PATCH 64/78] fix: two-point adaptation with gradient wrote outside
 of a population of two

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 3b576c1..1b85b2a 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -265,7 +265,7 @@ namespace libcmaes
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
 	// if gradient is in col 0, move tpa vectors to pos 1 & 2
-	if (eostrat<TGenoPheno>::_parameters._with_gradient)
+	if (eostrat<TGenoPheno>::_parameters._with_gradient && pop.cols() > 2)
 	  {
 	    eostrat<TGenoPheno>::_solutions._tpa_p1 = 1;
 	    eostrat<TGenoPheno>::_solutions._tpa_p2 = 2;
-- 
2.43.0


From bc7a4454b4e2dc1b37942236aacac391ce0fa466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:00 +0000
Subject: [PATCH 65/78] fix: expected distance to minimum of a run ended before
 its first generation read missing eigenvectors

---
 src/esostrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 923e46a..25469e1 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -240,6 +240,8 @@ namespace libcmaes
 	gradmn = dVec(n+1);
 	gradmn << dgrad, _solutions._v.dot(dgrad); // C = D * (I + v * v^T) * D
       }
+    else if (!_parameters._sep && !_solutions._leigenvalues.size())
+      gradmn = gradff; // ended before the first generation, the covariance is the identity.
     else if (!_parameters._sep)
       gradmn = _solutions._leigenvalues.cwiseSqrt().asDiagonal() * _solutions._leigenvectors.transpose() * gradff;
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
-- 
2.43.0


From 15fc898aa4788c86ec29175611b1e4f5d1355cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:56 +0000
Subject: [PATCH 66/78] fix: two-point adaptation kept the candidate positions
 of an earlier run with gradient

---
 src/cmastrategy.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 1b85b2a..fcda2df 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -265,11 +265,9 @@ namespace libcmaes
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
 	// if gradient is in col 0, move tpa vectors to pos 1 & 2
-	if (eostrat<TGenoPheno>::_parameters._with_gradient && pop.cols() > 2)
-	  {
-	    eostrat<TGenoPheno>::_solutions._tpa_p1 = 1;
-	    eostrat<TGenoPheno>::_solutions._tpa_p2 = 2;
-	  }
+	int tpa_pos = (eostrat<TGenoPheno>::_parameters._with_gradient && pop.cols() > 2) ? 1 : 0;
+	eostrat<TGenoPheno>::_solutions._tpa_p1 = tpa_pos;
+	eostrat<TGenoPheno>::_solutions._tpa_p2 = tpa_pos + 1;
 	pop.col(eostrat<TGenoPheno>::_solutions._tpa_p1) = eostrat<TGenoPheno>::_solutions._tpa_x1;
 	pop.col(eostrat<TGenoPheno>::_solutions._tpa_p2) = eostrat<TGenoPheno>::_solutions._tpa_x2;
       }
-- 
2.43.0


From 0c7dd2d4b0fb0d1447c75a9dc78236adad002651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 67/78] fix: an exception thrown by the objective function
 ended the process

---
 src/esostrategy.cc | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 25469e1..459aab4 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -24,6 +24,8 @@
 #include <libcmaes/cmaparameters.h> // in order to pre-instanciate template into library.
 #include <libcmaes/cmasolutions.h>
 #include <libcmaes/cmastopcriteria.h>
+#include <atomic>
+#include <exception>
 #include <iostream>
 #include <numeric>
 #include <libcmaes/llogging.h>
@@ -92,17 +94,31 @@ namespace libcmaes
     std::chrono::time_point<std::chrono::system_clock> tstart = std::chrono::system_clock::now();
 #endif
     // one candidate per row.
+    std::exception_ptr error; // an exception cannot leave the parallel region by itself.
+    std::atomic<bool> failed(false);
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int r=0;r<candidates.cols();r++)
       {
+	if (failed)
+	  continue;
 	_solutions._candidates.at(r).set_x(candidates.col(r));
 	_solutions._candidates.at(r).set_id(r);
-	if (phenocandidates.size())
-	  _solutions._candidates.at(r).set_fvalue(_func(phenocandidates.col(r).data(),candidates.rows()));
-	else _solutions._candidates.at(r).set_fvalue(_func(candidates.col(r).data(),candidates.rows()));
+	try
+	  {
+	    if (phenocandidates.size())
+	      _solutions._candidates.at(r).set_fvalue(_func(phenocandidates.col(r).data(),candidates.rows()));
+	    else _solutions._candidates.at(r).set_fvalue(_func(candidates.col(r).data(),candidates.rows()));
+	  }
+	catch (...)
+	  {
+	    if (!failed.exchange(true))
+	      error = std::current_exception();
+	  }
 	
 	//std::cerr << "candidate x: " << _solutions._candidates.at(r)._x.transpose() << std::endl;
       }
+    if (error)
+      std::rethrow_exception(error);
     int nfcalls = candidates.cols();
     
     // evaluation step of uncertainty handling scheme.
@@ -200,6 +216,8 @@ namespace libcmaes
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
+    std::exception_ptr error; // an exception cannot leave the parallel region by itself.
+    std::atomic<bool> failed(false);
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int i=0;i<_parameters._dim;i++)
       {
@@ -211,9 +229,21 @@ namespace libcmaes
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
 	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
-	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
-	vgradf(i,0) = gradi;
+	if (failed)
+	  continue;
+	try
+	  {
+	    double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
+	    vgradf(i,0) = gradi;
+	  }
+	catch (...)
+	  {
+	    if (!failed.exchange(true))
+	      error = std::current_exception();
+	  }
       }
+    if (error)
+      std::rethrow_exception(error);
     update_fevals(_parameters._dim-_parameters._fixed_p.size()+1); // numerical gradient increases the budget.
     return vgradf;
   }
-- 
2.43.0


From fb0638766c1af421f4fe889b9dfc758770ebfdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 68/78] fix: covariance arrays of the Python bindings referred
 to freed or uninitialised memory

---
 python/lcmaes.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index 06e7f64..9b3f93f 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -107,13 +107,21 @@ boost::python::list get_best_candidate_pheno(const CMASolutions &s,
   return gpx;
 }
 
-PyObject* get_solution_cov_py(const CMASolutions &s)
+/* an array of its own, that does not refer to the memory of the solution object. */
+PyObject* copy_to_py(const dMat &m, const int &nd)
 {
-  npy_intp shape[2] = {s.dim(),s.dim()};
-  PyObject* pyArray = PyArray_SimpleNewFromData(2, shape, NPY_DOUBLE, (double*)s.cov_data());
+  npy_intp shape[2] = {m.rows(),m.cols()};
+  PyObject* pyArray = PyArray_EMPTY(nd, shape, NPY_DOUBLE, 1);
+  if (pyArray != nullptr)
+    std::copy(m.data(),m.data()+m.size(),(double*)PyArray_DATA((PyArrayObject*)pyArray));
   return pyArray;
 }
 
+PyObject* get_solution_cov_py(const CMASolutions &s)
+{
+  return copy_to_py(s.cov(),2);
+}
+
 boost::python::object get_solution_cov(const CMASolutions &s)
 {
   PyObject *pobj = get_solution_cov_py(s);
@@ -123,9 +131,7 @@ boost::python::object get_solution_cov(const CMASolutions &s)
 
 PyObject* get_solution_sepcov_py(const CMASolutions &s)
 {
-  npy_intp shape[1] = {s.dim()};
-  PyObject* pyArray = PyArray_SimpleNewFromData(1, shape, NPY_DOUBLE, (double*)s.sepcov_data());
-  return pyArray;
+  return copy_to_py(s.sepcov(),1);
 }
 
 boost::python::object get_solution_sepcov(const CMASolutions &s)
-- 
2.43.0


From 82abdb72b55f299080d2b919d11eed6dd4774d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 69/78] fix: eigenvalues() of the Python bindings always failed

---
 python/lcmaes.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index 9b3f93f..33ddb5e 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -89,6 +89,15 @@ boost::python::list get_solution_xmean(const CMASolutions &s)
   return xmean;
 }
 
+boost::python::list get_solution_eigenvalues(const CMASolutions &s)
+{
+  dVec e = s.eigenvalues();
+  boost::python::list ev;
+  for (int i=0;i<e.size();i++)
+    ev.append(e(i));
+  return ev;
+}
+
 boost::python::list get_candidate_x(const Candidate &c)
 {
   boost::python::list x;
@@ -440,7 +449,7 @@ BOOST_PYTHON_MODULE(lcmaes)
     .def("edm",&CMASolutions::edm,"returns the expected distance to minimum, if computed (see set_edm() in CMAParameters)")
     .def("sigma",&CMASolutions::sigma,"returns current value of step-size sigma")
     .def("fevals",&CMASolutions::fevals,"returns current number of objective function evaluations")
-    .def("eigenvalues",&CMASolutions::eigenvalues,"returns a vector of last computed eigenvalues")
+    .def("eigenvalues",get_solution_eigenvalues,"returns a vector of last computed eigenvalues")
     .def("min_eigenv",&CMASolutions::min_eigenv,"returns current min eigen value")
     .def("max_eigenv",&CMASolutions::max_eigenv,"returns current max eigen value")
     .def("run_status",&CMASolutions::run_status,"returns current optimization status code")
-- 
2.43.0


From 735f44e001e0439d448ad8c2a01e3e277788dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 70/78] fix: to_params() of the Python interface failed with a
 scaling vector

---
 python/lcmaes_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lcmaes_interface.py b/python/lcmaes_interface.py
index 614cab5..644d7d4 100644
--- a/python/lcmaes_interface.py
+++ b/python/lcmaes_interface.py
@@ -48,7 +48,7 @@ def to_params(x0, sigma0, str_algo=b'acmaes', fplot=None, lbounds=None, ubounds=
             p = lcmaes.make_simple_parameters(x0, sigma0)
         else:
             gp = lcmaes.make_genopheno_ls(vscaling,vshift)
-            p = lcmaes.make_parameters_ls(x0,sigma0,gp)
+            p = lcmaes.make_parameters_ls(x0,sigma0,gp,-1,0)
     p.set_str_algo(str_algo)
     if fplot and fplot != True:  # then fplot must be filename
         global fplot_current
-- 
2.43.0


From 1525e2df4986c92a79b82ccc21e73cba73013b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:50 +0000
Subject: [PATCH 71/78] fix: parallel evaluation of a Python objective function
 crashed the interpreter

---
 python/lcmaes.cc | 83 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 14 deletions(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index 33ddb5e..e2cd36f 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -41,19 +41,66 @@ double fitfunc_f(const boost::python::list &x, const int &n)
 }
 boost::function<double(const boost::python::list&,const int&)> fitfunc_bf(fitfunc_f);
 
+/* the interpreter lock is released while the library runs, and taken by every thread that calls back. */
+struct gil_released
+{
+  gil_released():_state(PyEval_SaveThread()) {}
+  ~gil_released() { PyEval_RestoreThread(_state); }
+  PyThreadState *_state;
+};
+
+struct gil_taken
+{
+  gil_taken():_state(PyGILState_Ensure()) {}
+  ~gil_taken() { PyGILState_Release(_state); }
+  PyGILState_STATE _state;
+};
+
+/* a Python exception on its way from the calling thread of an objective function. */
+struct python_error
+{
+  PyObject *_type = nullptr, *_value = nullptr, *_trace = nullptr;
+};
+
+double call_fitfunc(const boost::function<double(const boost::python::list&,const int&)> &fitfunc_bf,
+		    const double *x, const int &N)
+{
+  gil_taken gil;
+  try
+    {
+      boost::python::list plx;
+      for (int i=0;i<N;i++) // XXX: how to avoid the loop ?
+	plx.append(x[i]);
+      return fitfunc_bf(plx,N);
+    }
+  catch (const boost::python::error_already_set&)
+    {
+      python_error e;
+      PyErr_Fetch(&e._type,&e._value,&e._trace);
+      throw e;
+    }
+}
+
 /* wrapper to cmaes high level function. */
 template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
   CMASolutions pcmaes(boost::function<double(const boost::python::list&,const int&)>& fitfunc_bf,
   CMAParameters<TGenoPheno> &parameters)
   {
-    FitFunc fpython = [fitfunc_bf](const double *x, const int N)
+    FitFunc fpython = [&fitfunc_bf](const double *x, const int N)
       {
-	boost::python::list plx;
-	for (int i=0;i<N;i++) // XXX: how to avoid the loop ?
-	  plx.append(x[i]);
-	return fitfunc_bf(plx,N);
+	return call_fitfunc(fitfunc_bf,x,N);
       };
-    return cmaes(fpython,parameters);
+    try
+      {
+	gil_released nogil;
+	return cmaes(fpython,parameters);
+      }
+    catch (const python_error &e)
+      {
+	PyErr_Restore(e._type,e._value,e._trace);
+	boost::python::throw_error_already_set();
+	throw;
+      }
   }
 
 /* wrapper to CMAParameters constructor with vector. */
@@ -203,16 +250,14 @@ template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
 			  const bool &exploit,
 			  const int &l)
   {
-    FitFunc fpython = [fitfunc_bf](const double *x, const int N)
+    FitFunc fpython = [&fitfunc_bf](const double *x, const int N)
       {
-	boost::python::list plx;
-	for (int i=0;i<N;i++)
-	  plx.append(x[i]);
-	return fitfunc_bf(plx,N);
+	return call_fitfunc(fitfunc_bf,x,N);
       };
     ESOptimizer<ACMSurrogateStrategy<CMAStrategy,CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> optim(fpython,parameters);
-    CSurrFunc csurrfpython = [csurrfunc_bf](const std::vector<Candidate> &c, const dMat &m)
+    CSurrFunc csurrfpython = [&csurrfunc_bf](const std::vector<Candidate> &c, const dMat &m)
       {
+	gil_taken gil;
 	boost::python::list plc;
 	for (size_t i=0;i<c.size();i++)
 	  plc.append(c[i]);
@@ -222,8 +267,9 @@ template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
 	return csurrfunc_bf(plc,boost::ref(boostobj));
       };
     optim.set_ftrain(csurrfpython);
-    SurrFunc surrfpython = [surrfunc_bf](std::vector<Candidate> &c, const dMat &m)
+    SurrFunc surrfpython = [&surrfunc_bf](std::vector<Candidate> &c, const dMat &m)
       {
+	gil_taken gil;
 	boost::python::list plc;
 	for (size_t i=0;i<c.size();i++)
 	  plc.append(c[i]);
@@ -238,7 +284,16 @@ template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
       optim.set_fpredict(surrfpython);
       optim.set_exploit(exploit);
       optim.set_l(l);
-    optim.optimize();
+    try
+      {
+	gil_released nogil;
+	optim.optimize();
+      }
+    catch (const python_error &e)
+      {
+	PyErr_Restore(e._type,e._value,e._trace);
+	boost::python::throw_error_already_set();
+      }
     return optim.get_solutions();
   }
 #endif
-- 
2.43.0


From c2374a28d2ff61af5a7c258dd6afa949a7266772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 72/78] fix: a second profile likelihood of a parameter was not
 stored

---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 8695a13..9b1fc6c 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -52,7 +52,7 @@ namespace libcmaes
     errstats<TGenoPheno>::profile_likelihood_search(func,parameters,le,cmasol,k,true,samplesize,fup,delta,maxiters,curve);  // negative direction
     
     le.setErrMinMax();
-    cmasol._pls.insert(std::pair<int,pli>(k,le));
+    cmasol._pls[k] = le; // replaces an earlier profile of the same parameter.
     return le;
   }
 
-- 
2.43.0


From 8b828cf80c2e57c643567bfb4a82cace503fb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 73/78] fix: contour used stored profiles of another level

---
 src/errstats.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 9b1fc6c..6fb6db6 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -351,14 +351,14 @@ namespace libcmaes
     // find first two points.
     int samplesize = 10;
     pli plx,ply;
-    if (!cmasol.get_pli(px,plx))
+    if (!cmasol.get_pli(px,plx) || plx._fup != fup) // a stored profile may be that of another level
       {
 	errstats<TGenoPheno>::profile_likelihood(func,parameters,cmasol,px,false,samplesize,fup,delta,maxiters);
 	cmasol.get_pli(px,plx); // in phenotype
       }
     
     // find second two points.
-    if (!cmasol.get_pli(py,ply))
+    if (!cmasol.get_pli(py,ply) || ply._fup != fup)
       {
 	errstats<TGenoPheno>::profile_likelihood(func,parameters,cmasol,py,false,samplesize,fup,delta,maxiters);
 	cmasol.get_pli(py,ply); // in phenotype
-- 
2.43.0


From 3c4ba540e1b40376f117988062709e2d83e3210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 74/78] fix: printed confidence intervals showed a wrong status
 of the upper end

---
 src/cmasolutions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index eeaf86d..76f88bb 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -279,8 +279,8 @@ namespace libcmaes
 	for (auto it=_pls.begin();it!=_pls.end();++it)
 	  {
 	    out << "dim " << (*it).first << " in [" << (*it).second._min << "," << (*it).second._max << "] with error [" << (*it).second._errmin << "," << (*it).second._errmax << "]";
-	    if ((*it).second._err[(*it).second._minindex] || (*it).second._err[(*it).second._maxindex])
-	      out << " / status=[" << (*it).second._err[(*it).second._minindex] << "," << (*it).second._err[(*it).second._maxindex] << "]";
+	    if ((*it).second._err[(*it).second._minindex] || (*it).second._err[(*it).second._samplesize+1+(*it).second._maxindex])
+	      out << " / status=[" << (*it).second._err[(*it).second._minindex] << "," << (*it).second._err[(*it).second._samplesize+1+(*it).second._maxindex] << "]";
 	    out << " / fvalue=" << "(" << (*it).second._fvaluem((*it).second._minindex) << "," << (*it).second._fvaluem((*it).second._samplesize+1+(*it).second._maxindex) << ")\n";
 	    if (verb_level)
 	      {
-- 
2.43.0


From 960798c04d256c5ff5310b448d938f295fb794f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:50 +0000
Subject: [PATCH 75/78] fix: corr(i,j) was wrong or infinite for standard
 deviations far below the mean

---
 src/cmasolutions.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 76f88bb..2283994 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -169,16 +169,10 @@ namespace libcmaes
       return 1.0;
     if (_cov.size() > 0) //  ful cov
       {
-	CMAParameters<> cp; // fake parameter with identity gp, since correlation is independent from unit
-	dVec st = stds(cp);
-	return _cov(i,j)/(st(i)*st(j));
+	return _cov(i,j)/(sqrt(_cov(i,i))*sqrt(_cov(j,j)));
       }
     else if (_v.size() > 0) // vd
       {
-	CMAParameters<> cp(std::vector<double>(_v.size()),1.0);
-	cp.set_str_algo("vdcma");
-	cp.set_vd();
-	dVec st = stds(cp);
 	dVec sc(2);
 	dVec v(2);
 	sc(0) = _sepcov(i,0);
@@ -186,7 +180,7 @@ namespace libcmaes
 	v(0) = _v(i);
 	v(1) = _v(j);
 	dMat c = sc.asDiagonal()*(dMat::Identity(2,2)+v*v.transpose())*(sc.asDiagonal()); // compute cov matrix for i & j
-	return c(0,1)/(st(i)*st(j));
+	return c(0,1)/(sqrt(c(0,0))*sqrt(c(1,1)));
       }
     else // sep 
       {
-- 
2.43.0


From 56a3bb8933be306abcf6f5a5f134bd8e78fc97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:50 +0000
Subject: [PATCH 76/78] fix: expected distance to minimum of a run ended before
 its first generation used the decomposition of an earlier run

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 459aab4..f34ac63 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -270,7 +270,7 @@ namespace libcmaes
 	gradmn = dVec(n+1);
 	gradmn << dgrad, _solutions._v.dot(dgrad); // C = D * (I + v * v^T) * D
       }
-    else if (!_parameters._sep && !_solutions._leigenvalues.size())
+    else if (!_parameters._sep && _niter == 0)
       gradmn = gradff; // ended before the first generation, the covariance is the identity.
     else if (!_parameters._sep)
       gradmn = _solutions._leigenvalues.cwiseSqrt().asDiagonal() * _solutions._leigenvectors.transpose() * gradff;
-- 
2.43.0


From 1f60c67dff070d5aecb3012d8be54bd049e6a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:30 +0000
Subject: [PATCH 77/78] fix: quiet runs with max_iter 0 logged their end, and
 others did not log ending on max_iter

---
 src/cmastopcriteria.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 21419af..9988916 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -84,7 +84,7 @@ namespace libcmaes
 	  return CONT;
 	if (cmas._niter >= cmap._max_iter)
 	  {
-	    LOG_IF(INFO,!cmap._max_iter) << "stopping criteria maxIter=" << cmas._niter << std::endl;
+	    LOG_IF(INFO,!cmap._quiet) << "stopping criteria maxIter=" << cmas._niter << std::endl;
 	    return MAXITER;
 	  }
 	else return CONT;
-- 
2.43.0


From ee6cfaaf1add29ebff4ed8b049a02103bf9488cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:07 +0000
Subject: [PATCH 78/78] fix: a VD optimizer started from an earlier VD solution
 kept its direction

---
 include/libcmaes/esostrategy.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index bd0bb0c..6403ed7 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -163,8 +163,7 @@ namespace libcmaes
       TSolutions nsol(_parameters);
       _solutions._cov = nsol._cov;
       _solutions._sepcov = nsol._sepcov;
-      if (_solutions._v.size() != nsol._v.size())
-	_solutions._v = nsol._v;
+      _solutions._v = nsol._v;
       _solutions._candidates.resize(_parameters._lambda); // the solution may come from another population size.
       _solutions._kcand = nsol._kcand;
       _solutions._max_hist = nsol._max_hist;
-- 
2.43.0

