From cc853640fc30a1a684ea43e22dd3b1585e228935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:06 +0000
Subject: [PATCH 01/33] fix: turning around in the adaptive ODE step always
 steps in the requested direction

---
 CPPQEDutils/ODE.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDutils/ODE.h b/CPPQEDutils/ODE.h
index 7583935..7dbaeb6 100644
--- a/CPPQEDutils/ODE.h
+++ b/CPPQEDutils/ODE.h
@@ -12,6 +12,7 @@
 
 #include <boost/numeric/odeint.hpp>
 
+#include <cmath>
 #include <functional>
 #include <iostream>
 #include <optional>
@@ -238,7 +239,7 @@ void cppqedutils::ode_engine::Base<ControlledErrorStepper,Logger>::step(Time del
   
   Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
   
-  if (sign(deltaT)!=sign(dtTry_)) dtTry_=-dtDid_; // Stepping backward
+  if (sign(deltaT)!=sign(dtTry_)) dtTry_=std::copysign(dtDid_ ? dtDid_ : dtTry_,deltaT); // Turning around, with the size of the last step if there was any
   
   if (fabs(dtTry_)>fabs(deltaT)) dtTry_=deltaT;
   
-- 
2.43.0


From ac70e7f00d0f1b52cfabf5152b0eab990c2bf996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 02/33] fix: trajectory::run returns every streamed point, also
 a final or single one

---
 CPPQEDutils/Trajectory.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index bc60033..a3f8c5c 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -543,7 +543,13 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
       commentingStream<<"Continuing from time "<<traj.getTime()<<" up to time "<<timeToReach<<endl;
   }
 
-  if (!timeToReach) {stream(traj,os,precision); return res;}
+  const auto streamPoint=[&]() {
+    auto streamReturn{stream(traj,os,precision)};
+    if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
+    return streamReturn;
+  };
+
+  if (!timeToReach) {streamPoint(); return res;}
 
   //////////////////////////////
   // Mid section: the actual run
@@ -587,16 +593,14 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
 
         if (count || !continuing) {
           arrayStreamed=true;
-          auto streamReturn{stream(traj,os,precision)};
-          if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
-          autostopHandler(get<1>(streamReturn));
+          autostopHandler(get<1>(streamPoint()));
         }
       }
     } // end of main for loop
 
   } catch (const StoppingCriterionReachedException& except) {commentingStream<<"Stopping criterion has been reached"<<endl;}
   
-  if (!arrayStreamed) stream(traj,os,precision); // Stream at the end instant if stream has not happened yet
+  if (!arrayStreamed) streamPoint(); // Stream at the end instant if stream has not happened yet
 
   //////////////////////////////////////////
   // Logging on end, saving trajectory state
-- 
2.43.0


From 37886e52e4c85aeeed083888f1ff467a8c6b4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 03/33] fix: pass absolute and relative tolerance to the GSL
 stepper in the order it expects

---
 CPPQEDutils/ODE_GSL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index cad3086..351dfe1 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -113,7 +113,7 @@ struct MakeControlledErrorStepper<ControlledErrorStepperGSL<StateType>>
   static auto _(double epsRel, double epsAbs)
   {
     return ControlledErrorStepperWithParameters<ControlledErrorStepperGSL<StateType>>{
-      {epsRel,epsAbs},epsRel,epsAbs};
+      {epsAbs,epsRel},epsRel,epsAbs};
   }
 
   template <typename ParsBase>
-- 
2.43.0


From b239ddf5122ce51d49acc72aa3802200ca9a54ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 04/33] fix: GSL stepper rejects a step whose error exceeds the
 tolerance

---
 CPPQEDutils/ODE_GSL.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index 351dfe1..a2c6d5a 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -9,6 +9,7 @@
 #include <gsl/gsl_errno.h>
 #include <gsl/gsl_odeiv2.h>
 
+#include <algorithm>
 #include <cstddef>
 
 namespace cppqedutils {
@@ -50,6 +51,7 @@ public:
       step_.reset(gsl_odeiv2_step_alloc(gsl_odeiv2_step_rkck,totalExtent), [] (auto* ptr) {if (ptr) gsl_odeiv2_step_free(ptr);});
       yerr_=std::make_shared<ValueVector>(totalExtent);
       dydt_out_=std::make_shared<ValueVector>(totalExtent);
+      yBefore_=std::make_shared<ValueVector>(totalExtent);
     }
 #ifndef NDEBUG
     else if (!IsStorageContiguous<StateType>::_(stateInOut)) {
@@ -66,19 +68,27 @@ public:
     
     gsl_odeiv2_system dydt{ControlledErrorStepperGSL::lowLevelSystemFunction,nullptr,totalExtent,&aux};
     
-    auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, Data<StateType>::_(stateInOut), yerr_->data(), nullptr, dydt_out_->data(), &dydt);
+    auto*const y=Data<StateType>::_(stateInOut);
+
+    std::copy_n(y,totalExtent,yBefore_->begin()); // needed if the step is rejected
+
+    auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, y, yerr_->data(), nullptr, dydt_out_->data(), &dydt);
     
     if (step_status == GSL_EFAULT || step_status == GSL_EBADFUNC) throw std::runtime_error("GSL bad step_status");
 
     if (step_status != GSL_SUCCESS) {
+      std::copy(yBefore_->begin(),yBefore_->end(),y);
       dtTry *= 0.5;
       return bno::fail;
     }
     else {
-      time+=dtTry;
-      /* const auto hadjust_status = */
-      gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
-      // if (hadjust_status == GSL_ODEIV_HADJ_DEC) throw std::runtime_error{"Unexpected change of dtTry in ControlledErrorStepperGSL::tryStep"};
+      const double dtDid=dtTry;
+      const auto hadjust_status = gsl_odeiv2_control_hadjust (control_.get(), step_.get(), y, yerr_->data(), dydt_out_->data(), &dtTry);
+      if (hadjust_status == GSL_ODEIV_HADJ_DEC && time+dtTry!=time) { // error too large: undo the step, as in gsl_odeiv2_evolve_apply
+        std::copy(yBefore_->begin(),yBefore_->end(),y);
+        return bno::fail;
+      }
+      time+=dtDid;
       return bno::success;
     }
   }
@@ -102,7 +112,7 @@ private:
   std::shared_ptr<gsl_odeiv2_control> control_;
   
   // Needs to be easily copyable, as Steppers are carried around by value
-  std::shared_ptr<ValueVector> yerr_, dydt_out_;
+  std::shared_ptr<ValueVector> yerr_, dydt_out_, yBefore_;
   
 };
 
-- 
2.43.0


From 7490b7527820817f4a1efff118db2d44134487cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:57 +0000
Subject: [PATCH 05/33] fix: direct product of two Sigmas uses the indices of
 the first one

operator*(Sigma<L1,R1>,Sigma<L2,R2>) made a DirectProduct<L1,R2,...>, so that
it compiled for R1==R2 only.
---
 CPPQEDcore/quantumoperator/Sigma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Sigma.h b/CPPQEDcore/quantumoperator/Sigma.h
index 02ba774..36825c8 100644
--- a/CPPQEDcore/quantumoperator/Sigma.h
+++ b/CPPQEDcore/quantumoperator/Sigma.h
@@ -131,7 +131,7 @@ template<int L1, int R1, int L2, int R2>
 const DirectProduct<L1,R1,Sigma<L2,R2>,true>
 operator*(const Sigma<L1,R1>&, const Sigma<L2,R2>& sigma)
 {
-  return DirectProduct<L1,R2,Sigma<L2,R2>,true>(sigma);
+  return DirectProduct<L1,R1,Sigma<L2,R2>,true>(sigma);
 }
 
 
-- 
2.43.0


From 1dc6e58b3a473d662e60cb0b8a7c16343e95d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 06/33] fix: Tridiagonal sums refuse operands which cannot be
 added

Operands of different dimensions were combined without any check in optimized
builds; frequencies were only refused when ALL of them differed; different time
instants were accepted; constant and rotating diagonals were merged, after which
both rotated.
---
 CPPQEDcore/quantumoperator/Tridiagonal.h   |  5 ++-
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 42 ++++++++++++++--------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.h b/CPPQEDcore/quantumoperator/Tridiagonal.h
index b92b89a..91b88c0 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.h
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.h
@@ -201,6 +201,8 @@ public:
   double            getTime       () const {return    tCurrent_;}
 
   const Diagonals & getFreqs      () const {return       freqs_;}
+
+  bool hasFreqs() const {for (int ind=0; ind<LENGTH; ind++) if (freqs_(ind).size()) return true; return false;} ///< whether any frequencies are stored
   //@}
 
 
@@ -228,9 +230,10 @@ public:
     /// Naive addition.
     /**
     * The structures of the two objects must match, and there is a rather complicated set of rules as to what is meant by “matching”:
+    * - The dimensions must be equal. (A zero-dimensional object stands for the zero operator of any dimension.)
     * - Tridiagonal freely mixes with a purely diagonal matrix throught addition.
     * - If both have off-diagonals as well, the `k`s must match.
-    * - If both store frequencies, they must be equal.
+    * - If both store frequencies, they must be equal, and so must be the time instants. A diagonal without frequencies is a constant one.
     * 
     * Any violation of these rules is detected at runtime, and an exception of type TridiagonalStructureMismatchException is thrown.
     */
diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..b1e765c 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -119,30 +119,44 @@ template<int RANK>
 Tridiagonal<RANK>&
 Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
 {
+  // A zero-dimensional object stands for the zero operator of any dimension
+  if (!tridiag.getTotalDimension()) return *this;
+  if (!this->getTotalDimension()) this->setDimensions(tridiag.getDimensions());
+  else if (any(this->getDimensions()!=tridiag.getDimensions())) throw std::invalid_argument("Tridiagonal dimension mismatch in operator+=");
+
+  if (tridiag.hasFreqs()) {
+    if (!hasFreqs()) tCurrent_=tridiag.tCurrent_;
+    else if (tCurrent_!=tridiag.tCurrent_) throw std::runtime_error("Tridiagonal time mismatch in operator+=");
+  }
+
   boost::for_each(tridiag.differences_,differences_,[](size_t otherDifference, size_t& difference) {
     if (!difference) difference=otherDifference;
     else if (otherDifference && difference!=otherDifference) throw std::invalid_argument("Tridiagonal structure mismatch is binOp1");
   });
-  
-  boost::for_each(tridiag.diagonals_,diagonals_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
-    if (from.size()) {
-      if (!to.size()) {
-        to.resize(from.shape());
-        to=from;
-      }
-      else to+=from; // This will check for the compatibility of shapes
+
+  for (int ind=0; ind<LENGTH; ind++) {
+    const Diagonal &from=tridiag.diagonals_(ind), &fromFreqs=tridiag.freqs_(ind);
+    Diagonal &to=diagonals_(ind), &toFreqs=freqs_(ind);
+
+    // A diagonal without frequencies is a constant one
+    const bool match = fromFreqs.size() && toFreqs.size() ? all(toFreqs==fromFreqs) :
+                       fromFreqs.size() ? !to  .size() || all(fromFreqs==0.) :
+                       toFreqs  .size() ? !from.size() || all(toFreqs  ==0.) : true;
+    if (!match) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
+
+    if (fromFreqs.size() && !toFreqs.size()) {
+      toFreqs.resize(fromFreqs.shape());
+      toFreqs=fromFreqs;
     }
-  });
-  
-  boost::for_each(tridiag.freqs_,freqs_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
+
     if (from.size()) {
-      if (to.size() && all(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
-      else {
+      if (!to.size()) {
         to.resize(from.shape());
         to=from;
       }
+      else to+=from;
     }
-  });
+  }
 
   return *this;
 
-- 
2.43.0


From fc037fe6d89439e8dfc64a7191f4d35f4dc2b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:50 +0000
Subject: [PATCH 07/33] fix: direct products of Tridiagonals keep the rotation
 of every diagonal

The frequencies of the diagonals for which only one of the factors stores some
(e.g. the diagonal part of the one times the rotating part of the other) were
lost, so that these did not rotate upon propagation. A purely diagonal operator
stored spurious frequencies, spoiling its sums.
---
 CPPQEDcore/quantumoperator/Tridiagonal.cc  |  2 +-
 CPPQEDcore/quantumoperator/Tridiagonal.h   |  5 +++
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 50 ++++++++++++++--------
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.cc b/CPPQEDcore/quantumoperator/Tridiagonal.cc
index 9a0e5ee..95727ba 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.cc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.cc
@@ -26,7 +26,7 @@ Tridiagonal<1>&
 Tridiagonal<1>::furnishWithFreqs(const Diagonal& mainDiagonal)
 {
   const size_t k=differences_(0), diagonalSize=getTotalDimension()-k;
-  if (diagonalSize>0) {
+  if (k>0 && diagonalSize>0) { // nothing rotates in a purely diagonal operator
     freqs_(1).resize(diagonalSize);
     for (int n=0; n<diagonalSize; n++)
       freqs_(1)(n)=mainDiagonal(n+k)-mainDiagonal(n);
diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.h b/CPPQEDcore/quantumoperator/Tridiagonal.h
index 91b88c0..e9fd5a0 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.h
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.h
@@ -203,6 +203,9 @@ public:
   const Diagonals & getFreqs      () const {return       freqs_;}
 
   bool hasFreqs() const {for (int ind=0; ind<LENGTH; ind++) if (freqs_(ind).size()) return true; return false;} ///< whether any frequencies are stored
+
+    /// The frequencies completed with zeros for those diagonals (and their transposes) which are constant in time
+  const Diagonals getFreqsWithZeros() const;
   //@}
 
 
@@ -250,6 +253,8 @@ private:
   Tridiagonal(const Base& base, const Diagonals& diagonals, const Dimensions& differences, double tCurrent, const Diagonals& freqs)
     : Base(base), diagonals_(blitzplusplus::DeepCopy(),diagonals), differences_(differences), tCurrent_(tCurrent), freqs_(blitzplusplus::DeepCopy(),freqs) {}
 
+  static int transposeIndex(int ind); ///< Position of the diagonal that is the transpose of the one at `ind`
+
   /// \name Apply implementation
   //@{
   template<int START, typename V_DPSIDT, typename V_A, typename V_PSI, int REMAINING>
diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index b1e765c..8e63f00 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -64,7 +64,8 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),
+           t1.hasFreqs() || t2.hasFreqs() ? details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqsWithZeros(),t2.getFreqsWithZeros()) : Diagonals())
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
@@ -82,30 +83,43 @@ Tridiagonal<RANK>::operator*=(dcomp dc)
 
 
 template<int RANK>
-const Tridiagonal<RANK> Tridiagonal<RANK>::hermitianConjugate() const
+int Tridiagonal<RANK>::transposeIndex(int ind)
 {
-  struct helper {
-
-    static int transposeIndex(int ind)
-    {
-      int res=0;
-      // std::cout<<ind<<' ';
-      for (int k=RANK-1; k>=0; k--) {
-        int threeToK=int(floor(pow(3.,k)));
-        int ik=int(floor(ind/double(threeToK)));
-        res+=((3-ik)%3)*threeToK;
-        ind-=ik*threeToK;
-      }
-      // std::cout<<res<<std::endl;
-      return res;
+  int res=0;
+  for (int k=RANK-1; k>=0; k--) {
+    int threeToK=int(floor(pow(3.,k)));
+    int ik=int(floor(ind/double(threeToK)));
+    res+=((3-ik)%3)*threeToK;
+    ind-=ik*threeToK;
+  }
+  return res;
+}
+
+
+template<int RANK>
+const typename Tridiagonal<RANK>::Diagonals Tridiagonal<RANK>::getFreqsWithZeros() const
+{
+  Diagonals res(blitzplusplus::DeepCopy(),freqs_);
+
+  for (int ind=0; ind<LENGTH; ind++) {
+    const Diagonal& diagonal=diagonals_(ind).size() ? diagonals_(ind) : diagonals_(transposeIndex(ind));
+    if (!res(ind).size() && diagonal.size()) {
+      res(ind).resize(diagonal.shape());
+      res(ind)=0.;
     }
+  }
 
-  };
+  return res;
+}
 
+
+template<int RANK>
+const Tridiagonal<RANK> Tridiagonal<RANK>::hermitianConjugate() const
+{
   Tridiagonal res(*this,Diagonals(),differences_,tCurrent_,freqs_);
 
   for (int ind=0; ind<LENGTH; ind++)
-    res.diagonals_(helper::transposeIndex(ind)).reference(Diagonal(conj(diagonals_(ind))));
+    res.diagonals_(transposeIndex(ind)).reference(Diagonal(conj(diagonals_(ind))));
   // Here a new copy of the conjugated diagonal gets created & referenced.
 
   // freqs_ at any moment stores the correct transposed values as well
-- 
2.43.0


From b1e193a05e978906b917bb027d3ab51e1a90c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:02 +0000
Subject: [PATCH 08/33] fix: FreeExact over zero time is the identity

The diagonal belonging to the initially cached zero time was not initialized.
---
 CPPQEDcore/structure/FreeExact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/FreeExact.h b/CPPQEDcore/structure/FreeExact.h
index b6dc2bb..2954c14 100644
--- a/CPPQEDcore/structure/FreeExact.h
+++ b/CPPQEDcore/structure/FreeExact.h
@@ -23,7 +23,7 @@ public:
   typedef typename ExactTimeDependenceDispatched<1,IS_TWO_TIME>::Time Time;
 
 protected:
-  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {}
+  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {diagonal_=1.;} // the identity, which belongs to t_
   
   Diagonal& getDiagonal() const {return diagonal_;}
 
-- 
2.43.0


From b085681aa8d8563cd8f520d8e0bf1b9d0ea5a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:15 +0000
Subject: [PATCH 09/33] fix: unary minus and plus of state vectors and density
 operators

ArrayBase does not know the dimensions, so that these did not compile.
---
 CPPQEDcore/quantumdata/ArrayBase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/ArrayBase.h b/CPPQEDcore/quantumdata/ArrayBase.h
index e608d79..4091471 100644
--- a/CPPQEDcore/quantumdata/ArrayBase.h
+++ b/CPPQEDcore/quantumdata/ArrayBase.h
@@ -57,8 +57,8 @@ public:
   Derived& operator+=(const ArrayBase& arrayBase) {arrayLow_+=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
   Derived& operator-=(const ArrayBase& arrayBase) {arrayLow_-=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
 
-  Derived operator-() const {Derived res(this->getDimensions(),false); res.getArray()=-this->getArray(); return res;} ///< involves a deep-copy
-  Derived operator+() const {return *this;} ///< simply deep copy
+  Derived operator-() const {Derived res(static_cast<const Derived&>(*this)); res*=-1.; return res;} ///< involves a deep-copy
+  Derived operator+() const {return static_cast<const Derived&>(*this);} ///< simply deep copy
   //@}
 
   /// \name Naive vector-space operations allowing also for mixed-mode arithmetics
-- 
2.43.0


From 7096854f006ad0b28fa12c22e759d4916b782181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:53 +0000
Subject: [PATCH 10/33] fix: densityOperatorize for more than one degree of
 freedom

The density operator was constructed from a single dimension, which exists only for
unary systems, so that reduction of a state vector to several subsystems did not compile.
---
 CPPQEDcore/quantumdata/DensityOperator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 1368404..52aec1f 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -239,7 +239,7 @@ template<int RANK>
 DensityOperator<RANK>
 densityOperatorize(const LazyDensityOperator<RANK>& matrix)
 {
-  DensityOperator<RANK> res(matrix.getDimension());
+  DensityOperator<RANK> res(matrix.getDimensions());
   
   typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
   const Iterator etalon(matrix.getDimensions()-1,cppqedutils::mii::begin);
-- 
2.43.0


From cd001104cf53d7fc10d7a635889de258d129eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:47 +0000
Subject: [PATCH 11/33] fix: the trace of a state vector as a density operator
 is the square of its norm

LazyDensityOperator::trace gave different results for a state vector and for its projector,
e.g. in the thermal rate of a mode embedded in a composite system, where the slices are not normalised.
---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..57640f3 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {return cppqedutils::sqr(norm());} ///< A straightforward implementation of a LazyDensityOperator virtual
   
 };
 
-- 
2.43.0


From 108246da45565acaebcef214c54ed10c172b80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 12/33] fix: the trace of a density operator whose storage is
 not contiguous

The trace was taken through the matrix view, which assumes contiguous storage: wrong for slices
retaining more than one subsystem of a larger density operator.
---
 CPPQEDcore/quantumdata/DensityOperator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 52aec1f..a1f22b1 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -161,9 +161,9 @@ public:
   //@{
   double norm() const ///< returns the trace norm
   {
-    using blitz::tensor::i;
-    const linalg::CMatrix m(matrixView());
-    return real(sum(m(i,i)));
+    double res=0;
+    for (cppqedutils::MultiIndexIterator<RANK> i(this->getDimensions()-1,cppqedutils::mii::begin); i!=i.getEnd(); ++i) res+=real(indexWithTiny(*i,*i));
+    return res;
   }
 
   double renorm() ///< ” and also renormalises
-- 
2.43.0


From fb3bdf446ac2a86b7b7a5ea1b768ac718893ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:00 +0000
Subject: [PATCH 13/33] fix: binary systems: jumps of the interaction were not
 applied if the second free system has no Liouvillean

---
 CPPQEDcore/composites/BinarySystem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..743037b 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -226,8 +226,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -260,8 +260,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From 974b5b770dd09a05e632e9683dc7c6eaa3421342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:50 +0000
Subject: [PATCH 14/33] fix: MCWF step-back restores the reference time of the
 interaction picture

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..35d71c0 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache; // coherentTimeDevelopment has moved t0_ if the system is Exact
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From f8980afb15e256bdba657e8804ef77c18247dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:50 +0000
Subject: [PATCH 15/33] fix: resuming an MCWF trajectory keeps the time
 argument of a Hamiltonian without Exact part

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 35d71c0..58a83fb 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -140,7 +140,7 @@ public:
     StateVectorLow temp;
     ode_.stateIO(iar & temp & t_) & re_.engine & logger_;
     psi_.getArray().reference(temp);
-    t0_=t_; // A very important step!
+    t0_ = this->getEx() ? t_ : 0.; // A very important step! (Without Exact, t0_ is never moved, cf. coherentTimeDevelopment)
     return iar;
   }
   
-- 
2.43.0


From 0897d5e0da38f5a134e1dab32f348351ec21e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:44 +0000
Subject: [PATCH 16/33] fix: Master evaluates a time-dependent Hamiltonian
 without Exact part at the actual time

---
 CPPQEDcore/quantumtrajectory/Master.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 8320520..b73a02b 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -95,7 +95,7 @@ public:
     DensityOperatorLow temp;
     ode_.stateIO(iar & temp & t_);
     rho_.getArray().reference(temp);
-    t0_=t_; // A very important step!
+    t0_ = this->getEx() ? t_ : 0.; // A very important step! (Without Exact, t0_ is never moved, cf. step)
     return iar;
   }
   
@@ -190,10 +190,9 @@ void quantumtrajectory::Master<RANK,ODE_Engine,V>::step(double deltaT, std::ostr
     hermitianConjugateSelf(rhoLow);
     for (auto& rhoS : fullRange<Left>(rhoLow)) ex->actWithU(this->getTime(),rhoS,t0_);
     rhoLow=conj(rhoLow);
+    t0_=t_;
   }
 
-  t0_=t_;
-
   // The following "smoothing" of rho_ has proven necessary for the algorithm to remain stable:
   // We make the approximately Hermitian and normalized rho_ exactly so.
 
-- 
2.43.0


From 9b16600879f76797d044a242a545344210ec43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 17/33] fix: Kerr term of modes is the same in every picture

The exact propagator did not contain the Kerr term at all, while the frequencies of the interaction-picture operators contained it with the opposite sign,
the interaction-picture Hamiltonian had it in addition when zSch was nonzero, the Schroedinger one lacked it when z was zero, and omegaKerrAlter was lost
when there was no Hamiltonian class.
---
 CPPQEDelements/frees/Mode.cc  | 8 ++++----
 CPPQEDelements/frees/Mode.tcc | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..d745a60 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,7 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  getDiagonal()=exp(mainDiagonal(-zI_,omegaKerr_,getDiagonal().size())*double(t));
 }
 
 
@@ -76,7 +76,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
+  if (isNonZero(z) || omegaKerr) {
     Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
@@ -94,7 +94,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,0,dim),mainDiagonal(zI,-omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
@@ -289,7 +289,7 @@ const Tridiagonal aop(Ptr mode)
 {
   size_t dim=mode->getDimension();
   Tridiagonal res(aop(dim));
-  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),exact->get_omegaKerr(),dim));
+  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),-exact->get_omegaKerr(),dim));
   return res;
 }
 
diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..ed18aae 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -95,7 +95,7 @@ void AveragedMonitorCutoff<Base>::process_v(Averages& averages) const
 
 template<typename AveragingType> template<typename... AveragingConstructorParameters>
 Mode<AveragingType>::Mode(const mode::Pars& p, AveragingConstructorParameters&&... a)
-  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr,p.cutoff),
+  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_delta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {}
@@ -134,7 +134,7 @@ PumpedModeSch<AveragingType>::PumpedModeSch(const mode::ParsPumped& p, Averaging
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr,p.cutoff),
+    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_kappadelta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From e0a3e424d0f2991528a027292aea2b94007fcc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 18/33] fix: PumpedLossyModeAlternative's decay accounts for
 finite temperature

---
 CPPQEDelements/frees/Mode.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index ed18aae..c7e8418 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -203,7 +203,7 @@ PumpedLossyModeSch<TEMPERATURE,AveragingType>::PumpedLossyModeSch(const mode::Pa
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeAlternative<TEMPERATURE,AveragingType>::PumpedLossyModeAlternative(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE,true>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(0,dcomp(p.kappa,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(0,dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappadelta(1),TUPLE_eta}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 004a714e9dc6989ae0daa80ec269c9dc0b699573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 19/33] fix: phase diffusion in the Master equation with
 coefficients different for the individual levels

---
 CPPQEDcore/structure/ElementLiouvillean.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..cc29677 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -368,10 +368,11 @@ protected:
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
     else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
       for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
+        drhodt(m,m)+=2*diffusionCoeffs_[0]*rho(m,m);
         for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
+          const double coeff=4*(diffusionCoeffs_[m]+diffusionCoeffs_[n])-2*diffusionCoeffs_[0];
+          drhodt(m,n)-=coeff*rho(m,n);
+          drhodt(n,m)-=coeff*rho(n,m);
         }
       }
     }
-- 
2.43.0


From 2bd56b15b81232fe9c4fa4226386e214e2067b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 20/33] fix: phase of ParticleTwoModes has the same sign
 whether or not the mode functions can be composed

---
 CPPQEDelements/interactions/ParticleTwoModes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleTwoModes.cc b/CPPQEDelements/interactions/ParticleTwoModes.cc
index 3c9a6c5..8515489 100644
--- a/CPPQEDelements/interactions/ParticleTwoModes.cc
+++ b/CPPQEDelements/interactions/ParticleTwoModes.cc
@@ -35,7 +35,7 @@ ParticleTwoModes::ParticleTwoModes(mode::Ptr mode0, mode::Ptr mode1, particle::P
                                    double phi)
   : structure::Interaction<3>({mode0,mode1,part},
                               {RF{"Unot0",uNot0,sqrt(mode0->getDimension())},RF{"Unot1",uNot1,sqrt(mode1->getDimension())}}),
-                              firstH_(factor(uNot0,uNot1,phi)*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
+                              firstH_(conj(factor(uNot0,uNot1,phi))*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
     secondH_(mfNKX(part,mf1).dagger()), secondHT_(secondH_.dagger()),
     isSpecialH_(abs(get<1>(mf0))==abs(get<1>(mf1))),
     specialH_(isSpecialH_ ? Tridiagonals{quantumoperator::tridiagPlusHC_overI( factor(uNot0,uNot1,phi)*mode::aop(mode0).dagger()*mode::aop(mode1)*mfComposition(part,mf0,mf1) )}: Tridiagonals{})
-- 
2.43.0


From d7e10c6ebb179113f3dfedf7c3f2466ee3b660cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 21/33] fix: MLJC does not keep referring to the couplings
 passed to its constructor

---
 CPPQEDelements/interactions/MLJC.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/MLJC.h b/CPPQEDelements/interactions/MLJC.h
index cb76e01..1ebadd4 100644
--- a/CPPQEDelements/interactions/MLJC.h
+++ b/CPPQEDelements/interactions/MLJC.h
@@ -12,6 +12,7 @@
 #include "Sigma.h"
 
 #include <boost/fusion/algorithm/transformation/transform.hpp>
+#include <boost/fusion/container/vector/convert.hpp>
 
 
 /// Class representing an elementary coupling term (a \f$g_{ij}\f$ \ref multilevelactualHamiltonian "here") with a compile-time pair \f$i,j\f$ and a runtime complex value
@@ -99,7 +100,7 @@ private:
 
   static auto modeDynamicsMaker(const VC& gs, MultiLevelPtr ml, mode::Ptr mode)
   {
-    return boost::fusion::transform(gs,CouplingToModeDynamics(ml,mode));
+    return boost::fusion::as_vector(boost::fusion::transform(gs,CouplingToModeDynamics(ml,mode))); // as_vector, because the transform_view would refer to gs
     /*Here, the generic lambda doesn’t seem to be a good enough solution, since we need the result of fusion::transform as well (cf. below)
      * [=] (const auto& coupling) -> ModeDynamics<std::decay_t<decltype(coupling)>::first,std::decay_t<decltype(coupling)>::second> {
       using C=std::decay_t<decltype(coupling)>;
-- 
2.43.0


From 5e085e065f1178a2ac252319cba22125baf833aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:12 +0000
Subject: [PATCH 22/33] fix: ReducedDensityOperatorNegativity keeps the matrix
 elements, derived averaging classes are cloned as what they are

---
 CPPQEDelements/frees/Mode_.h          | 2 ++
 CPPQEDelements/utils/AveragingUtils.h | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode_.h b/CPPQEDelements/frees/Mode_.h
index 49cc45a..0575c06 100644
--- a/CPPQEDelements/frees/Mode_.h
+++ b/CPPQEDelements/frees/Mode_.h
@@ -293,6 +293,8 @@ private:
   
   void process_v(Averages&) const;
 
+  const typename Base::ClonedPtr do_clone() const {return new AveragedMonitorCutoff(*this);}
+
 };
 
 
diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 08b09c6..d086c58 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -107,10 +107,12 @@ public:
     : Base(label,dim,true,boost::assign::list_of("negativity")) {}
 
 private:
+  structure::ClonableElementAveraged<RANK>*const do_clone() const override {return new ReducedDensityOperatorNegativity(*this);}
+
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-    res.resize(res.size()+1);
+    res.resizeAndPreserve(res.size()+1); res(res.size()-1)=0; // to be filled by process_v
     return res;
   }
 
-- 
2.43.0


From dd63f1f750c89d33ccbc2187ddeba0dc78f9e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 23/33] fix: Kerr term in the frequencies of BichromaticMode's
 second pump

---
 CPPQEDelements/frees/BichromaticMode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/BichromaticMode.h b/CPPQEDelements/frees/BichromaticMode.h
index cde6fcb..ecce0c0 100644
--- a/CPPQEDelements/frees/BichromaticMode.h
+++ b/CPPQEDelements/frees/BichromaticMode.h
@@ -36,7 +36,7 @@ public:
   {
     mode::Hamiltonian<true>::getH_OverIs().push_back(
                                                      furnishWithFreqs(mode::pumping(p.etaOther,getDimension()),
-                                                                      mode::mainDiagonal(zI_Other,0,getDimension()))
+                                                                      mode::mainDiagonal(zI_Other,-p.omegaKerr,getDimension()))
                                                      );
     getParsStream()<<"Bichromatic pumping."; mode::isFiniteTempStream<TEMPERATURE>(getParsStream(),p.nTh);
   }
-- 
2.43.0


From 434b742f2135f06df106df8c32ab28e17aaf6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:20 +0000
Subject: [PATCH 24/33] fix: label of the variance of sz among the averages of
 spins

---
 CPPQEDelements/frees/Spin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Spin.cc b/CPPQEDelements/frees/Spin.cc
index 7c48303..3ec627f 100644
--- a/CPPQEDelements/frees/Spin.cc
+++ b/CPPQEDelements/frees/Spin.cc
@@ -87,7 +87,7 @@ Pars::Pars(parameters::Table& p, const std::string& mod)
 
 SpinBase::SpinBase(size_t twoS, double theta, double phi, double omega, double gamma, size_t dim) 
   : Free(spin::decideDimension(twoS,dim),{RF{"omega",omega,1},RF{"gamma",gamma,1}}),
-    structure::ElementAveraged<1>("Spin",{"<sz>","<sz^2>","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
+    structure::ElementAveraged<1>("Spin",{"<sz>","VAR(sz)","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
 {
   getParsStream()<<"Spin "<<s_<<endl;
   getParsStream()<<"theta="<<theta_<<" phi="<<phi_<<endl;
-- 
2.43.0


From ef6eae28ee6e0c000e6c9f9df5f374f14940bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:20 +0000
Subject: [PATCH 25/33] fix: jump rate of PumpedLossyModeIP_NoExact is
 consistent with its jump operator

---
 CPPQEDelements/frees/Mode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index d745a60..74afb10 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -365,9 +365,9 @@ PumpedLossyModeIP_NoExact::PumpedLossyModeIP_NoExact(const mode::ParsPumpedLossy
 
 
 
-double PumpedLossyModeIP_NoExact::rate(OneTime, const mode::LazyDensityOperator& m) const
+double PumpedLossyModeIP_NoExact::rate(OneTime t, const mode::LazyDensityOperator& m) const
 {
-  return mode::photonNumber(m);
+  return 2.*real(z_)*exp(-2.*real(z_)*t)*mode::photonNumber(m);
 }
 
 
-- 
2.43.0


From 819b8a1ae37b2270da25fc0f673bca87c79253af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:17 +0000
Subject: [PATCH 26/33] fix: standard deviation of a sharply localised
 particle's position is zero instead of NaN

---
 CPPQEDelements/frees/Particle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Particle.cc b/CPPQEDelements/frees/Particle.cc
index 3e9e2d3..e37362a 100644
--- a/CPPQEDelements/frees/Particle.cc
+++ b/CPPQEDelements/frees/Particle.cc
@@ -168,7 +168,7 @@ auto particle::Averaged::average_v(NoTime, const LazyDensityOperator& matrix) co
 void particle::Averaged::process_v(Averages& averages) const
 {
   averages(1)-=sqr(averages(0));
-  averages(3)=sqrt(averages(3)-sqr(averages(2)));
+  averages(3)=sqrt(std::max(averages(3)-sqr(averages(2)),0.)); // rounding can make the variance of a position eigenstate slightly negative
 }
 
 
-- 
2.43.0


From 0c9d38234c6e6a55cca3b13c30b719a1cbb30c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 27/33] fix: evolving from a density operator did not compile

---
 CPPQEDcore/quantumtrajectory/Evolution_.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/Evolution_.h b/CPPQEDcore/quantumtrajectory/Evolution_.h
index d3504d1..4831a85 100644
--- a/CPPQEDcore/quantumtrajectory/Evolution_.h
+++ b/CPPQEDcore/quantumtrajectory/Evolution_.h
@@ -105,8 +105,7 @@ _(SV_OR_DO&& initial, ///<[in/out] pure state-vector initial condition
       throw std::runtime_error("Single MCWF trajectory from DensityOperator initial condition");
     }
     else if (pe.evol==evolution::ENSEMBLE) {
-      /// here, it’s intentional that `initial` is converted into an lvalue
-      return cppqedutils::run(mcwf::makeEnsemble<OE,RandomEngine,V>(sys,initial,pe,pe.ems),pe,doStreaming,returnStreamedArray);
+      throw std::runtime_error("Ensemble of MCWF trajectories from DensityOperator initial condition");
     }
     else {
       return ::evolveMaster<ODE_Engine,V>(std::forward<quantumdata::DensityOperator<RANK>>(initial),sys,pe,doStreaming,returnStreamedArray);
-- 
2.43.0


From 42c1e4fa3c91bc60e62a30370147960becd4604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 28/33] fix: oscillator states of a pumped particle use the
 characteristic length of its own potential

---
 CPPQEDelements/frees/Particle.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CPPQEDelements/frees/Particle.cc b/CPPQEDelements/frees/Particle.cc
index e37362a..8cc3fb9 100644
--- a/CPPQEDelements/frees/Particle.cc
+++ b/CPPQEDelements/frees/Particle.cc
@@ -384,9 +384,12 @@ auto particle::wavePacket(const Pars& p, bool kFlag) -> StateVector
 
 namespace {
 
+// characteristic length of the harmonic oscillator approximating the bottom of the potential, its ground state being exp(-sqr(x/length)/2)
+double characteristicLength(const particle::ParsPumped& p) {return pow(p.omrec/fabs(p.vClass),.25);}
+
 const particle::InitialCondition coherent(const particle::ParsPumped& p)
 {
-  return particle::InitialCondition(p.init.getX0(),p.init.getK0(),pow(p.omrec/fabs(p.vClass),.25)/sqrt(2),false);
+  return particle::InitialCondition(p.init.getX0(),p.init.getK0(),characteristicLength(p)/sqrt(2),false);
 }
 
 }
@@ -434,7 +437,7 @@ auto particle::hoState(const ParsPumped& p, bool kFlag) -> StateVector
 {
   if (p.init.getSig()) return hoState(static_cast<const Pars&>(p),kFlag);
   else                 return hoState(p.hoInitn,
-                                      coherent(p),
+                                      InitialCondition(p.init.getX0(),p.init.getK0(),characteristicLength(p)),
                                       Spatial(p.fin),
                                       kFlag);
 }
-- 
2.43.0


From ceba9e81e45276de99277ed950b6011178cbaccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 29/33] fix: parameters of distribution-function maps take the
 modifier into account

---
 CPPQEDcore/quantumdata/DistributionFunctions.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.cc b/CPPQEDcore/quantumdata/DistributionFunctions.cc
index db804bd..1245a04 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.cc
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.cc
@@ -17,14 +17,14 @@ namespace quantumdata {
 
 
 ParsFunctionScan::ParsFunctionScan(parameters::Table& p, const std::string& mod)
-  : fLimitXUL(p.addTitle("Distribution function scan",mod).add("fLimitXUL","",2.)),
-    fLimitYUL(p.add("fLimitYUL","",2.)),
-    fLimitXL(p.add("fLimitXL","",-2.)),
-    fLimitXU(p.add("fLimitXU","",2.)),
-    fLimitYL(p.add("fLimitYL","",-2.)),
-    fLimitYU(p.add("fLimitYU","",2.)),
-    fStep(p.add("fStep","",.1)),
-    fCutoff(p.add("fCutoff","",100))
+  : fLimitXUL(p.addTitle("Distribution function scan",mod).add("fLimitXUL",mod,"",2.)),
+    fLimitYUL(p.add("fLimitYUL",mod,"",2.)),
+    fLimitXL(p.add("fLimitXL",mod,"",-2.)),
+    fLimitXU(p.add("fLimitXU",mod,"",2.)),
+    fLimitYL(p.add("fLimitYL",mod,"",-2.)),
+    fLimitYU(p.add("fLimitYU",mod,"",2.)),
+    fStep(p.add("fStep",mod,"",.1)),
+    fCutoff(p.add("fCutoff",mod,"",100))
 {}
 
 
-- 
2.43.0


From 292f928cb6218a701ce90fbfcfa84ba1b03bb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 30/33] fix: malformed vectors on the command line are refused
 instead of being misread

---
 CPPQEDutils/IO_Manip.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/CPPQEDutils/IO_Manip.h b/CPPQEDutils/IO_Manip.h
index 69223b6..aadb6d0 100644
--- a/CPPQEDutils/IO_Manip.h
+++ b/CPPQEDutils/IO_Manip.h
@@ -37,22 +37,16 @@ public:
     using namespace std;
 
     char sep;
-              
-    is >> sep;
-    BZPRECHECK(sep == tuple_open, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_open + string("' opening TinyVector)") );
+    const auto expect = [&](char c) {if (is >> sep && sep != c) is.setstate(ios_base::failbit);};
 
+    expect(tuple_open);
     is >> x(0);
     for (int i = 1; i < NL; ++i) {
-      if (!isspace(tuple_delimiter)) {
-        is >> sep;
-        BZPRECHECK(sep == tuple_delimiter, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_delimiter + string("' between TinyVector components)") );
-      }
-      BZPRECHECK(!is.bad(), "Premature end of input while scanning TinyVector");
+      expect(tuple_delimiter);
       is >> x(i);
     }
-    is >> sep;
-    BZPRECHECK(sep == tuple_close, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_close + string("' closing TinyVector)") );
-      
+    expect(tuple_close);
+
     return is;
   }
 
-- 
2.43.0


From 8f7423a63beb7d73a83e4753f4206ea0fc279acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 31/33] fix: vectors of pumps, decays and couplings can be
 given on the command line

---
 CPPQEDutils/Pars.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/Pars.h b/CPPQEDutils/Pars.h
index 4ec30c2..3cfbc3f 100644
--- a/CPPQEDutils/Pars.h
+++ b/CPPQEDutils/Pars.h
@@ -89,7 +89,7 @@ public:
         T& get()       {return const_cast<T&>(static_cast<const Typed*>(this)->get());}
 
 protected:
-  void read_v(std::istream& is) {is>>v_;}
+  void read_v(std::istream& is) {is>>std::ws>>v_;} // boost::fusion sequences would not skip the whitespace themselves
 
 private:
   void print_v(size_t smw, size_t tmw, size_t dmw) const
-- 
2.43.0


From 6856e2803c0b0d7277e93b26ed690b4de648a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:12 +0000
Subject: [PATCH 32/33] fix: the oscillator solution takes the given values
 also when started at a late time

The exponentials were counted from time zero, so that at a late starting time those of a strongly damped oscillator were linearly dependent (or zero) in floating point.
---
 CPPQEDutils/DrivenDampedHarmonicOscillator.cc | 20 ++++++++++++-------
 CPPQEDutils/DrivenDampedHarmonicOscillator.h  |  5 +++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/CPPQEDutils/DrivenDampedHarmonicOscillator.cc b/CPPQEDutils/DrivenDampedHarmonicOscillator.cc
index e20e66b..682b473 100644
--- a/CPPQEDutils/DrivenDampedHarmonicOscillator.cc
+++ b/CPPQEDutils/DrivenDampedHarmonicOscillator.cc
@@ -13,8 +13,14 @@ dcomp cppqedutils::ddho::_::c(double t) const
 }
 
 
+dcomp cppqedutils::ddho::_::cDeriv(double t) const
+{
+  return 1i*omega_*c(t);
+}
+
+
 cppqedutils::ddho::_::_(double gamma, double omega, Matrix m, dcomp ampTI, dcomp ampDerivTI, double tInit)
-  : gamma_(gamma), omega_(omega), a_(m.fullPivLu().solve(Vector(ampTI-c(tInit),ampDerivTI-1i*omega*c(tInit))))
+  : gamma_(gamma), omega_(omega), tInit_(tInit), a_(m.fullPivLu().solve(Vector(ampTI-c(tInit),ampDerivTI-cDeriv(tInit))))
 {}
 
 
@@ -30,12 +36,12 @@ public:
   DDHO(double gamma, double omega, dcomp ampTI, dcomp ampDerivTI, double tInit=0)
     : std::pair<dcomp,dcomp>(-gamma+sqrt(dcomp(sqr(gamma)-1)),-gamma-sqrt(dcomp(sqr(gamma)-1))),
       _(gamma,omega,
-        [=]() {ddho::Matrix m; m << exp(first*tInit), exp(second*tInit), first*exp(first*tInit), second*exp(second*tInit); return m;} (),
+        [this]() {ddho::Matrix m; m << 1., 1., first, second; return m;} (),
         ampTI,ampDerivTI,tInit),
       omega1_(first), omega2_(second) {}
 
-  dcomp amp     (double t) const override {return         exp(omega1_*t)*a_(0)+        exp(omega2_*t)*a_(1)+               c(t);}
-  dcomp ampDeriv(double t) const override {return omega1_*exp(omega1_*t)*a_(0)+omega2_*exp(omega2_*t)*a_(1)+1i*omega_*c(t);}
+  dcomp amp     (double t) const override {return         exp(omega1_*(t-tInit_))*a_(0)+        exp(omega2_*(t-tInit_))*a_(1)+c     (t);}
+  dcomp ampDeriv(double t) const override {return omega1_*exp(omega1_*(t-tInit_))*a_(0)+omega2_*exp(omega2_*(t-tInit_))*a_(1)+cDeriv(t);}
 
 private:
   const dcomp& omega1_, omega2_;
@@ -48,12 +54,12 @@ class DDHO_Critical : public ddho::_
 public:
   DDHO_Critical(double omega, dcomp ampTI, dcomp ampDerivTI, double tInit=0)
     : _(1.,omega,
-        [=]() {ddho::Matrix m; m << exp(-tInit), tInit*exp(-tInit), -exp(-tInit),-(tInit-1)*exp(-tInit); return m;} (),
+        []() {ddho::Matrix m; m << 1., 0., -1., 1.; return m;} (),
         ampTI,ampDerivTI,tInit)
   {}
 
-  dcomp amp     (double t) const override {return  exp(-t)*a_(0)+ t   *exp(-t)*a_(1)+               c(t);}
-  dcomp ampDeriv(double t) const override {return -exp(-t)*a_(0)-(t-1)*exp(-t)*a_(1)+1i*omega_*c(t);}
+  dcomp amp     (double t) const override {double s=t-tInit_; return  exp(-s)*a_(0)+ s   *exp(-s)*a_(1)+c     (t);}
+  dcomp ampDeriv(double t) const override {double s=t-tInit_; return -exp(-s)*a_(0)-(s-1)*exp(-s)*a_(1)+cDeriv(t);}
 
 };
 
diff --git a/CPPQEDutils/DrivenDampedHarmonicOscillator.h b/CPPQEDutils/DrivenDampedHarmonicOscillator.h
index fa7661f..c61b238 100644
--- a/CPPQEDutils/DrivenDampedHarmonicOscillator.h
+++ b/CPPQEDutils/DrivenDampedHarmonicOscillator.h
@@ -36,9 +36,10 @@ public:
 protected:
   _(double gamma, double omega, Matrix, dcomp ampTI, dcomp ampDerivTI, double tInit=0); // The initial condition is supplied at time tInit.
 
-  dcomp c(double t) const; // The particular solution of the inhomogeneous equation
+  dcomp c     (double t) const; // The particular solution of the inhomogeneous equation
+  dcomp cDeriv(double t) const; // and its derivative
 
-  const double gamma_, omega_;
+  const double gamma_, omega_, tInit_;
 
   const Vector a_;
 
-- 
2.43.0


From 4aa3418c6e70a71ca9982e59c577e59ed62d6374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:12 +0000
Subject: [PATCH 33/33] fix: undamped oscillator driven resonantly has a finite
 solution instead of NaN

---
 CPPQEDutils/DrivenDampedHarmonicOscillator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CPPQEDutils/DrivenDampedHarmonicOscillator.cc b/CPPQEDutils/DrivenDampedHarmonicOscillator.cc
index 682b473..26a7677 100644
--- a/CPPQEDutils/DrivenDampedHarmonicOscillator.cc
+++ b/CPPQEDutils/DrivenDampedHarmonicOscillator.cc
@@ -7,14 +7,17 @@
 #include <iostream>
 
 
+// Without damping, at resonance the driven oscillation grows linearly
 dcomp cppqedutils::ddho::_::c(double t) const
 {
+  if (gamma_==0. && sqr(omega_)==1.) return t*exp(1i*omega_*t)/(2.*1i*omega_);
   return exp(1i*omega_*t)/(1.+2.*1i*gamma_*omega_-sqr(omega_));
 }
 
 
 dcomp cppqedutils::ddho::_::cDeriv(double t) const
 {
+  if (gamma_==0. && sqr(omega_)==1.) return (1.+1i*omega_*t)*exp(1i*omega_*t)/(2.*1i*omega_);
   return 1i*omega_*c(t);
 }
 
-- 
2.43.0

