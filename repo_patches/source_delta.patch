From 85869c650e2625192da02badf182603208f25845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 01/19] fix: return the convergence error when Newton fails
 with a current Jacobian

A recoverable failure with up-to-date Jacobian data fell through the match and
restarted the outer loop for ever. As in SUNDIALS, only a stale Jacobian is
worth a retry; otherwise count the failure and return the error.
---
 crates/nonlinear/src/newton.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..1260238 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -143,13 +143,11 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
-                        self.nconvfails += 1;
-                        call_lsetup = true;
-                        jbad = true;
-                        continue 'outer;
-                    }
+                Err(Error::ConvergenceRecover {}) if !self.jcur => {
+                    self.nconvfails += 1;
+                    call_lsetup = true;
+                    jbad = true;
+                    continue 'outer;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From 3d8977352cc40b55da1933a1579f3936b0816f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 02/19] fix: do not retry a Newton solve that failed before its
 iteration began

A recoverable failure of the residual at the initial iterate or of the linear
setup was treated like a failed iteration and retried, for ever if it persisted.
As in SUNDIALS it is returned to the caller, who can choose another start.
---
 crates/nonlinear/src/newton.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 1260238..77b7cd5 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -84,7 +84,14 @@ where
                     } else {
                         Ok(())
                     }
-                })
+                });
+
+            // a failure before the Newton iteration has begun is not retried
+            if retval.is_err() {
+                break 'outer retval;
+            }
+
+            let retval = retval
                 .and_then(|_| {
                     // initialize counter curiter
                     self.curiter = 0;
-- 
2.43.0


From 77f383ea4e2e7741da4bfa052cb34fbd492efe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 03/19] fix: monitor every root function from the start

gactive is documented to be set initially for all i; cleared, a root inside the first step was missed.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..002b2f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,7 +370,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From f5f2f84674ae73f26d64f18d34fb660e00fadbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 04/19] fix: report +1 for an increasing and -1 for a
 decreasing root function

The sign of g before the root was reported, the opposite of what get_root_info documents.
---
 src/impl_r_check.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..4e3c814 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,11 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            *iroots = if glo > P::Scalar::zero() {
+                                -P::Scalar::one()
+                            } else {
+                                P::Scalar::one()
+                            };
                         }
                     }
                 });
@@ -567,7 +571,11 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        *iroots = if glo > P::Scalar::zero() {
+                            -P::Scalar::one()
+                        } else {
+                            P::Scalar::one()
+                        };
                     }
                 }
             });
-- 
2.43.0


From 9a905b86503345e28c81e8f3da742adb38be1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 05/19] fix: rescale only phi[1] when the first step is tried
 again

phi[0], the initial y, was scaled with it.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 002b2f8..c8f7ead 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1248,7 +1248,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From c79971bdf1b4287faac4a1ced49ae0907e660cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 06/19] fix: loop bounds of get_dky

The bound is kused - k + i: k = 0 ran past the end of psi at order 5, and derivatives above the first missed terms.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c8f7ead..313c65d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,7 +496,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -504,7 +504,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From 7bafa2934c2a83a44ea9faabf3faf29e38448e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 07/19] fix: evaluate the Jacobian at the current time

jac was called with t = 0.
---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..4e8b0af 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -231,6 +231,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        tn: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -256,9 +257,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                tn,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..a3c9d1b 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,8 +167,12 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+        self.lp.setup(
+            self.ida_tn,
+            self.ida_yy.view(),
+            self.ida_yp.view(),
+            res.view(),
+        );
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From a19b03d3187be4a400638dcb361bc0fb4a1b0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 08/19] fix: retry a step whose Newton iteration did not
 converge

The recoverable convergence failure of the nonlinear solver ended the integration.
---
 src/error.rs |  2 ++
 src/lib.rs   | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0055934..f992ae6 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    NLSConv,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index 313c65d..e080e3b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -848,8 +848,16 @@ where
         self.nlp.ida_yp.assign(&self.nlp.ida_yppredict);
         self.nlp.ida_yp.scaled_add(self.nlp.lp.ida_cj, &self.ida_ee);
 
-        // return if nonlinear solver failed */
-        retval?;
+        // return if nonlinear solver failed; the step may be tried again after a convergence failure
+        retval.map_err(|err| {
+            if let Some(nonlinear::Error::ConvergenceRecover {}) = err.downcast_ref() {
+                failure::Error::from(IdaError::RecoverableFail {
+                    rec_type: Recoverable::NLSConv,
+                })
+            } else {
+                err
+            }
+        })?;
 
         // If otherwise successful, check and enforce inequality constraints.
 
-- 
2.43.0


From e2518d2c2eb425106766b0d78ffeb75ff028aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 09/19] fix: treat a singular Jacobian as a recoverable failure

The failed factorization panicked; the step is now tried again with a smaller stepsize.
---
 src/ida_ls.rs  |  5 +++--
 src/ida_nls.rs | 12 ++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 4e8b0af..4cff7cd 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -235,7 +235,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,7 +285,7 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        self.ls.setup(self.mat_j.view_mut())
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
     }
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index a3c9d1b..146316f 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -1,7 +1,7 @@
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
-use super::error::IdaError;
+use super::error::{IdaError, Recoverable};
 use super::ida_ls::IdaLProblem;
 use super::linear::LSolver;
 use super::nonlinear::{Error, NLProblem, NLSolver};
@@ -167,7 +167,7 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp.setup(
+        let retval = self.lp.setup(
             self.ida_tn,
             self.ida_yy.view(),
             self.ida_yp.view(),
@@ -182,10 +182,10 @@ where
         self.lp.ida_cjratio = P::Scalar::one();
         self.ida_ss = P::Scalar::twenty();
 
-        //if (retval < 0) return(IDA_LSETUP_FAIL);
-        //if (retval > 0) return(IDA_LSETUP_RECVR);
-
-        //return(IDA_SUCCESS);
+        // a failed factorization is recoverable
+        retval.map_err(|_| IdaError::RecoverableFail {
+            rec_type: Recoverable::LSetup,
+        })?;
 
         Ok(true)
     }
-- 
2.43.0


From 2beefc0e5c38fce160b57d7fb27595429fc7ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 10/19] fix: never evaluate beyond the stop time

The overshoot, times h, was compared with one.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e080e3b..9927034 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -652,7 +652,7 @@ where
 
             self.nlp.ida_tn += self.ida_hh;
             if let Some(tstop) = self.ida_tstop {
-                if ((self.nlp.ida_tn - tstop) * self.ida_hh) > P::Scalar::one() {
+                if ((self.nlp.ida_tn - tstop) * self.ida_hh) > P::Scalar::zero() {
                     self.nlp.ida_tn = tstop;
                 }
             }
-- 
2.43.0


From 890f07270840bbd7a8c651a59fe249f27c802ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 11/19] fix: clear the stop time once it has been reported in
 OneStep mode too

---
 src/impl_stop_test.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index e972b0f..65d6947 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -110,6 +110,7 @@ where
                         self.get_solution(tstop)?;
                         self.ida_tretlast = tstop;
                         *tret = tstop;
+                        self.ida_tstop = None;
                         return Ok(IdaSolveStatus::TStop);
                     }
 
-- 
2.43.0


From 5a1c962b225df28898bc2b8b7f49f29ab169ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 12/19] fix: search for roots only beyond the last point
 searched

---
 src/impl_r_check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 4e3c814..62c9d73 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -235,6 +235,12 @@ where
         // Get y and y' at thi.
         self.get_solution(self.ida_thi);
 
+        // Nothing to search if thi is not beyond tlo, i.e. if tout is the last root found or lies
+        // before it.
+        if (self.ida_thi - self.ida_tlo) * self.ida_hh <= P::Scalar::zero() {
+            return Ok(RootStatus::Continue);
+        }
+
         // Set ghi = g(thi) and call IDARootfind to search (tlo,thi) for roots.
         self.nlp.lp.problem.root(
             self.ida_thi,
-- 
2.43.0


From 2a31b6a1efc92142d99502ed799075a31976babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 13/19] fix: refuse a zero error tolerance instead of
 integrating to NaN

A component that is zero and has no absolute tolerance has an infinite error
weight. The check for bad weights only looked for weights <= 0 (which 1/0 never
is), and the initial weights were not checked at all, so that solve() went on
with NaN norms and left NaN in y.
---
 src/impl_solve.rs |  6 +++---
 src/lib.rs        | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..fceca7d 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -86,7 +86,7 @@ where
 
             // Check inputs to IDA for correctness and consistency */
             if !self.ida_setup_done {
-                self.initial_setup();
+                self.initial_setup()?;
                 self.ida_setup_done = true;
             }
 
@@ -269,7 +269,7 @@ where
                     self.nlp.ida_ewt.view_mut(),
                 );
 
-                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
+                if !self.ewt_is_valid() {
                     let _ier = self.get_solution(self.nlp.ida_tn);
                     *tret = self.nlp.ida_tn;
                     self.ida_tretlast = self.nlp.ida_tn;
@@ -277,7 +277,7 @@ where
                     //IDAProcessError(IDA_mem, IDA_ILL_INPUT, "IDA", "IDASolve", MSG_EWT_NOW_BAD, self.nlp.ida_tn);
                     Err(IdaError::IllegalInput {
                         msg: format!(
-                            "At t = {:?} some ewt component has become <= 0.0.",
+                            "At t = {:?} some ewt component has become <= 0.0 or infinite.",
                             self.nlp.ida_tn
                         ),
                     })?
diff --git a/src/lib.rs b/src/lib.rs
index 9927034..aaf788d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,7 +534,7 @@ where
     /// inputs and inputs to `init`/`reinit` that could not be done before.
     ///
     /// If no error is encountered, IDAInitialSetup returns IDA_SUCCESS. Otherwise, it returns an error flag and reported to the error handler function.
-    fn initial_setup(&mut self) {
+    fn initial_setup(&mut self) -> Result<(), failure::Error> {
         //booleantype conOK;
         //int ier;
 
@@ -543,6 +543,11 @@ where
             self.ida_phi.index_axis(Axis(0), 0),
             self.nlp.ida_ewt.view_mut(),
         );
+        if !self.ewt_is_valid() {
+            Err(IdaError::IllegalInput {
+                msg: format!("Some initial ewt component is <= 0.0 or infinite."),
+            })?
+        }
 
         /*
         // Check to see if y0 satisfies constraints.
@@ -565,6 +570,16 @@ where
         */
 
         //return(IDA_SUCCESS);
+        Ok(())
+    }
+
+    /// Check that all the error weights are positive and finite. A component with a tolerance of
+    /// zero has an infinite weight.
+    fn ewt_is_valid(&self) -> bool {
+        self.nlp
+            .ida_ewt
+            .iter()
+            .all(|&x| x > P::Scalar::zero() && x.is_finite())
     }
 
     /// This routine performs one internal IDA step, from `tn` to `tn + hh`. It calls other
-- 
2.43.0


From 9275d74ae9043d520fb149313d7703e12450d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 14/19] Revert "fix: clear the stop time once it has been
 reported in OneStep mode too"

The next commit repairs this in impl_solve.rs.
---
 src/impl_stop_test.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index 65d6947..e972b0f 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -110,7 +110,6 @@ where
                         self.get_solution(tstop)?;
                         self.ida_tretlast = tstop;
                         *tret = tstop;
-                        self.ida_tstop = None;
                         return Ok(IdaSolveStatus::TStop);
                     }
 
-- 
2.43.0


From b8befbeec551fa2b72597fe3ecb12b78d7170106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 15/19] fix: clear the stop time once it has been reported in
 OneStep mode too

stop_test1 cleared it in Normal mode only, so that OneStep reported the same
stop time for ever.
---
 src/impl_solve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index fceca7d..d4f997a 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -229,6 +229,10 @@ where
             // Now test for all other stop conditions.
 
             let istate = self.stop_test1(tout, tret, itask);
+            if let Ok(IdaSolveStatus::TStop) = istate {
+                // The stop time is reported once, in either mode.
+                self.ida_tstop = None;
+            }
             match istate {
                 Err(_)
                 | Ok(IdaSolveStatus::Root)
-- 
2.43.0


From 4ed96f410704990a7ffe2400315f3174ccb639b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 16/19] fix: unscale phi[1] when the first call is repeated
 after a failure

---
 src/impl_solve.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index d4f997a..9cc13f4 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -108,6 +108,13 @@ where
                 })?
             }
 
+            // A first call that failed has left phi[1] = psi[0]*y'
+            if self.ida_psi[0] != P::Scalar::zero() {
+                let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+                phi /= self.ida_psi[0];
+                self.ida_psi[0] = P::Scalar::zero();
+            }
+
             self.ida_hh = self.ida_hin;
             if (self.ida_hh != P::Scalar::zero())
                 && ((tout - self.nlp.ida_tn) * self.ida_hh < P::Scalar::zero())
@@ -166,6 +173,7 @@ where
             // set phi[1] = hh*y'
             let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
             phi *= self.ida_hh;
+            self.ida_psi[0] = self.ida_hh;
 
             // Set the convergence test constants epsNewt and toldel
             self.ida_eps_newt = self.ida_epcon;
-- 
2.43.0


From 73fdbbc572e9fb88402b3e223bb9db97f30e3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 17/19] fix: keep counting root evaluations when the first call
 is repeated

---
 src/impl_r_check.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 62c9d73..a1b6423 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -48,7 +48,7 @@ where
             self.ida_glo.view_mut(),
         );
 
-        self.ida_nge = 1;
+        self.ida_nge += 1;
 
         let zroot = ndarray::Zip::from(self.ida_gactive.view_mut())
             .and(&self.ida_glo)
-- 
2.43.0


From 78a49a59b0ffba45d64431ea6a18d929d09d7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 18/19] fix: keep the last step's interpolant when the next
 step is given up

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aaf788d..2a17dbd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -630,6 +630,7 @@ where
         profile_scope!(format!("step(), nst={}", self.counters.ida_nst));
 
         let saved_t = self.nlp.ida_tn;
+        let saved_psi = self.ida_psi.clone();
 
         if self.counters.ida_nst == 0 {
             self.ida_kk = 1;
@@ -701,6 +702,14 @@ where
 
                             (err_k, err_km1, false)
                         })
+                        .map_err(|err| {
+                            // restore() has left psi[kk + 1 ..], which attempts at a higher order
+                            // have changed and which the last step's interpolant needs
+                            if self.counters.ida_nst > 0 {
+                                self.ida_psi.assign(&saved_psi);
+                            }
+                            err
+                        })
                 })?;
 
             if converged {
-- 
2.43.0


From 3a3e91033bd18cbae588cc86a95f436ea16285fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 19/19] fix: a repeated output time returns the solution there,
 not what was interpolated last

---
 src/impl_solve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 9cc13f4..b695c94 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -241,6 +241,11 @@ where
                 // The stop time is reported once, in either mode.
                 self.ida_tstop = None;
             }
+            if let (Ok(IdaSolveStatus::Success), IdaTask::Normal) = (&istate, itask) {
+                // Where tout was returned before, yy and yp may have been overwritten since, by
+                // get_solution() or by the evaluation of root functions.
+                self.get_solution(*tret)?;
+            }
             match istate {
                 Err(_)
                 | Ok(IdaSolveStatus::Root)
-- 
2.43.0

