From 4c7c7614c839031b6f7d1e6cefffe09a68316fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 01/11] fix: do not report convergence when a stopping residual
 is NaN

The maximum error ignores NaN values, so a model returning NaN residuals
was reported as solved. Each stopping residual must now be below the
tolerance. The relative normalization of 0 and 0 is 0 instead of NaN, as an
equation whose both members are zero is fulfilled.
---
 src/solver_n_dimensional/residuals/mod.rs     |  2 ++
 src/solver_n_dimensional/solver/rootfinder.rs | 16 +++++++++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/residuals/mod.rs b/src/solver_n_dimensional/residuals/mod.rs
index d7ba7ff..652b738 100644
--- a/src/solver_n_dimensional/residuals/mod.rs
+++ b/src/solver_n_dimensional/residuals/mod.rs
@@ -87,6 +87,8 @@ impl fmt::Display for NormalizationMethod {
 pub fn normalization(x: f64, y: f64, normalization_method: NormalizationMethod) -> f64 {
     match normalization_method {
         NormalizationMethod::Abs => x - y,
+        // both members are zero: the equation is fulfilled, 0/0 would yield NaN
+        NormalizationMethod::Rel if x == 0.0 && y == 0.0 => 0.0,
         NormalizationMethod::Rel => (x - y) / ((x + y).abs() / 2.0),
         NormalizationMethod::Adapt => (x - y) / (1.0 + (x + y).abs() / 2.0),
     }
diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..c52298a 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,13 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// Each stopping residual must be below the tolerance (a NaN is not)
+    fn has_converged(&self, errors: &nalgebra::OVector<f64, D>) -> bool {
+        errors
+            .iter()
+            .all(|error| *error <= self.parameters.get_tolerance())
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -406,7 +413,6 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
 
         if self.debug {
             self.parameters_to_log();
@@ -415,9 +421,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
-            && self.iter < self.parameters.get_max_iter()
-        {
+        while !self.has_converged(&errors) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -436,11 +440,9 @@ where
                     return Err(errors::SolverError::JacobianError(error));
                 }
             }
-
-            max_error = errors.amax();
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !self.has_converged(&errors) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From 32d0aca4eda55c65e8e5b259268f81a9faaa4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 02/11] fix: report FinalEvaluationError when the initial guess
 converges with inaccurate values

An inaccurate initial evaluation that already fulfils the tolerance was
reported as a success.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index c52298a..f0fff80 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -403,8 +403,12 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => {
+                self.valid_last_model_evaluation = true;
+            }
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+            }
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From 1d87f1d52bdf6dead0a1427b60f1b4e5e8fa0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 03/11] fix: handle model errors raised while evaluating a
 damped point

The damped evaluation was unwrapped (panic on any model error) and its
outcome was ignored by the final status. It now follows the same rules as
the other evaluations of the iterative process.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index f0fff80..07f99d6 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -304,6 +304,29 @@ where
         self.iters_params.step_limitations(&iter_values, &raw_step)
     }
 
+    /// Evaluate the model during the iterative process
+    ///
+    /// Inaccurate values are tolerated, unusable ones are not
+    fn evaluate_model<M>(&mut self, model: &mut M) -> Result<(), errors::SolverError<M, D>>
+    where
+        M: model::Model<D>,
+    {
+        match model.evaluate() {
+            Ok(()) => {
+                self.valid_last_model_evaluation = true;
+                Ok(())
+            }
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+                Ok(())
+            }
+            Err(e) => {
+                self.valid_last_model_evaluation = false;
+                Err(errors::SolverError::ModelEvaluationError(e))
+            }
+        }
+    }
+
     fn damping<M>(
         &mut self,
         model: &mut M,
@@ -311,7 +334,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = errors_next.amax();
@@ -329,7 +353,7 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                self.evaluate_model(model)?;
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -337,6 +361,8 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
     fn update_model<M>(
@@ -352,18 +378,7 @@ where
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
-        match model.evaluate() {
-            Ok(()) => {
-                self.valid_last_model_evaluation = true;
-            }
-            Err(ModelError::InaccurateValuesError(_)) => {
-                self.valid_last_model_evaluation = false;
-            }
-            Err(e) => {
-                self.valid_last_model_evaluation = false;
-                return Err(errors::SolverError::ModelEvaluationError(e));
-            }
-        }
+        self.evaluate_model(model)?;
         let mut errors_next = self.evaluate_errors(model);
 
         if self.debug {
@@ -377,7 +392,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From eedfd8704d7ea736d968a3156ece20686dd3c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 04/11] fix: return a JacobianError when the provided jacobian
 is inaccurate

The error was swallowed although no jacobian values are available, leading
to a panic when unwrapping the missing inverse.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 07f99d6..680958e 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -166,7 +166,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -179,14 +179,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From ab94078f8e130d7ab83f829f9a83a994ea527303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 05/11] fix: start each resolution from a fresh solver state

The iteration counter, the jacobian and the quasi-newton placeholders of a
previous call to solve() were reused by the next one.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 680958e..55f5c70 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -405,6 +405,8 @@ where
     where
         M: model::Model<D>,
     {
+        self.reset();
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
@@ -462,6 +464,16 @@ where
         }
     }
 
+    /// Forget the state of a previous resolution
+    fn reset(&mut self) {
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+        self.valid_last_model_evaluation = true;
+    }
+
     fn parameters_to_log(&self) {
         self.solver_log.as_ref().unwrap().add_parameters(
             &self.parameters.to_string(),
-- 
2.43.0


From fa76584a97a83000fe31858e31219da61136774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 06/11] fix: feed the quasi-newton updates with the signed
 update residuals

The residual step was computed from the absolute values of the stopping
residuals, which breaks the secant equation as soon as a residual changes
its sign, is negative or is normalized differently for the two criterias.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 55f5c70..20f3775 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -368,6 +368,9 @@ where
         let errors = self.evaluate_errors(model);
         let max_error = errors.amax();
         let current_guess = model.get_iteratives();
+        let residuals = self
+            .residuals_config
+            .evaluate_update_residuals(&model.get_residuals());
 
         model.set_iteratives(proposed_guess);
         self.evaluate_model(model)?;
@@ -392,8 +395,11 @@ where
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                let residuals_next = self
+                    .residuals_config
+                    .evaluate_update_residuals(&model.get_residuals());
+                self.residuals_step_size = Some(&residuals_next - residuals);
+                self.residuals_values_current = Some(residuals_next)
             }
         };
 
-- 
2.43.0


From d42d28f3641f34fb0c67156108102f6f14fe4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 07/11] fix: damp between the current and the proposed
 iteratives

After a finite-difference jacobian, the model is left at the last perturbed
point: the damping trigger and the damped point were computed from it
instead of the point of the iteration.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 20f3775..e171d96 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -360,13 +360,13 @@ where
     fn update_model<M>(
         &mut self,
         model: &mut M,
+        iteration_guess: &nalgebra::OVector<f64, D>,
+        iteration_errors: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
         let current_guess = model.get_iteratives();
         let residuals = self
             .residuals_config
@@ -383,8 +383,8 @@ where
         if self.parameters.get_damping() {
             self.damping(
                 model,
-                max_error,
-                &current_guess,
+                iteration_errors.amax(),
+                iteration_guess,
                 proposed_guess,
                 &mut errors_next,
             )?;
@@ -443,6 +443,9 @@ where
         while !self.has_converged(&errors) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
+            // the evaluation of the jacobian by finite-differences moves the model
+            let iteration_guess = model.get_iteratives();
+
             let proposed_guess = match self.parameters.get_resolution_method() {
                 ResolutionMethod::NewtonRaphson => self.compute_newton_raphson_step(model),
                 ResolutionMethod::QuasiNewton(quasi_newton_method) => {
@@ -451,7 +454,7 @@ where
             };
 
             match proposed_guess {
-                Ok(value) => match self.update_model(model, &value) {
+                Ok(value) => match self.update_model(model, &iteration_guess, &errors, &value) {
                     Ok(value) => errors = value,
                     Err(e) => return Err(e),
                 },
-- 
2.43.0


From cb068b5b4197e07c04ddc7252adf51fc994848e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 08/11] fix: refuse NaN parameters of the iteratives

The comparisons of the validation are false for NaN, such parameters were
silently accepted.
---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From 5199b197955d53e05b4d7fa36e0bfbb9a3f41ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 09/11] fix: compute the quasi-newton steps from the iteration
 point

When the jacobian was evaluated by finite-differences, the steps of the
iteratives and of the residuals were computed from the last perturbed point.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index e171d96..d47399d 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -362,16 +362,12 @@ where
         model: &mut M,
         iteration_guess: &nalgebra::OVector<f64, D>,
         iteration_errors: &nalgebra::OVector<f64, D>,
+        iteration_residuals: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
-        let current_guess = model.get_iteratives();
-        let residuals = self
-            .residuals_config
-            .evaluate_update_residuals(&model.get_residuals());
-
         model.set_iteratives(proposed_guess);
         self.evaluate_model(model)?;
         let mut errors_next = self.evaluate_errors(model);
@@ -394,11 +390,11 @@ where
             ResolutionMethod::NewtonRaphson => (),
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
-                self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
+                self.iteratives_step_size = Some(model.get_iteratives() - iteration_guess);
                 let residuals_next = self
                     .residuals_config
                     .evaluate_update_residuals(&model.get_residuals());
-                self.residuals_step_size = Some(&residuals_next - residuals);
+                self.residuals_step_size = Some(&residuals_next - iteration_residuals);
                 self.residuals_values_current = Some(residuals_next)
             }
         };
@@ -445,6 +441,9 @@ where
 
             // the evaluation of the jacobian by finite-differences moves the model
             let iteration_guess = model.get_iteratives();
+            let iteration_residuals = self
+                .residuals_config
+                .evaluate_update_residuals(&model.get_residuals());
 
             let proposed_guess = match self.parameters.get_resolution_method() {
                 ResolutionMethod::NewtonRaphson => self.compute_newton_raphson_step(model),
@@ -454,7 +453,13 @@ where
             };
 
             match proposed_guess {
-                Ok(value) => match self.update_model(model, &iteration_guess, &errors, &value) {
+                Ok(value) => match self.update_model(
+                    model,
+                    &iteration_guess,
+                    &errors,
+                    &iteration_residuals,
+                    &value,
+                ) {
                     Ok(value) => errors = value,
                     Err(e) => return Err(e),
                 },
-- 
2.43.0


From 1452abc4beede8b42b0bb3d9df88464fe93247f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 10/11] fix: limit the steps from the iteration point

After a finite-difference jacobian, the limits of the iteratives were applied
from the last perturbed point instead of the point of the iteration.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index d47399d..0e0ad62 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -185,6 +185,7 @@ where
     fn compute_newton_raphson_step<M>(
         &mut self,
         model: &mut M,
+        iteration_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, crate::errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -195,7 +196,7 @@ where
             self.jac_to_log();
         }
         match successful_jac_computation {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => Ok(self.compute_next_from_inv_jac(model, iteration_guess)),
             Err(error) => Err(error),
         }
     }
@@ -265,13 +266,14 @@ where
     fn compute_quasi_newton_step<M>(
         &mut self,
         model: &mut M,
+        iteration_guess: &nalgebra::OVector<f64, D>,
         resolution_method: QuasiNewtonMethod,
     ) -> Result<nalgebra::OVector<f64, D>, crate::errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
     {
         match self.evaluate_jacobian_quasi_newton_step(model, resolution_method) {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => Ok(self.compute_next_from_inv_jac(model, iteration_guess)),
             Err(crate::errors::SolverInternalError::InvalidJacobianError(error)) => Err(
                 crate::errors::SolverInternalError::InvalidJacobianError(error),
             ),
@@ -281,7 +283,11 @@ where
         }
     }
 
-    fn compute_next_from_inv_jac<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    fn compute_next_from_inv_jac<M>(
+        &self,
+        model: &M,
+        iteration_guess: &nalgebra::OVector<f64, D>,
+    ) -> nalgebra::OVector<f64, D>
     where
         M: model::Model<D>,
     {
@@ -292,8 +298,9 @@ where
         let raw_step = -self.jacobian.get_inverse().as_ref().unwrap() * residuals;
 
         let iter_values = model.get_iteratives();
-
-        self.iters_params.step_limitations(&iter_values, &raw_step)
+        let shift = &iter_values - iteration_guess;
+        self.iters_params
+            .step_limitations(iteration_guess, &(raw_step + shift))
     }
 
     /// Evaluate the model during the iterative process
@@ -446,9 +453,11 @@ where
                 .evaluate_update_residuals(&model.get_residuals());
 
             let proposed_guess = match self.parameters.get_resolution_method() {
-                ResolutionMethod::NewtonRaphson => self.compute_newton_raphson_step(model),
+                ResolutionMethod::NewtonRaphson => {
+                    self.compute_newton_raphson_step(model, &iteration_guess)
+                }
                 ResolutionMethod::QuasiNewton(quasi_newton_method) => {
-                    self.compute_quasi_newton_step(model, quasi_newton_method)
+                    self.compute_quasi_newton_step(model, &iteration_guess, quasi_newton_method)
                 }
             };
 
-- 
2.43.0


From 36af8ce958e6e0a3704c7ace76761b0d9b9fe6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 11/11] fix: display an empty set of iteratives

---
 src/solver_n_dimensional/iteratives/iteratives_base.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/iteratives/iteratives_base.rs b/src/solver_n_dimensional/iteratives/iteratives_base.rs
index 5277f0d..54af05e 100644
--- a/src/solver_n_dimensional/iteratives/iteratives_base.rs
+++ b/src/solver_n_dimensional/iteratives/iteratives_base.rs
@@ -94,7 +94,10 @@ where
     T: Iterative + fmt::Display,
 {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let finite_diff = self.iteratives_params[0].with_finite_diff();
+        let finite_diff = self
+            .iteratives_params
+            .first()
+            .map_or(false, |param| param.with_finite_diff());
 
         let mut content = String::from("Iteratives parameters\n");
         content.push_str("=====================\n\n");
-- 
2.43.0

