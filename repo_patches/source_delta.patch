From 341bf7ce897d83d2dc66a3513aba424f05a6ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 1/9] fix: keep the adaptive step size finite after an
 error-free step

When the error estimate of an accepted step is zero (a system at rest, or a
right-hand side the embedded pair integrates without error), the adaptation
coefficient is infinite (or NaN), so the stored step size became infinite and
the system could no longer be written to JSON and read back. Cap it at dt_max,
which is what the next step does with it anyway.
---
 dess/src/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..4f5779f 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, keeping `dt` finite when the error is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +657,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, keeping `dt` finite when the error is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From d61c6ca54440472145a0a8fa52350090e1e94f32 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 2/9] fix: let __deepcopy__ take the memo argument that
 copy.deepcopy passes

copy.deepcopy(obj) calls obj.__deepcopy__(memo), which raised TypeError for
every exposed class.
---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..25ab33d 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: Option<&PyDict>) -> Self {
                 self.clone()
             }
 
-- 
2.43.0


From ab04a7c59a7a2914242dc359328cc7fc81db950b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 3/9] fix: linspace with fewer than two elements

One element gave [NaN] (0 * infinite step) and zero elements underflowed.
---
 dess/src/traits_and_macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..3f84939 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,6 +247,10 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
+        if n_elements < 2 {
+            // no spacing to compute
+            return vec![start; n_elements];
+        }
         let n_steps = n_elements - 1;
         let step_size = (stop - start) / n_steps as f64;
         let v_norm: Vec<f64> = (0..=n_steps)
-- 
2.43.0


From a10a635d6f4384665aac664648f763e95ae4b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 4/9] fix: reject forbidden function names in pyo3_api

The list of forbidden names was only consulted together with
expected_exclusive, so pyo3_api never enforced it.
---
 dess/dess-proc-macros/src/utilities.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/utilities.rs b/dess/dess-proc-macros/src/utilities.rs
index c2c9862..e515b5e 100644
--- a/dess/dess-proc-macros/src/utilities.rs
+++ b/dess/dess-proc-macros/src/utilities.rs
@@ -70,9 +70,8 @@ pub fn parse_ts_as_fn_defs(
                 let sig_str = &item_meth.sig.ident.to_token_stream().to_string();
                 fn_from_attr.extend(item_meth.clone().to_token_stream());
                 // check signature
-                if expected_exclusive
-                    && (forbidden_fn_names.contains(sig_str)
-                        || !expected_fn_names.contains(sig_str))
+                if forbidden_fn_names.contains(sig_str)
+                    || (expected_exclusive && !expected_fn_names.contains(sig_str))
                 {
                     emit_error!(
                         &item_meth.sig.ident.span(),
-- 
2.43.0


From 92b79cc1c044e315940c99300c0d3d8532213922 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 5/9] fix: stepping a reservoir's derivative leaves it at zero

set_deriv already ignores its argument, but step_deriv accumulated it, so a
derivative step could make a reservoir's temperature drift.
---
 dess-examples/src/components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dess-examples/src/components.rs b/dess-examples/src/components.rs
index 7c705dc..822f1e6 100644
--- a/dess-examples/src/components.rs
+++ b/dess-examples/src/components.rs
@@ -79,8 +79,8 @@ impl HasState for ThermalReservoir {
     fn set_deriv(&mut self, _val: f64) {
         self.state.dtemp = 0.0;
     }
-    fn step_deriv(&mut self, val: f64) {
-        self.state.dtemp += val;
+    fn step_deriv(&mut self, _val: f64) {
+        self.state.dtemp = 0.0;
     }
     fn storage(&self) -> f64 {
         f64::INFINITY
-- 
2.43.0


From 38bae3b006bea5584d0d4644f8e12eca91ba1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 6/9] fix: almost_eq of values whose sum or difference
 overflows

---
 dess/src/utilities.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dess/src/utilities.rs b/dess/src/utilities.rs
index e4d89a7..b97e6a2 100644
--- a/dess/src/utilities.rs
+++ b/dess/src/utilities.rs
@@ -1,4 +1,6 @@
 pub fn almost_eq(val1: f64, val2: f64, epsilon: Option<f64>) -> bool {
     let epsilon = epsilon.unwrap_or(1e-8);
-    ((val2 - val1) / (val1 + val2)).abs() < epsilon || (val2 - val1).abs() < epsilon
+    // halved so that neither the difference nor the sum can overflow
+    let (half1, half2) = (0.5 * val1, 0.5 * val2);
+    ((half2 - half1) / (half1 + half2)).abs() < epsilon || (val2 - val1).abs() < epsilon
 }
-- 
2.43.0


From b0f08166f0542b7e66b8b933ce422e503f8b5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 7/9] fix: register the documented walk helper attribute of
 pyo3_api

---
 dess/dess-proc-macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/lib.rs b/dess/dess-proc-macros/src/lib.rs
index 121c21c..f41a85e 100644
--- a/dess/dess-proc-macros/src/lib.rs
+++ b/dess/dess-proc-macros/src/lib.rs
@@ -51,7 +51,7 @@ pub fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
 /// Dummy derive macro for registering [pyo3_api] attributes.  
 /// This may not be the cleanest way to do this.
 #[proc_macro_error]
-#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get))]
+#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get, walk))]
 pub fn pyo3_api_cleanup(_item: TokenStream) -> TokenStream {
     TokenStream::new()
 }
-- 
2.43.0


From 31606ad577fa5e10d8792fc0650a3a8efce9f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:17:21 +0000
Subject: [PATCH 8/9] fix: retry an attempt whose error equals the absolute
 tolerance with a shorter step

---
 dess/src/solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 4f5779f..2573795 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -366,7 +366,7 @@ pub trait SolverVariantMethods: SolverBase {
                     Some(norm_err) => {
                         if norm_err_rel <= sc_mut.rtol {
                             (sc_mut.rtol / norm_err_rel).powf(0.2)
-                        } else if norm_err <= sc_mut.atol {
+                        } else if norm_err < sc_mut.atol {
                             (sc_mut.atol / norm_err).powf(0.2)
                         } else {
                             0.25
@@ -620,7 +620,7 @@ pub trait SolverVariantMethods: SolverBase {
                     //prioritizes rtol -- if both atol and rtol are met, rtol is used
                     if norm_err_rel <= sc_mut.rtol {
                         (sc_mut.rtol / norm_err_rel).powf(0.2)
-                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
+                    } else if sc_mut.state.norm_err.unwrap() < sc_mut.atol {
                         (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                     } else {
                         0.25
-- 
2.43.0


From cdbec90b8c8434731119cc291089234d7831ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 04:39:18 +0000
Subject: [PATCH 9/9] fix: fields with raw identifiers (r#type) made the
 Python-interface attribute generate a getter that does not compile

---
 dess/dess-proc-macros/src/pyo3_api.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index 25ab33d..3790af0 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -1,5 +1,6 @@
 use crate::imports::*;
 use crate::utilities::parse_ts_as_fn_defs;
+use syn::ext::IdentExt;
 
 /// Derives several methods for struct
 pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
@@ -41,7 +42,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
         // Conditionally add setter function
         if !field.attrs.iter().any(|a| a.path.is_ident("skip_get")) {
             let fn_get_fname: TokenStream2 =
-                format!("fn get_{}(&mut self)", &fname).parse().unwrap();
+                format!("fn get_{}(&mut self)", fname.unraw()).parse().unwrap();
             let field_type = &field.ty;
             let fn_body: TokenStream2 = format!("self.{}.clone()", &fname).parse().unwrap();
             let new_fn = quote! {
-- 
2.43.0

