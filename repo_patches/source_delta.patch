From 8d33936626df1390df7db42e0ee1d6cba8151b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 1/2] fix: linspace of zero or one elements returns an empty
 vec or the start instead of panicking or NaN

---
 dess/src/traits_and_macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..726813d 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,6 +247,10 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
+        if n_elements < 2 {
+            // no interval to divide: nothing, or only the start
+            return vec![start; n_elements];
+        }
         let n_steps = n_elements - 1;
         let step_size = (stop - start) / n_steps as f64;
         let v_norm: Vec<f64> = (0..=n_steps)
-- 
2.43.0


From 56098aef1d1db1cec2bc6073f054ec5025d3505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 2/2] fix: __deepcopy__ accepts the memo that copy.deepcopy
 passes

---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..25ab33d 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: Option<&PyDict>) -> Self {
                 self.clone()
             }
 
-- 
2.43.0

