From 08f2ebf8ae52f01a2fe4bb78cb5ea1a5ccd4f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 01/20] fix: validate array length and map size of initial
 guess

---
 src/error.rs      |  8 ++++++++
 src/value_util.rs | 50 +++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e3c3850..85bcb2a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -95,6 +95,14 @@ pub enum Error {
     InitNotAKnownValue { path_hint: String, init: String },
     #[error("at path {path_hint:?}: value not within bounds")]
     ValueNotWithinBounds { path_hint: String },
+    #[error("at path {path_hint:?}: wrong array length. Must be {expected_length}, found {length}")]
+    WrongArrayLength {
+        path_hint: String,
+        expected_length: usize,
+        length: usize,
+    },
+    #[error("at path {path_hint:?}: map size not within bounds, found {size}")]
+    SizeNotWithinBounds { path_hint: String, size: usize },
     #[error("at path {path_hint:?}: exactly one variant value must be present, found {}", .num_variant_values_found)]
     ExactlyOneVariantValueRequired {
         path_hint: String,
diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..9c0d098 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,8 +25,16 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => build_anon_map(json_val, value_type, min_size, max_size, path),
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -165,10 +173,19 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongArrayLength {
+                    path_hint: format_path(path),
+                    expected_length: size,
+                    length: json_values.len(),
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
@@ -190,9 +207,11 @@ fn build_array(
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
     path: &[&str],
 ) -> Result<Node, Error> {
-    match json_val {
+    let result_mapping = match json_val {
         serde_json::Value::Array(json_values) => {
             let mut result_mapping = HashMap::default();
 
@@ -203,7 +222,7 @@ fn build_anon_map(
                 result_mapping.insert(next_id, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
         serde_json::Value::Object(json_mapping) => {
             let mut result_mapping = HashMap::default();
@@ -224,12 +243,27 @@ fn build_anon_map(
                 result_mapping.insert(key, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
-        _ => Err(Error::WrongTypeForValue {
+        _ => {
+            return Err(Error::WrongTypeForValue {
+                path_hint: format_path(path),
+                type_hint: "array or map".to_string(),
+            })
+        }
+    };
+
+    let size = result_mapping.len();
+    let out_of_bounds = min_size.map_or(false, |min_size| size < min_size)
+        || max_size.map_or(false, |max_size| size > max_size);
+
+    if out_of_bounds {
+        Err(Error::SizeNotWithinBounds {
             path_hint: format_path(path),
-            type_hint: "array or map".to_string(),
-        }),
+            size,
+        })
+    } else {
+        Ok(Node::AnonMap(result_mapping))
     }
 }
 
-- 
2.43.0


From 982af677be5ae940272295d931c0011acd72416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 02/20] fix: no overflow in key manager for very large anon map
 keys

---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 77b7e67..dba2014 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.wrapping_add(1));
     }
 }
 
-- 
2.43.0


From b94df706bd65447b68c21df878f6cf7ffae8bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 03/20] fix: never reuse an occupied key when adding an anon
 map element

---
 src/mutation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..951de0a 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,10 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let mut key = path_node_ctx.next_key();
+            while value_map.contains_key(&key) {
+                key = path_node_ctx.next_key();
+            }
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
-- 
2.43.0


From b7d70abaea6b0f96df7d50923243945cb693203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 04/20] fix: reject initial guess with two spellings of the
 same anon map key

---
 src/value_util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index 9c0d098..7bf13f1 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -240,7 +240,12 @@ fn build_anon_map(
 
                 let path_of_sub = [path, &[path_item]].concat();
                 let value = build_node(json_value, spec_node, &path_of_sub)?;
-                result_mapping.insert(key, Box::new(value));
+                if result_mapping.insert(key, Box::new(value)).is_some() {
+                    return Err(Error::InvalidAnonMapKey {
+                        path_hint: format_path(path),
+                        invalid_key_formatted: json_key.to_owned(),
+                    });
+                }
             }
 
             result_mapping
-- 
2.43.0


From 17300d899acc474605cb5b8d52f1ec33b84f1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 05/20] fix: keep mutated reals finite

---
 src/mutation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 951de0a..c8af621 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -400,7 +400,13 @@ fn mutate_cauchy(
     );
 
     if let Ok(dist) = dist {
-        dist.sample(rng)
+        let sample = dist.sample(rng);
+
+        if sample.is_finite() {
+            sample
+        } else {
+            value
+        }
     } else {
         value
     }
-- 
2.43.0


From 45c64d150f38bca5c02992410a11e7bac7b139bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 06/20] fix: keep adaptive mutation scale positive and finite

---
 src/meta_adapt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..630aa10 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -47,7 +47,8 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale(mutation_params.mutation_scale, rng)
+            .clamp(f64::MIN_POSITIVE, f64::MAX),
     };
 
     (crossover_params, mutation_params)
-- 
2.43.0


From f5680f76cd65b7ebec435df0344f54e5e238746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 07/20] fix: require at least two distinct enum values

---
 src/spec_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..e31bc34 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().all(|value| *value == values[0]) {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From b5b0a9a4a4ce4fcd8ab328b22f636ef435d4663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 08/20] fix: do not drop parameters whose name starts with
 typeDef

---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index e31bc34..87e987e 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From 438a72034d8a04f186359bf8723240f03f3ceea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 09/20] fix: reject tagged attribute keys in sub and variant

---
 src/spec_util.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 87e987e..f15da9d 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -219,7 +219,7 @@ fn build_sub(
 
     let mut sub_type_defs = type_defs.clone();
     for (key, value) in mapping {
-        match key.as_str() {
+        match untagged_str(key) {
             Some(attribute_key) if attribute_key.starts_with("typeDef ") => {
                 let type_name = attribute_key.strip_prefix("typeDef ").unwrap();
 
@@ -248,7 +248,7 @@ fn build_sub(
     }
 
     for (key, value) in mapping {
-        match key.as_str() {
+        match untagged_str(key) {
             Some(attribute_key)
                 if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
@@ -361,7 +361,7 @@ fn build_variant(
 
     let mut out_mapping = HashMap::default();
     for (key, value) in mapping {
-        match key.as_str() {
+        match untagged_str(key) {
             Some(attribute_key) if !attribute_key.eq("type") && !attribute_key.eq("init") => {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
@@ -640,6 +640,13 @@ fn check_for_unexpected_attributes<const N: usize>(
     Ok(())
 }
 
+fn untagged_str(key: &serde_yaml::Value) -> Option<&str> {
+    match key {
+        serde_yaml::Value::String(key) => Some(key),
+        _ => None,
+    }
+}
+
 fn format_attribute_key(key: &serde_yaml::Value) -> String {
     serde_yaml::to_string(key).unwrap().replace('\n', "")
 }
-- 
2.43.0


From f38469cb09802b75c472d812b202d77d9e159de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 10/20] fix: do not panic on non-UTF-8 stderr of objective
 function

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 7c6afab0eabb385c3a22fd31254fda7c068c7a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 11/20] fix: killed child already reaped elsewhere is not an
 error

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..9953716 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -40,7 +40,7 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
-- 
2.43.0


From 54142a6a0eb762f648f9c4c0845afb1025b0670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 12/20] fix: leave no objective function process behind when an
 evaluation ends or is dropped

---
 src/process.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 9953716..17342f2 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -49,6 +49,17 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+/// Kills what is left of the process group when the evaluation ends or is abandoned.
+struct ChildProcGroupGuard {
+    unreaped_pgid: Option<Pid>,
+}
+
+impl Drop for ChildProcGroupGuard {
+    fn drop(&mut self) {
+        kill_and_reap_child_proc_group(self.unreaped_pgid).ok();
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -114,6 +125,7 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
         let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let _proc_group_guard = ChildProcGroupGuard { unreaped_pgid };
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
-- 
2.43.0


From e373943d59894cfe3a5dcfb6b037bb5cd830233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 13/20] fix: child output must be a JSON object

---
 src/process.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 17342f2..43f037f 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -67,6 +67,11 @@ struct ObjFuncChildResult {
     objFuncVal: Option<f64>,
 }
 
+// the derived deserializer would also accept a JSON array holding just the value
+fn is_json_object(json: &[u8]) -> bool {
+    json.iter().find(|byte| !byte.is_ascii_whitespace()) == Some(&b'{')
+}
+
 async fn get_child_result(
     child: AsyncGroupChild,
     obj_func_arg: &OsStr,
@@ -84,14 +89,12 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
-            Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
-                obj_func_arg.to_owned(),
-                seed,
-                output,
-            ))
-        })?;
-        Ok(result.objFuncVal)
+        match serde_json::from_slice::<ObjFuncChildResult>(&output.stdout) {
+            Ok(result) if is_json_object(&output.stdout) => Ok(result.objFuncVal),
+            _ => Err(Error::ObjFuncProcInvalidOutput(
+                ProcOutputWithObjFuncArg::new(obj_func_arg.to_owned(), seed, output),
+            )),
+        }
     } else {
         trace!(
             "Child terminated unsuccessfully, status: {:?}",
-- 
2.43.0


From 0a4908bd5ab6ea4fe9f49df799d914b40607ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 14/20] fix: do not poll the completed abort signal again while
 draining

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..6251b82 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,7 +131,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
                 if !abort_signal_received {
                     abort_signal_received = true;
                     abort_signal_sender.broadcast(()).await.unwrap();
-- 
2.43.0


From e76002b3791384bad45033c0427212255d81c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 15/20] fix: a failed run returns only once its in-flight
 evaluations have ended

---
 src/controller.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 6251b82..d718d87 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -99,8 +99,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                         algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
 
 
-                        if let (Some(target_obj_func_val), Some(best_seen_final)) =
-                        (target_obj_func_val, algo_ctx.best_seen_final()) {
+                        if let (Some(target_obj_func_val), Some(best_seen_final), None) =
+                        (target_obj_func_val, algo_ctx.best_seen_final(), &error_recording) {
                             if best_seen_final.0.get() <= target_obj_func_val {
                                 break;
                             }
-- 
2.43.0


From 1d1e476237ff9b9fd4f9e8c0062c3dcc9629e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 16/20] fix: start no evaluation once a terminate command is
 pending

---
 src/async_launch.rs |  1 +
 src/controller.rs   | 13 +++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/async_launch.rs b/src/async_launch.rs
index b419f72..d1dbf12 100644
--- a/src/async_launch.rs
+++ b/src/async_launch.rs
@@ -39,6 +39,7 @@ pub async fn launch<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
             cmd = cmd_recv.next() => {
                 if let Some(Command::Terminate) = cmd {
                     abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
diff --git a/src/controller.rs b/src/controller.rs
index d718d87..014d95d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -74,6 +74,13 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                if !abort_signal_received {
+                    abort_signal_received = true;
+                    abort_signal_sender.broadcast(()).await.unwrap();
+                }
+            }
             evaled_individual = &mut evaled_individuals.try_next() => {
                 match evaled_individual {
 
@@ -131,12 +138,6 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
-            }
         }
     }
 
-- 
2.43.0


From bd17bc7ab0cccba389a90d168120cc074bf9bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 17/20] fix: flush report files before they are considered
 written

---
 src/sync_launch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..0d53a10 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -73,6 +73,7 @@ async fn write_best_seen_file(
     best_seen_file
         .write_all(value.to_string().as_bytes())
         .await?;
+    best_seen_file.flush().await?;
 
     Ok(())
 }
@@ -114,6 +115,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From 0603d470d79d52914451fc7ff16fac7263912677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 18/20] fix: reject non-finite target objective function value

---
 src/termination.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index 6743c9e..f18b3d3 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -31,6 +31,9 @@ where
             NumObjFuncEval(num_eval) if max_num_obj_func_eval.is_none() => {
                 max_num_obj_func_eval = Some(num_eval)
             }
+            TargetObjFuncVal(target) if !target.is_finite() => {
+                return Err(Error::TargetObjFuncValMustBeFinite)
+            }
             TargetObjFuncVal(target) if target_obj_func_val.is_none() => {
                 target_obj_func_val = Some(target)
             }
-- 
2.43.0


From 862acd504955f37600dfc3fd3f2c289e524b858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 19/20] fix: do not start queued evaluations after a failure or
 terminate request

---
 src/controller.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 014d95d..730b833 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -85,7 +85,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => (),
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -169,9 +170,14 @@ struct EvaluatedIndividual {
 async fn evaluate_individual<F: AsyncObjectiveFunction>(
     individual: IndContext,
     obj_func: &F,
-    abort_signal_recv: async_broadcast::Receiver<()>,
+    mut abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    // the abort was signalled while this evaluation was still waiting to be started
+    if abort_signal_recv.try_recv().is_ok() {
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -190,12 +196,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From d80f88b46153b59e3ad396c661af04e9014d0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 20/20] fix: spec's own initial value survives nested optionals
 when read back as guess

---
 src/value_util.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index 7bf13f1..8eea9fb 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -39,7 +39,10 @@ fn build_node(
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
         spec::Node::Enum { ref values, .. } => build_enum(json_val, values, path),
-        spec::Node::Optional { ref value_type, .. } => build_optional(json_val, value_type, path),
+        spec::Node::Optional {
+            ref value_type,
+            init_present,
+        } => build_optional(json_val, value_type, init_present, path),
         spec::Node::Const => build_const(json_val, path),
     }
 }
@@ -332,10 +335,16 @@ fn build_enum(
 fn build_optional(
     json_val: &serde_json::Value,
     value_type: &spec::Node,
+    init_present: bool,
     path: &[&str],
 ) -> Result<Node, Error> {
     Ok(match json_val {
-        serde_json::Value::Null => Node::Optional(None),
+        // a present value may be encoded as null, too: then prefer what the spec declares
+        serde_json::Value::Null => Node::Optional(
+            Some(value_type.initial_value())
+                .filter(|init| init_present && init.to_json().is_null())
+                .map(Box::new),
+        ),
         present_value => {
             Node::Optional(Some(Box::new(build_node(present_value, value_type, path)?)))
         }
-- 
2.43.0

