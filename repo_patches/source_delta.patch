From 2ff836af4b3c821c10c52d890f468fa7bb971c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 01/47] hook: expose the entry point to a native harness under
 cfg(verif_hooks)

---
 crates/wasm-shim/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/wasm-shim/src/lib.rs b/crates/wasm-shim/src/lib.rs
index 4638ff1..a43e380 100644
--- a/crates/wasm-shim/src/lib.rs
+++ b/crates/wasm-shim/src/lib.rs
@@ -32,3 +32,10 @@ extern "C" fn start() {
         Box::new(FilterRoot::new(context_id))
     });
 }
+
+// Lets a harness that links this crate natively run the module's entry point.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+pub fn verif_start() {
+    start();
+}
-- 
2.43.0


From b11f1441d0a56214ee027250f92f62d362bc78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 02/47] fix: enforce a service's failure mode on calls that had
 to wait for their inputs

A task that was requeued lost its FailureModeTask wrapper, so a later failure of
a 'failureMode: deny' service was only logged and the request went through.
---
 .../kuadrant-filter/src/kuadrant/context.rs   |  4 +++
 .../kuadrant/pipeline/tasks/failure_mode.rs   | 32 ++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2906266..3c332ef 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -474,6 +474,10 @@ impl BodyContext {
         self.end_of_stream
     }
 
+    pub fn has_started(&self) -> bool {
+        self.buffer_size > 0 || self.end_of_stream
+    }
+
     pub fn set_buffer_size(&mut self, size: usize, end_of_stream: bool) {
         self.buffer_size = size;
         self.end_of_stream = end_of_stream;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..dcada98 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -7,17 +7,28 @@ use crate::metrics::METRICS;
 pub struct FailureModeTask {
     task: Box<dyn Task>,
     abort: bool,
+    requeued: bool,
 }
 
 impl FailureModeTask {
     pub fn new(task: Box<dyn Task>, abort: bool) -> Self {
-        Self { task, abort }
+        Self {
+            task,
+            abort,
+            requeued: false,
+        }
     }
 }
 
 impl Task for FailureModeTask {
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        let task_id = self.task.id().to_string();
         match self.task.apply(ctx) {
+            // A task that had to wait and only fails once the response is being
+            // delivered can't change the outcome of the request anymore
+            TaskOutcome::Failed if self.requeued && ctx.response_body.has_started() => {
+                TaskOutcome::Failed
+            }
             TaskOutcome::Failed => {
                 METRICS.errors().increment();
                 if self.abort {
@@ -33,8 +44,27 @@ impl Task for FailureModeTask {
                 pending: Box::new(FailureModeTask {
                     task: pending,
                     abort: self.abort,
+                    requeued: self.requeued,
                 }),
             },
+            // The task itself is still waiting for its inputs: keep enforcing its failure
+            // mode. Any other task is a new one, e.g. the `onReply` actions
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| {
+                        if task.id() == task_id {
+                            Box::new(FailureModeTask {
+                                task,
+                                abort: self.abort,
+                                requeued: true,
+                            }) as Box<dyn Task>
+                        } else {
+                            task
+                        }
+                    })
+                    .collect(),
+            ),
             outcome => outcome,
         }
     }
-- 
2.43.0


From 649fc592419d357b0133b27cdb2074c6ab0ad95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 03/47] fix: apply the failure mode of services called from
 onReply actions

Only top level gRPC actions were wrapped, a failing call made from an onReply
action to a 'failureMode: deny' service let the request through.
---
 .../src/kuadrant/pipeline/blueprint.rs               | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..02c74d2 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -81,7 +81,7 @@ impl Action {
                     | ServiceInstance::RateLimit(dynamic_service)
                     | ServiceInstance::RateLimitCheck(dynamic_service)
                     | ServiceInstance::RateLimitReport(dynamic_service) => {
-                        Some(Box::new(DynamicTask::new_with_attributes(
+                        let task = DynamicTask::new_with_attributes(
                             ctx,
                             self.id.clone(),
                             Arc::clone(dynamic_service),
@@ -91,6 +91,12 @@ impl Action {
                             self.predicate.clone(),
                             self.dependencies.clone(),
                             self.is_guard,
+                        );
+                        let abort_on_failure =
+                            service.failure_mode() == configuration::FailureMode::Deny;
+                        Some(Box::new(FailureModeTask::new(
+                            Box::new(task),
+                            abort_on_failure,
                         )))
                     }
                     ServiceInstance::Tracing(_) => {
@@ -410,10 +416,6 @@ impl Blueprint {
                         }
 
                         if let Some(mut task) = action.to_core_task(ctx) {
-                            let abort_on_failure =
-                                service.failure_mode() == configuration::FailureMode::Deny;
-                            task = Box::new(FailureModeTask::new(task, abort_on_failure));
-
                             if tracing_enabled {
                                 task = Box::new(TracingDecoratorTask::new(
                                     label.clone(),
-- 
2.43.0


From 551db343529ae8f7732c65e670229df21efe294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 04/47] fix: keep the guard flag of decorated tasks

When a pipeline terminates, the pending calls are replaced by no-ops that lower
the barrier for guards only; the decorators hid the flag so the barrier stayed
up forever and a stream in its response phase was never resumed.
---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index dcada98..3c74529 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -76,4 +76,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From 0b6a59819e85f92aa15c1de8ede3c27f128d7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 05/47] fix: don't hold the end of a response without a call to
 wait for

A task still waiting for a value that never comes kept the pipeline in progress,
and the last chunk of the response was paused with nothing left to resume it.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 4 ++++
 crates/wasm-shim/src/filter/kuadrant_filter.rs           | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..b3ba5c3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -66,6 +66,10 @@ impl Pipeline {
         self.terminated
     }
 
+    pub fn has_pending_calls(&self) -> bool {
+        self.deferred_tasks.is_empty().not()
+    }
+
     fn replace_deferred_with_noop(&mut self) {
         // map existing deferred tasks to no-op consumers
         let deferred = std::mem::take(&mut self.deferred_tasks);
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0c7d284..e8fc07a 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -206,8 +206,11 @@ impl HttpContext for KuadrantFilter {
             trace!("on_http_response_body: pause");
             Action::Pause
         } else {
-            if self.pipeline.is_some() && end_of_stream {
-                trace!("on_http_response_body: pipeline is some, pause");
+            // Hold the end of the response only if there is an answer to wait for: no other
+            // event would resume the stream
+            let pending_calls = self.pipeline.as_ref().is_some_and(|p| p.has_pending_calls());
+            if pending_calls && end_of_stream {
+                trace!("on_http_response_body: calls are pending, pause");
                 self.force_resume = true;
                 Action::Pause
             } else {
-- 
2.43.0


From 00f52f03afabb9056e20407940ab43456d833a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 06/47] fix: honour sequential execution for every kind of
 action

Only gRPC actions looked at their dependencies: a deny, headers, store or fail
action ran before the sequential action it has to wait for. A failed action is
over as well, so it doesn't hold back the ones ordered after it.
---
 .../src/kuadrant/pipeline/blueprint.rs        |  9 +++--
 .../src/kuadrant/pipeline/executor.rs         |  3 ++
 .../src/kuadrant/pipeline/tasks/fenced.rs     | 38 +++++++++++++++++++
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 +
 4 files changed, 49 insertions(+), 3 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fenced.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 02c74d2..bff88d9 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, Task,
-    TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, FencedTask, HeadersType, ModifyHeadersTask,
+    Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -429,7 +429,10 @@ impl Blueprint {
                     }
                 },
                 _ => {
-                    if let Some(task) = action.to_core_task(ctx) {
+                    if let Some(mut task) = action.to_core_task(ctx) {
+                        if !action.dependencies.is_empty() {
+                            task = Box::new(FencedTask::new(task, action.dependencies.clone()));
+                        }
                         tasks.push(task);
                     }
                 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index b3ba5c3..f458b88 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -136,6 +136,8 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    // it's over: tasks ordered after this one aren't held back
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -197,6 +199,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fenced.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fenced.rs
new file mode 100644
index 0000000..7a06e15
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fenced.rs
@@ -0,0 +1,38 @@
+use crate::kuadrant::{
+    pipeline::tasks::{Task, TaskOutcome},
+    ReqRespCtx,
+};
+
+/// Makes a task wait for the completion of others before it runs
+pub struct FencedTask {
+    task: Box<dyn Task>,
+    dependencies: Vec<String>,
+}
+
+impl FencedTask {
+    pub fn new(task: Box<dyn Task>, dependencies: Vec<String>) -> Self {
+        Self { task, dependencies }
+    }
+}
+
+impl Task for FencedTask {
+    fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        self.task.apply(ctx)
+    }
+
+    fn id(&self) -> &str {
+        self.task.id()
+    }
+
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
+
+    fn cel_types(&self) -> Vec<cel::StructDef> {
+        self.task.cel_types()
+    }
+}
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 4a73471..0d4af17 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -2,6 +2,7 @@ mod dynamic;
 mod export_traces;
 mod fail;
 mod failure_mode;
+mod fenced;
 mod headers;
 mod send_reply;
 mod store;
@@ -12,6 +13,7 @@ pub use dynamic::DynamicTask;
 pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
+pub use fenced::FencedTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
 pub use send_reply::SendReplyTask;
 pub use store::StoreTask;
-- 
2.43.0


From f28b6365d48221ee421b4e8e6a397347b8490a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 07/47] fix: count characters in the CEL indexOf and
 lastIndexOf functions

They took and returned byte offsets, unlike charAt and substring: an offset
within a multi-byte character panicked, and lastIndexOf with a position searched
forward from it and returned an offset relative to it.
---
 .../kuadrant-filter/src/data/cel/strings.rs   | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index e86416b..effad64 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -12,6 +12,11 @@ pub fn char_at(This(this): This<Arc<String>>, arg: i64) -> ResolveResult {
     }
 }
 
+/// Positions are in characters, as for `charAt` and `substring`
+fn chars_until(this: &str, byte_idx: usize) -> usize {
+    this[..byte_idx].chars().count()
+}
+
 pub fn index_of(
     This(this): This<Arc<String>>,
     arg: Arc<String>,
@@ -20,7 +25,7 @@ pub fn index_of(
     match args.len() {
         1 => match this.find(&*arg) {
             None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
+            Some(idx) => Ok((chars_until(&this, idx) as u64).into()),
         },
         2 => {
             let base = match args[1] {
@@ -36,12 +41,12 @@ pub fn index_of(
                     })
                 }
             };
-            if base >= this.len() {
+            let Some((start, _)) = this.char_indices().nth(base) else {
                 return Ok((-1).into());
-            }
-            match this[base..].find(&*arg) {
+            };
+            match this[start..].find(&*arg) {
                 None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt((base + idx) as u64)),
+                Some(idx) => Ok(Value::UInt(chars_until(&this, start + idx) as u64)),
             }
         }
         _ => Err(ExecutionError::FunctionError {
@@ -59,7 +64,7 @@ pub fn last_index_of(
     match args.len() {
         1 => match this.rfind(&*arg) {
             None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
+            Some(idx) => Ok((chars_until(&this, idx) as u64).into()),
         },
         2 => {
             let base = match args[1] {
@@ -75,12 +80,17 @@ pub fn last_index_of(
                     })
                 }
             };
-            if base >= this.len() {
+            let Some((start, _)) = this.char_indices().nth(base) else {
                 return Ok((-1).into());
+            };
+            // `base` is the last index considered as the beginning of a match
+            let mut end = this.len().min(start + arg.len());
+            while !this.is_char_boundary(end) {
+                end -= 1;
             }
-            match this[base..].rfind(&*arg) {
+            match this[..end].rfind(&*arg) {
                 None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(idx as u64)),
+                Some(idx) => Ok(Value::UInt(chars_until(&this, idx) as u64)),
             }
         }
         _ => Err(ExecutionError::FunctionError {
-- 
2.43.0


From 3b27e5ccaec313a2ddd0d988c8625fee306c75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 08/47] fix: keep IPv6 addresses whole in source.remote_address

The port was cut at the first colon, so every IPv6 client got the first group of
its address as its remote address, and unrelated clients shared a limit.
---
 crates/kuadrant-filter/src/kuadrant/context.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 3c332ef..0ef99f0 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -2,6 +2,7 @@ use cel::{Context, Env, Value};
 use std::cell::OnceCell;
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::net::{Ipv6Addr, SocketAddr};
 use std::sync::{Arc, Mutex};
 use tracing::{debug, error, warn};
 
@@ -237,8 +238,16 @@ impl ReqRespCtx {
         match self.backend.get_attribute(&"source.address".into()) {
             Ok(Some(host_vec)) => match String::from_utf8(host_vec) {
                 Ok(source_address) => {
-                    let split_address = source_address.split(':').collect::<Vec<_>>();
-                    Ok(Some(split_address[0].as_bytes().to_vec()))
+                    // an IPv6 address has colons of its own: `[::1]:8080`, or `::1` without port
+                    let address = match source_address.parse::<SocketAddr>() {
+                        Ok(SocketAddr::V6(v6)) => v6.ip().to_string(),
+                        _ if source_address.parse::<Ipv6Addr>().is_ok() => source_address,
+                        _ => source_address
+                            .split_once(':')
+                            .map_or(source_address.as_str(), |(address, _)| address)
+                            .to_string(),
+                    };
+                    Ok(Some(address.into_bytes()))
                 }
                 Err(_) => Err(AttributeError::Parse(
                     "source.address not valid UTF-8".to_string(),
-- 
2.43.0


From 660c077644b954171fcbaea241775e31b1e018f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 09/47] fix: escape the request id rendered by the
 httpHeaderIdentifier

An x-request-id with a quote or a backslash made the generated CEL invalid, and
parsing it panicked; any client could abort the filter.
---
 .../kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index bff88d9..a898f2f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -103,10 +103,14 @@ impl Action {
                         ctx.set_public_tracker_id(var.clone());
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
+                        // both are rendered as escaped literals, the request id is up to the client
                         #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::new(&format!(
+                            "[[{}, {}]]",
+                            serde_json::Value::from(var.as_str()),
+                            serde_json::Value::from(ctx.request_id())
+                        ))
+                        .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
-- 
2.43.0


From 6d477ea8e51657438c05f7d3df6b80f26895779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 10/47] fix: read every byte of a body once

The body readers assumed a different buffer than the one they get: a stored value
lost all chunks but the first when the proxy passed the body on, and the token usage
was fed the chunks held so far again with every further one.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 21 +++++++++++++++++-
 .../src/kuadrant/pipeline/tasks/store.rs      | 22 +++++++++++--------
 .../pipeline/tasks/store/body_parser.rs       |  1 +
 .../kuadrant/pipeline/tasks/token_usage.rs    | 13 +++++++++--
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 13 +++++++++++
 5 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 0ef99f0..a89f914 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -469,6 +469,8 @@ impl Barrier {
 
 #[derive(Default)]
 pub struct BodyContext {
+    /// bytes of the body the proxy has already passed on, ahead of the current buffer
+    passed_on: usize,
     buffer_size: usize,
     end_of_stream: bool,
     values: HashMap<String, Value>,
@@ -484,7 +486,24 @@ impl BodyContext {
     }
 
     pub fn has_started(&self) -> bool {
-        self.buffer_size > 0 || self.end_of_stream
+        self.passed_on > 0 || self.buffer_size > 0 || self.end_of_stream
+    }
+
+    /// Total number of bytes of the body seen so far
+    pub fn bytes_seen(&self) -> usize {
+        self.passed_on + self.buffer_size
+    }
+
+    /// Where in the current buffer to resume reading from after `consumed` bytes of the body.
+    /// None if bytes not consumed yet are gone
+    pub fn buffer_position(&self, consumed: usize) -> Option<usize> {
+        consumed.checked_sub(self.passed_on)
+    }
+
+    /// The proxy lets go of the current buffer: the next one starts after it
+    pub fn pass_on(&mut self) {
+        self.passed_on += self.buffer_size;
+        self.buffer_size = 0;
     }
 
     pub fn set_buffer_size(&mut self, size: usize, end_of_stream: bool) {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..4865a3c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -35,6 +35,7 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_parse_state: BodyParseState,
+    body_bytes_consumed: usize,
     _reservation: PathReservation,
 }
 
@@ -58,6 +59,7 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_parse_state,
+            body_bytes_consumed: 0,
             _reservation: reservation,
         })
     }
@@ -151,19 +153,20 @@ impl Task for StoreTask {
                 BodySource::Response => &ctx.response_body,
             };
 
-            if body_ctx.buffer_size() == 0 && !body_ctx.is_end_of_stream() {
+            if !body_ctx.has_started() {
                 return TaskOutcome::Requeued(vec![self]);
             }
 
-            if body_ctx.buffer_size() > parser.bytes_consumed() {
-                let bytes_to_read = body_ctx.buffer_size() - parser.bytes_consumed();
+            let bytes_seen = body_ctx.bytes_seen();
+            if bytes_seen > self.body_bytes_consumed {
+                let Some(start) = body_ctx.buffer_position(self.body_bytes_consumed) else {
+                    error!("Body already passed on, can't read it for '{}'", self.path);
+                    return TaskOutcome::Failed;
+                };
+                let bytes_to_read = body_ctx.buffer_size() - start;
                 let chunk = match source {
-                    BodySource::Request => {
-                        ctx.get_http_request_body(parser.bytes_consumed(), bytes_to_read)
-                    }
-                    BodySource::Response => {
-                        ctx.get_http_response_body(parser.bytes_consumed(), bytes_to_read)
-                    }
+                    BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
+                    BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
                 };
 
                 let chunk_bytes = match chunk {
@@ -181,6 +184,7 @@ impl Task for StoreTask {
                     }
                 };
 
+                self.body_bytes_consumed = bytes_seen;
                 if let Err(e) = parser.feed(&chunk_bytes) {
                     error!("Failed to parse body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index bf07e54..cb48259 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -8,6 +8,7 @@ pub(super) trait BodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
     fn populate(&self, body_ctx: &mut BodyContext);
+    #[cfg_attr(not(test), allow(dead_code))]
     fn bytes_consumed(&self) -> usize;
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 35ff962..c75d5b7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -10,6 +10,7 @@ use tracing::{debug, error, warn};
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     expected_response_fields: Vec<String>,
+    bytes_consumed: usize,
 }
 
 impl TokenUsageTask {
@@ -22,6 +23,7 @@ impl TokenUsageTask {
         Self {
             strategy: None,
             expected_response_fields,
+            bytes_consumed: 0,
         }
     }
 }
@@ -31,6 +33,7 @@ impl From<Box<Self>> for TokenUsageTask {
         Self {
             strategy: value.strategy,
             expected_response_fields: value.expected_response_fields,
+            bytes_consumed: value.bytes_consumed,
         }
     }
 }
@@ -64,10 +67,16 @@ impl Task for TokenUsageTask {
             }
         };
 
-        if ctx.response_body.buffer_size() > 0 {
-            match ctx.get_http_response_body(0, ctx.response_body.buffer_size()) {
+        let bytes_seen = ctx.response_body.bytes_seen();
+        if bytes_seen > task.bytes_consumed {
+            let start = ctx
+                .response_body
+                .buffer_position(task.bytes_consumed)
+                .unwrap_or(0);
+            match ctx.get_http_response_body(start, ctx.response_body.buffer_size() - start) {
                 Ok(AttributeState::Available(Some(bytes))) => {
                     strategy.feed_buffer(bytes);
+                    task.bytes_consumed = bytes_seen;
                 }
                 Ok(AttributeState::Available(None)) => {
                     debug!("No buffer available");
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index e8fc07a..df79fec 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -66,6 +66,13 @@ impl Context for KuadrantFilter {
             };
 
             if should_resume {
+                if let Some(pipeline) = self.pipeline.as_mut() {
+                    if self.in_response_phase {
+                        pipeline.ctx.response_body.pass_on();
+                    } else {
+                        pipeline.ctx.request_body.pass_on();
+                    }
+                }
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
                     self.resume_http_response()
@@ -158,6 +165,9 @@ impl HttpContext for KuadrantFilter {
             trace!("on_http_request_body: pause");
             Action::Pause
         } else {
+            if let Some(pipeline) = self.pipeline.as_mut() {
+                pipeline.ctx.request_body.pass_on();
+            }
             trace!("on_http_request_body: continue");
             Action::Continue
         }
@@ -214,6 +224,9 @@ impl HttpContext for KuadrantFilter {
                 self.force_resume = true;
                 Action::Pause
             } else {
+                if let Some(pipeline) = self.pipeline.as_mut() {
+                    pipeline.ctx.response_body.pass_on();
+                }
                 trace!("on_http_response_body: continue");
                 Action::Continue
             }
-- 
2.43.0


From c8ef559422f1bc1a7d8d992b2270a341bcbd7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 11/47] fix: default the failure mode of a service to deny

---
 crates/kuadrant-filter/src/configuration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 90cff37..78d7c5d 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -242,6 +242,7 @@ pub struct Service {
     pub service_type: ServiceType,
     pub endpoint: String,
     // Deny/Allow request when faced with an irrecoverable failure.
+    #[serde(default)]
     pub failure_mode: FailureMode,
     #[serde(default)]
     pub timeout: Timeout,
-- 
2.43.0


From c5c653324de345e9504c3ebee03b0d8436dbae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 12/47] fix: replace headers whatever the case of their name

---
 crates/kuadrant-filter/src/data/headers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/headers.rs b/crates/kuadrant-filter/src/data/headers.rs
index 53554ca..ea28d91 100644
--- a/crates/kuadrant-filter/src/data/headers.rs
+++ b/crates/kuadrant-filter/src/data/headers.rs
@@ -14,12 +14,13 @@ impl Headers {
     }
 
     pub fn set(&mut self, key: String, value: String) {
-        self.0.retain(|(k, _)| k != &key);
+        self.remove(&key);
         self.0.push((key, value));
     }
 
     pub fn remove(&mut self, key: &str) {
-        self.0.retain(|(k, _)| k != key);
+        // header names are case-insensitive
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
     }
 
     pub fn get_all(&self, key: &str) -> Vec<&str> {
-- 
2.43.0


From 27921936fa289fe46eeae31d9d1ce0323f8978f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 13/47] fix: deny with the default reply when the configured
 one can't be built

---
 .../src/kuadrant/pipeline/tasks/send_reply.rs  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..3d8d14d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -47,6 +47,16 @@ impl SendReplyTask {
             terminal: false,
         }
     }
+
+    /// The reply can't be built: a request that is to be denied is denied without it.
+    fn without_reply(&self) -> TaskOutcome {
+        if self.terminal {
+            METRICS.errors().increment();
+            TaskOutcome::Terminate(Box::new(SendReplyTask::default()))
+        } else {
+            TaskOutcome::Failed
+        }
+    }
 }
 
 impl Task for SendReplyTask {
@@ -79,12 +89,12 @@ impl Task for SendReplyTask {
             match self.deny_with.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
                     error!("Unexpected pending state in deny expression");
-                    return TaskOutcome::Failed;
+                    return self.without_reply();
                 }
                 Ok(AttributeState::Available(val @ Value::Struct(_))) => {
                     let Value::Struct(deny_response) = val else {
                         error!("Invalid DenyResponse: {val:?}");
-                        return TaskOutcome::Failed;
+                        return self.without_reply();
                     };
 
                     let status = deny_response
@@ -107,11 +117,11 @@ impl Task for SendReplyTask {
                 }
                 Ok(AttributeState::Available(other)) => {
                     error!("denyWith must return DenyResponse, got: {other:?}");
-                    return TaskOutcome::Failed;
+                    return self.without_reply();
                 }
                 Err(e) => {
                     error!("Failed to evaluate denyWith expression: {e}");
-                    return TaskOutcome::Failed;
+                    return self.without_reply();
                 }
             }
         };
-- 
2.43.0


From 3bd2d0030156b8565f26d69a5508f2423dbe9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 14/47] fix: decode JSON strings read from request and response
 bodies

A string in a body was taken for the number, boolean or null it spells
("123", "true", "nan"), and its escape sequences were left encoded,
so that predicates on it could be sidestepped.
---
 .../pipeline/tasks/store/json_body_parser.rs  | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 748a78b..0a702aa 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -1,5 +1,4 @@
 use std::collections::HashMap;
-use std::collections::HashSet;
 use std::sync::{Arc, Mutex};
 
 use cel::Value;
@@ -13,7 +12,8 @@ pub(crate) struct JsonBodyParser {
     fields: Vec<String>,
     parser: Option<acutejson::Parser>,
     buffers: Arc<Mutex<HashMap<String, Vec<u8>>>>,
-    matched: Arc<Mutex<HashSet<String>>>,
+    /// fields found in the body, and whether their value is a string
+    matched: Arc<Mutex<HashMap<String, bool>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
@@ -22,7 +22,7 @@ pub(crate) struct JsonBodyParser {
 impl JsonBodyParser {
     pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
         let buffers: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::new(Mutex::new(HashMap::new()));
-        let matched: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
+        let matched: Arc<Mutex<HashMap<String, bool>>> = Arc::new(Mutex::new(HashMap::new()));
         let results: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::clone(&buffers);
 
         let mut builder = acutejson::Builder::new();
@@ -35,11 +35,12 @@ impl JsonBodyParser {
                 .unwrap_or_else(|e| e.into_inner())
                 .insert(field_name.clone(), Vec::new());
 
-            builder = match builder.register(field, move |bytes, _is_complete| {
+            builder = match builder.register(field, move |bytes, is_complete| {
                 field_matched
                     .lock()
                     .unwrap_or_else(|e| e.into_inner())
-                    .insert(field_name.clone());
+                    // only strings end with an empty slice, on their closing quote
+                    .insert(field_name.clone(), is_complete && bytes.is_empty());
                 let mut bufs = field_buffers.lock().unwrap_or_else(|e| e.into_inner());
                 if let Some(buf) = bufs.get_mut(&field_name) {
                     buf.extend_from_slice(bytes);
@@ -72,11 +73,22 @@ impl JsonBodyParser {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
         for (field, raw_bytes) in buffers.iter() {
-            if matched.contains(field) {
+            if let Some(is_string) = matched.get(field) {
                 let raw_value = std::str::from_utf8(raw_bytes).map_err(|e| {
                     AttributeError::Parse(format!("Body field '{field}' is not valid UTF-8: {e}"))
                 })?;
-                let value = parse_json_scalar(raw_value);
+                let value = if *is_string {
+                    // escape sequences are passed on as is by the parser
+                    let decoded: String = serde_json::from_str(&format!("\"{raw_value}\""))
+                        .map_err(|e| {
+                            AttributeError::Parse(format!(
+                                "Body field '{field}' is not a valid JSON string: {e}"
+                            ))
+                        })?;
+                    Value::String(Arc::new(decoded))
+                } else {
+                    parse_json_scalar(raw_value)
+                };
                 self.extracted.insert(field.clone(), value);
             }
         }
-- 
2.43.0


From b2f3fe972a5a8c53bac04bd188ba7a9d6a1aef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 15/47] fix: read event streams whose chunks split a character

A chunk ending in the middle of a multi-byte character was not valid on
its own: the events in it were lost, or the action reading the body failed.
---
 .../kuadrant/pipeline/tasks/store/sse_body_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..6e141fa 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -24,16 +24,26 @@ pub struct Event {
 #[derive(Default)]
 pub struct EventParser {
     buffer: String,
+    /// start of a character the last chunk ended in the middle of
+    partial_char: Vec<u8>,
     event_builder: EventBuilder,
 }
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
+        let mut bytes = std::mem::take(&mut self.partial_char);
+        bytes.extend(chunk_bytes);
+        if let Err(e) = std::str::from_utf8(&bytes) {
+            if e.error_len().is_none() {
+                self.partial_char = bytes.split_off(e.valid_up_to());
+            }
+        }
+
         // taking advantage by the automatic deref coercion.
         // Because String implements Deref<Target=str>,
         // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
         self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+            .push_str(&String::from_utf8(bytes).map_err(|e| e.to_string())?);
 
         let mut events = Vec::default();
 
-- 
2.43.0


From 1ab37016351ceabe50f62b1aaf22ca03431e378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 16/47] fix: read JSON bodies with line breaks in the values
 that are skipped

The streaming parser rejects line breaks and tabs between the tokens of
objects and arrays no pointer goes through: actions reading such a body failed.
---
 .../pipeline/tasks/store/json_body_parser.rs  | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 0a702aa..322f1c4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -17,6 +17,8 @@ pub(crate) struct JsonBodyParser {
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
+    in_string: bool,
+    escaped: bool,
 }
 
 impl JsonBodyParser {
@@ -66,9 +68,31 @@ impl JsonBodyParser {
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
+            in_string: false,
+            escaped: false,
         })
     }
 
+    /// The parser takes no line break or tab between the tokens of the values it skips:
+    /// feed it spaces instead. Those within strings aren't allowed, and left to the parser.
+    fn with_plain_whitespace(&mut self, chunk: &[u8]) -> Vec<u8> {
+        chunk
+            .iter()
+            .map(|&byte| {
+                if self.escaped {
+                    self.escaped = false;
+                } else if byte == b'"' {
+                    self.in_string = !self.in_string;
+                } else if self.in_string {
+                    self.escaped = byte == b'\\';
+                } else if matches!(byte, b'\n' | b'\r' | b'\t') {
+                    return b' ';
+                }
+                byte
+            })
+            .collect()
+    }
+
     fn finalize_extracted(&mut self) -> Result<(), AttributeError> {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
@@ -125,12 +149,13 @@ impl BodyParser for JsonBodyParser {
             return Ok(());
         }
 
+        let chunk = self.with_plain_whitespace(chunk);
         let parser = match self.parser.as_mut() {
             Some(p) => p,
             None => return Err(AttributeError::Parse("Parser not initialized".to_string())),
         };
 
-        match parser.feed(chunk) {
+        match parser.feed(&chunk) {
             Ok(acutejson::Status::Done) => {
                 self.complete = true;
                 self.finalize_extracted()?;
-- 
2.43.0


From f412cb4d70929fa18bef0b3bafea256475790889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 17/47] fix: bind connection attributes in expressions

connection.* are well-known attributes, but any expression on them failed
with an undeclared reference.
---
 crates/kuadrant-filter/src/data/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..43586e4 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -246,7 +246,7 @@ impl Expression {
         }
         cel_ctx.add_variable_from_value("request", request_value);
 
-        for binding in ["metadata", "source", "destination", "auth"] {
+        for binding in ["metadata", "source", "destination", "connection", "auth"] {
             let key: Key = binding.into();
             cel_ctx.add_variable_from_value(binding, map.get(&key).cloned().unwrap_or(Value::Null));
         }
-- 
2.43.0


From 12385d94d9b64d06f59e80899854930cf7b748d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 18/47] fix: refuse map keys of the wrong type instead of
 panicking

---
 .../src/services/dynamic/converters.rs         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..b8fc5e6 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -481,7 +481,14 @@ impl MessageConverter {
         use cel::common::types::CelMapKey;
 
         match cel_key {
-            CelMapKey::Bool(b) => Ok(MapKey::Bool(*b.inner())),
+            CelMapKey::Bool(b) => match key_field.kind() {
+                ProtoKind::Bool => Ok(MapKey::Bool(*b.inner())),
+                _ => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: "bool".to_string(),
+                    got: format!("{:?}", key_field.kind()),
+                }),
+            },
             CelMapKey::Int(i) => {
                 let value = *i.inner();
                 match key_field.kind() {
@@ -510,7 +517,14 @@ impl MessageConverter {
                     }),
                 }
             }
-            CelMapKey::String(s) => Ok(MapKey::String(s.inner().to_string())),
+            CelMapKey::String(s) => match key_field.kind() {
+                ProtoKind::String => Ok(MapKey::String(s.inner().to_string())),
+                _ => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: "string".to_string(),
+                    got: format!("{:?}", key_field.kind()),
+                }),
+            },
         }
     }
 
-- 
2.43.0


From 8785d6ccb4a892f408134ab16d99532cb432e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 19/47] fix: refuse integers that do not fit the message field

---
 .../src/services/dynamic/converters.rs        | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index b8fc5e6..09759ca 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -48,6 +48,14 @@ impl fmt::Display for ConversionError {
 
 impl std::error::Error for ConversionError {}
 
+fn out_of_range(field: &str, kind: &str, value: impl fmt::Display) -> ConversionError {
+    ConversionError::TypeMismatch {
+        field: field.to_string(),
+        expected: format!("value within {} range", kind),
+        got: value.to_string(),
+    }
+}
+
 fn is_map_field(field: &FieldDescriptor) -> bool {
     if field.cardinality() != Cardinality::Repeated {
         return false;
@@ -493,7 +501,9 @@ impl MessageConverter {
                 let value = *i.inner();
                 match key_field.kind() {
                     ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
+                        let key = i32::try_from(value)
+                            .map_err(|_| out_of_range(key_field.name(), "int32", value))?;
+                        Ok(MapKey::I32(key))
                     }
                     ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                         Ok(MapKey::I64(value))
@@ -508,7 +518,11 @@ impl MessageConverter {
             CelMapKey::UInt(u) => {
                 let value = *u.inner();
                 match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
+                    ProtoKind::Uint32 | ProtoKind::Fixed32 => {
+                        let key = u32::try_from(value)
+                            .map_err(|_| out_of_range(key_field.name(), "uint32", value))?;
+                        Ok(MapKey::U32(key))
+                    }
                     ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
                     _ => Err(ConversionError::TypeMismatch {
                         field: key_field.name().to_string(),
@@ -553,7 +567,9 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                let value = i32::try_from(*i.inner())
+                    .map_err(|_| out_of_range(field_name, "int32", i.inner()))?;
+                Ok(ProtoValue::I32(value))
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -573,7 +589,9 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                let value = u32::try_from(*u.inner())
+                    .map_err(|_| out_of_range(field_name, "uint32", u.inner()))?;
+                Ok(ProtoValue::U32(value))
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 96aa301711fa9be8203f16e19d7352d8e0b732c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 20/47] fix: keep a conditional predicate whole when joining
 blocks

---
 crates/kuadrant-filter/src/configuration/legacy_translation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index c7e5dbe..d33eed0 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -191,7 +191,7 @@ pub(super) mod ratelimit {
         let block_predicates: Vec<String> = conditional_data
             .iter()
             .map(|cd| {
-                if cd.predicates.len() == 1 {
+                if cd.predicates.len() == 1 && !cd.predicates[0].contains('?') {
                     cd.predicates[0].clone()
                 } else {
                     format!("({})", join_predicates(&cd.predicates, "&&"))
-- 
2.43.0


From 235d1be459da94c6c09279cac7957a42dadd0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 21/47] fix: ignore descriptors that were not asked for

---
 .../src/filter/descriptor_manager.rs              | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/kuadrant-filter/src/filter/descriptor_manager.rs b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
index 7710a4a..24af320 100644
--- a/crates/kuadrant-filter/src/filter/descriptor_manager.rs
+++ b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
@@ -314,6 +314,16 @@ impl DescriptorManager {
             });
     }
 
+    fn is_pending(&self, key: &DescriptorKey, token_id: u32) -> bool {
+        matches!(
+            self.descriptors
+                .lock()
+                .unwrap_or_else(|e| e.into_inner())
+                .get(key),
+            Some(DescriptorState::Pending(t)) if *t == token_id
+        )
+    }
+
     pub fn handle_response(&self, token_id: u32, response_bytes: Vec<u8>) -> Result<(), String> {
         let has_pending = self
             .descriptors
@@ -344,6 +354,11 @@ impl DescriptorManager {
                 let key = DescriptorKey::new(descriptor.cluster_name, descriptor.service);
                 let fds_bytes = descriptor.file_descriptor_set;
 
+                if !self.is_pending(&key, token_id) {
+                    debug!("Ignoring descriptor for {:?}: not asked for", key);
+                    return None;
+                }
+
                 let result = FileDescriptorSet::decode(fds_bytes.as_slice())
                     .map_err(|e| format!("could not decode FileDescriptorSet for {:?}: {}", key, e))
                     .and_then(|fds| {
-- 
2.43.0


From 548b14e2f25481bccf8147e733aa18705d9bfe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 22/47] fix: keep each request's trace context to itself

---
 .../kuadrant-filter/src/kuadrant/context.rs   | 21 +++++++++++++------
 .../src/kuadrant/pipeline/executor.rs         |  3 +++
 .../kuadrant/pipeline/tasks/export_traces.rs  |  2 +-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index a89f914..656ab00 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -69,7 +69,7 @@ impl ReqRespCtx {
         }
     }
 
-    pub fn enter_request_span(&mut self) {
+    pub fn start_request_span(&mut self) {
         let span = tracing::info_span!(
             "kuadrant_filter",
             action_set = tracing::field::Empty,
@@ -87,12 +87,21 @@ impl ReqRespCtx {
             if let Some(hostname) = &self.tracing.hostname {
                 span.record("hostname", hostname.as_str());
             }
-            self.tracing.request_span_guard = Some(span.entered());
+            self.tracing.request_span = Some(span);
         }
     }
 
+    /// Makes the span of this request the current one for as long as the guard is held, which
+    /// must not outlive the host's call: the next one can be for another request.
+    pub fn enter_request_span(&self) -> Option<tracing::span::EnteredSpan> {
+        self.tracing
+            .request_span
+            .clone()
+            .map(tracing::Span::entered)
+    }
+
     pub fn end_request_span(&mut self) {
-        std::mem::drop(self.tracing.request_span_guard.take());
+        std::mem::drop(self.tracing.request_span.take());
     }
 
     pub fn set_action_set_name(&mut self, name: String) {
@@ -352,7 +361,7 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span_guard.is_some() {
+        let context = if self.tracing.request_span.is_some() {
             &tracing::Span::current().context()
         } else {
             &self.tracing.otel_context
@@ -420,7 +429,7 @@ impl Tracker {
 
 struct TracingContext {
     otel_context: opentelemetry::Context,
-    request_span_guard: Option<tracing::span::EnteredSpan>,
+    request_span: Option<tracing::Span>,
     action_set_name: Option<String>,
     hostname: Option<String>,
 }
@@ -429,7 +438,7 @@ impl Default for TracingContext {
     fn default() -> Self {
         Self {
             otel_context: opentelemetry::Context::new(),
-            request_span_guard: None,
+            request_span: None,
             action_set_name: None,
             hostname: None,
         }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index f458b88..63d0831 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -110,6 +110,7 @@ impl Pipeline {
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
+        let _request_span = self.ctx.enter_request_span();
         for task in tasks {
             if task
                 .dependencies()
@@ -181,6 +182,7 @@ impl Pipeline {
                 Err(err) => error!("Failed to set gRPC response data: {}", err),
             };
             let task_id = pending.id().to_string();
+            let request_span = self.ctx.enter_request_span();
             match pending.apply(&mut self.ctx) {
                 TaskOutcome::Done => {
                     self.completed_tasks.insert(task_id);
@@ -205,6 +207,7 @@ impl Pipeline {
                     terminal_task.apply(&mut self.ctx);
                     self.task_queue.clear();
                     self.terminated = true;
+                    std::mem::drop(request_span);
                     self.execute_teardown();
 
                     return self.eval();
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
index e88cc88..5dd10a4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
@@ -10,7 +10,7 @@ pub struct ExportTracesTask {
 
 impl ExportTracesTask {
     pub fn new(ctx: &mut ReqRespCtx, service: Arc<TracingService>) -> Self {
-        ctx.enter_request_span();
+        ctx.start_request_span();
         Self { service }
     }
 }
-- 
2.43.0


From c79b571e74ccd0260480e68b617ceba96e284f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 23/47] fix: refuse descriptors of an unknown syntax instead of
 panicking

---
 .../kuadrant-filter/src/filter/descriptor_manager.rs  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/kuadrant-filter/src/filter/descriptor_manager.rs b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
index 24af320..5ffd290 100644
--- a/crates/kuadrant-filter/src/filter/descriptor_manager.rs
+++ b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
@@ -362,6 +362,17 @@ impl DescriptorManager {
                 let result = FileDescriptorSet::decode(fds_bytes.as_slice())
                     .map_err(|e| format!("could not decode FileDescriptorSet for {:?}: {}", key, e))
                     .and_then(|fds| {
+                        // prost-reflect panics on a syntax (e.g. editions) it doesn't know
+                        if let Some(file) = fds.file.iter().find(|f| {
+                            !matches!(f.syntax.as_deref(), None | Some("proto2" | "proto3"))
+                        }) {
+                            return Err(format!(
+                                "unsupported syntax {:?} in {:?} of {:?}",
+                                file.syntax(),
+                                file.name(),
+                                key
+                            ));
+                        }
                         DescriptorPool::from_file_descriptor_set(fds).map_err(|e| {
                             format!("could not build DescriptorPool for {:?}: {}", key, e)
                         })
-- 
2.43.0


From 873e507f043c52d86623e8a0476a2a7510d15a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 24/47] fix: return integers from the CEL indexOf and
 lastIndexOf functions

---
 crates/kuadrant-filter/src/data/cel/strings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index effad64..ed7082d 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -25,7 +25,7 @@ pub fn index_of(
     match args.len() {
         1 => match this.find(&*arg) {
             None => Ok((-1).into()),
-            Some(idx) => Ok((chars_until(&this, idx) as u64).into()),
+            Some(idx) => Ok((chars_until(&this, idx) as i64).into()),
         },
         2 => {
             let base = match args[1] {
@@ -46,7 +46,7 @@ pub fn index_of(
             };
             match this[start..].find(&*arg) {
                 None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(chars_until(&this, start + idx) as u64)),
+                Some(idx) => Ok(Value::Int(chars_until(&this, start + idx) as i64)),
             }
         }
         _ => Err(ExecutionError::FunctionError {
@@ -64,7 +64,7 @@ pub fn last_index_of(
     match args.len() {
         1 => match this.rfind(&*arg) {
             None => Ok((-1).into()),
-            Some(idx) => Ok((chars_until(&this, idx) as u64).into()),
+            Some(idx) => Ok((chars_until(&this, idx) as i64).into()),
         },
         2 => {
             let base = match args[1] {
@@ -90,7 +90,7 @@ pub fn last_index_of(
             }
             match this[..end].rfind(&*arg) {
                 None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(chars_until(&this, idx) as u64)),
+                Some(idx) => Ok(Value::Int(chars_until(&this, idx) as i64)),
             }
         }
         _ => Err(ExecutionError::FunctionError {
-- 
2.43.0


From ddf8147055c5c58ee499a7c237f28315c4d0a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 25/47] fix: fail on JSON bodies that end within an object or
 array

---
 .../pipeline/tasks/store/json_body_parser.rs   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 322f1c4..21587c5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -19,6 +19,8 @@ pub(crate) struct JsonBodyParser {
     complete: bool,
     in_string: bool,
     escaped: bool,
+    /// objects and arrays begun, but not ended yet
+    depth: usize,
 }
 
 impl JsonBodyParser {
@@ -70,6 +72,7 @@ impl JsonBodyParser {
             complete: false,
             in_string: false,
             escaped: false,
+            depth: 0,
         })
     }
 
@@ -85,8 +88,13 @@ impl JsonBodyParser {
                     self.in_string = !self.in_string;
                 } else if self.in_string {
                     self.escaped = byte == b'\\';
-                } else if matches!(byte, b'\n' | b'\r' | b'\t') {
-                    return b' ';
+                } else {
+                    match byte {
+                        b'\n' | b'\r' | b'\t' => return b' ',
+                        b'{' | b'[' => self.depth += 1,
+                        b'}' | b']' => self.depth = self.depth.saturating_sub(1),
+                        _ => {}
+                    }
                 }
                 byte
             })
@@ -126,6 +134,12 @@ impl BodyParser for JsonBodyParser {
     }
 
     fn finalize(&mut self) -> Result<(), AttributeError> {
+        // the parser takes the end of the body for the end of a number
+        if !self.complete && self.depth > 0 {
+            return Err(AttributeError::Parse(
+                "JSON finalize error: unexpected end of body".to_string(),
+            ));
+        }
         if let Some(ref mut parser) = self.parser {
             parser
                 .finish()
-- 
2.43.0


From acd434ab54b4cbed83495025a43b6920ec4fdc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 26/47] fix: keep tracing as it is when a configuration is
 rejected

---
 crates/wasm-shim/src/filter/root_context.rs | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index b2ae6e7..14b3fda 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -1,7 +1,7 @@
 use super::kuadrant_filter::KuadrantFilter;
 use crate::{WASM_SHIM_FEATURES, WASM_SHIM_GIT_HASH, WASM_SHIM_PROFILE, WASM_SHIM_VERSION};
 use const_format::formatcp;
-use kuadrant_filter::configuration::PluginConfiguration;
+use kuadrant_filter::configuration::{Observability, PluginConfiguration};
 use kuadrant_filter::filter::DescriptorManager;
 use kuadrant_filter::kuadrant::PipelineFactory;
 use kuadrant_filter::metrics::METRICS;
@@ -18,6 +18,8 @@ pub struct FilterRoot {
     pub pipeline_factory: Arc<PipelineFactory>,
     pub descriptor_manager: Arc<DescriptorManager>,
     tick_enabled: bool,
+    /// of the configuration in force
+    observability: Option<Observability>,
 }
 
 impl FilterRoot {
@@ -27,9 +29,18 @@ impl FilterRoot {
             pipeline_factory: Arc::new(PipelineFactory::default()),
             descriptor_manager: Arc::new(DescriptorManager::default()),
             tick_enabled: false,
+            observability: None,
         }
     }
 
+    fn init_observability(observability: &Observability) {
+        kuadrant_filter::tracing::init_observability(
+            observability.tracing.is_some(),
+            observability.default_level.as_deref(),
+            crate::wasm_host::current_log_filter(),
+        );
+    }
+
     fn set_tick_enabled(&mut self, enable: bool) {
         if enable && !self.tick_enabled {
             if let Err(e) = self.set_tick_period(self.descriptor_manager.tick_period()) {
@@ -142,15 +153,17 @@ impl RootContext for FilterRoot {
         };
         match serde_json::from_slice::<PluginConfiguration>(&configuration) {
             Ok(config) => {
-                let use_tracing_exporter = config.observability.tracing.is_some();
-                kuadrant_filter::tracing::init_observability(
-                    use_tracing_exporter,
-                    config.observability.default_level.as_deref(),
-                    crate::wasm_host::current_log_filter(),
-                );
+                let observability = config.observability.clone();
+                Self::init_observability(&observability);
 
                 info!("plugin config parsed: {:?}", config);
-                self.process_config(config)
+                let accepted = self.process_config(config);
+                if accepted {
+                    self.observability = Some(observability);
+                } else if let Some(in_force) = &self.observability {
+                    Self::init_observability(in_force);
+                }
+                accepted
             }
             Err(e) => {
                 log::error!("failed to parse plugin config: {}", e);
-- 
2.43.0


From 1de8e24470b13cfde3f3fdb4c1529182c88b1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 27/47] fix: ask only for the descriptors of the configuration
 in force

---
 .../src/filter/descriptor_manager.rs          | 23 ++++++++++++++++++-
 crates/wasm-shim/src/filter/root_context.rs   | 11 ++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/filter/descriptor_manager.rs b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
index 5ffd290..3f5b808 100644
--- a/crates/kuadrant-filter/src/filter/descriptor_manager.rs
+++ b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
@@ -6,7 +6,7 @@ use prost::Message;
 use prost_reflect::DescriptorPool;
 use prost_types::FileDescriptorSet;
 use std::collections::hash_map::DefaultHasher;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::{Hash, Hasher};
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
@@ -65,6 +65,8 @@ pub struct DescriptorManager {
     embedded: Mutex<HashMap<String, u64>>,
     descriptors: Mutex<HashMap<DescriptorKey, DescriptorState>>,
     descriptor_service: Mutex<Option<String>>,
+    /// services of the configuration in force, once there is one
+    in_force: Mutex<Option<HashSet<DescriptorKey>>>,
 }
 
 impl Default for DescriptorManager {
@@ -74,6 +76,7 @@ impl Default for DescriptorManager {
             embedded: Default::default(),
             descriptors: Default::default(),
             descriptor_service: Default::default(),
+            in_force: Default::default(),
         };
 
         match embedded_descriptors::get_ratelimit_pool() {
@@ -134,6 +137,23 @@ impl DescriptorManager {
             .or_insert(initial_state);
     }
 
+    /// From now on, only the descriptors of these services are worth fetching
+    pub fn set_in_force(&self, services: HashSet<DescriptorKey>) {
+        *self.in_force.lock().unwrap_or_else(|e| e.into_inner()) = Some(services);
+    }
+
+    /// Forgets missing descriptors that only a rejected or a former configuration asks for
+    fn forget_unused(&self) {
+        if let Some(in_force) = &*self.in_force.lock().unwrap_or_else(|e| e.into_inner()) {
+            self.descriptors
+                .lock()
+                .unwrap_or_else(|e| e.into_inner())
+                .retain(|key, state| {
+                    !matches!(state, DescriptorState::Missing) || in_force.contains(key)
+                });
+        }
+    }
+
     pub fn has_expected(&self) -> bool {
         self.descriptors
             .lock()
@@ -242,6 +262,7 @@ impl DescriptorManager {
     }
 
     pub fn fetch_missing(&self, ctx: &dyn AttributeResolver) -> Result<(), String> {
+        self.forget_unused();
         let missing = self.get_missing();
 
         if missing.is_empty() {
diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index 14b3fda..5eb22d6 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -2,7 +2,7 @@ use super::kuadrant_filter::KuadrantFilter;
 use crate::{WASM_SHIM_FEATURES, WASM_SHIM_GIT_HASH, WASM_SHIM_PROFILE, WASM_SHIM_VERSION};
 use const_format::formatcp;
 use kuadrant_filter::configuration::{Observability, PluginConfiguration};
-use kuadrant_filter::filter::DescriptorManager;
+use kuadrant_filter::filter::{DescriptorKey, DescriptorManager};
 use kuadrant_filter::kuadrant::PipelineFactory;
 use kuadrant_filter::metrics::METRICS;
 use proxy_wasm::traits::{Context, HttpContext, RootContext};
@@ -59,6 +59,14 @@ impl FilterRoot {
 
     fn process_config(&mut self, config: PluginConfiguration) -> bool {
         let descriptor_service = config.descriptor_service.clone();
+        let services = config
+            .services
+            .values()
+            .filter_map(|service| {
+                let grpc_service = service.grpc_service.clone()?;
+                Some(DescriptorKey::new(service.endpoint.clone(), grpc_service))
+            })
+            .collect();
 
         let factory = match PipelineFactory::try_from(config, &self.descriptor_manager) {
             Ok(f) => f,
@@ -71,6 +79,7 @@ impl FilterRoot {
         self.pipeline_factory = Arc::new(factory);
         self.descriptor_manager
             .set_descriptor_service(&descriptor_service);
+        self.descriptor_manager.set_in_force(services);
 
         let has_dynamic_services = self.descriptor_manager.has_expected();
         if has_dynamic_services {
-- 
2.43.0


From c352bd780d397d2c61961ec46c6152eec306ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 28/47] fix: end the body with the headers or trailers that end
 the message

A request without a body, or one whose body is followed by trailers, never
flagged the last part of its body. Actions waiting for the body then waited
for ever: a guard whose inputs can't be evaluated let the request through,
and what the response's body was to report was never sent.
---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index df79fec..cb6d282 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -95,13 +95,17 @@ impl Context for KuadrantFilter {
 }
 
 impl HttpContext for KuadrantFilter {
-    fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_request_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_headers", self.context_id);
 
         #[cfg(feature = "debug-host-behaviour")]
         kuadrant_filter::data::debug_all_well_known_attributes(&crate::wasm_host::ProxyWasmHost);
 
-        let ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
+        let mut ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
+        if end_of_stream {
+            // There is no body to wait for
+            ctx.request_body.set_buffer_size(0, true);
+        }
 
         match self.factory.build(ctx) {
             Ok(Some(pipeline)) => {
@@ -173,6 +177,15 @@ impl HttpContext for KuadrantFilter {
         }
     }
 
+    fn on_http_request_trailers(&mut self, _num_trailers: usize) -> Action {
+        // Trailers end the body: none of its parts was flagged as the last one
+        let held = self
+            .pipeline
+            .as_ref()
+            .map_or(0, |p| p.ctx.request_body.buffer_size());
+        self.on_http_request_body(held, true)
+    }
+
     fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
         METRICS.allowed().increment();
@@ -232,4 +245,12 @@ impl HttpContext for KuadrantFilter {
             }
         }
     }
+
+    fn on_http_response_trailers(&mut self, _num_trailers: usize) -> Action {
+        let held = self
+            .pipeline
+            .as_ref()
+            .map_or(0, |p| p.ctx.response_body.buffer_size());
+        self.on_http_response_body(held, true)
+    }
 }
-- 
2.43.0


From 97a75658b90ac74f346744fe3d9156f603f0ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:57 +0000
Subject: [PATCH 29/47] fix: recognise event streams whatever the letter case
 of their content type

---
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs     | 2 +-
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 4865a3c..8d2f342 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -103,7 +103,7 @@ impl StoreTask {
                 let is_sse = match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => headers
                         .get("content-type")
-                        .is_some_and(|ct| ct.contains("text/event-stream")),
+                        .is_some_and(|ct| ct.to_ascii_lowercase().contains("text/event-stream")),
                     Ok(AttributeState::Available(None)) => false,
                     Ok(AttributeState::Pending) => return Ok(None),
                     Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index c75d5b7..e28fc2b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -125,7 +125,7 @@ impl Task for TokenUsageTask {
 
 fn select_strategy(headers: &Headers) -> Box<dyn ExtractionStrategy> {
     if let Some(ct) = headers.get("content-type") {
-        if ct.contains("text/event-stream") {
+        if ct.to_ascii_lowercase().contains("text/event-stream") {
             Box::new(SseStrategy::new())
         } else {
             Box::new(JsonStrategy::new())
-- 
2.43.0


From 46ff064108088564beea1bed949f2396c1efb24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 30/47] fix: log why a call is given up for want of body fields

---
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
index 13555e1..9b01c82 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
@@ -92,6 +92,7 @@ impl Task for DynamicTask {
                     || (self.predicate.has_response_body_deps()
                         && ctx.response_body.is_end_of_stream())
                 {
+                    error!("Failed to apply predicates: values missing from the body");
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
@@ -123,6 +124,7 @@ impl Task for DynamicTask {
                         || (self.message_builder.has_response_body_deps()
                             && ctx.response_body.is_end_of_stream())
                     {
+                        error!("Failed to evaluate message builder: values missing from the body");
                         TaskOutcome::Failed
                     } else {
                         TaskOutcome::Requeued(vec![self])
-- 
2.43.0


From 55b276655ad86dac93e9933906b51fb09b291fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 31/47] fix: decode event streams as a whole, with replacement
 characters

A chunk with a byte that isn't UTF-8 was dropped entirely, so that the usage was
taken from another event than the last but one, depending on the chunks.
---
 .../pipeline/tasks/store/sse_body_parser.rs    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 6e141fa..224fb5f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -33,18 +33,18 @@ impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
         let mut bytes = std::mem::take(&mut self.partial_char);
         bytes.extend(chunk_bytes);
-        if let Err(e) = std::str::from_utf8(&bytes) {
-            if e.error_len().is_none() {
-                self.partial_char = bytes.split_off(e.valid_up_to());
+        let mut parts = bytes.utf8_chunks().peekable();
+        while let Some(part) = parts.next() {
+            self.buffer.push_str(part.valid());
+            let invalid = part.invalid();
+            let incomplete = std::str::from_utf8(invalid).is_err_and(|e| e.error_len().is_none());
+            if incomplete && parts.peek().is_none() {
+                self.partial_char = invalid.to_vec();
+            } else if !invalid.is_empty() {
+                self.buffer.push(char::REPLACEMENT_CHARACTER);
             }
         }
 
-        // taking advantage by the automatic deref coercion.
-        // Because String implements Deref<Target=str>,
-        // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
-        self.buffer
-            .push_str(&String::from_utf8(bytes).map_err(|e| e.to_string())?);
-
         let mut events = Vec::default();
 
         while let Some(event) = self.parse_one_event()? {
-- 
2.43.0


From 78f60d6197333ba27b2b0eb3e9c0822f77c68b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 32/47] fix: skip the byte order mark of an event stream

It became part of the first line, so that the first event lost its data.
---
 .../src/kuadrant/pipeline/tasks/store/sse_body_parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 224fb5f..a89a51e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -26,6 +26,8 @@ pub struct EventParser {
     buffer: String,
     /// start of a character the last chunk ended in the middle of
     partial_char: Vec<u8>,
+    /// whether the stream's first character, which can be a byte order mark, was seen
+    begun: bool,
     event_builder: EventBuilder,
 }
 
@@ -45,6 +47,13 @@ impl EventParser {
             }
         }
 
+        if !self.begun && !self.buffer.is_empty() {
+            self.begun = true;
+            if self.buffer.starts_with('\u{FEFF}') {
+                self.buffer.remove(0);
+            }
+        }
+
         let mut events = Vec::default();
 
         while let Some(event) = self.parse_one_event()? {
-- 
2.43.0


From 3aa687f97b8b78bfd8ad8904b7a6e3d8e04ba3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 33/47] fix: take a carriage return at the end of an event
 stream for an end of line

The last event of a stream whose lines end with carriage returns was not seen, so
that the usage was taken from the event before.
---
 .../pipeline/tasks/store/sse_body_parser.rs   | 19 +++++++++++++++++++
 .../kuadrant/pipeline/tasks/token_usage.rs    |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index a89a51e..724db67 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -63,6 +63,15 @@ impl EventParser {
         Ok(events)
     }
 
+    /// The stream has ended: a carriage return it ended with is an end of line by itself
+    pub(crate) fn finish(&mut self) -> Result<Vec<Event>, String> {
+        if self.buffer.ends_with('\r') {
+            self.parse(b"\n".to_vec())
+        } else {
+            Ok(Vec::default())
+        }
+    }
+
     fn parse_one_event(&mut self) -> Result<Option<Event>, String> {
         if self.buffer.is_empty() {
             return Ok(None);
@@ -181,6 +190,16 @@ impl BodyParser for SseBodyParser {
 
     fn finalize(&mut self) -> Result<(), AttributeError> {
         self.complete = true;
+
+        let events = self
+            .event_parser
+            .finish()
+            .map_err(|e| AttributeError::Parse(format!("SSE parse error: {e}")))?;
+
+        for event in events {
+            self.push_event(event);
+        }
+
         let penultimate = match &self.last_two_events[1] {
             Some(event) => &event.data,
             None => return Ok(()),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index e28fc2b..8f58fe9 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -174,6 +174,9 @@ impl ExtractionStrategy for SseStrategy {
 
     fn extract_property(&mut self, prop: &str) -> Option<Value> {
         if self.parsed_json.is_none() {
+            for event in self.event_parser.finish().unwrap_or_default() {
+                self.push_event(event);
+            }
             if let Some(event) = &self.last_two_events[1] {
                 if let Ok(json) = serde_json::from_str::<Value>(&event.data) {
                     self.parsed_json = Some(json);
-- 
2.43.0


From d8f617f1ce0931e41e7a104123309ea0a0fd1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 34/47] fix: don't take a host that holds a dollar sign for
 another one

A request for $example.com was governed by the action sets of example.com rather
than by those of the wildcard it matches, and passed if none of them applied.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index ee5aa79..16c56bf 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -232,7 +232,8 @@ impl PipelineFactory {
 }
 
 fn reverse_subdomain(subdomain: &str) -> String {
-    let mut s = subdomain.to_string();
+    // `$` marks the beginning of an exact name, it can't be part of one
+    let mut s = subdomain.replace('$', "\0");
     s.push('.');
     if s.starts_with('*') {
         s.remove(0);
-- 
2.43.0


From 5ec4259a66582eb43500f19ae9b60981181fcc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:19 +0000
Subject: [PATCH 35/47] fix: keep the address of a host that is an IPv6 literal

It was cut at its first colon, so that no action set declared for it applied.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index 16c56bf..fe79d99 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -200,8 +200,12 @@ impl PipelineFactory {
     fn get_hostname(&self, ctx: &ReqRespCtx) -> Result<String, BuildError> {
         match ctx.get_attribute::<String>("request.host") {
             Ok(AttributeState::Available(Some(host))) => {
-                let split_host = host.split_once(':').map_or(host.as_str(), |(h, _)| h);
-                Ok(split_host.to_ascii_lowercase())
+                // the colons within the brackets of an IPv6 address don't begin its port
+                let port = match host.find(']') {
+                    Some(end) if host.starts_with('[') => host[end..].find(':').map(|i| end + i),
+                    _ => host.find(':'),
+                };
+                Ok(host[..port.unwrap_or(host.len())].to_ascii_lowercase())
             }
             Ok(AttributeState::Available(None)) => Err(BuildError::EvaluationError(
                 "hostname not found".to_string(),
-- 
2.43.0


From b5038f5c54b3f0e55682db4946d202b7c8f74235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:46 +0000
Subject: [PATCH 36/47] fix: refuse a configuration with a requestData
 expression that doesn't parse

The entry was dropped without a word, and the rest of the configuration used: limits
that depend on it were not applied.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index fe79d99..7076122 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -83,10 +83,8 @@ impl PipelineFactory {
 
         let mut request_data: Vec<((String, String), Expression)> = request_data_raw
             .into_iter()
-            .filter_map(|((domain, field), v)| {
-                Expression::new(&v).ok().map(|expr| ((domain, field), expr))
-            })
-            .collect();
+            .map(|(key, v)| Ok((key, Expression::new(&v)?)))
+            .collect::<Result<_, CompileError>>()?;
         request_data.sort_by(|a, b| a.0.cmp(&b.0));
 
         //todo(@adam-cattermole): lets clean this up
-- 
2.43.0


From 82a24c535bdb58301f6d1842a488d33d2fff5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:05 +0000
Subject: [PATCH 37/47] fix: refuse short-form actions whose predicates or
 expressions aren't expressions

They were only parsed once put together with the others, and accepted when that made
sense by accident, as for an empty expression or unbalanced parentheses.
---
 .../src/kuadrant/pipeline/blueprint.rs             | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index a898f2f..2927d81 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -460,6 +460,20 @@ impl Action {
             .get(&config.service)
             .ok_or_else(|| CompileError::UnknownService(config.service.clone()))?;
 
+        // each must be an expression by itself, not just once put together with the others
+        let conditions = config.conditional_data.iter().flat_map(|c| &c.predicates);
+        for predicate in config.predicates.iter().chain(conditions) {
+            Predicate::new(predicate).map_err(|e| CompileError::InvalidActionPredicate {
+                service: config.service.clone(),
+                error: e.to_string(),
+            })?;
+        }
+        for item in config.conditional_data.iter().flat_map(|c| &c.data) {
+            if let configuration::DataType::Expression(e) = &item.item {
+                Expression::new(&e.value)?;
+            }
+        }
+
         let typed_config = match service {
             ServiceInstance::Auth(_) => translate_legacy_auth_to_typed(config, request_data),
             ServiceInstance::RateLimit(_) | ServiceInstance::RateLimitCheck(_) => {
-- 
2.43.0


From 3d04b62c983c7afc9c429ad2fed68cee968c0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 38/47] fix: fail substring with a position before the start of
 the text

Negative positions were taken for huge ones: substring(0, -1) was the whole text.
---
 crates/kuadrant-filter/src/data/cel/strings.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index ed7082d..945be5e 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -17,6 +17,13 @@ fn chars_until(this: &str, byte_idx: usize) -> usize {
     this[..byte_idx].chars().count()
 }
 
+fn position(function: &str, arg: i64) -> Result<usize, ExecutionError> {
+    usize::try_from(arg).map_err(|_| ExecutionError::FunctionError {
+        function: function.to_owned(),
+        message: format!("No index {arg}"),
+    })
+}
+
 pub fn index_of(
     This(this): This<Arc<String>>,
     arg: Arc<String>,
@@ -232,7 +239,7 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
     match args.len() {
         count @ 1..=2 => {
             let start = match &args[0] {
-                Value::Int(i) => *i as usize,
+                Value::Int(i) => position("String.substring", *i)?,
                 Value::UInt(u) => *u as usize,
                 _ => Err(ExecutionError::FunctionError {
                     function: "String.substring".to_string(),
@@ -244,7 +251,7 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
             };
             let end = if count == 2 {
                 match &args[1] {
-                    Value::Int(i) => *i as usize,
+                    Value::Int(i) => position("String.substring", *i)?,
                     Value::UInt(u) => *u as usize,
                     _ => Err(ExecutionError::FunctionError {
                         function: "String.substring".to_string(),
-- 
2.43.0


From dd4c38b8778a41940406e064c5fe9c50a4e5b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 39/47] fix: let charAt give nothing at the very end of a text

As in the CEL strings extension, and unlike a position past the end, which is an error.
---
 crates/kuadrant-filter/src/data/cel/strings.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index 945be5e..1412502 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -4,6 +4,8 @@ use std::sync::Arc;
 
 pub fn char_at(This(this): This<Arc<String>>, arg: i64) -> ResolveResult {
     match this.chars().nth(arg as usize) {
+        // there is no character left at the very end
+        None if arg >= 0 && this.chars().count() == arg as usize => Ok("".into()),
         None => Err(ExecutionError::FunctionError {
             function: "String.charAt".to_owned(),
             message: format!("No index {arg} on `{this}`"),
-- 
2.43.0


From 30665f887723e70fa1e52831778619305e984c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:37 +0000
Subject: [PATCH 40/47] fix: deny a request even if the host refuses the reply
 meant for it

The request was let through, as if it had not been denied. It is now answered with
the default reply, and only counted as denied once a reply was accepted.
---
 .../src/kuadrant/pipeline/tasks/send_reply.rs              | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 3d8d14d..d73da80 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -48,7 +48,7 @@ impl SendReplyTask {
         }
     }
 
-    /// The reply can't be built: a request that is to be denied is denied without it.
+    /// The reply can't be built or sent: a request that is to be denied is denied without it.
     fn without_reply(&self) -> TaskOutcome {
         if self.terminal {
             METRICS.errors().increment();
@@ -137,11 +137,10 @@ impl Task for SendReplyTask {
             headers_ref.push((tracker, value));
         }
 
-        METRICS.denied().increment();
-
         let body_bytes = body.as_ref().map(|s| s.as_bytes());
         match ctx.send_http_reply(status_code, headers_ref, body_bytes) {
             Ok(()) => {
+                METRICS.denied().increment();
                 if self.terminal {
                     TaskOutcome::Terminate(Box::new(NoopTerminalTask))
                 } else {
@@ -150,7 +149,7 @@ impl Task for SendReplyTask {
             }
             Err(e) => {
                 error!("Failed to send HTTP reply: {:?}", e);
-                TaskOutcome::Failed
+                self.without_reply()
             }
         }
     }
-- 
2.43.0


From 3dead97272529258e472212d759f15adfdb00d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:41 +0000
Subject: [PATCH 41/47] fix: don't cut the status of a reply to 32 bits

A reply with the status 4294967496 was sent with the status 200.
---
 .../src/kuadrant/pipeline/tasks/send_reply.rs             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index d73da80..4214d5c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -100,7 +100,11 @@ impl Task for SendReplyTask {
                     let status = deny_response
                         .field_value("status")
                         .and_then(|v| v.downcast_ref::<CelUInt>())
-                        .map(|v| *v.inner() as u32);
+                        .map_or(Ok(500u32), |v| u32::try_from(*v.inner()));
+                    let Ok(status) = status else {
+                        error!("Invalid status in DenyResponse: {status:?}");
+                        return self.without_reply();
+                    };
 
                     let body = deny_response
                         .field_value("body")
@@ -113,7 +117,7 @@ impl Task for SendReplyTask {
                         .and_then(|v| Value::try_from(v).ok())
                         .map(|v| cel_value_to_header_pairs(&v))
                         .unwrap_or_default();
-                    (status.unwrap_or(500u32), headers, body)
+                    (status, headers, body)
                 }
                 Ok(AttributeState::Available(other)) => {
                     error!("denyWith must return DenyResponse, got: {other:?}");
-- 
2.43.0


From e826f14452a34d8bef5cac2bccff2a616b588a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 42/47] fix: read the attributes of an expression by their own
 path

The fields selected from a literal or from the result of a method were taken
for the end of the path of the next attribute, which then was read from
elsewhere, or not at all: {'a': 1}.a == 1 && request.id == 'x'.
---
 crates/kuadrant-filter/src/data/cel.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 43586e4..ce04cca 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -855,10 +855,9 @@ fn properties<'e>(
                     request_props.push(prop.to_string());
                 }
             }
+            path.clear();
             if let Some(target) = &call.target {
                 properties(target, all, request_props, response_props, path);
-            } else {
-                path.clear();
             }
             for arg in &call.args {
                 properties(arg, all, request_props, response_props, path);
@@ -876,11 +875,13 @@ fn properties<'e>(
             }
         }
         Expr::List(list) => {
+            path.clear();
             for elem in &list.elements {
                 properties(elem, all, request_props, response_props, path);
             }
         }
         Expr::Map(map) => {
+            path.clear();
             for entry in &map.entries {
                 match &entry.expr {
                     EntryExpr::MapEntry(map_entry) => {
@@ -894,6 +895,7 @@ fn properties<'e>(
             }
         }
         Expr::Struct(struct_expr) => {
+            path.clear();
             for entry in &struct_expr.entries {
                 if let EntryExpr::StructField(field) = &entry.expr {
                     properties(&field.value, all, request_props, response_props, path);
@@ -901,13 +903,14 @@ fn properties<'e>(
             }
         }
         Expr::Comprehension(comp) => {
+            path.clear();
             properties(&comp.iter_range, all, request_props, response_props, path);
             properties(&comp.accu_init, all, request_props, response_props, path);
             properties(&comp.loop_cond, all, request_props, response_props, path);
             properties(&comp.loop_step, all, request_props, response_props, path);
             properties(&comp.result, all, request_props, response_props, path);
         }
-        Expr::Literal(_) | Expr::Unspecified => {}
+        Expr::Literal(_) | Expr::Unspecified => path.clear(),
     }
 }
 
-- 
2.43.0


From 865634518c09399c4e00a3a95967260681a0c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:51 +0000
Subject: [PATCH 43/47] fix: wait for a stored value whose path has no dot

An action that refers to a value a store action is still to save waits for it,
but only if the path of the value had at least two parts; otherwise it failed
at once as the name was not known yet.
---
 crates/kuadrant-filter/src/data/cel.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index ce04cca..0f1edec 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -104,6 +104,7 @@ pub(crate) mod errors {
 #[derive(Clone, Debug)]
 pub struct Expression {
     attributes: Vec<Attribute>,
+    variables: Vec<String>,
     request_body_values: Vec<String>,
     response_body_values: Vec<String>,
     expression: CelExpression,
@@ -187,8 +188,17 @@ impl Expression {
 
         attributes.sort_by_key(|a| a.path.tokens().len());
 
+        let variables = expression
+            .references()
+            .variables()
+            .into_iter()
+            .filter(|v| !is_host_property_root(v))
+            .map(String::from)
+            .collect();
+
         Ok(Self {
             attributes,
+            variables,
             request_body_values: request_props,
             response_body_values: response_props,
             expression,
@@ -227,6 +237,10 @@ impl Expression {
             .collect();
         req_ctx.ensure_attributes(&paths);
 
+        if self.variables.iter().any(|v| req_ctx.values.is_pending(v)) {
+            return Ok(AttributeState::Pending);
+        }
+
         let Map { map } = match self.build_data_map(req_ctx)? {
             AttributeState::Pending => return Ok(AttributeState::Pending),
             AttributeState::Available(m) => m,
-- 
2.43.0


From 0363551863a8e931b17149126a91236c970e2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 44/47] fix: count an action as complete once the calls made
 from its reply are

A sequential action waits for all prior actions to complete and blocks the
subsequent ones until it finishes, but it was taken to be over as soon as its
own call was answered, even if that led to a further call.
---
 .../src/kuadrant/pipeline/executor.rs                | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 63d0831..7dfb5ef 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -70,6 +70,16 @@ impl Pipeline {
         self.deferred_tasks.is_empty().not()
     }
 
+    /// Whether a task is over, along with the calls made from its reply
+    fn is_completed(&self, task_id: &str) -> bool {
+        let nested = format!("{task_id}.");
+        self.completed_tasks.contains(task_id)
+            && !self
+                .deferred_tasks
+                .values()
+                .any(|task| task.id().starts_with(&nested))
+    }
+
     fn replace_deferred_with_noop(&mut self) {
         // map existing deferred tasks to no-op consumers
         let deferred = std::mem::take(&mut self.deferred_tasks);
@@ -115,7 +125,7 @@ impl Pipeline {
             if task
                 .dependencies()
                 .iter()
-                .any(|dep| !self.completed_tasks.contains(dep))
+                .any(|dep| !self.is_completed(dep))
             {
                 self.task_queue.push(task);
                 continue;
-- 
2.43.0


From 1ae613bbcffd6c11ec982a1edc76cdbd6e0f60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 45/47] fix: end the processing of a request with any deny
 action's reply

A deny action that was not marked as terminal sent its reply and let the other
actions go on, which could call services and reply once more.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 2927d81..d027988 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -127,7 +127,8 @@ impl Action {
                     self.id.clone(),
                     self.predicate.clone(),
                     deny_with.clone(),
-                    self.terminal,
+                    // a reply ends the processing of the request, whatever `terminal` says
+                    true,
                 )))
             }
             Operation::Headers {
-- 
2.43.0


From 5874267af200dba779a47d852b8c9d5207abb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:40 +0000
Subject: [PATCH 46/47] fix: parse an event stream in time proportional to its
 length

---
 .../pipeline/tasks/store/sse_body_parser.rs   | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 724db67..de5f58f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -33,6 +33,8 @@ pub struct EventParser {
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
+        // a carriage return that ends the buffer waits for what follows it
+        let from = self.buffer.len().saturating_sub(1);
         let mut bytes = std::mem::take(&mut self.partial_char);
         bytes.extend(chunk_bytes);
         let mut parts = bytes.utf8_chunks().peekable();
@@ -56,8 +58,12 @@ impl EventParser {
 
         let mut events = Vec::default();
 
-        while let Some(event) = self.parse_one_event()? {
-            events.push(event);
+        // only the end of a line completes anything
+        if self.buffer.as_bytes()[from..]
+            .iter()
+            .any(|b| matches!(b, b'\n' | b'\r'))
+        {
+            self.parse_lines(&mut events)?;
         }
 
         Ok(events)
@@ -72,29 +78,25 @@ impl EventParser {
         }
     }
 
-    fn parse_one_event(&mut self) -> Result<Option<Event>, String> {
-        if self.buffer.is_empty() {
-            return Ok(None);
-        }
-        loop {
-            match sse_line_parser::line(self.buffer.as_ref()) {
+    fn parse_lines(&mut self, events: &mut Vec<Event>) -> Result<(), String> {
+        let mut consumed = 0;
+        while consumed < self.buffer.len() {
+            match sse_line_parser::line(&self.buffer[consumed..]) {
                 Ok((rem, next_line)) => {
                     self.event_builder.add(next_line);
-                    let consumed = self.buffer.len() - rem.len();
-                    let rem = self.buffer.split_off(consumed);
-                    self.buffer = rem;
+                    consumed = self.buffer.len() - rem.len();
                     if self.event_builder.is_complete {
-                        if let Some(event) = self.event_builder.dispatch() {
-                            return Ok(Some(event));
-                        }
+                        events.extend(self.event_builder.dispatch());
                     }
                 }
-                Err(nom::Err::Incomplete(_)) => return Ok(None),
+                Err(nom::Err::Incomplete(_)) => break,
                 Err(nom::Err::Error(err)) | Err(nom::Err::Failure(err)) => {
                     return Err(err.to_string())
                 }
             }
         }
+        self.buffer.drain(..consumed);
+        Ok(())
     }
 }
 
-- 
2.43.0


From 350a3948ba12d8f0f474a60e1cfaf8ce4070f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:38 +0000
Subject: [PATCH 47/47] fix: let a terminal headers action without headers end
 the evaluation

---
 .../src/kuadrant/pipeline/tasks/headers.rs     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 2208fbc..c030f59 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -54,6 +54,14 @@ impl ModifyHeadersTask {
             terminal,
         }
     }
+
+    fn applied(&self) -> TaskOutcome {
+        if self.terminal {
+            TaskOutcome::Terminate(Box::new(SendReplyTask::default()))
+        } else {
+            TaskOutcome::Done
+        }
+    }
 }
 
 impl Task for ModifyHeadersTask {
@@ -82,7 +90,7 @@ impl Task for ModifyHeadersTask {
             Ok(AttributeState::Available(ref val)) => {
                 let pairs = cel_value_to_header_pairs(val);
                 if pairs.is_empty() {
-                    return TaskOutcome::Done;
+                    return self.applied();
                 }
                 HeaderOperation::Set(pairs.into())
             }
@@ -117,13 +125,7 @@ impl Task for ModifyHeadersTask {
                     }
                 }
                 match ctx.set_attribute_map(&path, existing_headers) {
-                    Ok(AttributeState::Available(_)) => {
-                        if self.terminal {
-                            TaskOutcome::Terminate(Box::new(SendReplyTask::default()))
-                        } else {
-                            TaskOutcome::Done
-                        }
-                    }
+                    Ok(AttributeState::Available(_)) => self.applied(),
                     Ok(AttributeState::Pending) => TaskOutcome::Requeued(vec![self]),
                     Err(e) => {
                         error!("Failed to set attribute map: {e:?}");
-- 
2.43.0

