From eeab9c3a6c2ad91648c06a1aa388dd556ae16f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 01/31] fix: apply a service's failure mode to requeued tasks
 and to the tasks handling its reply

---
 .../src/kuadrant/pipeline/blueprint.rs               | 12 +++++++++++-
 .../src/kuadrant/pipeline/tasks/failure_mode.rs      | 12 ++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..4920be8 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -72,7 +72,17 @@ impl Action {
             } => {
                 let children: Vec<Box<dyn Task>> = on_reply
                     .iter()
-                    .filter_map(|a| a.to_core_task(ctx))
+                    .filter_map(|a| {
+                        let task = a.to_core_task(ctx)?;
+                        Some(match &a.operation {
+                            // a nested call fails according to the service it calls
+                            Operation::Grpc { service, .. } => Box::new(FailureModeTask::new(
+                                task,
+                                service.failure_mode() == configuration::FailureMode::Deny,
+                            )),
+                            _ => task,
+                        })
+                    })
                     .collect();
 
                 match service {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..74afc70 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -35,6 +35,18 @@ impl Task for FailureModeTask {
                     abort: self.abort,
                 }),
             },
+            // a task waiting for data and the tasks handling a reply fail the way this one does
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| {
+                        Box::new(FailureModeTask {
+                            task,
+                            abort: self.abort,
+                        }) as Box<dyn Task>
+                    })
+                    .collect(),
+            ),
             outcome => outcome,
         }
     }
-- 
2.43.0


From 614bb1053b2e8a9fea85f96651c295a1f7e65f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 02/31] fix: a wrapped guard stays a guard, so that its barrier
 is lowered after termination

---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 74afc70..949aa91 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -58,4 +58,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From e71e9edbc950692a77a5fa34db7dbfd61abcd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 03/31] fix: a failed task is over, so that the actions
 depending on it are still evaluated

---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..63d3d94 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -132,6 +132,8 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    // it is over: what waits for it must not wait forever
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -193,6 +195,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
-- 
2.43.0


From 97c18b5879c30aa74a2faa7e43cf8279ee23005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 04/31] fix: an action whose reply started another call is not
 completed before that call

---
 .../src/kuadrant/pipeline/executor.rs               | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 63d3d94..3353349 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -105,12 +105,23 @@ impl Pipeline {
         }
     }
 
+    /// An action is completed once it is over and no call made while handling its reply is
+    /// outstanding
+    fn is_completed(&self, task_id: &str) -> bool {
+        self.completed_tasks.contains(task_id)
+            && !self.deferred_tasks.values().any(|task| {
+                task.id()
+                    .strip_prefix(task_id)
+                    .is_some_and(|nested| nested.starts_with('.'))
+            })
+    }
+
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
         for task in tasks {
             if task
                 .dependencies()
                 .iter()
-                .any(|dep| !self.completed_tasks.contains(dep))
+                .any(|dep| !self.is_completed(dep))
             {
                 self.task_queue.push(task);
                 continue;
-- 
2.43.0


From d56d9d9e3532e183145de148f13f3a46e26d48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 05/31] fix: hold the request for a guard waiting for the calls
 of prior actions

---
 .../src/kuadrant/pipeline/executor.rs         | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 3353349..c5d8228 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -108,12 +108,16 @@ impl Pipeline {
     /// An action is completed once it is over and no call made while handling its reply is
     /// outstanding
     fn is_completed(&self, task_id: &str) -> bool {
-        self.completed_tasks.contains(task_id)
-            && !self.deferred_tasks.values().any(|task| {
-                task.id()
-                    .strip_prefix(task_id)
-                    .is_some_and(|nested| nested.starts_with('.'))
-            })
+        self.completed_tasks.contains(task_id) && !self.is_outstanding(task_id)
+    }
+
+    /// Whether a call of the action, or one made while handling its reply, is outstanding
+    fn is_outstanding(&self, task_id: &str) -> bool {
+        self.deferred_tasks.values().any(|task| {
+            task.id()
+                .strip_prefix(task_id)
+                .is_some_and(|nested| nested.is_empty() || nested.starts_with('.'))
+        })
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
@@ -226,6 +230,26 @@ impl Pipeline {
 
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
+            || self
+                .task_queue
+                .iter()
+                .any(|task| task.is_guard() && self.waits_for_call(task.as_ref()))
+    }
+
+    /// Whether a queued task waits for outstanding calls, and for nothing else
+    fn waits_for_call(&self, task: &dyn Task) -> bool {
+        let mut unmet = task
+            .dependencies()
+            .iter()
+            .filter(|dep| !self.is_completed(dep))
+            .peekable();
+        unmet.peek().is_some()
+            && unmet.all(|dep| {
+                match self.task_queue.iter().find(|queued| queued.id() == dep) {
+                    Some(queued) => self.waits_for_call(queued.as_ref()),
+                    None => self.is_outstanding(dep),
+                }
+            })
     }
 }
 
-- 
2.43.0


From 2ca7b02efbb8d8c0caad76a1aaa2349bc7083075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 06/31] fix: deny and headers actions waiting for body data
 fail when the body has ended without it

---
 .../src/kuadrant/pipeline/tasks/headers.rs    | 20 +++++++++++++++++--
 .../src/kuadrant/pipeline/tasks/send_reply.rs | 10 +++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 2208fbc..384e407 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -67,7 +67,15 @@ impl Task for ModifyHeadersTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if (self.predicate.has_request_body_deps()
+                    && ctx.request_body.is_end_of_stream())
+                    || (self.predicate.has_response_body_deps()
+                        && ctx.response_body.is_end_of_stream())
+                {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -77,7 +85,15 @@ impl Task for ModifyHeadersTask {
 
         let operation = match self.headers_expr.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if (self.headers_expr.has_request_body_deps()
+                    && ctx.request_body.is_end_of_stream())
+                    || (self.headers_expr.has_response_body_deps()
+                        && ctx.response_body.is_end_of_stream())
+                {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(ref val)) => {
                 let pairs = cel_value_to_header_pairs(val);
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..9a5cc74 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -64,7 +64,15 @@ impl Task for SendReplyTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if (self.predicate.has_request_body_deps()
+                    && ctx.request_body.is_end_of_stream())
+                    || (self.predicate.has_response_body_deps()
+                        && ctx.response_body.is_end_of_stream())
+                {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
-- 
2.43.0


From 445123e8f7aa5ef4f0120557308511d7ae84ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 07/31] fix: actions still waiting when the stream ends fail
 instead of holding the response forever

---
 .../src/kuadrant/pipeline/executor.rs         | 20 +++++++++++++
 .../kuadrant/pipeline/tasks/failure_mode.rs   | 29 ++++++++++++-------
 .../src/kuadrant/pipeline/tasks/mod.rs        |  5 ++++
 .../pipeline/tasks/tracing_decorator.rs       |  6 ++++
 4 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index c5d8228..c892cee 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -161,6 +161,18 @@ impl Pipeline {
         ProcessOutcome::Continue
     }
 
+    fn expire_tasks(&mut self) -> ProcessOutcome {
+        for task in std::mem::take(&mut self.task_queue) {
+            error!("Stream ended before task: {:?}", task.id());
+            if let TaskOutcome::Terminate(terminal_task) = task.expire() {
+                terminal_task.apply(&mut self.ctx);
+                self.terminated = true;
+                return ProcessOutcome::Terminated;
+            }
+        }
+        ProcessOutcome::Continue
+    }
+
     pub fn eval(mut self) -> PipelineState {
         let tasks = self.task_queue.drain(..).collect();
         match self.process_tasks(tasks) {
@@ -171,6 +183,14 @@ impl Pipeline {
             ProcessOutcome::Continue => {}
         }
 
+        if self.ctx.response_body.is_end_of_stream() && self.deferred_tasks.is_empty() {
+            // no callback will follow: the tasks left would hold the response forever
+            if let ProcessOutcome::Terminated = self.expire_tasks() {
+                self.execute_teardown();
+                return self.into();
+            }
+        }
+
         if self.task_queue.is_empty()
             && self.deferred_tasks.is_empty()
             && !self.teardown_tasks.is_empty()
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 949aa91..02fa76e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -13,21 +13,23 @@ impl FailureModeTask {
     pub fn new(task: Box<dyn Task>, abort: bool) -> Self {
         Self { task, abort }
     }
+
+    fn failed(abort: bool) -> TaskOutcome {
+        METRICS.errors().increment();
+        if abort {
+            let span = tracing::Span::current();
+            span.record("otel.status_code", "ERROR");
+            TaskOutcome::Terminate(Box::new(SendReplyTask::default()))
+        } else {
+            TaskOutcome::Done
+        }
+    }
 }
 
 impl Task for FailureModeTask {
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         match self.task.apply(ctx) {
-            TaskOutcome::Failed => {
-                METRICS.errors().increment();
-                if self.abort {
-                    let span = tracing::Span::current();
-                    span.record("otel.status_code", "ERROR");
-                    TaskOutcome::Terminate(Box::new(SendReplyTask::default()))
-                } else {
-                    TaskOutcome::Done
-                }
-            }
+            TaskOutcome::Failed => Self::failed(self.abort),
             TaskOutcome::Deferred { token_id, pending } => TaskOutcome::Deferred {
                 token_id,
                 pending: Box::new(FailureModeTask {
@@ -62,4 +64,11 @@ impl Task for FailureModeTask {
     fn is_guard(&self) -> bool {
         self.task.is_guard()
     }
+
+    fn expire(self: Box<Self>) -> TaskOutcome {
+        match self.task.expire() {
+            TaskOutcome::Failed => Self::failed(self.abort),
+            outcome => outcome,
+        }
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 4a73471..2f83fe4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -40,6 +40,11 @@ pub trait Task {
     fn cel_types(&self) -> Vec<cel::StructDef> {
         vec![]
     }
+
+    /// The stream is over: what this task is waiting for won't ever be available
+    fn expire(self: Box<Self>) -> TaskOutcome {
+        TaskOutcome::Failed
+    }
 }
 
 pub struct PendingTask {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index c8273c1..6a9227a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -89,4 +89,10 @@ impl Task for TracingDecoratorTask {
     fn is_guard(&self) -> bool {
         self.task.is_guard()
     }
+
+    fn expire(mut self: Box<Self>) -> TaskOutcome {
+        let span = self.ensure_span().clone();
+        let _guard = span.enter();
+        self.task.expire()
+    }
 }
-- 
2.43.0


From f0f91a41fd639819d3e1974f0c77a8a999264d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 08/31] fix: a request without a body is not waited for, its
 body has ended with its headers

---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0c7d284..b66791f 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -88,7 +88,7 @@ impl Context for KuadrantFilter {
 }
 
 impl HttpContext for KuadrantFilter {
-    fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_request_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_headers", self.context_id);
 
         #[cfg(feature = "debug-host-behaviour")]
@@ -97,9 +97,13 @@ impl HttpContext for KuadrantFilter {
         let ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
 
         match self.factory.build(ctx) {
-            Ok(Some(pipeline)) => {
+            Ok(Some(mut pipeline)) => {
                 debug!("#{} pipeline built successfully", self.context_id);
                 METRICS.hits().increment();
+                if end_of_stream {
+                    // there is no request body to wait for
+                    pipeline.ctx.request_body.set_buffer_size(0, true);
+                }
                 match pipeline.eval() {
                     PipelineState::InProgress(p) => {
                         self.pipeline = Some(*p);
-- 
2.43.0


From 389c56290b12b4bcbe099b9ce6aae647046f8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 09/31] fix: header names are compared without regard to case,
 so that a header set by a service replaces the client's

---
 crates/kuadrant-filter/src/data/headers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/headers.rs b/crates/kuadrant-filter/src/data/headers.rs
index 53554ca..2f20322 100644
--- a/crates/kuadrant-filter/src/data/headers.rs
+++ b/crates/kuadrant-filter/src/data/headers.rs
@@ -14,18 +14,18 @@ impl Headers {
     }
 
     pub fn set(&mut self, key: String, value: String) {
-        self.0.retain(|(k, _)| k != &key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(&key));
         self.0.push((key, value));
     }
 
     pub fn remove(&mut self, key: &str) {
-        self.0.retain(|(k, _)| k != key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
     }
 
     pub fn get_all(&self, key: &str) -> Vec<&str> {
         self.0
             .iter()
-            .filter(|(k, _)| k == key)
+            .filter(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
             .collect()
     }
@@ -33,7 +33,7 @@ impl Headers {
     pub fn get(&self, key: &str) -> Option<&str> {
         self.0
             .iter()
-            .find(|(k, _)| k == key)
+            .find(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
     }
 
-- 
2.43.0


From ec4d0337bf5b969f5b0490f7598c007b8d5e9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 10/31] fix: a '$' in a request's host name is not taken for
 the end of an exact hostname

---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index ee5aa79..7d6961e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -232,7 +232,8 @@ impl PipelineFactory {
 }
 
 fn reverse_subdomain(subdomain: &str) -> String {
-    let mut s = subdomain.to_string();
+    // '$' ends the key of an exact hostname: one that is part of the name must not be taken for it
+    let mut s = subdomain.replace('$', "\0");
     s.push('.');
     if s.starts_with('*') {
         s.remove(0);
-- 
2.43.0


From d451adce997b63ee7a28cfad031e37dbfd4fd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 11/31] fix: a conditional predicate of a ratelimit descriptor
 is joined to the others in parentheses

---
 .../src/configuration/legacy_translation.rs                | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index c7e5dbe..23df9ff 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -202,7 +202,12 @@ pub(super) mod ratelimit {
         if block_predicates.len() == 1 {
             block_predicates[0].clone()
         } else {
-            block_predicates.join(" || ")
+            // a conditional binds weaker than the '||' joining the blocks
+            block_predicates
+                .into_iter()
+                .map(|p| if p.contains('?') { format!("({p})") } else { p })
+                .collect::<Vec<_>>()
+                .join(" || ")
         }
     }
 
-- 
2.43.0


From e469789919aea604f5c09fc9e629955efa86b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 12/31] fix: body chunks that the host passed on are not
 expected in its buffer again, nor chunks it still holds taken for new ones

---
 .../kuadrant-filter/src/kuadrant/context.rs   | 15 +++++++++++++++
 .../src/kuadrant/pipeline/executor.rs         | 15 ++++++++++++++-
 .../src/kuadrant/pipeline/tasks/store.rs      | 19 +++++++++++--------
 .../pipeline/tasks/store/body_parser.rs       |  1 +
 .../kuadrant/pipeline/tasks/token_usage.rs    | 13 +++++++++++--
 5 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2906266..86338ad 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -461,6 +461,8 @@ impl Barrier {
 #[derive(Default)]
 pub struct BodyContext {
     buffer_size: usize,
+    /// bytes that went on, and are no longer in the host's buffer
+    released: usize,
     end_of_stream: bool,
     values: HashMap<String, Value>,
 }
@@ -479,6 +481,19 @@ impl BodyContext {
         self.end_of_stream = end_of_stream;
     }
 
+    /// The host lets go of what it has buffered: its buffer starts anew with the next chunk
+    pub fn release(&mut self) {
+        self.released += self.buffer_size;
+        self.buffer_size = 0;
+    }
+
+    /// Where the host's buffer holds what follows the first `consumed` bytes of the body, and how
+    /// much of it; `None` if some of it is gone already
+    pub fn unread(&self, consumed: usize) -> Option<(usize, usize)> {
+        let start = consumed.checked_sub(self.released)?;
+        Some((start, self.buffer_size.saturating_sub(start)))
+    }
+
     pub fn set_value<K: Into<String>, V: Into<Value>>(&mut self, key: K, value: V) {
         self.values.insert(key.into(), value.into());
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index c892cee..32b6000 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -29,7 +29,8 @@ pub struct Pipeline {
 }
 
 impl From<Pipeline> for PipelineState {
-    fn from(pipeline: Pipeline) -> Self {
+    fn from(mut pipeline: Pipeline) -> Self {
+        pipeline.release_bodies();
         if pipeline.task_queue.is_empty() && pipeline.deferred_tasks.is_empty() {
             PipelineState::Completed {
                 should_resume: pipeline.terminated.not(),
@@ -248,6 +249,18 @@ impl Pipeline {
         self.eval()
     }
 
+    /// Unless the filter pauses, the host passes on the body it has buffered so far
+    fn release_bodies(&mut self) {
+        if self.requires_pause() {
+            return;
+        }
+        self.ctx.request_body.release();
+        // the end of the response is held until the pipeline completes
+        if !self.ctx.response_body.is_end_of_stream() {
+            self.ctx.response_body.release();
+        }
+    }
+
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
             || self
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..35d87a6 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -35,6 +35,8 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_parse_state: BodyParseState,
+    /// bytes of the body the parser was fed
+    consumed: usize,
     _reservation: PathReservation,
 }
 
@@ -58,6 +60,7 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_parse_state,
+            consumed: 0,
             _reservation: reservation,
         })
     }
@@ -155,15 +158,14 @@ impl Task for StoreTask {
                 return TaskOutcome::Requeued(vec![self]);
             }
 
-            if body_ctx.buffer_size() > parser.bytes_consumed() {
-                let bytes_to_read = body_ctx.buffer_size() - parser.bytes_consumed();
+            let Some((start, bytes_to_read)) = body_ctx.unread(self.consumed) else {
+                error!("Part of the body went on unread before '{}'", self.path);
+                return TaskOutcome::Failed;
+            };
+            if bytes_to_read > 0 {
                 let chunk = match source {
-                    BodySource::Request => {
-                        ctx.get_http_request_body(parser.bytes_consumed(), bytes_to_read)
-                    }
-                    BodySource::Response => {
-                        ctx.get_http_response_body(parser.bytes_consumed(), bytes_to_read)
-                    }
+                    BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
+                    BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
                 };
 
                 let chunk_bytes = match chunk {
@@ -181,6 +183,7 @@ impl Task for StoreTask {
                     }
                 };
 
+                self.consumed += chunk_bytes.len();
                 if let Err(e) = parser.feed(&chunk_bytes) {
                     error!("Failed to parse body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index bf07e54..8a69c84 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -8,6 +8,7 @@ pub(super) trait BodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
     fn populate(&self, body_ctx: &mut BodyContext);
+    #[allow(dead_code)]
     fn bytes_consumed(&self) -> usize;
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 35ff962..12ce6c3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -10,6 +10,8 @@ use tracing::{debug, error, warn};
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     expected_response_fields: Vec<String>,
+    /// bytes of the body the strategy was fed
+    consumed: usize,
 }
 
 impl TokenUsageTask {
@@ -22,6 +24,7 @@ impl TokenUsageTask {
         Self {
             strategy: None,
             expected_response_fields,
+            consumed: 0,
         }
     }
 }
@@ -31,6 +34,7 @@ impl From<Box<Self>> for TokenUsageTask {
         Self {
             strategy: value.strategy,
             expected_response_fields: value.expected_response_fields,
+            consumed: value.consumed,
         }
     }
 }
@@ -64,9 +68,14 @@ impl Task for TokenUsageTask {
             }
         };
 
-        if ctx.response_body.buffer_size() > 0 {
-            match ctx.get_http_response_body(0, ctx.response_body.buffer_size()) {
+        let Some((start, bytes_to_read)) = ctx.response_body.unread(task.consumed) else {
+            error!("Part of the response body went on unread");
+            return TaskOutcome::Failed;
+        };
+        if bytes_to_read > 0 {
+            match ctx.get_http_response_body(start, bytes_to_read) {
                 Ok(AttributeState::Available(Some(bytes))) => {
+                    task.consumed += bytes.len();
                     strategy.feed_buffer(bytes);
                 }
                 Ok(AttributeState::Available(None)) => {
-- 
2.43.0


From 1196cec7079e2321b7d827f1b3249a0c49952b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 13/31] fix: a string in a JSON body is decoded, and stays a
 string whatever it spells

---
 .../pipeline/tasks/store/json_body_parser.rs  | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 748a78b..9a6ba44 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -1,5 +1,4 @@
 use std::collections::HashMap;
-use std::collections::HashSet;
 use std::sync::{Arc, Mutex};
 
 use cel::Value;
@@ -9,11 +8,19 @@ use super::body_parser::{parse_json_scalar, BodyParser};
 use crate::data::attribute::AttributeError;
 use crate::kuadrant::context::BodyContext;
 
+/// How the value of a field is received: a string in pieces and then its end, anything else at once
+#[derive(Clone, Copy)]
+enum Kind {
+    Partial,
+    String,
+    Scalar,
+}
+
 pub(crate) struct JsonBodyParser {
     fields: Vec<String>,
     parser: Option<acutejson::Parser>,
     buffers: Arc<Mutex<HashMap<String, Vec<u8>>>>,
-    matched: Arc<Mutex<HashSet<String>>>,
+    matched: Arc<Mutex<HashMap<String, Kind>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
@@ -22,7 +29,7 @@ pub(crate) struct JsonBodyParser {
 impl JsonBodyParser {
     pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
         let buffers: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::new(Mutex::new(HashMap::new()));
-        let matched: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
+        let matched: Arc<Mutex<HashMap<String, Kind>>> = Arc::new(Mutex::new(HashMap::new()));
         let results: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::clone(&buffers);
 
         let mut builder = acutejson::Builder::new();
@@ -35,13 +42,22 @@ impl JsonBodyParser {
                 .unwrap_or_else(|e| e.into_inner())
                 .insert(field_name.clone(), Vec::new());
 
-            builder = match builder.register(field, move |bytes, _is_complete| {
-                field_matched
+            builder = match builder.register(field, move |bytes, is_complete| {
+                let kind = match (is_complete, bytes.is_empty()) {
+                    (true, true) => Kind::String,
+                    (true, false) => Kind::Scalar,
+                    (false, _) => Kind::Partial,
+                };
+                let previous = field_matched
                     .lock()
                     .unwrap_or_else(|e| e.into_inner())
-                    .insert(field_name.clone());
+                    .insert(field_name.clone(), kind);
                 let mut bufs = field_buffers.lock().unwrap_or_else(|e| e.into_inner());
                 if let Some(buf) = bufs.get_mut(&field_name) {
+                    if matches!(previous, Some(Kind::String | Kind::Scalar)) {
+                        // a repeated key: the last value counts
+                        buf.clear();
+                    }
                     buf.extend_from_slice(bytes);
                 } else {
                     error!("Buffer not found for field {}", field_name);
@@ -72,11 +88,23 @@ impl JsonBodyParser {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
         for (field, raw_bytes) in buffers.iter() {
-            if matched.contains(field) {
+            if let Some(kind) = matched.get(field) {
                 let raw_value = std::str::from_utf8(raw_bytes).map_err(|e| {
                     AttributeError::Parse(format!("Body field '{field}' is not valid UTF-8: {e}"))
                 })?;
-                let value = parse_json_scalar(raw_value);
+                let value = match kind {
+                    Kind::Scalar => parse_json_scalar(raw_value),
+                    Kind::String => {
+                        let decoded = serde_json::from_str::<String>(&format!("\"{raw_value}\""))
+                            .map_err(|e| {
+                                AttributeError::Parse(format!(
+                                    "Body field '{field}' is not a valid JSON string: {e}"
+                                ))
+                            })?;
+                        Value::String(Arc::new(decoded))
+                    }
+                    Kind::Partial => continue,
+                };
                 self.extracted.insert(field.clone(), value);
             }
         }
-- 
2.43.0


From b24136b6c8c8a4809f26ef88bcf3b2e510bce786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 14/31] fix: an event stream is decoded alike however it is
 cut, with CR line ends and with a byte order mark

---
 .../pipeline/tasks/store/sse_body_parser.rs   | 47 +++++++++++++++++--
 .../kuadrant/pipeline/tasks/token_usage.rs    |  5 ++
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..fdf8667 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -23,18 +23,45 @@ pub struct Event {
 
 #[derive(Default)]
 pub struct EventParser {
+    /// the start of a character cut off at the end of a chunk
+    partial_char: Vec<u8>,
+    started: bool,
     buffer: String,
     event_builder: EventBuilder,
 }
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
-        // taking advantage by the automatic deref coercion.
-        // Because String implements Deref<Target=str>,
-        // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
-        self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        bytes.extend(chunk_bytes);
+        let complete = match core::str::from_utf8(&bytes) {
+            Ok(_) => bytes.len(),
+            // the last character goes on in the next chunk
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(e) => return Err(e.to_string()),
+        };
+        self.partial_char = bytes.split_off(complete);
+        let text = String::from_utf8(bytes).map_err(|e| e.to_string())?;
+        if !self.started && !text.is_empty() {
+            self.started = true;
+            self.buffer
+                .push_str(text.strip_prefix('\u{FEFF}').unwrap_or(&text));
+        } else {
+            self.buffer.push_str(&text);
+        }
+
+        self.take_events()
+    }
 
+    /// The events completed by the end of the stream: a CR it ends with is not the start of a CRLF
+    pub(crate) fn finish(&mut self) -> Result<Vec<Event>, String> {
+        if self.buffer.ends_with('\u{000D}') {
+            self.buffer.push('\u{000A}');
+        }
+        self.take_events()
+    }
+
+    fn take_events(&mut self) -> Result<Vec<Event>, String> {
         let mut events = Vec::default();
 
         while let Some(event) = self.parse_one_event()? {
@@ -161,7 +188,17 @@ impl BodyParser for SseBodyParser {
     }
 
     fn finalize(&mut self) -> Result<(), AttributeError> {
+        if self.complete {
+            return Ok(());
+        }
         self.complete = true;
+        let events = self
+            .event_parser
+            .finish()
+            .map_err(|e| AttributeError::Parse(format!("SSE parse error: {e}")))?;
+        for event in events {
+            self.push_event(event);
+        }
         let penultimate = match &self.last_two_events[1] {
             Some(event) => &event.data,
             None => return Ok(()),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 12ce6c3..a7b706b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -173,6 +173,11 @@ impl ExtractionStrategy for SseStrategy {
     }
 
     fn extract_property(&mut self, prop: &str) -> Option<Value> {
+        if let Ok(events) = self.event_parser.finish() {
+            for event in events {
+                self.push_event(event);
+            }
+        }
         if self.parsed_json.is_none() {
             if let Some(event) = &self.last_two_events[1] {
                 if let Ok(json) = serde_json::from_str::<Value>(&event.data) {
-- 
2.43.0


From 10512e169bbae7c446ed0b9901966577d4525344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 15/31] fix: the media type of an event stream is recognised in
 any letter case

---
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs     | 2 +-
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 35d87a6..59129b7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -104,7 +104,7 @@ impl StoreTask {
                 let is_sse = match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => headers
                         .get("content-type")
-                        .is_some_and(|ct| ct.contains("text/event-stream")),
+                        .is_some_and(|ct| ct.to_ascii_lowercase().contains("text/event-stream")),
                     Ok(AttributeState::Available(None)) => false,
                     Ok(AttributeState::Pending) => return Ok(None),
                     Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index a7b706b..3933274 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -125,7 +125,7 @@ impl Task for TokenUsageTask {
 
 fn select_strategy(headers: &Headers) -> Box<dyn ExtractionStrategy> {
     if let Some(ct) = headers.get("content-type") {
-        if ct.contains("text/event-stream") {
+        if ct.to_ascii_lowercase().contains("text/event-stream") {
             Box::new(SseStrategy::new())
         } else {
             Box::new(JsonStrategy::new())
-- 
2.43.0


From 342ee4ee7ffc3b826465a62f1eabdaf4656a6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 16/31] fix: reject values a field or map key cannot hold
 instead of truncating or panicking

---
 .../src/services/dynamic/converters.rs        | 44 ++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..c7e300b 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -481,12 +481,19 @@ impl MessageConverter {
         use cel::common::types::CelMapKey;
 
         match cel_key {
-            CelMapKey::Bool(b) => Ok(MapKey::Bool(*b.inner())),
+            CelMapKey::Bool(b) => match key_field.kind() {
+                ProtoKind::Bool => Ok(MapKey::Bool(*b.inner())),
+                kind => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: "bool".to_string(),
+                    got: format!("{:?}", kind),
+                }),
+            },
             CelMapKey::Int(i) => {
                 let value = *i.inner();
                 match key_field.kind() {
                     ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
+                        Self::to_i32(value, key_field.name()).map(MapKey::I32)
                     }
                     ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                         Ok(MapKey::I64(value))
@@ -501,7 +508,9 @@ impl MessageConverter {
             CelMapKey::UInt(u) => {
                 let value = *u.inner();
                 match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
+                    ProtoKind::Uint32 | ProtoKind::Fixed32 => {
+                        Self::to_u32(value, key_field.name()).map(MapKey::U32)
+                    }
                     ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
                     _ => Err(ConversionError::TypeMismatch {
                         field: key_field.name().to_string(),
@@ -510,10 +519,33 @@ impl MessageConverter {
                     }),
                 }
             }
-            CelMapKey::String(s) => Ok(MapKey::String(s.inner().to_string())),
+            CelMapKey::String(s) => match key_field.kind() {
+                ProtoKind::String => Ok(MapKey::String(s.inner().to_string())),
+                kind => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: "string".to_string(),
+                    got: format!("{:?}", kind),
+                }),
+            },
         }
     }
 
+    fn to_i32(value: i64, field_name: &str) -> Result<i32, ConversionError> {
+        i32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+            field: field_name.to_string(),
+            expected: "int value within 32-bit range".to_string(),
+            got: value.to_string(),
+        })
+    }
+
+    fn to_u32(value: u64, field_name: &str) -> Result<u32, ConversionError> {
+        u32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+            field: field_name.to_string(),
+            expected: "uint value within 32-bit range".to_string(),
+            got: value.to_string(),
+        })
+    }
+
     fn cel_val_to_single_proto_value(
         cel_val: &dyn cel::common::value::Val,
         field: &FieldDescriptor,
@@ -539,7 +571,7 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                Self::to_i32(*i.inner(), field_name).map(ProtoValue::I32)
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -559,7 +591,7 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                Self::to_u32(*u.inner(), field_name).map(ProtoValue::U32)
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 0dc670982f64d837326a59b2175660951b7e0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 17/31] fix: make connection attributes visible to CEL
 expressions

---
 crates/kuadrant-filter/src/data/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..43586e4 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -246,7 +246,7 @@ impl Expression {
         }
         cel_ctx.add_variable_from_value("request", request_value);
 
-        for binding in ["metadata", "source", "destination", "auth"] {
+        for binding in ["metadata", "source", "destination", "connection", "auth"] {
             let key: Key = binding.into();
             cel_ctx.add_variable_from_value(binding, map.get(&key).cloned().unwrap_or(Value::Null));
         }
-- 
2.43.0


From 7408b510e8175c4f36f51b5d8f8d1a0a97f54b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 18/31] fix: CEL string functions index characters and do not
 panic

---
 .../kuadrant-filter/src/data/cel/strings.rs   | 92 +++++++++++--------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index e86416b..e49da99 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -2,8 +2,24 @@ use cel::extractors::{Arguments, This};
 use cel::{ExecutionError, ResolveResult, Value};
 use std::sync::Arc;
 
+/// The position, in characters, of the one starting at the byte `offset`.
+fn position(s: &str, offset: Option<usize>) -> Value {
+    Value::Int(offset.map_or(-1, |o| s[..o].chars().count() as i64))
+}
+
+/// The byte at which the character at `index` starts, if there is one.
+fn byte_offset<T: TryInto<usize>>(s: &str, index: T) -> Option<usize> {
+    let index = index.try_into().ok()?;
+    s.char_indices().nth(index).map(|(offset, _)| offset)
+}
+
+/// A count, where a negative one means there is no limit.
+fn limit<T: TryInto<usize>>(count: T) -> usize {
+    count.try_into().unwrap_or(usize::MAX)
+}
+
 pub fn char_at(This(this): This<Arc<String>>, arg: i64) -> ResolveResult {
-    match this.chars().nth(arg as usize) {
+    match byte_offset(&this, arg).and_then(|offset| this[offset..].chars().next()) {
         None => Err(ExecutionError::FunctionError {
             function: "String.charAt".to_owned(),
             message: format!("No index {arg} on `{this}`"),
@@ -18,14 +34,11 @@ pub fn index_of(
     Arguments(args): Arguments,
 ) -> ResolveResult {
     match args.len() {
-        1 => match this.find(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
+        1 => Ok(position(&this, this.find(&*arg))),
         2 => {
             let base = match args[1] {
-                Value::Int(i) => i as usize,
-                Value::UInt(u) => u as usize,
+                Value::Int(i) => byte_offset(&this, i),
+                Value::UInt(u) => byte_offset(&this, u),
                 _ => {
                     return Err(ExecutionError::FunctionError {
                         function: "String.indexOf".to_owned(),
@@ -36,13 +49,10 @@ pub fn index_of(
                     })
                 }
             };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].find(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt((base + idx) as u64)),
-            }
+            Ok(position(
+                &this,
+                base.and_then(|base| this[base..].find(&*arg).map(|idx| base + idx)),
+            ))
         }
         _ => Err(ExecutionError::FunctionError {
             function: "String.indexOf".to_owned(),
@@ -57,14 +67,11 @@ pub fn last_index_of(
     Arguments(args): Arguments,
 ) -> ResolveResult {
     match args.len() {
-        1 => match this.rfind(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
+        1 => Ok(position(&this, this.rfind(&*arg))),
         2 => {
             let base = match args[1] {
-                Value::Int(i) => i as usize,
-                Value::UInt(u) => u as usize,
+                Value::Int(i) => byte_offset(&this, i),
+                Value::UInt(u) => byte_offset(&this, u),
                 _ => {
                     return Err(ExecutionError::FunctionError {
                         function: "String.lastIndexOf".to_owned(),
@@ -75,13 +82,16 @@ pub fn last_index_of(
                     })
                 }
             };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].rfind(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(idx as u64)),
-            }
+            Ok(position(
+                &this,
+                base.and_then(|base| {
+                    this.char_indices()
+                        .rev()
+                        .map(|(offset, _)| offset)
+                        .skip_while(|offset| *offset > base)
+                        .find(|offset| this[*offset..].starts_with(&**arg))
+                }),
+            ))
         }
         _ => Err(ExecutionError::FunctionError {
             function: "String.lastIndexOf".to_owned(),
@@ -152,8 +162,8 @@ pub fn replace(This(this): This<Arc<String>>, Arguments(args): Arguments) -> Res
             };
             if count == 3 {
                 let n = match &args[2] {
-                    Value::Int(i) => *i as usize,
-                    Value::UInt(u) => *u as usize,
+                    Value::Int(i) => limit(*i),
+                    Value::UInt(u) => limit(*u),
                     _ => Err(ExecutionError::FunctionError {
                         function: "String.replace".to_owned(),
                         message: format!(
@@ -191,8 +201,8 @@ pub fn split(This(this): This<Arc<String>>, Arguments(args): Arguments) -> Resol
             };
             let list = if count == 2 {
                 let pos = match &args[1] {
-                    Value::UInt(u) => *u as usize,
-                    Value::Int(i) => *i as usize,
+                    Value::UInt(u) => limit(*u),
+                    Value::Int(i) => limit(*i),
                     _ => Err(ExecutionError::FunctionError {
                         function: "String.split".to_string(),
                         message: format!(
@@ -222,8 +232,8 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
     match args.len() {
         count @ 1..=2 => {
             let start = match &args[0] {
-                Value::Int(i) => *i as usize,
-                Value::UInt(u) => *u as usize,
+                Value::Int(i) => *i,
+                Value::UInt(u) => i64::try_from(*u).unwrap_or(i64::MAX),
                 _ => Err(ExecutionError::FunctionError {
                     function: "String.substring".to_string(),
                     message: format!(
@@ -234,8 +244,8 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
             };
             let end = if count == 2 {
                 match &args[1] {
-                    Value::Int(i) => *i as usize,
-                    Value::UInt(u) => *u as usize,
+                    Value::Int(i) => *i,
+                    Value::UInt(u) => i64::try_from(*u).unwrap_or(i64::MAX),
                     _ => Err(ExecutionError::FunctionError {
                         function: "String.substring".to_string(),
                         message: format!(
@@ -245,8 +255,14 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
                     })?,
                 }
             } else {
-                this.chars().count()
+                this.chars().count() as i64
             };
+            if start < 0 {
+                Err(ExecutionError::FunctionError {
+                    function: "String.substring".to_string(),
+                    message: format!("Can't start before the first character: `{start}`"),
+                })?
+            }
             if end < start {
                 Err(ExecutionError::FunctionError {
                     function: "String.substring".to_string(),
@@ -255,8 +271,8 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
             }
             Ok(this
                 .chars()
-                .skip(start)
-                .take(end - start)
+                .skip(limit(start))
+                .take(limit(end - start))
                 .collect::<String>()
                 .into())
         }
-- 
2.43.0


From 64dcb247434839b7d9efd161fce349772bad2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 19/31] fix: deny, headers, store and fail actions wait for the
 actions they depend on

---
 .../src/kuadrant/pipeline/blueprint.rs        | 10 +++-
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 +
 .../src/kuadrant/pipeline/tasks/ordered.rs    | 55 +++++++++++++++++++
 3 files changed, 64 insertions(+), 3 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 4920be8..e9cc7de 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, Task,
-    TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, OrderedTask,
+    Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -438,7 +438,11 @@ impl Blueprint {
                 },
                 _ => {
                     if let Some(task) = action.to_core_task(ctx) {
-                        tasks.push(task);
+                        tasks.push(Box::new(OrderedTask::new(
+                            task,
+                            action.dependencies.clone(),
+                            action.is_guard,
+                        )));
                     }
                 }
             }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 2f83fe4..4e18f8a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -3,6 +3,7 @@ mod export_traces;
 mod fail;
 mod failure_mode;
 mod headers;
+mod ordered;
 mod send_reply;
 mod store;
 mod token_usage;
@@ -13,6 +14,7 @@ pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
+pub use ordered::OrderedTask;
 pub use send_reply::SendReplyTask;
 pub use store::StoreTask;
 pub use token_usage::TokenUsageTask;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
new file mode 100644
index 0000000..6af40bd
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
@@ -0,0 +1,55 @@
+use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
+use crate::kuadrant::ReqRespCtx;
+
+/// A task that is applied once the tasks it depends on have completed
+pub struct OrderedTask {
+    task: Box<dyn Task>,
+    dependencies: Vec<String>,
+    is_guard: bool,
+}
+
+impl OrderedTask {
+    pub fn new(task: Box<dyn Task>, dependencies: Vec<String>, is_guard: bool) -> Self {
+        Self {
+            task,
+            dependencies,
+            is_guard,
+        }
+    }
+}
+
+impl Task for OrderedTask {
+    fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        match self.task.apply(ctx) {
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| {
+                        Box::new(OrderedTask {
+                            task,
+                            dependencies: self.dependencies.clone(),
+                            is_guard: self.is_guard,
+                        }) as Box<dyn Task>
+                    })
+                    .collect(),
+            ),
+            outcome => outcome,
+        }
+    }
+
+    fn id(&self) -> &str {
+        self.task.id()
+    }
+
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
+    fn is_guard(&self) -> bool {
+        self.is_guard
+    }
+
+    fn expire(self: Box<Self>) -> TaskOutcome {
+        self.task.expire()
+    }
+}
-- 
2.43.0


From 831fa25a2a9fb78ca9175fee8b03346783832f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 20/31] fix: an expression naming a stored value as a whole
 waits for it

---
 crates/kuadrant-filter/src/data/cel.rs | 33 ++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 43586e4..81dbd15 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -104,6 +104,8 @@ pub(crate) mod errors {
 #[derive(Clone, Debug)]
 pub struct Expression {
     attributes: Vec<Attribute>,
+    /// names used as a whole, which may be those of stored values
+    names: Vec<String>,
     request_body_values: Vec<String>,
     response_body_values: Vec<String>,
     expression: CelExpression,
@@ -170,9 +172,14 @@ impl Expression {
         );
 
         let mut needs_grpc = false;
+        let mut names = Vec::new();
         let mut attributes: Vec<Attribute> = props
             .into_iter()
             .filter_map(|tokens| {
+                if tokens.len() == 1 {
+                    names.push(tokens[0].to_string());
+                    return None;
+                }
                 if tokens.len() >= 2 && tokens[0] == "request" && tokens[1] == "grpc" {
                     needs_grpc = true;
                     return None;
@@ -189,6 +196,7 @@ impl Expression {
 
         Ok(Self {
             attributes,
+            names,
             request_body_values: request_props,
             response_body_values: response_props,
             expression,
@@ -227,6 +235,14 @@ impl Expression {
             .collect();
         req_ctx.ensure_attributes(&paths);
 
+        if self
+            .names
+            .iter()
+            .any(|name| req_ctx.values.is_pending(name))
+        {
+            return Ok(AttributeState::Pending);
+        }
+
         let Map { map } = match self.build_data_map(req_ctx)? {
             AttributeState::Pending => return Ok(AttributeState::Pending),
             AttributeState::Available(m) => m,
@@ -869,11 +885,9 @@ fn properties<'e>(
             properties(&select.operand, all, request_props, response_props, path);
         }
         Expr::Ident(name) => {
-            if !path.is_empty() {
-                path.insert(0, name.as_str());
-                all.push(path.clone());
-                path.clear();
-            }
+            path.insert(0, name.as_str());
+            all.push(path.clone());
+            path.clear();
         }
         Expr::List(list) => {
             for elem in &list.elements {
@@ -903,9 +917,18 @@ fn properties<'e>(
         Expr::Comprehension(comp) => {
             properties(&comp.iter_range, all, request_props, response_props, path);
             properties(&comp.accu_init, all, request_props, response_props, path);
+            let outer = all.len();
             properties(&comp.loop_cond, all, request_props, response_props, path);
             properties(&comp.loop_step, all, request_props, response_props, path);
             properties(&comp.result, all, request_props, response_props, path);
+            // the comprehension's own variables
+            let inner = all.split_off(outer);
+            all.extend(inner.into_iter().filter(|tokens| {
+                tokens.len() > 1
+                    || (*tokens[0] != comp.iter_var
+                        && *tokens[0] != comp.accu_var
+                        && comp.iter_var2.as_deref() != Some(tokens[0]))
+            }));
         }
         Expr::Literal(_) | Expr::Unspecified => {}
     }
-- 
2.43.0


From dae3d455f06e6a9baa318e179fea63dacdd37214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 21/31] fix: a denial's status is not truncated to 32 bits

---
 .../src/kuadrant/pipeline/tasks/send_reply.rs              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 9a5cc74..8e12080 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -98,7 +98,12 @@ impl Task for SendReplyTask {
                     let status = deny_response
                         .field_value("status")
                         .and_then(|v| v.downcast_ref::<CelUInt>())
-                        .map(|v| *v.inner() as u32);
+                        .map(|v| u32::try_from(*v.inner()))
+                        .transpose();
+                    let Ok(status) = status else {
+                        error!("Invalid status in DenyResponse: {deny_response:?}");
+                        return TaskOutcome::Failed;
+                    };
 
                     let body = deny_response
                         .field_value("body")
-- 
2.43.0


From 63ca82c82019c884f92cd2334f3d6fd1cac02f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 22/31] fix: a denial that cannot be stated does not let the
 request through

---
 crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index e9cc7de..ab5b72a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -437,7 +437,11 @@ impl Blueprint {
                     }
                 },
                 _ => {
-                    if let Some(task) = action.to_core_task(ctx) {
+                    if let Some(mut task) = action.to_core_task(ctx) {
+                        if matches!(action.operation, Operation::Deny { .. }) {
+                            // a denial that cannot be stated must not let the request through
+                            task = Box::new(FailureModeTask::new(task, true));
+                        }
                         tasks.push(Box::new(OrderedTask::new(
                             task,
                             action.dependencies.clone(),
-- 
2.43.0


From 843465e2972ecc242ff8f52cf276bbd18ec868c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 23/31] fix: the remote address of an IPv6 client is its
 address

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 86338ad..7c3566b 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -236,10 +236,7 @@ impl ReqRespCtx {
         // Envoy sets source.address to the trusted client address AND port.
         match self.backend.get_attribute(&"source.address".into()) {
             Ok(Some(host_vec)) => match String::from_utf8(host_vec) {
-                Ok(source_address) => {
-                    let split_address = source_address.split(':').collect::<Vec<_>>();
-                    Ok(Some(split_address[0].as_bytes().to_vec()))
-                }
+                Ok(source_address) => Ok(Some(without_port(&source_address).as_bytes().to_vec())),
                 Err(_) => Err(AttributeError::Parse(
                     "source.address not valid UTF-8".to_string(),
                 )),
@@ -373,6 +370,17 @@ impl ReqRespCtx {
     }
 }
 
+/// The address in `address:port`; that of an IPv6 address comes in brackets
+fn without_port(address: &str) -> &str {
+    if let Some((host, _)) = address.strip_prefix('[').and_then(|a| a.split_once(']')) {
+        return host;
+    }
+    match address.split_once(':') {
+        Some((host, port)) if !port.contains(':') => host,
+        _ => address,
+    }
+}
+
 struct Tracker {
     id: OnceCell<String>,
     downstream_identifier: Option<String>,
-- 
2.43.0


From c1eb26ec7bfff6f5d5c8ff89377c78faa94587f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 24/31] fix: request ids and header names with quotes do not
 break the tracking header

---
 crates/kuadrant-filter/src/configuration.rs           |  1 +
 .../src/configuration/legacy_translation.rs           |  2 +-
 .../src/kuadrant/pipeline/blueprint.rs                | 11 +++++++----
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 90cff37..35e153a 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -11,6 +11,7 @@ use std::time::Duration;
 mod legacy_translation;
 #[allow(deprecated)]
 pub(crate) use legacy_translation::auth::translate_legacy_auth_to_typed;
+pub(crate) use legacy_translation::escape_cel_string;
 #[allow(deprecated)]
 pub(crate) use legacy_translation::ratelimit::translate_legacy_ratelimit_to_typed;
 #[allow(deprecated)]
diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index 23df9ff..d1ad1d1 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -3,7 +3,7 @@ use super::{
     GrpcOperation, HeadersOperation, HeadersTarget, Operation, StoreOperation, TypedAction,
 };
 
-fn escape_cel_string(s: &str) -> String {
+pub(crate) fn escape_cel_string(s: &str) -> String {
     s.replace('\\', "\\\\")
         .replace('"', "\\\"")
         .replace('\n', "\\n")
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index ab5b72a..ea979c9 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -1,6 +1,6 @@
 #[allow(deprecated)]
 use crate::configuration::{
-    self, translate_legacy_auth_to_typed, translate_legacy_ratelimit_to_typed,
+    self, escape_cel_string, translate_legacy_auth_to_typed, translate_legacy_ratelimit_to_typed,
     translate_legacy_report_to_typed,
 };
 use crate::data::{cel::Predicate, Expression};
@@ -108,9 +108,12 @@ impl Action {
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
                         #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::new(&format!(
+                            r#"[["{}", "{}"]]"#,
+                            escape_cel_string(var),
+                            escape_cel_string(ctx.request_id())
+                        ))
+                        .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
-- 
2.43.0


From c0e8baa887e92c9e176e85e481a90181d1ef9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 25/31] fix: headers set by an action are found under their
 lower-case name

---
 crates/kuadrant-filter/src/data/cel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 81dbd15..88af873 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -696,7 +696,12 @@ impl Attribute {
                     //todo(refactor/pull/245): We should think about and handle other types of maps
                     // other than Headers / Vec<(String, String)>
                     opt.map(|headers| {
-                        let map: HashMap<String, String> = headers.into();
+                        // indexed by the lower-cased name, however an action spelled it
+                        let mut headers = headers.into_inner();
+                        for (name, _) in &mut headers {
+                            name.make_ascii_lowercase();
+                        }
+                        let map: HashMap<String, String> = Headers::from(headers).into();
                         Value::Map(cel::objects::Map::from(map))
                     })
                     .unwrap_or(Value::Null)
-- 
2.43.0


From b6e0e497020a3fc9f719b071de883fe88401d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 26/31] fix: the span of a request is current only while its
 own tasks run

---
 .../kuadrant-filter/src/kuadrant/context.rs   | 22 ++++++++++++++-----
 .../src/kuadrant/pipeline/executor.rs         |  9 +++++++-
 .../kuadrant/pipeline/tasks/export_traces.rs  |  2 +-
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 7c3566b..38731bd 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -68,8 +68,9 @@ impl ReqRespCtx {
         }
     }
 
-    pub fn enter_request_span(&mut self) {
+    pub fn start_request_span(&mut self) {
         let span = tracing::info_span!(
+            parent: None,
             "kuadrant_filter",
             action_set = tracing::field::Empty,
             hostname = tracing::field::Empty,
@@ -86,12 +87,21 @@ impl ReqRespCtx {
             if let Some(hostname) = &self.tracing.hostname {
                 span.record("hostname", hostname.as_str());
             }
-            self.tracing.request_span_guard = Some(span.entered());
+            self.tracing.request_span = Some(span);
         }
     }
 
+    /// Enters the span of the request until the guard is dropped. As callbacks of other
+    /// requests may follow the current one, the guard must not outlive it.
+    pub fn enter_request_span(&self) -> Option<tracing::span::EnteredSpan> {
+        self.tracing
+            .request_span
+            .clone()
+            .map(tracing::Span::entered)
+    }
+
     pub fn end_request_span(&mut self) {
-        std::mem::drop(self.tracing.request_span_guard.take());
+        std::mem::drop(self.tracing.request_span.take());
     }
 
     pub fn set_action_set_name(&mut self, name: String) {
@@ -340,7 +350,7 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span_guard.is_some() {
+        let context = if self.tracing.request_span.is_some() {
             &tracing::Span::current().context()
         } else {
             &self.tracing.otel_context
@@ -419,7 +429,7 @@ impl Tracker {
 
 struct TracingContext {
     otel_context: opentelemetry::Context,
-    request_span_guard: Option<tracing::span::EnteredSpan>,
+    request_span: Option<tracing::Span>,
     action_set_name: Option<String>,
     hostname: Option<String>,
 }
@@ -428,7 +438,7 @@ impl Default for TracingContext {
     fn default() -> Self {
         Self {
             otel_context: opentelemetry::Context::new(),
-            request_span_guard: None,
+            request_span: None,
             action_set_name: None,
             hostname: None,
         }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 32b6000..9cd361b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -122,6 +122,7 @@ impl Pipeline {
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
+        let _span = self.ctx.enter_request_span();
         for task in tasks {
             if task
                 .dependencies()
@@ -163,6 +164,7 @@ impl Pipeline {
     }
 
     fn expire_tasks(&mut self) -> ProcessOutcome {
+        let _span = self.ctx.enter_request_span();
         for task in std::mem::take(&mut self.task_queue) {
             error!("Stream ended before task: {:?}", task.id());
             if let TaskOutcome::Terminate(terminal_task) = task.expire() {
@@ -213,7 +215,10 @@ impl Pipeline {
                 Err(err) => error!("Failed to set gRPC response data: {}", err),
             };
             let task_id = pending.id().to_string();
-            match pending.apply(&mut self.ctx) {
+            let span = self.ctx.enter_request_span();
+            let outcome = pending.apply(&mut self.ctx);
+            drop(span);
+            match outcome {
                 TaskOutcome::Done => {
                     self.completed_tasks.insert(task_id);
                 }
@@ -234,7 +239,9 @@ impl Pipeline {
                     self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
+                    let span = self.ctx.enter_request_span();
                     terminal_task.apply(&mut self.ctx);
+                    drop(span);
                     self.task_queue.clear();
                     self.terminated = true;
                     self.execute_teardown();
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
index e88cc88..5dd10a4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
@@ -10,7 +10,7 @@ pub struct ExportTracesTask {
 
 impl ExportTracesTask {
     pub fn new(ctx: &mut ReqRespCtx, service: Arc<TracingService>) -> Self {
-        ctx.enter_request_span();
+        ctx.start_request_span();
         Self { service }
     }
 }
-- 
2.43.0


From bd6f1abbd4d26ac2e4ce41129a4e3ae21ccb9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 27/31] fix: a gRPC reply whose fields all have their default
 values is a reply

---
 crates/wasm-shim/src/wasm_host.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/wasm-shim/src/wasm_host.rs b/crates/wasm-shim/src/wasm_host.rs
index 78750f1..b6fd50f 100644
--- a/crates/wasm-shim/src/wasm_host.rs
+++ b/crates/wasm-shim/src/wasm_host.rs
@@ -192,9 +192,8 @@ impl AttributeResolver for ProxyWasmHost {
 
     fn get_grpc_response(&self, response_size: usize) -> Result<Vec<u8>, ServiceError> {
         if response_size == 0 {
-            return Err(ServiceError::Retrieval(
-                "Received response with size 0".to_string(),
-            ));
+            // a message with nothing but default values
+            return Ok(Vec::new());
         }
         debug!("Getting gRPC response, size: {} bytes", response_size);
         hostcalls::get_buffer(
-- 
2.43.0


From 3c5b7c59a31795fcf439d28fcd0cd558e9bf761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 28/31] fix: the end of a response is held until all that is
 reported about it is sent

---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index b66791f..9cbd56b 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -34,6 +34,11 @@ impl KuadrantFilter {
     fn should_resume(&self) -> bool {
         let pipeline = self.pipeline.as_ref().expect("pipeline must be present");
 
+        if self.force_resume {
+            // the end of the response waits until the pipeline completes
+            return false;
+        }
+
         if pipeline.is_terminated() && self.in_response_phase {
             return self.should_pause().not();
         }
@@ -206,18 +211,16 @@ impl HttpContext for KuadrantFilter {
                 }
             }
         }
-        if self.should_pause() {
+        if self.pipeline.is_some() && end_of_stream {
+            trace!("on_http_response_body: pipeline is some, pause");
+            self.force_resume = true;
+            Action::Pause
+        } else if self.should_pause() {
             trace!("on_http_response_body: pause");
             Action::Pause
         } else {
-            if self.pipeline.is_some() && end_of_stream {
-                trace!("on_http_response_body: pipeline is some, pause");
-                self.force_resume = true;
-                Action::Pause
-            } else {
-                trace!("on_http_response_body: continue");
-                Action::Continue
-            }
+            trace!("on_http_response_body: continue");
+            Action::Continue
         }
     }
 }
-- 
2.43.0


From da2631a2b9d6736a5052ba5b51ffbf2a8d973417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 29/31] fix: a response without a body does not leave its
 reports and traces unsent

---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 9cbd56b..a723366 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -172,11 +172,15 @@ impl HttpContext for KuadrantFilter {
         }
     }
 
-    fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_response_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
         METRICS.allowed().increment();
         self.in_response_phase = true;
-        if let Some(pipeline) = self.pipeline.take() {
+        if let Some(mut pipeline) = self.pipeline.take() {
+            if end_of_stream {
+                // there is no response body to wait for
+                pipeline.ctx.response_body.set_buffer_size(0, true);
+            }
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
@@ -186,7 +190,11 @@ impl HttpContext for KuadrantFilter {
                 }
             }
         }
-        if self.should_pause() {
+        if self.pipeline.is_some() && end_of_stream {
+            trace!("on_http_response_headers: pipeline is some, pause");
+            self.force_resume = true;
+            Action::Pause
+        } else if self.should_pause() {
             trace!("on_http_response_headers: pause");
             Action::Pause
         } else {
-- 
2.43.0


From 53ce833b76832ccdda8cffa8481b312e03d6ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 30/31] fix: a message that ends with trailers ends its body

---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index a723366..51323a8 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -172,6 +172,30 @@ impl HttpContext for KuadrantFilter {
         }
     }
 
+    fn on_http_request_trailers(&mut self, _num_trailers: usize) -> Action {
+        debug!("#{} on_http_request_trailers", self.context_id);
+        if let Some(mut pipeline) = self.pipeline.take() {
+            // the body ended before the trailers
+            let buffer_size = pipeline.ctx.request_body.buffer_size();
+            pipeline.ctx.request_body.set_buffer_size(buffer_size, true);
+            match pipeline.eval() {
+                PipelineState::InProgress(p) => {
+                    self.pipeline = Some(*p);
+                }
+                PipelineState::Completed { .. } => {
+                    self.pipeline = None;
+                }
+            }
+        }
+        if self.should_pause() {
+            trace!("on_http_request_trailers: pause");
+            Action::Pause
+        } else {
+            trace!("on_http_request_trailers: continue");
+            Action::Continue
+        }
+    }
+
     fn on_http_response_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
         METRICS.allowed().increment();
@@ -231,4 +255,31 @@ impl HttpContext for KuadrantFilter {
             Action::Continue
         }
     }
+    fn on_http_response_trailers(&mut self, _num_trailers: usize) -> Action {
+        debug!("#{} on_http_response_trailers", self.context_id);
+        if let Some(mut pipeline) = self.pipeline.take() {
+            // the body ended before the trailers
+            let buffer_size = pipeline.ctx.response_body.buffer_size();
+            pipeline
+                .ctx
+                .response_body
+                .set_buffer_size(buffer_size, true);
+            match pipeline.eval() {
+                PipelineState::InProgress(p) => {
+                    self.pipeline = Some(*p);
+                }
+                PipelineState::Completed { .. } => {
+                    self.pipeline = None;
+                }
+            }
+        }
+        if self.pipeline.is_some() {
+            trace!("on_http_response_trailers: pipeline is some, pause");
+            self.force_resume = true;
+            Action::Pause
+        } else {
+            trace!("on_http_response_trailers: continue");
+            Action::Continue
+        }
+    }
 }
-- 
2.43.0


From aa8750fab39ee83ac4bd73741425140b2a42c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 31/31] fix: a denied request is not counted as allowed when
 its reply passes

---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 51323a8..55b379a 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -13,6 +13,7 @@ pub struct KuadrantFilter {
     pipeline: Option<Pipeline>,
     in_response_phase: bool,
     force_resume: bool,
+    answered: bool,
 }
 
 impl KuadrantFilter {
@@ -23,6 +24,7 @@ impl KuadrantFilter {
             pipeline: None,
             in_response_phase: false,
             force_resume: false,
+            answered: false,
         }
     }
 
@@ -56,10 +58,12 @@ impl Context for KuadrantFilter {
         if let Some(pipeline) = self.pipeline.take() {
             let should_resume = match pipeline.digest(token_id, status_code, response_size) {
                 PipelineState::InProgress(p) => {
+                    self.answered |= p.is_terminated();
                     self.pipeline = Some(*p);
                     self.should_resume()
                 }
                 PipelineState::Completed { should_resume } => {
+                    self.answered |= should_resume.not();
                     self.pipeline = None;
                     trace!(
                         "#{} PipelineState::Completed: should_resume={}",
@@ -111,9 +115,11 @@ impl HttpContext for KuadrantFilter {
                 }
                 match pipeline.eval() {
                     PipelineState::InProgress(p) => {
+                        self.answered |= p.is_terminated();
                         self.pipeline = Some(*p);
                     }
-                    PipelineState::Completed { .. } => {
+                    PipelineState::Completed { should_resume } => {
+                        self.answered |= should_resume.not();
                         self.pipeline = None;
                     }
                 }
@@ -133,6 +139,7 @@ impl HttpContext for KuadrantFilter {
             Err(e) => {
                 error!("#{} failed to build pipeline: {:?}", self.context_id, e);
                 METRICS.errors().increment();
+                self.answered = true;
                 #[allow(clippy::panic)]
                 hostcalls::send_http_response(500, Default::default(), Some(b"Internal Server Error.\n"))
                     .unwrap_or_else(|err| {
@@ -156,9 +163,11 @@ impl HttpContext for KuadrantFilter {
                 .set_buffer_size(buffer_size, end_of_stream);
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
+                    self.answered |= p.is_terminated();
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
+                    self.answered |= should_resume.not();
                     self.pipeline = None;
                 }
             }
@@ -180,9 +189,11 @@ impl HttpContext for KuadrantFilter {
             pipeline.ctx.request_body.set_buffer_size(buffer_size, true);
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
+                    self.answered |= p.is_terminated();
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
+                    self.answered |= should_resume.not();
                     self.pipeline = None;
                 }
             }
@@ -198,7 +209,9 @@ impl HttpContext for KuadrantFilter {
 
     fn on_http_response_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
-        METRICS.allowed().increment();
+        if self.answered.not() {
+            METRICS.allowed().increment();
+        }
         self.in_response_phase = true;
         if let Some(mut pipeline) = self.pipeline.take() {
             if end_of_stream {
@@ -207,9 +220,11 @@ impl HttpContext for KuadrantFilter {
             }
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
+                    self.answered |= p.is_terminated();
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
+                    self.answered |= should_resume.not();
                     self.pipeline = None;
                 }
             }
@@ -236,9 +251,11 @@ impl HttpContext for KuadrantFilter {
                 .set_buffer_size(buffer_size, end_of_stream);
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
+                    self.answered |= p.is_terminated();
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
+                    self.answered |= should_resume.not();
                     self.pipeline = None;
                 }
             }
@@ -266,9 +283,11 @@ impl HttpContext for KuadrantFilter {
                 .set_buffer_size(buffer_size, true);
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
+                    self.answered |= p.is_terminated();
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
+                    self.answered |= should_resume.not();
                     self.pipeline = None;
                 }
             }
-- 
2.43.0

