From 618317de3ae7ac5e89ddb7c647ff8342d4322546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 01/41] fix: keep the process registered while a monitor or
 link is installed

process_exists_lock released its registry guard before it ran the callback, so
a process that ended in between was never reported to the new monitor or link.
---
 hydra/src/process_registry.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..f6f4630 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,9 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From e3f994dc20149e1884170e82f35fab9b3a9f0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 02/41] fix: register a process before it runs

A spawned task could run, and even end, on another worker before spawn had
inserted its registration: its flags and name were lost, its end panicked, and
the late registration stayed forever.
---
 hydra/src/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..b45dbd7 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -10,6 +10,8 @@ use std::time::Duration;
 use flume::Receiver;
 use flume::Sender;
 
+use tokio::sync::oneshot;
+
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
@@ -481,8 +483,13 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // The process must not run before it's registered.
+    let (registered, wait_registered) = oneshot::channel();
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
+        let _ = wait_registered.await;
+
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
             process_set_exit_reason(Process::current(), e.into());
         }
@@ -491,5 +498,7 @@ where
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
+    let _ = registered.send(());
+
     result
 }
-- 
2.43.0


From a19b713970d9b2e7469b41c8cc633f198a69c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 03/41] fix: demonitor discards a down message that a selective
 receive set aside

The documentation promises that a monitor message which was not received yet is
discarded, but one that a receive with a filter had moved to the saved items
was still delivered.
---
 hydra/src/process.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index b45dbd7..8ae3f87 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -60,6 +60,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -359,6 +360,16 @@ impl Process {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // A selective receive may have set the monitor message aside already.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _))
+                            if *reference == monitor
+                    )
+                });
+            });
             return;
         };
 
-- 
2.43.0


From 21810f911169fa3693f0227737c68ff96fc0e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 04/41] fix: unlink removes both directions of a link

Only the exit of the given process stopped to reach the caller: the exit of the
caller still ended the process that it had unlinked from.
---
 hydra/src/link.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..60015db 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -72,6 +72,14 @@ pub fn link_install(process: Pid, from: Pid) {
 
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
+    // Links are bi-directional, the end of the from process must no longer reach the process.
+    if from.is_local() {
+        LINKS.alter(&from.id(), |_, mut value| {
+            value.remove(&process);
+            value
+        });
+    }
+
     if process.is_local() {
         LINKS.alter(&process.id(), |_, mut value| {
             value.remove(&from);
-- 
2.43.0


From ada93d51b9a9bd4ccc02c2c42e83192e00039b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/41] fix: deactivate a monitor's alias before its down
 message is sent

---
 hydra/src/monitor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..3e94be1 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -220,6 +220,11 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
     let mut remote_monitors: BTreeMap<u64, (MonitorDown, Vec<Reference>)> = BTreeMap::new();
 
     for (reference, (pid, dest)) in references {
+        // The alias must be inactive before the monitor message can be received.
+        if reference.is_local() {
+            alias_destroy(reference);
+        }
+
         if pid.is_local() {
             process_sender(pid).map(|sender| {
                 sender.send(ProcessItem::MonitorProcessDown(
@@ -236,10 +241,6 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
             remote.0.monitors.push(reference.id());
             remote.1.push(reference);
         }
-
-        if reference.is_local() {
-            alias_destroy(reference);
-        }
     }
 
     for (node, (monitor_down, references)) in remote_monitors {
-- 
2.43.0


From 516455bfc42926ba28d975a80f4fb594640fc3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 06/41] fix: an ending process only gives up a name that is
 still its own

---
 hydra/src/process.rs          | 2 +-
 hydra/src/process_registry.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 8ae3f87..9b96e49 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -432,7 +432,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index f6f4630..96bb885 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -61,9 +61,9 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name if it still belongs to the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, id| *id == pid.id());
 }
 
 /// Checks if the process is alive.
-- 
2.43.0


From 2c21262f69ea46bc76f7d6e5349ad73f314b1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 07/41] fix: register a timer before it can fire

---
 hydra/src/process.rs          |  6 +++---
 hydra/src/process_registry.rs | 12 +++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 9b96e49..7140b87 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -177,14 +177,14 @@ impl Process {
 
         let reference = Reference::new();
 
-        let handle = tokio::spawn(async move {
+        let timer = async move {
             Process::sleep(duration).await;
             Process::send(dest, message);
 
             process_destroy_timer(reference);
-        });
+        };
 
-        process_register_timer(reference, duration, handle);
+        process_register_timer(reference, duration, || tokio::spawn(timer));
 
         reference
     }
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 96bb885..290b472 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -243,9 +243,15 @@ pub fn process_name_list() -> Vec<String> {
         .collect()
 }
 
-/// Registers a timer.
-pub fn process_register_timer(timer: Reference, duration: Duration, handle: JoinHandle<()>) {
-    PROCESS_TIMERS.insert(timer.id(), (Instant::now() + duration, handle));
+/// Registers a timer, the timer started by `start` can't finish before it was registered.
+pub fn process_register_timer<S: FnOnce() -> JoinHandle<()>>(
+    timer: Reference,
+    duration: Duration,
+    start: S,
+) {
+    let entry = PROCESS_TIMERS.entry(timer.id());
+
+    entry.insert((Instant::now() + duration, start()));
 }
 
 /// Reads a timer.
-- 
2.43.0


From 224294e1cc79aabadce4bcb8a238dd26a4ac47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 08/41] fix: don't restart temporary children together with
 their siblings

---
 hydra/src/supervisor.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..51a0c3e 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -610,25 +610,28 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
+        let mut remove = Vec::new();
 
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
-
-        for tindex in range {
-            indices.push(tindex);
+        let start = if all { 0 } else { index };
 
+        for tindex in start..self.children.len() {
             if index == tindex {
                 continue;
             }
 
             self.terminate_child_by_index(tindex).await;
+
+            // Temporary children are never restarted.
+            if self.children[tindex].is_temporary() {
+                remove.push(tindex);
+            }
+        }
+
+        for rindex in remove.into_iter().rev() {
+            self.remove_child(rindex);
         }
 
-        for sindex in indices {
+        for sindex in start..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From 9df48ad48094bce1e51f345576bc70f80a2e0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 09/41] fix: accept any max_duration for restarts

---
 hydra/src/supervisor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 51a0c3e..0845cfd 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -755,9 +755,12 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        // A duration that reaches back too far includes every restart.
+        if let Some(threshold) = now.checked_sub(self.max_duration) {
+            self.restarts.retain(|restart| *restart >= threshold);
+        }
+
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From cc6abdc7b6270a2e778fcc02182e5f7849b6080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 10/41] fix: a restart retry that has become moot doesn't count
 as a restart

---
 hydra/src/supervisor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 0845cfd..be68075 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -650,14 +650,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From ed90f440d10494d4c3b72da1a754d1a6c5223a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 11/41] fix: all_significant waits for the last significant
 child

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index be68075..df1b301 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -743,8 +743,8 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
-            if child.pid.is_none() {
+        !self.children.iter().any(|child| {
+            if child.pid.is_none() && !child.restarting {
                 return false;
             }
 
-- 
2.43.0


From 1a94db15a29be1398f02d244f725058644caa542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 12/41] fix: free the id of a temporary child that was ignored

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index df1b301..acb23ed 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -720,7 +720,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From 5ce023dc49026f133960c9011568b7808d215bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 13/41] fix: terminate_child deletes the specification of a
 temporary child

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index acb23ed..df8679a 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From 192e0dca0151745ce2f4be31912dfe1843d99b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 14/41] fix: terminating a child cancels its pending restart

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index df8679a..af34064 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -462,12 +462,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
-- 
2.43.0


From c8339a9c68b910df5a2ea45d2395e57cebfc70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 15/41] fix: a child that waits for its restart is not running

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index af34064..aa3061a 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -785,7 +785,7 @@ impl Supervisor {
         for child in &self.children {
             result.push(SupervisorChildInfo {
                 id: child.spec.id.clone(),
-                child: child.pid,
+                child: child.pid.filter(|_| !child.restarting),
                 child_type: child.spec.child_type,
                 restarting: child.restarting,
             });
@@ -806,7 +806,7 @@ impl Supervisor {
         for child in &self.children {
             counts.specs += 1;
 
-            if child.pid.is_some() {
+            if child.pid.is_some() && !child.restarting {
                 counts.active += 1;
             }
 
-- 
2.43.0


From df4e42325c2f965b6044e0ef2f445134270752ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 16/41] fix: a registry without a start routine reports that
 starting is not supported

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From c8f2ea6a6aff4fcd43f0822cb81ed45dc292aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 17/41] fix: dropping a registry only gives up its own
 processes

---
 hydra/src/registry.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..6c52e03 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -400,10 +400,13 @@ impl Registry {
                 let mut monitors: Vec<(Pid, Reference)> = Vec::with_capacity(registry.len());
 
                 for (process, key) in &self.lookup {
-                    if registry.contains_key(key) {
+                    if registry.get(key).is_some_and(|entry| entry.value() == process) {
                         monitors.push((*process, Process::monitor(*process)));
 
                         Process::exit(*process, ExitReason::from("shutdown"));
+                    } else {
+                        // It was removed from the registry and remains running.
+                        Process::unlink(*process);
                     }
                 }
 
@@ -473,12 +476,21 @@ impl Registry {
 
 impl Drop for Registry {
     fn drop(&mut self) {
-        REGISTRY.remove(&self.name);
-
-        for process in self.lookup.keys() {
+        for (process, key) in &self.lookup {
             Process::unlink(*process);
-            Process::exit(*process, ExitReason::Kill);
+
+            let registered = REGISTRY.get(&self.name).is_some_and(|registry| {
+                registry
+                    .remove_if(key, |_, value| value == process)
+                    .is_some()
+            });
+
+            if registered {
+                Process::exit(*process, ExitReason::Kill);
+            }
         }
+
+        REGISTRY.remove_if(&self.name, |_, registry| registry.is_empty());
     }
 }
 
-- 
2.43.0


From 5b0af0a4b6024da440e1d63338cf030a5c303c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 18/41] fix: a registry keeps its table under the name it is
 registered under

---
 hydra/src/registry.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 6c52e03..e8d4adc 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -315,8 +315,10 @@ impl Registry {
     }
 
     /// Create a registry proces not linked to a supervision tree.
-    pub async fn start(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
+    pub async fn start(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        if let Some(name) = &options.name {
+            self.name.clone_from(name);
+        } else {
             options = options.name(self.name.clone());
         }
 
@@ -326,8 +328,10 @@ impl Registry {
     /// Creates a registry process as part of a supervision tree.
     ///
     /// For example, this function ensures that the registry is linked to the calling process (its supervisor).
-    pub async fn start_link(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
+    pub async fn start_link(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        if let Some(name) = &options.name {
+            self.name.clone_from(name);
+        } else {
             options = options.name(self.name.clone());
         }
 
-- 
2.43.0


From 1ead7cd9db654ea8ae27f0fb0fe8763b92c3ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 19/41] fix: a registry only stops a process that is still
 registered

---
 hydra/src/registry.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index e8d4adc..1f341b7 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -429,7 +429,7 @@ impl Registry {
 
     /// Stops a process by the given key.
     fn stop_by_key(&mut self, key: RegistryKey) -> Result<(), RegistryError> {
-        let Some(process) = lookup_process(&self.name, &key) else {
+        let Some(process) = remove_process(&self.name, &key) else {
             return Err(RegistryError::NotFound);
         };
 
@@ -438,8 +438,6 @@ impl Registry {
 
         self.lookup.remove(&process);
 
-        remove_process(&self.name, &key);
-
         Ok(())
     }
 
-- 
2.43.0


From f94d5754d18b3aa4ae4d1eaa678e50e3d8a684c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 20/41] fix: a killed process doesn't pass an application test

---
 hydra/src/application.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 47148d5..ff118af 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -186,7 +186,7 @@ pub trait Application: Sized + Send + 'static {
             });
 
             if let Ok(Some(reason)) = rx.await {
-                if reason.is_custom() && reason != "shutdown" {
+                if !reason.is_normal() && reason != "shutdown" {
                     panic!("Exited: {:?}", reason);
                 }
             }
-- 
2.43.0


From 34c9d667516b8f39088487a98732fc934ec0d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 21/41] fix: clearing a hash ring clears its overrides as well

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From c981ce8c7f93fef4205e01dfeac12cd37d6badbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 22/41] fix: heartbeat_timeout sets the heartbeat timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From 8a18f73367a23512a1bb2560332f27414bc94e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 23/41] fix: a malformed frame is an error

---
 hydra/src/frame/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..1b29f5b 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -8,7 +8,6 @@ use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
 use bincode::config::LittleEndian;
-use bincode::error::DecodeError;
 
 use bytes::Buf;
 use bytes::BufMut;
@@ -170,17 +169,15 @@ impl Decoder for Codec {
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
+        // The frame is complete and must not reach into the next one.
+        let result =
+            bincode::decode_from_slice(&src[MARKER_LENGTH..MARKER_LENGTH + length], FRAME_CONFIG);
 
         match result {
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
             Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
         }
     }
-- 
2.43.0


From 76f1edd91654d51fc02f8b3624d2164c7850a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 24/41] fix: a demonitor of a remote process reaches its node

---
 hydra/src/monitor.rs     | 15 +++------------
 hydra/src/node_remote.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 3e94be1..d2902c4 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -70,16 +70,7 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                     continue;
                 };
 
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
-                }
+                monitor_destroy(*pid, *reference);
             }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..99d8dc9 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From 0faf0a7282a0ab68e45bd08baabe17a3a9513b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 25/41] fix: the alias of a named remote monitor ends with the
 monitor

---
 hydra/src/monitor.rs | 8 +++-----
 hydra/src/process.rs | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index d2902c4..14fa034 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -66,11 +66,9 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     for (reference, monitor) in monitors {
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
-                let Some(pid) = pid else {
-                    continue;
-                };
-
-                monitor_destroy(*pid, *reference);
+                if let Some(pid) = pid {
+                    monitor_destroy(*pid, *reference);
+                }
             }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 7140b87..3f536e6 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -377,11 +377,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
-- 
2.43.0


From da8732c72cbb42816772cb0ce37a5f7f6be4f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 26/41] fix: keep a process registered while a remote monitor
 of its name is installed

---
 hydra/src/node_remote.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 99d8dc9..12b958f 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -187,14 +187,26 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let process = process_name_lookup(&name).filter(|process| {
+                            process_exists_lock(*process, |exists| {
+                                if exists {
+                                    monitor_create(*process, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        *process,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(process) = process {
                             let monitor_update =
-                                MonitorUpdate::new(from_id, id.id(), reference.id());
+                                MonitorUpdate::new(from_id, process.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
                         } else {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
-- 
2.43.0


From 9184a84b567379d67df664a15b3fe5dc6346030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 27/41] fix: connections end with the local node

---
 hydra/src/node_local.rs  | 1 -
 hydra/src/node_remote.rs | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..8ded40d 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,7 +25,6 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 12b958f..f4f6b81 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -304,7 +304,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From 72cdc6ee81951fb8224e257963421c0c5e08ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 28/41] fix: only the current local node's end cleans up after
 it

---
 hydra/src/node_local.rs    |  2 +-
 hydra/src/node_registry.rs | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 8ded40d..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -30,7 +30,7 @@ pub struct NodeLocalSupervisor {
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..32021ea 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -120,7 +120,18 @@ pub fn node_local_stop() {
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+pub fn node_local_panic(process: Pid) {
+    // A local node that was stopped may have been started again already.
+    let current = NODE_MAP.get(&Node::Local).is_some_and(|id| {
+        NODE_REGISTRATIONS
+            .get(&id)
+            .is_some_and(|registration| registration.supervisor == Some(process))
+    });
+
+    if !current {
+        return;
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
-- 
2.43.0


From 5ee118a51d2e74b2c581a25bc68e0e65a769b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 29/41] fix: links and monitors of a node fire when it's
 disconnected, forgotten or the local node ends

---
 hydra/src/node_registry.rs | 91 ++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 32021ea..8d9b75b 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -107,6 +107,8 @@ pub fn node_local_stop() {
         panic!("Local node not started!");
     };
 
+    let nodes = node_list();
+
     NODE_MAP.clear();
 
     if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
@@ -117,6 +119,10 @@ pub fn node_local_stop() {
 
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    for node in nodes {
+        node_connection_down(&node);
+    }
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
@@ -132,9 +138,15 @@ pub fn node_local_panic(process: Pid) {
         return;
     }
 
+    let nodes = node_list();
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    for node in nodes {
+        node_connection_down(&node);
+    }
 }
 
 /// Returns the process responsible for the local node.
@@ -308,48 +320,53 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
+        node_connection_down(&node);
 
-                link_destroy(process, from);
+        NODE_PENDING_MESSAGES.remove(&node);
 
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
+        value
+    });
+}
+
+/// Fires the links and monitors of a node whose connection was lost.
+fn node_connection_down(node: &Node) {
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
+
+            link_destroy(process, from);
+
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
         }
+    }
 
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
-                }
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
 
-                if reference.is_local() {
-                    alias_destroy(reference);
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
+                }
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
                 }
             }
         }
-
-        NODE_PENDING_MESSAGES.remove(&node);
-
-        value
-    });
+    }
 }
 
 /// Returns the node list excluding the local node.
@@ -393,6 +410,10 @@ pub fn node_disconnect(node: Node) {
             Process::exit(supervisor, ExitReason::Kill);
         }
 
+        node_connection_down(&node);
+
+        value.sender = None;
+        value.receiver = None;
         value.state = NodeState::Known;
         value
     });
@@ -413,6 +434,8 @@ pub fn node_forget(node: Node) {
     if let Some(supervisor) = registration.supervisor {
         Process::exit(supervisor, ExitReason::Kill);
     }
+
+    node_connection_down(&node);
 }
 
 /// Looks up the node information for the local node.
-- 
2.43.0


From a260f850709dd3f4c0261c07b9cad01f0ba96c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 30/41] fix: a node demonitor discards a down message that a
 selective receive set aside

---
 hydra/src/node.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..2cfb8ce 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -20,8 +20,10 @@ use crate::NodeOptions;
 use crate::NodeState;
 use crate::Pid;
 use crate::Process;
+use crate::ProcessItem;
 use crate::ProcessMonitor;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::PROCESS;
 
 /// Represents a [Node] serialized for the wire.
@@ -171,6 +173,16 @@ impl Node {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // A selective receive may have set the monitor message aside already.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::NodeDown(_, reference))
+                            if *reference == monitor
+                    )
+                });
+            });
             return;
         };
 
-- 
2.43.0


From 7690fec83d8606858d7ae6442f61e4b2f10e550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 31/41] fix: a malformed frame can't claim more memory than a
 frame may have

The length of a list inside of a frame was trusted, a peer that had not even
shaken hands could make the allocation fail and abort the whole program.
---
 hydra/src/frame/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1b29f5b..8a860ea 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -7,6 +7,7 @@ use bincode::Encode;
 use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
+use bincode::config::Limit;
 use bincode::config::LittleEndian;
 
 use bytes::Buf;
@@ -38,10 +39,14 @@ pub use ping::*;
 pub use pong::*;
 pub use send::*;
 
+/// The most a frame can take, given the size of the marker.
+const FRAME_LIMIT: usize = u32::MAX as usize;
+
 /// Bincode configuration for the frame codec.
-const FRAME_CONFIG: Configuration<LittleEndian, Fixint> = config::standard()
+const FRAME_CONFIG: Configuration<LittleEndian, Fixint, Limit<FRAME_LIMIT>> = config::standard()
     .with_fixed_int_encoding()
-    .with_little_endian();
+    .with_little_endian()
+    .with_limit::<FRAME_LIMIT>();
 
 /// The size of the marker.
 const MARKER_LENGTH: usize = std::mem::size_of::<u32>();
-- 
2.43.0


From 50b1bdccb1d2843de58f8dd2d7692160ac060aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 32/41] fix: a remote node stays remote when it's deserialized
 without a local node

---
 hydra/src/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 2cfb8ce..2750fe6 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -338,7 +338,10 @@ impl<'de> Deserialize<'de> for Node {
                     Ok(Node::Remote(node.name, node.address.unwrap()))
                 }
             }
-            None => Ok(Node::Local),
+            None => match node.address {
+                Some(address) => Ok(Node::Remote(node.name, address)),
+                None => Ok(Node::Local),
+            },
         }
     }
 }
-- 
2.43.0


From 678dd0eda3b2fb81a6c2ad34ee8c287184448725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 33/41] fix: a websocket handler does nothing more once its
 commands ended it, and is told about a close

---
 hydra-websockets/src/websocket_handler.rs | 27 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..779f77a 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -83,12 +83,13 @@ where
     }
 }
 
-/// Internal routine to process commands from a [WebsocketHandler] callback.
+/// Internal routine to process commands from a [WebsocketHandler] callback. Returns `false` if they ended the handler.
 async fn websocket_process_commands<T, S>(
     commands: WebsocketCommands,
     handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
+) -> bool
+where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
@@ -113,7 +114,9 @@ async fn websocket_process_commands<T, S>(
     if let Err(error) = stream.send_all(&mut sends).await {
         handler.terminate(error_to_reason(&error)).await;
 
-        Process::exit(Process::current(), error_to_reason(&error))
+        Process::exit(Process::current(), error_to_reason(&error));
+
+        return false;
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
@@ -128,9 +131,15 @@ async fn websocket_process_commands<T, S>(
 
             Process::exit(Process::current(), error_to_reason(&error));
         } else {
+            handler.terminate(ExitReason::Normal).await;
+
             Process::exit(Process::current(), ExitReason::Normal);
         }
+
+        return false;
     }
+
+    true
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -142,7 +151,9 @@ where
     match handler.websocket_init().await {
         Ok(commands) => {
             if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
+                if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                    return;
+                }
             }
         }
         Err(reason) => {
@@ -156,7 +167,9 @@ where
                 match handler.websocket_info(message).await {
                     Ok(commands) => {
                         if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
+                            if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                return;
+                            }
                         }
                     }
                     Err(reason) => {
@@ -194,7 +207,9 @@ where
                         match handler.websocket_handle(message).await {
                             Ok(commands) => {
                                 if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
+                                    if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                        return;
+                                    }
                                 }
                             }
                             Err(reason) => {
-- 
2.43.0


From 8a52aed6ad9e96c9d0d162073c97cc6c11a259c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 34/41] fix: a websocket handler is told when its init stops
 it, or its stream is over

---
 hydra-websockets/src/websocket_handler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 779f77a..facb07f 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -157,6 +157,8 @@ where
             }
         }
         Err(reason) => {
+            handler.terminate(reason.clone()).await;
+
             return Process::exit(Process::current(), reason);
         }
     }
@@ -181,7 +183,9 @@ where
             }
             ws_message = stream.next() => {
                 let Some(ws_message) = ws_message else {
-                    panic!("Websocket closed without close frame!");
+                    handler.terminate(ExitReason::from("connection_closed")).await;
+
+                    return Process::exit(Process::current(), ExitReason::from("connection_closed"));
                 };
 
                 match ws_message {
-- 
2.43.0


From 75d57516cdb439a9972d009e4aa64c5e36533e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 35/41] fix: the close frame of a websocket client is answered

---
 hydra-websockets/src/websocket_handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index facb07f..deeed21 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -224,6 +224,9 @@ where
                         }
 
                         if should_close {
+                            // The answer to the close frame is already queued.
+                            let _ = stream.flush().await;
+
                             handler.terminate(ExitReason::from("connection_closed")).await;
 
                             return Process::exit(Process::current(), ExitReason::from("connection_closed"));
-- 
2.43.0


From 1491fac0ff17f8354b1283480f376dff888708b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 36/41] fix: a denied websocket request is answered

---
 hydra-websockets/src/websocket_server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_server.rs b/hydra-websockets/src/websocket_server.rs
index bdb2b47..13f6026 100644
--- a/hydra-websockets/src/websocket_server.rs
+++ b/hydra-websockets/src/websocket_server.rs
@@ -13,6 +13,7 @@ use tokio_tungstenite::accept_hdr_async_with_config;
 use tokio_tungstenite::tungstenite;
 
 use tungstenite::handshake::server::ErrorResponse;
+use tungstenite::http::StatusCode;
 use tungstenite::protocol::WebSocketConfig;
 
 #[cfg(feature = "native-tls")]
@@ -125,7 +126,14 @@ where
             handler = Some(rhandler);
             Ok(response)
         }
-        Err(reason) => Err(ErrorResponse::new(Some(format!("{:?}", reason)))),
+        Err(reason) => {
+            let mut response = ErrorResponse::new(Some(format!("{:?}", reason)));
+
+            // A response that denies the request must not be a success.
+            *response.status_mut() = StatusCode::FORBIDDEN;
+
+            Err(response)
+        }
     };
 
     let ws_config = WebSocketConfig::default()
-- 
2.43.0


From 57f4c00a3f7e16492d017564131e0c5ba1469e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 37/41] fix: a link that could not be installed does not remain
 with its process

---
 hydra/src/link.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 60015db..f66a3b1 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,7 +49,7 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
-            process_exit_signal_linked(from, process, ExitReason::from("noproc"));
+            link_failed(process, from, ExitReason::from("noproc"));
         }
     } else {
         match node_lookup_remote(process.node()) {
@@ -64,12 +64,22 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
-                process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
+                link_failed(process, from, ExitReason::from("noconnection"));
             }
         }
     }
 }
 
+/// Fires a link that could not be installed, it must not remain with the from process.
+fn link_failed(process: Pid, from: Pid, exit_reason: ExitReason) {
+    LINKS.alter(&from.id(), |_, mut value| {
+        value.remove(&process);
+        value
+    });
+
+    process_exit_signal_linked(from, process, exit_reason);
+}
+
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
     // Links are bi-directional, the end of the from process must no longer reach the process.
-- 
2.43.0


From f4a762511a9d6051ee262de279a710d0cfad87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 38/41] fix: a link to a process of another node that ended
 does not remain

---
 hydra/src/node_registry.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 8d9b75b..3da4b1c 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -569,6 +569,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From 77e925891c17f13cb32395964186d4ab33e57120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:47 +0000
Subject: [PATCH 39/41] fix: a timer does not fire any more once its
 cancellation has returned

---
 hydra/src/process.rs          | 4 ++--
 hydra/src/process_registry.rs | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 3f536e6..7f92b9b 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -31,6 +31,7 @@ use crate::process_alive;
 use crate::process_destroy_timer;
 use crate::process_drop;
 use crate::process_exit;
+use crate::process_fire_timer;
 use crate::process_flags;
 use crate::process_info;
 use crate::process_insert;
@@ -179,9 +180,8 @@ impl Process {
 
         let timer = async move {
             Process::sleep(duration).await;
-            Process::send(dest, message);
 
-            process_destroy_timer(reference);
+            process_fire_timer(reference, || Process::send(dest, message));
         };
 
         process_register_timer(reference, duration, || tokio::spawn(timer));
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 290b472..34f453e 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -268,6 +268,14 @@ pub fn process_read_timer(timer: Reference) -> Option<Duration> {
     }
 }
 
+/// Fires a timer unless it was cancelled, a timer that is being cancelled can't fire afterwards.
+pub fn process_fire_timer<F: FnOnce()>(timer: Reference, fire: F) {
+    PROCESS_TIMERS.remove_if(&timer.id(), |_, _| {
+        fire();
+        true
+    });
+}
+
 /// Unregisters and kills a timer.
 pub fn process_destroy_timer(timer: Reference) {
     if let Some((_, (_, handle))) = PROCESS_TIMERS.remove(&timer.id()) {
-- 
2.43.0


From 28dc2361a9fd67f35456b3a7121c5d0c94b66096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 40/41] fix: the other node forgets a monitor by name that was
 removed before the process was known

---
 hydra/src/monitor.rs         | 23 +++++++++++++++++++----
 hydra/src/node_registry.rs   | 12 ++++++++++--
 hydra/src/node_remote.rs     |  7 +++++--
 hydra/src/process.rs         | 12 ++++++------
 hydra/src/process_monitor.rs |  2 ++
 5 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 14fa034..f29a999 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -59,6 +59,17 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     }
 }
 
+/// Destroys a monitor installed by name on the given node, which knows the process it belongs to.
+pub fn monitor_destroy_named(node: u64, reference: Reference) {
+    let monitor = Monitor::new(false, None, None, None, reference.id());
+
+    node_send_frame(monitor.into(), node);
+
+    if let Some((name, address)) = node_lookup_remote(node) {
+        node_process_monitor_destroy(Node::from((name, address)), reference);
+    }
+}
+
 /// Destroys all monitors registered for the given reference, monitor combination.
 pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a ProcessMonitor)>>(
     monitors: M,
@@ -70,6 +81,9 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                     monitor_destroy(*pid, *reference);
                 }
             }
+            ProcessMonitor::ForName(node) => {
+                monitor_destroy_named(*node, *reference);
+            }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
             }
@@ -172,16 +186,17 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                     }
                 });
             } else {
+                node_process_monitor_create(node.clone(), reference, dest, from);
+
+                let node = node_register(node.clone(), true);
+
                 PROCESS.with(|process| {
                     process
                         .monitors
                         .borrow_mut()
-                        .insert(reference, ProcessMonitor::ForProcess(None))
+                        .insert(reference, ProcessMonitor::ForName(node))
                 });
 
-                node_process_monitor_create(node.clone(), reference, dest, from);
-
-                let node = node_register(node.clone(), true);
                 let monitor = Monitor::new(
                     true,
                     None,
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 3da4b1c..02bb3b1 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -477,11 +477,19 @@ pub fn node_process_monitor_cleanup(node: Node, reference: Reference, process: P
 }
 
 /// Destroys a node process monitor for the given node and reference.
-pub fn node_process_monitor_destroy(node: Node, reference: Reference) {
+///
+/// Returns the local process, if it was the one that the node monitored.
+pub fn node_process_monitor_destroy(node: Node, reference: Reference) -> Option<Pid> {
+    let mut process: Option<Pid> = None;
+
     NODE_MONITORS.alter(&node, |_, mut value| {
-        value.remove(&reference);
+        if let Some(NodeMonitor::ProcessMonitorCleanup(id)) = value.remove(&reference) {
+            process = Some(Pid::local(id));
+        }
         value
     });
+
+    process
 }
 
 /// Destroys all process monitors for the given node by their references.
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f4f6b81..07a2e49 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -218,9 +218,12 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                         panic!("Must have either a process id or process name for monitor!");
                     };
                 } else {
-                    monitor_destroy(Pid::local(monitor.process_id.unwrap()), reference);
+                    // A monitor by name may be removed before the node was told the process.
+                    let process = node_process_monitor_destroy(supervisor.node.clone(), reference);
 
-                    node_process_monitor_destroy(supervisor.node.clone(), reference);
+                    if let Some(process) = monitor.process_id.map(Pid::local).or(process) {
+                        monitor_destroy(process, reference);
+                    }
                 }
             }
             Frame::MonitorDown(monitor_down) => {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 7f92b9b..e3f2916 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -23,6 +23,7 @@ use crate::link_process_down;
 use crate::monitor_create;
 use crate::monitor_destroy;
 use crate::monitor_destroy_all;
+use crate::monitor_destroy_named;
 use crate::monitor_fill_info;
 use crate::monitor_install;
 use crate::monitor_process_down;
@@ -373,12 +374,11 @@ impl Process {
             return;
         };
 
-        let ProcessMonitor::ForProcess(pid) = process_monitor else {
-            panic!("Invalid process monitor reference!");
-        };
-
-        if let Some(pid) = pid {
-            monitor_destroy(pid, monitor);
+        match process_monitor {
+            ProcessMonitor::ForProcess(Some(pid)) => monitor_destroy(pid, monitor),
+            ProcessMonitor::ForProcess(None) => {}
+            ProcessMonitor::ForName(node) => monitor_destroy_named(node, monitor),
+            ProcessMonitor::ForNode(_) => panic!("Invalid process monitor reference!"),
         }
 
         alias_destroy(monitor);
diff --git a/hydra/src/process_monitor.rs b/hydra/src/process_monitor.rs
index 8237c80..19aea6e 100644
--- a/hydra/src/process_monitor.rs
+++ b/hydra/src/process_monitor.rs
@@ -5,6 +5,8 @@ use crate::Pid;
 pub enum ProcessMonitor {
     /// A monitor installed to monitor the given process.
     ForProcess(Option<Pid>),
+    /// A monitor installed by name on the node with the given id, which didn't tell the process yet.
+    ForName(u64),
     /// A monitor installed to monitor the given node.
     ForNode(Node),
 }
-- 
2.43.0


From 6251b3389c568c70b2a01cd1ddcd8580a82590c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:28 +0000
Subject: [PATCH 41/41] fix: a message deserialized by a receiver of another
 type remains for its own

---
 hydra/src/process_item.rs     |  3 +++
 hydra/src/process_receiver.rs | 29 +++++++++++++++++++----------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/hydra/src/process_item.rs b/hydra/src/process_item.rs
index 8094360..b055ab9 100644
--- a/hydra/src/process_item.rs
+++ b/hydra/src/process_item.rs
@@ -12,6 +12,8 @@ use crate::SystemMessage;
 pub enum ProcessItem {
     /// Sent from a remote process in a different userspace.
     UserRemoteMessage(Vec<u8>),
+    /// Sent from a process in a different userspace, and deserialized by a receiver.
+    UserDeserializedMessage(Vec<u8>, Box<dyn std::any::Any + Send>),
     /// Sent from a process in the same userspace.
     UserLocalMessage(Box<dyn std::any::Any + Send>),
     /// Sent from the system.
@@ -48,6 +50,7 @@ impl Debug for ProcessItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::UserRemoteMessage(_) => write!(f, "UserRemoteMessage(..)"),
+            Self::UserDeserializedMessage(_, _) => write!(f, "UserDeserializedMessage(..)"),
             Self::UserLocalMessage(_) => write!(f, "UserLocalMessage(..)"),
             Self::SystemMessage(system) => write!(f, "SystemMessage({:?})", system),
             Self::MonitorProcessDown(dest, reference, exit_reason) => write!(
diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index 93029f9..4ac1fd9 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -158,7 +158,8 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
     match item {
         // If we got here, the deserialization has already taken place.
         ProcessItem::UserRemoteMessage(_) => unreachable!(),
-        ProcessItem::UserLocalMessage(deserialized) => {
+        ProcessItem::UserDeserializedMessage(_, deserialized)
+        | ProcessItem::UserLocalMessage(deserialized) => {
             deserialized.downcast().map(|x| Message::User(*x)).unwrap()
         }
         ProcessItem::SystemMessage(system) => Message::System(system),
@@ -174,21 +175,29 @@ fn convert_item<T: Receivable>(item: ProcessItem) -> Message<T> {
 #[inline(always)]
 fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<&T>>, ()> {
     // Special case for serialized messages, we'll convert them to deserialized one time to prevent
-    // deserializing the value more than once, then convert to a reference.
-    if let ProcessItem::UserRemoteMessage(serialized) = item {
-        let result: Result<T, _> = deserialize_value(serialized);
-
-        if let Ok(result) = result {
-            *item = ProcessItem::UserLocalMessage(Box::new(result));
-        } else {
-            return Err(());
+    // deserializing the value more than once, then convert to a reference. The serialized message is kept,
+    // because a receiver of another type may have deserialized the message without taking it.
+    let serialized = match item {
+        ProcessItem::UserRemoteMessage(serialized) => Some(serialized),
+        ProcessItem::UserDeserializedMessage(serialized, deserialized)
+            if !deserialized.is::<T>() =>
+        {
+            Some(serialized)
         }
+        _ => None,
+    };
+
+    if let Some(serialized) = serialized {
+        let result: T = deserialize_value(serialized).map_err(|_| ())?;
+
+        *item = ProcessItem::UserDeserializedMessage(std::mem::take(serialized), Box::new(result));
     }
 
     match item {
         // Explicitly handled first, so that we can process the other values later.
         ProcessItem::UserRemoteMessage(_) => unreachable!(),
-        ProcessItem::UserLocalMessage(deserialized) => deserialized
+        ProcessItem::UserDeserializedMessage(_, deserialized)
+        | ProcessItem::UserLocalMessage(deserialized) => deserialized
             .downcast_ref()
             .map(Message::User)
             .ok_or(())
-- 
2.43.0

