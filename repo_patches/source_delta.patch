From 73faa71af9e3e78634e1d0334ff0ea1afb794ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/44] fix: NodeOptions::heartbeat_timeout sets the heartbeat
 timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From 1a454a0d51a5e8a6fded6f2f833d7cbce96bb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 02/44] fix: hold the process entry for the duration of
 process_exists_lock

---
 hydra/src/process_registry.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..fd59d4a 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,10 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    // Keep the entry locked until the callback returns.
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From 05c04c07d4df28df21c4fedf52de379e8bb103e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 03/44] fix: a spawned process only runs once it is registered

---
 hydra/src/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..b14b2be 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -10,6 +10,8 @@ use std::time::Duration;
 use flume::Receiver;
 use flume::Sender;
 
+use tokio::sync::oneshot;
+
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
@@ -481,8 +483,13 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // The process must not run before it is registered.
+    let (registered_tx, registered_rx) = oneshot::channel::<()>();
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
+        let _ = registered_rx.await;
+
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
             process_set_exit_reason(Process::current(), e.into());
         }
@@ -491,5 +498,7 @@ where
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
+    let _ = registered_tx.send(());
+
     result
 }
-- 
2.43.0


From 2ab3b1904336db4243419508f6f07436f066ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 04/44] fix: unlink removes the link in both directions

---
 hydra/src/link.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..74484a3 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -77,6 +77,13 @@ pub fn link_destroy(process: Pid, from: Pid) {
             value.remove(&from);
             value
         });
+
+        if from.is_local() {
+            LINKS.alter(&from.id(), |_, mut value| {
+                value.remove(&process);
+                value
+            });
+        }
     } else {
         let link = Link::new(false, process.id(), from.id());
 
-- 
2.43.0


From bdaf90bcafc85aca155a6052d623971840bdeb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 05/44] fix: AutoShutdown::AllSignificant waits for all
 significant children

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..6ea5615 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -740,7 +740,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() {
                 return false;
             }
-- 
2.43.0


From 8c44609ed076ef402d72c5898a592c836ac706b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 06/44] fix: free the id of an ignored temporary child

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 6ea5615..1831ee7 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -717,7 +717,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From 6c01ab9f7b3c20a8a4ab98a939154ed82e4ad15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/44] fix: terminate_child deletes the specification of a
 temporary child

---
 hydra/src/supervisor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 1831ee7..f615f02 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,12 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            // The specification of a temporary child is not kept.
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From b4c8d6b41b892506ac5db28079aa0f00d050935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 08/44] fix: temporary children are never restarted by a
 strategy

---
 hydra/src/supervisor.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index f615f02..a2403ec 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -616,16 +616,14 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
+        let mut temporary = Vec::new();
 
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
+        let start = if all { 0 } else { index };
 
-        for tindex in range {
-            indices.push(tindex);
+        for tindex in start..self.children.len() {
+            if self.children[tindex].is_temporary() {
+                temporary.push(tindex);
+            }
 
             if index == tindex {
                 continue;
@@ -634,7 +632,12 @@ impl Supervisor {
             self.terminate_child_by_index(tindex).await;
         }
 
-        for sindex in indices {
+        // Temporary children are never restarted.
+        for tindex in temporary.into_iter().rev() {
+            self.remove_child(tindex);
+        }
+
+        for sindex in start..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From a6e6e84ba3475fd20ad8408653988f496e8ea09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 09/44] fix: terminating a restarting child cancels its restart

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index a2403ec..04b453d 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -463,12 +463,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
-- 
2.43.0


From ce1b3c78a1859ff061aad1f5189033f6a18c00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/44] fix: a cancelled restart does not count as a restart

---
 hydra/src/supervisor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 04b453d..2b04b02 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -656,14 +656,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From 1f18d56c88ddbac22ad948b9e3191557a80ebaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 11/44] fix: a child waiting for its restart is not counted as
 active

---
 hydra/src/supervisor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 2b04b02..6c7fc5e 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -553,6 +553,9 @@ impl Supervisor {
     async fn restart(&mut self, index: usize) {
         use SupervisorMessage::*;
 
+        // The process has exited, a child waiting for a restart isn't active.
+        self.children[index].pid = None;
+
         match self.strategy {
             SupervisionStrategy::OneForOne => {
                 match self.start_child_by_index(index).await {
-- 
2.43.0


From c24879cafe5aa3c00350ebf3b4ad4e0713f0917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 12/44] fix: any max_duration is a valid restart window

---
 hydra/src/supervisor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 6c7fc5e..971df07 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -764,14 +764,15 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
+        let max_duration = self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        self.restarts
+            .retain(|restart| now.duration_since(*restart) <= max_duration);
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
             #[cfg(feature = "tracing")]
-            tracing::error!(restarts = ?self.restarts.len(), threshold = ?self.max_duration, "Reached max restart intensity");
+            tracing::error!(restarts = ?self.restarts.len(), threshold = ?max_duration, "Reached max restart intensity");
 
             return true;
         }
-- 
2.43.0


From 5b2cc99c89a2f30fb09c27a6ab63a86d1bec9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 13/44] fix: a registry without a start routine returns
 StartNotSupported

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From 151b7dc819a541b47fb930ba07c9d5b93293558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/44] fix: HashRing::clear also clears the overrides

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From c60644e5b0b33a77c261ef83d2068e8340291931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/44] fix: a dying process only removes its own name

---
 hydra/src/process.rs          | 2 +-
 hydra/src/process_registry.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index b14b2be..790d587 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -421,7 +421,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index fd59d4a..8d9559f 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -62,9 +62,9 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name if it still belongs to the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, process_id| *process_id == pid.id());
 }
 
 /// Checks if the process is alive.
-- 
2.43.0


From 438f85771db4f679202103f613317ccf0eb5aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 16/44] fix: removing a monitor always deactivates its alias

---
 hydra/src/monitor.rs | 15 ++-------------
 hydra/src/process.rs |  8 +++-----
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..a3274b1 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -66,19 +66,8 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     for (reference, monitor) in monitors {
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
-                let Some(pid) = pid else {
-                    continue;
-                };
-
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
+                if let Some(pid) = pid {
+                    monitor_destroy(*pid, *reference);
                 }
             }
             ProcessMonitor::ForNode(node) => {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 790d587..074f343 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -366,11 +366,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
-- 
2.43.0


From 86dd68e9493088d92e1d23fb7ecceaedd18ef3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 17/44] fix: removing a remote monitor is sent to the node of
 the monitored process

---
 hydra/src/monitor.rs     |  4 ++--
 hydra/src/node_remote.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index a3274b1..ef6dee2 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..99d8dc9 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From 0d122dc7f877aa610d283f3588c5dcdeb248c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 18/44] fix: a remote monitor by name can not miss the exit of
 the process

---
 hydra/src/node_remote.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 99d8dc9..16f4dc0 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -187,14 +187,26 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let installed = process_name_lookup(&name).filter(|id| {
+                            process_exists_lock(*id, |exists| {
+                                if exists {
+                                    monitor_create(*id, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        *id,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(id) = installed {
                             let monitor_update =
                                 MonitorUpdate::new(from_id, id.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
                         } else {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
-- 
2.43.0


From 9b1d20f5ae944efe7d3322388d96746bc52c53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 19/44] fix: demonitor discards a down message set aside by a
 selective receive

---
 hydra/src/node.rs    | 8 ++++++++
 hydra/src/process.rs | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..744764c 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -20,8 +20,10 @@ use crate::NodeOptions;
 use crate::NodeState;
 use crate::Pid;
 use crate::Process;
+use crate::ProcessItem;
 use crate::ProcessMonitor;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::PROCESS;
 
 /// Represents a [Node] serialized for the wire.
@@ -171,6 +173,12 @@ impl Node {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The down message may have been set aside by a selective receive already.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(item, ProcessItem::SystemMessage(SystemMessage::NodeDown(_, tag)) if *tag == monitor)
+                })
+            });
             return;
         };
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 074f343..5068918 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -60,6 +60,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -359,6 +360,12 @@ impl Process {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The down message may have been set aside by a selective receive already.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(item, ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, tag, _)) if *tag == monitor)
+                })
+            });
             return;
         };
 
-- 
2.43.0


From bf463fbdfe894eed5450e4c5fa51227512d482b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 20/44] fix: unalias only deactivates an alias of the calling
 process

---
 hydra/src/alias.rs   | 9 +++++++++
 hydra/src/process.rs | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 7353c76..99a22fd 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -28,6 +28,15 @@ pub fn alias_destroy(reference: Reference) -> bool {
     ALIASES.remove(&reference.id()).is_some()
 }
 
+/// Destroys an alias for the given reference if it belongs to the given process sender, returning `true` if it did.
+pub fn alias_destroy_owned(reference: Reference, sender: &ProcessSend) -> bool {
+    ALIASES
+        .remove_if(&reference.id(), |_, alias| {
+            alias.sender.same_channel(sender)
+        })
+        .is_some()
+}
+
 /// Destroys all of the alias for every given reference.
 pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     for id in ids {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5068918..00c75e0 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -15,6 +15,7 @@ use tokio::sync::oneshot;
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
+use crate::alias_destroy_owned;
 use crate::link_create;
 use crate::link_destroy;
 use crate::link_fill_info;
@@ -122,9 +123,11 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id());
 
-        alias_destroy(alias)
+            alias_destroy_owned(alias, &process.sender)
+        })
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From e28da0c2bed5a339db679e92584f22d8929a3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 21/44] fix: a link that can not be established leaves nothing
 behind

---
 hydra/src/link.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 74484a3..7b1a177 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -41,6 +41,14 @@ pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
     })
 }
 
+/// Removes one direction of a link.
+fn link_remove(process: Pid, from: Pid) {
+    LINKS.alter(&process.id(), |_, mut value| {
+        value.remove(&from);
+        value
+    });
+}
+
 /// Installs a link for the given process.
 pub fn link_install(process: Pid, from: Pid) {
     link_create(from, process, false)
@@ -49,6 +57,7 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_remove(from, process);
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,6 +73,7 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_remove(from, process);
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
@@ -73,16 +83,10 @@ pub fn link_install(process: Pid, from: Pid) {
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
     if process.is_local() {
-        LINKS.alter(&process.id(), |_, mut value| {
-            value.remove(&from);
-            value
-        });
+        link_remove(process, from);
 
         if from.is_local() {
-            LINKS.alter(&from.id(), |_, mut value| {
-                value.remove(&process);
-                value
-            });
+            link_remove(from, process);
         }
     } else {
         let link = Link::new(false, process.id(), from.id());
-- 
2.43.0


From c2af776c245ec00616c5500401957b5324a4dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 22/44] fix: a timer only fires once it is registered

---
 hydra/src/process.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 00c75e0..ae41b70 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -180,7 +180,12 @@ impl Process {
 
         let reference = Reference::new();
 
+        // The timer must not fire before it is registered.
+        let (registered_tx, registered_rx) = oneshot::channel::<()>();
+
         let handle = tokio::spawn(async move {
+            let _ = registered_rx.await;
+
             Process::sleep(duration).await;
             Process::send(dest, message);
 
@@ -189,6 +194,8 @@ impl Process {
 
         process_register_timer(reference, duration, handle);
 
+        let _ = registered_tx.send(());
+
         reference
     }
 
-- 
2.43.0


From 8362acd9cb44bc762c4b5e0504566f50ec26b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 23/44] fix: dropping a registry only affects its own
 registered processes

---
 hydra/src/registry.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..fa3b743 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -464,21 +464,22 @@ impl Registry {
         #[cfg(not(feature = "tracing"))]
         let _ = reason;
 
-        REGISTRY.alter(&self.name, |_, value| {
-            value.remove_if(&key, |_, value| *value == pid);
-            value
-        });
+        unregister_process(&self.name, &key, pid);
     }
 }
 
 impl Drop for Registry {
     fn drop(&mut self) {
-        REGISTRY.remove(&self.name);
-
-        for process in self.lookup.keys() {
+        // Another registry may own this name, or a process may have been removed already.
+        for (process, key) in &self.lookup {
             Process::unlink(*process);
-            Process::exit(*process, ExitReason::Kill);
+
+            if unregister_process(&self.name, key, *process) {
+                Process::exit(*process, ExitReason::Kill);
+            }
         }
+
+        REGISTRY.remove_if(&self.name, |_, registry| registry.is_empty());
     }
 }
 
@@ -632,6 +633,15 @@ fn remove_process<T: AsRef<str>>(registry: T, key: &RegistryKey) -> Option<Pid>
         .and_then(|registry| registry.remove(key).map(|entry| entry.1))
 }
 
+/// Removes the given process if it is still assigned to the given key, returning `true` if it was.
+fn unregister_process<T: AsRef<str>>(registry: T, key: &RegistryKey, process: Pid) -> bool {
+    REGISTRY.get(registry.as_ref()).is_some_and(|registry| {
+        registry
+            .remove_if(key, |_, value| *value == process)
+            .is_some()
+    })
+}
+
 /// Counts the number of processes in a registry.
 fn count_processes<T: AsRef<str>>(registry: T) -> usize {
     REGISTRY
-- 
2.43.0


From 07f3c71c3f2220f1207446330b35405b8faf3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 24/44] fix: an alias is deactivated before the down message of
 its monitor is sent

---
 hydra/src/monitor.rs       | 9 +++++----
 hydra/src/node_registry.rs | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index ef6dee2..319518b 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -209,6 +209,11 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
     let mut remote_monitors: BTreeMap<u64, (MonitorDown, Vec<Reference>)> = BTreeMap::new();
 
     for (reference, (pid, dest)) in references {
+        // The alias of the monitor must be inactive once the message arrives.
+        if reference.is_local() {
+            alias_destroy(reference);
+        }
+
         if pid.is_local() {
             process_sender(pid).map(|sender| {
                 sender.send(ProcessItem::MonitorProcessDown(
@@ -225,10 +230,6 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
             remote.0.monitors.push(reference.id());
             remote.1.push(reference);
         }
-
-        if reference.is_local() {
-            alias_destroy(reference);
-        }
     }
 
     for (node, (monitor_down, references)) in remote_monitors {
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..c4c4687 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -309,6 +309,11 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
 
         if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
             for (reference, monitor) in monitors {
+                // The alias of the monitor must be inactive once the message arrives.
+                if reference.is_local() {
+                    alias_destroy(reference);
+                }
+
                 match monitor {
                     NodeMonitor::Node(id) => {
                         process_sender(Pid::local(id)).map(|sender| {
@@ -329,9 +334,6 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
                     }
                 }
 
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
             }
         }
 
-- 
2.43.0


From 881d5cb5310af15203fd8fbfa61293c0c01d332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 25/44] fix: concurrent link and unlink of the same pair keep
 the link symmetric

---
 hydra/src/link.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7b1a177..710c25d 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -24,6 +24,16 @@ use crate::ProcessInfo;
 /// A collection of local processes linked to another process.
 static LINKS: Lazy<DashMap<u64, BTreeSet<Pid>>> = Lazy::new(DashMap::new);
 
+/// Pairs of local processes whose link is being changed in both directions.
+static LINK_PAIRS: Lazy<DashMap<(Pid, Pid), ()>> = Lazy::new(DashMap::new);
+
+/// Calls the given `callback` while no other change to the link between the two local processes is made.
+fn link_pair_lock<C: FnOnce()>(process: Pid, from: Pid, callback: C) {
+    let _pair = LINK_PAIRS.entry((process.min(from), process.max(from)));
+
+    callback();
+}
+
 /// Creates a link for the given local process from the given process. Returns `true` if the link was created.
 pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
     if ignore_errors {
@@ -51,16 +61,22 @@ fn link_remove(process: Pid, from: Pid) {
 
 /// Installs a link for the given process.
 pub fn link_install(process: Pid, from: Pid) {
-    link_create(from, process, false)
-        .then_some(())
-        .expect("From process must exist at this point!");
-
     if process.is_local() {
-        if !link_create(process, from, false) {
-            link_remove(from, process);
-            process_exit_signal_linked(from, process, ExitReason::from("noproc"));
-        }
+        link_pair_lock(process, from, || {
+            link_create(from, process, false)
+                .then_some(())
+                .expect("From process must exist at this point!");
+
+            if !link_create(process, from, false) {
+                link_remove(from, process);
+                process_exit_signal_linked(from, process, ExitReason::from("noproc"));
+            }
+        });
     } else {
+        link_create(from, process, false)
+            .then_some(())
+            .expect("From process must exist at this point!");
+
         match node_lookup_remote(process.node()) {
             Some((name, address)) => {
                 let node = Node::from((name, address));
@@ -83,10 +99,13 @@ pub fn link_install(process: Pid, from: Pid) {
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
     if process.is_local() {
-        link_remove(process, from);
-
         if from.is_local() {
-            link_remove(from, process);
+            link_pair_lock(process, from, || {
+                link_remove(process, from);
+                link_remove(from, process);
+            });
+        } else {
+            link_remove(process, from);
         }
     } else {
         let link = Link::new(false, process.id(), from.id());
-- 
2.43.0


From 86e11f3fb80b205f747d89829e3439cca24bf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 26/44] fix: a message sent to an alias arrives before the
 alias can be deactivated

---
 hydra/src/alias.rs          | 29 +++++++++++------------------
 hydra/src/node_kernel.rs    |  8 +++++---
 hydra/src/process_kernel.rs |  8 +++-----
 3 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 99a22fd..3aad4a7 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -10,7 +10,6 @@ use crate::Reference;
 static ALIASES: Lazy<DashMap<u64, Alias>> = Lazy::new(DashMap::new);
 
 /// The state of an active alias.
-#[derive(Clone)]
 pub struct Alias {
     /// The target process sender.
     pub sender: ProcessSend,
@@ -44,25 +43,19 @@ pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     }
 }
 
-/// Retrieves an alias for the given reference if it's active.
-pub fn alias_retrieve(reference: Reference) -> Option<Alias> {
-    let mut active: Option<Alias> = None;
-
-    let result = ALIASES.remove_if(&reference.id(), |_, alias| {
+/// Sends the given item to the process of the alias if it's active.
+///
+/// The alias is not destroyed before the item was sent, so nothing arrives once it was destroyed.
+pub fn alias_send(reference: Reference, item: ProcessItem) {
+    ALIASES.remove_if(&reference.id(), |_, alias| {
         if alias.reply {
-            true
-        } else {
-            active = Some(alias.clone());
-            false
-        }
-    });
-
-    result
-        .map(|(_, alias)| {
             let _ = alias
                 .sender
                 .send(ProcessItem::AliasDeactivated(reference.id()));
-            alias
-        })
-        .or(active)
+        }
+
+        let _ = alias.sender.send(item);
+
+        alias.reply
+    });
 }
diff --git a/hydra/src/node_kernel.rs b/hydra/src/node_kernel.rs
index 04ea5f9..7d562f4 100644
--- a/hydra/src/node_kernel.rs
+++ b/hydra/src/node_kernel.rs
@@ -3,7 +3,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_register;
 use crate::node_send_frame;
 use crate::process_name_lookup;
@@ -38,8 +38,10 @@ pub fn node_forward_send(mut send: Send) {
                     .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
             }
             SendTarget::Alias(alias) => {
-                alias_retrieve(Reference::Local(alias))
-                    .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+                alias_send(
+                    Reference::Local(alias),
+                    ProcessItem::UserRemoteMessage(message),
+                );
             }
         }
     }
diff --git a/hydra/src/process_kernel.rs b/hydra/src/process_kernel.rs
index 59bf0d7..f1ba611 100644
--- a/hydra/src/process_kernel.rs
+++ b/hydra/src/process_kernel.rs
@@ -4,7 +4,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_process_send_with_alias;
 use crate::node_process_send_with_name;
 use crate::node_process_send_with_pid;
@@ -96,8 +96,7 @@ fn process_send_unoptimal(dest: Dest, message: Vec<u8>) {
                 .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
         }
         Dest::Alias(reference) => {
-            alias_retrieve(reference)
-                .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+            alias_send(reference, ProcessItem::UserRemoteMessage(message));
         }
     }
 }
@@ -123,8 +122,7 @@ fn process_send_optimal<M: Receivable>(dest: Dest, message: M) {
         }
         Dest::Alias(reference) => {
             if reference.is_local() {
-                alias_retrieve(reference)
-                    .map(|alias| alias.sender.send(Message::User(message).into()));
+                alias_send(reference, Message::User(message).into());
             } else {
                 node_process_send_with_alias(reference, message);
             }
-- 
2.43.0


From 738d45c4ab5b1301bc66e1c463b7968a582a3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 27/44] fix: a reply made after a local call has returned is
 dropped

---
 hydra/src/gen_server.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydra/src/gen_server.rs b/hydra/src/gen_server.rs
index 3609167..4b5592b 100644
--- a/hydra/src/gen_server.rs
+++ b/hydra/src/gen_server.rs
@@ -218,13 +218,10 @@ pub trait GenServer: Sized + Send + 'static {
         let server = server.into();
 
         async move {
-            let monitor = if server.is_local() {
-                Process::monitor(server.clone())
-            } else {
-                Process::monitor_alias(server.clone(), true)
-            };
+            // The alias makes sure that no reply arrives after the call has returned.
+            let monitor = Process::monitor_alias(server.clone(), true);
 
-            let from = From::new(Process::current(), monitor, server.is_remote());
+            let from = From::new(Process::current(), monitor, true);
 
             Process::send(server, GenServerMessage::Call(from, message));
 
-- 
2.43.0


From 5b3087e465a9cd39881678d3180f9171b04f45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 28/44] fix: the specification of a transient child is kept
 when it exits

---
 hydra/src/supervisor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 971df07..c617a43 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -511,7 +511,13 @@ impl Supervisor {
 
         // If it's not permanent, check if it's a normal reason.
         if reason.is_normal() || reason == "shutdown" {
-            let child = self.remove_child(index);
+            // Only the specification of a temporary child is removed when it exits.
+            let child = if child.is_temporary() {
+                self.remove_child(index)
+            } else {
+                child.pid = None;
+                child.clone()
+            };
 
             if self.check_auto_shutdown(child) {
                 return Err(ExitReason::from("shutdown"));
-- 
2.43.0


From 50c5a12c670b716f9ea4d41f5e756d518d9c8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 29/44] fix: a significant child waiting for its restart delays
 the automatic shutdown

---
 hydra/src/supervisor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index c617a43..84640a2 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -759,7 +759,8 @@ impl Supervisor {
         }
 
         !self.children.iter().any(|child| {
-            if child.pid.is_none() {
+            // A child waiting for its restart has not exited for good.
+            if child.pid.is_none() && !child.restarting {
                 return false;
             }
 
-- 
2.43.0


From 2f9e75ed13cf6bf53d103bd8da7c25ec78025b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 30/44] fix: a registry only shuts down the processes
 registered under it

---
 hydra/src/registry.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index fa3b743..0add427 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -397,14 +397,23 @@ impl Registry {
                     return;
                 };
 
-                let mut monitors: Vec<(Pid, Reference)> = Vec::with_capacity(registry.len());
+                // A removed process, which may have been replaced under its key, is not ours to shutdown.
+                self.lookup.retain(|process, key| {
+                    let registered = registry.get(key).is_some_and(|pid| *pid == *process);
 
-                for (process, key) in &self.lookup {
-                    if registry.contains_key(key) {
-                        monitors.push((*process, Process::monitor(*process)));
-
-                        Process::exit(*process, ExitReason::from("shutdown"));
+                    if !registered {
+                        Process::unlink(*process);
                     }
+
+                    registered
+                });
+
+                let mut monitors: Vec<(Pid, Reference)> = Vec::with_capacity(self.lookup.len());
+
+                for process in self.lookup.keys() {
+                    monitors.push((*process, Process::monitor(*process)));
+
+                    Process::exit(*process, ExitReason::from("shutdown"));
                 }
 
                 for (process, monitor) in monitors {
-- 
2.43.0


From c10d8462973c508fe606cdd67169f9d7ad356bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 31/44] fix: a registry killed while it terminates kills the
 processes that remain

---
 hydra/src/registry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 0add427..e0786a5 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -107,6 +107,7 @@ pub struct Registry {
     >,
     shutdown: Shutdown,
     lookup: BTreeMap<Pid, RegistryKey>,
+    terminating: bool,
 }
 
 impl Registry {
@@ -120,6 +121,7 @@ impl Registry {
             start: None,
             shutdown: Shutdown::BrutalKill,
             lookup: BTreeMap::new(),
+            terminating: false,
         }
     }
 
@@ -397,6 +399,9 @@ impl Registry {
                     return;
                 };
 
+                // If we are killed while waiting, the drop must kill the processes that remain.
+                self.terminating = true;
+
                 // A removed process, which may have been replaced under its key, is not ours to shutdown.
                 self.lookup.retain(|process, key| {
                     let registered = registry.get(key).is_some_and(|pid| *pid == *process);
@@ -483,7 +488,7 @@ impl Drop for Registry {
         for (process, key) in &self.lookup {
             Process::unlink(*process);
 
-            if unregister_process(&self.name, key, *process) {
+            if self.terminating || unregister_process(&self.name, key, *process) {
                 Process::exit(*process, ExitReason::Kill);
             }
         }
-- 
2.43.0


From 73a1f9664226188b3d5eeea041dfba4e6e7fd295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 32/44] fix: an application waits for the process it monitors,
 not for any exit signal in its name

---
 hydra/src/application.rs | 49 +++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 47148d5..f3a25f2 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -87,6 +87,9 @@ pub trait Application: Sized + Send + 'static {
                         #[cfg(feature = "tracing")]
                         tracing::info!(supervisor = ?pid, "Application supervisor has started");
 
+                        // The exit signal of a link can be forged by `Process::exit`, the monitor can't.
+                        let monitor = Process::monitor(pid);
+
                         let spid = if config.graceful_shutdown {
                             Some(Process::spawn_link(signal_handler()))
                         } else {
@@ -103,8 +106,8 @@ pub trait Application: Sized + Send + 'static {
 
                                     Process::exit(pid, ExitReason::Kill);
                                 }
-                                Message::System(SystemMessage::Exit(epid, ereason)) => {
-                                    if epid == pid {
+                                Message::System(SystemMessage::ProcessDown(_, mref, ereason)) => {
+                                    if mref == monitor {
                                         if ereason.is_custom() && ereason != "shutdown" {
                                             #[cfg(feature = "tracing")]
                                             tracing::error!(reason = ?ereason, supervisor = ?pid, "Application supervisor has terminated");
@@ -113,7 +116,10 @@ pub trait Application: Sized + Send + 'static {
                                             tracing::info!(reason = ?ereason, supervisor = ?pid, "Application supervisor has exited");
                                         }
                                         break;
-                                    } else if spid.is_some_and(|spid| spid == epid) {
+                                    }
+                                }
+                                Message::System(SystemMessage::Exit(epid, ereason)) => {
+                                    if spid.is_some_and(|spid| spid == epid) {
                                         #[cfg(feature = "tracing")]
                                         tracing::info!(reason = ?ereason, supervisor = ?pid, timeout = ?config.graceful_shutdown_timeout, "Application starting graceful shutdown");
 
@@ -166,19 +172,36 @@ pub trait Application: Sized + Send + 'static {
                 Process::set_flags(ProcessFlags::TRAP_EXIT);
 
                 match self.start().await {
-                    Ok(pid) => loop {
-                        let message = Process::receive::<()>().await;
-
-                        match message {
-                            Message::System(SystemMessage::Exit(epid, ereason)) => {
-                                if epid == pid {
-                                    tx.send(Some(ereason)).unwrap();
-                                    break;
+                    Ok(pid) => {
+                        let monitor = Process::monitor(pid);
+                        let mut exit_reason: Option<ExitReason> = None;
+
+                        loop {
+                            let message = Process::receive::<()>().await;
+
+                            match message {
+                                Message::System(SystemMessage::ProcessDown(_, mref, ereason)) => {
+                                    if mref == monitor {
+                                        // It may have exited before it was monitored.
+                                        let ereason = if ereason == "noproc" {
+                                            exit_reason.unwrap_or(ereason)
+                                        } else {
+                                            ereason
+                                        };
+
+                                        tx.send(Some(ereason)).unwrap();
+                                        break;
+                                    }
+                                }
+                                Message::System(SystemMessage::Exit(epid, ereason)) => {
+                                    if epid == pid {
+                                        exit_reason = Some(ereason);
+                                    }
                                 }
+                                _ => continue,
                             }
-                            _ => continue,
                         }
-                    },
+                    }
                     Err(reason) => {
                         tx.send(Some(reason)).unwrap();
                     }
-- 
2.43.0


From 5e1687ab6bf0bbc5456c78bea9a8cd2fac286fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 33/44] fix: a message of another type doesn't end an
 application

---
 hydra/src/application.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index f3a25f2..063dfad 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -97,7 +97,11 @@ pub trait Application: Sized + Send + 'static {
                         };
 
                         loop {
-                            let message = Process::receive::<ApplicationMessage>().await;
+                            // A message of another type is none of our business.
+                            let message = Process::receiver()
+                                .for_message::<ApplicationMessage>()
+                                .receive()
+                                .await;
 
                             match message {
                                 Message::User(ShutdownTimeout) => {
@@ -177,7 +181,7 @@ pub trait Application: Sized + Send + 'static {
                         let mut exit_reason: Option<ExitReason> = None;
 
                         loop {
-                            let message = Process::receive::<()>().await;
+                            let message = Process::receiver().receive().await;
 
                             match message {
                                 Message::System(SystemMessage::ProcessDown(_, mref, ereason)) => {
-- 
2.43.0


From 736286944f9daa6410792e416e4405fa50835cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 34/44] fix: updates of the overrides of a hash ring are
 serialized

---
 hydra/src/hash_ring.rs | 45 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index 907eade..d2d69ca 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::hash::BuildHasher;
 use std::hash::Hash;
 use std::hash::RandomState;
@@ -175,30 +176,49 @@ where
 
     /// Adds an override to the ring.
     pub fn add_override<K: Hash>(&self, key: K, node: T) -> Option<T> {
-        self.overrides.insert(self.hash_key(key), node)
+        let key = self.hash_key(key);
+
+        let _ring_lock = self.ring_lock.lock().unwrap();
+
+        self.overrides.insert(key, node)
     }
 
     /// Adds a collection of overrides to the ring.
     pub fn add_overrides<K: Hash, I: IntoIterator<Item = (K, T)>>(&self, overrides: I) {
+        let overrides = self.hash_overrides(overrides);
+
+        let _ring_lock = self.ring_lock.lock().unwrap();
+
         for (key, node) in overrides {
-            self.overrides.insert(self.hash_key(key), node);
+            self.overrides.insert(key, node);
         }
     }
 
     /// Replaces the overrides in the ring with a new set of overrides.
     pub fn set_overrides<K: Hash, I: IntoIterator<Item = (K, T)>>(&self, overrides: I) {
-        self.overrides.clear();
+        let overrides = self.hash_overrides(overrides);
+
+        let _ring_lock = self.ring_lock.lock().unwrap();
+
+        // The stale overrides go last, a key in both sets is never without an override.
+        let mut keys = HashSet::with_capacity(overrides.len());
 
         for (key, node) in overrides {
-            self.overrides.insert(self.hash_key(key), node);
+            keys.insert(key);
+
+            self.overrides.insert(key, node);
         }
+
+        self.overrides.retain(|key, _| keys.contains(key));
     }
 
     /// Removes an existing override from the ring.
     pub fn remove_override<K: Hash>(&self, key: K) -> Option<T> {
-        self.overrides
-            .remove(&self.hash_key(key))
-            .map(|entry| entry.1)
+        let key = self.hash_key(key);
+
+        let _ring_lock = self.ring_lock.lock().unwrap();
+
+        self.overrides.remove(&key).map(|entry| entry.1)
     }
 
     /// Clears all of the nodes and overrides from the hash ring.
@@ -209,6 +229,17 @@ where
         self.overrides.clear();
     }
 
+    /// Hashes the keys of the given overrides, before any lock is taken.
+    fn hash_overrides<K: Hash, I: IntoIterator<Item = (K, T)>>(
+        &self,
+        overrides: I,
+    ) -> Vec<(u64, T)> {
+        overrides
+            .into_iter()
+            .map(|(key, node)| (self.hash_key(key), node))
+            .collect()
+    }
+
     /// Hashes the given key using the selected hasher.
     #[inline(always)]
     fn hash_key<K: Hash>(&self, key: K) -> u64 {
-- 
2.43.0


From be87b65ded794c9849dd2e6ca59bc3c8fd504e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 35/44] fix: a websocket handler is terminated exactly once,
 with the reason it exits with, and nothing runs after it

---
 hydra-websockets/src/websocket_handler.rs | 149 ++++++++++------------
 1 file changed, 65 insertions(+), 84 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..28325b7 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -83,15 +83,18 @@ where
     }
 }
 
-/// Internal routine to process commands from a [WebsocketHandler] callback.
-async fn websocket_process_commands<T, S>(
-    commands: WebsocketCommands,
-    handler: &mut T,
+/// Internal routine to process commands from a [WebsocketHandler] callback, fails with the reason to exit.
+async fn websocket_process_commands<S>(
+    commands: Option<WebsocketCommands>,
     stream: &mut WebSocketStream<S>,
-) where
-    T: WebsocketHandler + Send + 'static,
+) -> Result<(), ExitReason>
+where
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
+    let Some(commands) = commands else {
+        return Ok(());
+    };
+
     let mut close_command: Option<WebsocketCommand> = None;
 
     let sends = commands.buffer.into_iter().filter_map(|command| {
@@ -110,117 +113,95 @@ async fn websocket_process_commands<T, S>(
 
     let mut sends = stream::iter(sends);
 
-    if let Err(error) = stream.send_all(&mut sends).await {
-        handler.terminate(error_to_reason(&error)).await;
-
-        Process::exit(Process::current(), error_to_reason(&error))
-    }
+    stream
+        .send_all(&mut sends)
+        .await
+        .map_err(|error| error_to_reason(&error))?;
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
-        if let Err(error) = stream
+        stream
             .close(Some(CloseFrame {
                 code,
                 reason: reason.into(),
             }))
             .await
-        {
-            handler.terminate(error_to_reason(&error)).await;
+            .map_err(|error| error_to_reason(&error))?;
 
-            Process::exit(Process::current(), error_to_reason(&error));
-        } else {
-            Process::exit(Process::current(), ExitReason::Normal);
-        }
+        return Err(ExitReason::Normal);
     }
+
+    Ok(())
 }
 
-/// Internal [WebsocketHandler] start routine.
-pub(crate) async fn start_websocket_handler<T, S>(mut handler: T, mut stream: WebSocketStream<S>)
+/// Internal routine that handles messages until the [WebsocketHandler] has to exit.
+async fn websocket_handle_messages<T, S>(
+    handler: &mut T,
+    stream: &mut WebSocketStream<S>,
+) -> Result<(), ExitReason>
 where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
-    match handler.websocket_init().await {
-        Ok(commands) => {
-            if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
-            }
-        }
-        Err(reason) => {
-            return Process::exit(Process::current(), reason);
-        }
-    }
+    let commands = handler.websocket_init().await?;
+
+    websocket_process_commands(commands, stream).await?;
 
     loop {
         tokio::select! {
             message = Process::receive::<T::Message>() => {
-                match handler.websocket_info(message).await {
-                    Ok(commands) => {
-                        if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
-                        }
-                    }
-                    Err(reason) => {
-                        handler.terminate(reason.clone()).await;
+                let commands = handler.websocket_info(message).await?;
 
-                        return Process::exit(Process::current(), reason);
-                    }
-                }
+                websocket_process_commands(commands, stream).await?;
             }
             ws_message = stream.next() => {
                 let Some(ws_message) = ws_message else {
-                    panic!("Websocket closed without close frame!");
+                    return Err(ExitReason::from("connection_closed"));
                 };
 
-                match ws_message {
-                    Ok(message) => {
-                        let mut should_close = false;
-
-                        match &message {
-                            WebsocketMessage::Ping(data) => {
-                                if let Err(error) = stream.send(WebsocketMessage::Pong(data.clone())).await {
-                                    handler.terminate(error_to_reason(&error)).await;
-
-                                    return Process::exit(Process::current(), error_to_reason(&error));
-                                }
-                            }
-                            WebsocketMessage::Close(_) => {
-                                should_close = true;
-                            }
-                            _ => {
-                                // No special handling.
-                            }
-                        }
-
-                        match handler.websocket_handle(message).await {
-                            Ok(commands) => {
-                                if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
-                                }
-                            }
-                            Err(reason) => {
-                                handler.terminate(reason.clone()).await;
-
-                                return Process::exit(Process::current(), reason);
-                            }
-                        }
-
-                        if should_close {
-                            handler.terminate(ExitReason::from("connection_closed")).await;
-
-                            return Process::exit(Process::current(), ExitReason::from("connection_closed"));
-                        }
-                    }
-                    Err(error) => {
-                        handler.terminate(error_to_reason(&error)).await;
+                let message = ws_message.map_err(|error| error_to_reason(&error))?;
+
+                let mut should_close = false;
 
-                        return Process::exit(Process::current(), error_to_reason(&error));
+                match &message {
+                    WebsocketMessage::Ping(data) => {
+                        stream
+                            .send(WebsocketMessage::Pong(data.clone()))
+                            .await
+                            .map_err(|error| error_to_reason(&error))?;
+                    }
+                    WebsocketMessage::Close(_) => {
+                        should_close = true;
+                    }
+                    _ => {
+                        // No special handling.
                     }
                 }
+
+                let commands = handler.websocket_handle(message).await?;
+
+                websocket_process_commands(commands, stream).await?;
+
+                if should_close {
+                    return Err(ExitReason::from("connection_closed"));
+                }
             }
         }
     }
 }
 
+/// Internal [WebsocketHandler] start routine.
+pub(crate) async fn start_websocket_handler<T, S>(mut handler: T, mut stream: WebSocketStream<S>)
+where
+    T: WebsocketHandler + Send + 'static,
+    S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
+{
+    if let Err(reason) = websocket_handle_messages(&mut handler, &mut stream).await {
+        handler.terminate(reason.clone()).await;
+
+        Process::exit(Process::current(), reason);
+    }
+}
+
 /// Converts a websocket error to an exit reason.
 fn error_to_reason(error: &Error) -> ExitReason {
     match error {
-- 
2.43.0


From f7629b1df2b3635ef5a86f79ef9a45a633fdbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 36/44] fix: a websocket handler answers the close frame of its
 peer

---
 hydra-websockets/src/websocket_handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 28325b7..a9cf75c 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -170,6 +170,9 @@ where
                             .map_err(|error| error_to_reason(&error))?;
                     }
                     WebsocketMessage::Close(_) => {
+                        // Reading it only queues the answer, the peer may already be gone.
+                        let _ = stream.flush().await;
+
                         should_close = true;
                     }
                     _ => {
-- 
2.43.0


From c8edf6d4a12ca54141c1f01d534ffd2dd11c5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 37/44] fix: a stopped node going away leaves the one started
 after it alone

---
 hydra/src/node_local.rs    | 3 +--
 hydra/src/node_registry.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,13 +25,12 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index c4c4687..bf39362 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -120,7 +120,12 @@ pub fn node_local_stop() {
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+pub fn node_local_panic(supervisor: Pid) {
+    // The node may have been stopped already, and even started again.
+    if node_local_process() != Some(supervisor) {
+        return;
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
-- 
2.43.0


From 3dad3500bd7850d245e9e1f16dee843efd0089df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 38/44] fix: disconnecting, forgetting or stopping a node is a
 loss of its connections

---
 hydra/src/node_registry.rs | 101 +++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 38 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index bf39362..b9dca3b 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -117,6 +117,8 @@ pub fn node_local_stop() {
 
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    node_connection_lost_all();
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
@@ -129,6 +131,8 @@ pub fn node_local_panic(supervisor: Pid) {
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
+
+    node_connection_lost_all();
 }
 
 /// Returns the process responsible for the local node.
@@ -286,6 +290,8 @@ pub fn node_register(node: Node, connect: bool) -> u64 {
 /// Triggered when a remote node supervisor goes down unexpectedly.
 pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     let Some(id) = NODE_MAP.get(&node) else {
+        // The node has been forgotten, but its last frames may still have been handled.
+        node_connection_lost(&node);
         return;
     };
 
@@ -302,50 +308,66 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
+        node_connection_lost(&node);
+
+        value
+    });
+}
+
+/// Tells everyone who waits on the connection with the given node that it's lost.
+fn node_connection_lost(node: &Node) {
+    NODE_PENDING_MESSAGES.remove(node);
 
-                link_destroy(process, from);
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
 
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
+            link_destroy(process, from);
+
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
         }
+    }
 
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                // The alias of the monitor must be inactive once the message arrives.
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            // The alias of the monitor must be inactive once the message arrives.
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
 
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
+                }
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
                 }
-
             }
         }
+    }
+}
 
-        NODE_PENDING_MESSAGES.remove(&node);
+/// Tells everyone who waits on the connection with any node that it's lost.
+fn node_connection_lost_all() {
+    let links = NODE_LINKS.iter().map(|entry| entry.key().clone());
+    let nodes: BTreeSet<Node> = links
+        .chain(NODE_MONITORS.iter().map(|entry| entry.key().clone()))
+        .collect();
 
-        value
-    });
+    for node in nodes {
+        node_connection_lost(&node);
+    }
 }
 
 /// Returns the node list excluding the local node.
@@ -383,13 +405,16 @@ pub fn node_disconnect(node: Node) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        NODE_PENDING_MESSAGES.remove(&node);
-
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
         }
 
+        value.sender = None;
+        value.receiver = None;
         value.state = NodeState::Known;
+
+        node_connection_lost(&node);
+
         value
     });
 }
@@ -404,11 +429,11 @@ pub fn node_forget(node: Node) {
         return;
     };
 
-    NODE_PENDING_MESSAGES.remove(&node);
-
     if let Some(supervisor) = registration.supervisor {
         Process::exit(supervisor, ExitReason::Kill);
     }
+
+    node_connection_lost(&node);
 }
 
 /// Looks up the node information for the local node.
-- 
2.43.0


From 763005fb678f00919b8272499c0922192a3371f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 39/44] fix: stopping a node ends the connections it has
 accepted

---
 hydra/src/node_remote.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 16f4dc0..c58dc25 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -304,7 +304,14 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    // Once the local node has gone, so must its connections.
+    let local = supervisor.local_supervisor.process;
+
+    if node_local_process() != Some(local) {
+        panic!("Local node was stopped!");
+    }
+
+    Process::link(local);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From 75bb4587cbc1f296aef191bfbe41e478f3e33180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 40/44] fix: a link with a remote process leaves nothing behind
 once it is gone

---
 hydra/src/link.rs          | 4 ++++
 hydra/src/node_registry.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 710c25d..bd50307 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -108,6 +108,10 @@ pub fn link_destroy(process: Pid, from: Pid) {
             link_remove(process, from);
         }
     } else {
+        if from.is_local() {
+            link_remove(from, process);
+        }
+
         let link = Link::new(false, process.id(), from.id());
 
         node_send_frame(link.into(), process.node());
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index b9dca3b..80faa7c 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -567,6 +567,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From 2e031d71c28b3e0c771c1b80fedce9d64140faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 41/44] fix: identities keep their meaning on a node that is
 not distributed

---
 hydra/src/node.rs      | 19 ++++++++++---------
 hydra/src/pid.rs       |  4 +++-
 hydra/src/reference.rs |  4 +++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 744764c..f6171cb 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -324,17 +324,18 @@ impl<'de> Deserialize<'de> for Node {
     {
         let node: NodeWire = NodeWire::deserialize(deserializer)?;
 
+        // Only a node that isn't distributed has no address.
+        let Some(address) = node.address else {
+            return Ok(Node::Local);
+        };
+
         match node_lookup_local() {
-            Some((name, address)) => {
-                if node.name == name
-                    && (node.address.is_none() || node.address.is_some_and(|node| node == address))
-                {
-                    Ok(Node::Local)
-                } else {
-                    Ok(Node::Remote(node.name, node.address.unwrap()))
-                }
+            Some((local_name, local_address))
+                if node.name == local_name && address == local_address =>
+            {
+                Ok(Node::Local)
             }
-            None => Ok(Node::Local),
+            _ => Ok(Node::Remote(node.name, address)),
         }
     }
 }
diff --git a/hydra/src/pid.rs b/hydra/src/pid.rs
index 76016d7..d1afac8 100644
--- a/hydra/src/pid.rs
+++ b/hydra/src/pid.rs
@@ -17,6 +17,7 @@ use crate::LOCAL_NODE_ID;
 enum PidWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    NotDistributed(NonZeroU64),
 }
 
 /// A unique identifier of a process in hydra.
@@ -81,7 +82,7 @@ impl Serialize for Pid {
         let pid: PidWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
-                None => PidWire::NodeUnavailable(*id),
+                None => PidWire::NotDistributed(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
@@ -114,6 +115,7 @@ impl<'de> Deserialize<'de> for Pid {
                 None => Ok(Pid::Remote(id, INVALID_NODE_ID)),
             },
             PidWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            PidWire::NotDistributed(id) => Ok(Self::Local(id)),
         }
     }
 }
diff --git a/hydra/src/reference.rs b/hydra/src/reference.rs
index 5d1b338..a785004 100644
--- a/hydra/src/reference.rs
+++ b/hydra/src/reference.rs
@@ -20,6 +20,7 @@ use crate::LOCAL_NODE_ID;
 enum ReferenceWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    NotDistributed(NonZeroU64),
 }
 
 /// A unique id that pertains to a specific node.
@@ -97,7 +98,7 @@ impl Serialize for Reference {
         let reference: ReferenceWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
-                None => ReferenceWire::NodeUnavailable(*id),
+                None => ReferenceWire::NotDistributed(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
@@ -130,6 +131,7 @@ impl<'de> Deserialize<'de> for Reference {
                 None => Ok(Reference::Remote(id, INVALID_NODE_ID)),
             },
             ReferenceWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            ReferenceWire::NotDistributed(id) => Ok(Self::Local(id)),
         }
     }
 }
-- 
2.43.0


From 1afa60b2e02a7d9910ade0a8ab6ae45688f7618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 42/44] fix: a node does not accept its own greeting

---
 hydra/src/node_remote.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index c58dc25..2e76701 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -368,7 +368,11 @@ pub async fn node_remote_accepter(socket: TcpStream, supervisor: Arc<NodeLocalSu
         .expect("Failed to receive hello handshake packet!");
 
     if let Frame::Hello(mut hello) = frame {
-        if hello.validate() {
+        if hello.name == supervisor.name
+            && hello.broadcast_address == supervisor.options.broadcast_address
+        {
+            panic!("Node handshake was sent back by the peer!");
+        } else if hello.validate() {
             Process::spawn(node_remote_supervisor(writer, reader, hello, supervisor));
             return;
         } else {
-- 
2.43.0


From fc654eb2c33f74e35002802baf57cf2ef028ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 43/44] fix: a monitor by name is destroyed at the other node
 even if the process is not known yet

---
 hydra/src/monitor.rs       | 16 ++++++++++++++--
 hydra/src/node_registry.rs | 20 ++++++++++++++++++++
 hydra/src/node_remote.rs   |  9 ++++++++-
 hydra/src/process.rs       |  6 ++++--
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 319518b..2fa4799 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -13,6 +13,7 @@ use crate::node_monitor_destroy;
 use crate::node_process_monitor_create;
 use crate::node_process_monitor_destroy;
 use crate::node_process_monitor_destroy_all;
+use crate::node_process_monitor_take;
 use crate::node_register;
 use crate::node_send_frame;
 use crate::process_exists_lock;
@@ -59,6 +60,16 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     }
 }
 
+/// Destroys a monitor for the given reference by name, of which the process is not known here.
+pub fn monitor_destroy_named(reference: Reference) {
+    if let Some(node) = node_process_monitor_take(reference) {
+        let monitor = Monitor::new(false, None, None, None, reference.id());
+        let node = node_register(node, false);
+
+        node_send_frame(monitor.into(), node);
+    }
+}
+
 /// Destroys all monitors registered for the given reference, monitor combination.
 pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a ProcessMonitor)>>(
     monitors: M,
@@ -66,8 +77,9 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     for (reference, monitor) in monitors {
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
-                if let Some(pid) = pid {
-                    monitor_destroy(*pid, *reference);
+                match pid {
+                    Some(pid) => monitor_destroy(*pid, *reference),
+                    None => monitor_destroy_named(*reference),
                 }
             }
             ProcessMonitor::ForNode(node) => {
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 80faa7c..2ba978e 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -482,6 +482,26 @@ pub fn node_process_monitor_destroy(node: Node, reference: Reference) {
     });
 }
 
+/// Returns the process of a monitor cleanup for the given node and reference.
+pub fn node_process_monitor_cleanup_id(node: Node, reference: Reference) -> Option<u64> {
+    NODE_MONITORS
+        .get(&node)
+        .and_then(|monitors| match monitors.get(&reference) {
+            Some(NodeMonitor::ProcessMonitorCleanup(id)) => Some(*id),
+            _ => None,
+        })
+}
+
+/// Destroys a node process monitor for the given reference, and returns the node it was for.
+pub fn node_process_monitor_take(reference: Reference) -> Option<Node> {
+    NODE_MONITORS
+        .iter_mut()
+        .find_map(|mut entry| match entry.value_mut().remove(&reference) {
+            Some(_) => Some(entry.key().clone()),
+            None => None,
+        })
+}
+
 /// Destroys all process monitors for the given node by their references.
 pub fn node_process_monitor_destroy_all(node: Node, references: Vec<Reference>) {
     NODE_MONITORS.alter(&node, |_, mut value| {
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 2e76701..c34eff0 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -33,6 +33,7 @@ use crate::node_local_process;
 use crate::node_process_link_create;
 use crate::node_process_link_down;
 use crate::node_process_monitor_cleanup;
+use crate::node_process_monitor_cleanup_id;
 use crate::node_process_monitor_destroy;
 use crate::node_process_monitor_down;
 use crate::node_register;
@@ -218,7 +219,13 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                         panic!("Must have either a process id or process name for monitor!");
                     };
                 } else {
-                    monitor_destroy(Pid::local(monitor.process_id.unwrap()), reference);
+                    let process_id = monitor.process_id.or_else(|| {
+                        node_process_monitor_cleanup_id(supervisor.node.clone(), reference)
+                    });
+
+                    if let Some(process_id) = process_id {
+                        monitor_destroy(Pid::local(process_id), reference);
+                    }
 
                     node_process_monitor_destroy(supervisor.node.clone(), reference);
                 }
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index ae41b70..68974a6 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -24,6 +24,7 @@ use crate::link_process_down;
 use crate::monitor_create;
 use crate::monitor_destroy;
 use crate::monitor_destroy_all;
+use crate::monitor_destroy_named;
 use crate::monitor_fill_info;
 use crate::monitor_install;
 use crate::monitor_process_down;
@@ -383,8 +384,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        if let Some(pid) = pid {
-            monitor_destroy(pid, monitor);
+        match pid {
+            Some(pid) => monitor_destroy(pid, monitor),
+            None => monitor_destroy_named(monitor),
         }
 
         alias_destroy(monitor);
-- 
2.43.0


From 439fc39acde11362a7c7de324583abd026b181dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 44/44] fix: a receiver sees the messages that another receiver
 of its process set aside

Two calls (or receives) that one process awaits concurrently, with join! for
example, share the process mailbox.  The one that popped the other's message
set it aside without telling, and the other one waited for it forever (or
until its timeout).  Receivers now wake each other when messages were set aside.
---
 hydra/src/process.rs          |  5 ++++
 hydra/src/process_receiver.rs | 44 ++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 68974a6..d8381fd 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -5,12 +5,14 @@ use std::future::Future;
 use std::panic::AssertUnwindSafe;
 use std::sync::atomic::AtomicU64;
 use std::sync::atomic::Ordering;
+use std::sync::Arc;
 use std::time::Duration;
 
 use flume::Receiver;
 use flume::Sender;
 
 use tokio::sync::oneshot;
+use tokio::sync::Notify;
 
 use crate::alias_create;
 use crate::alias_destroy;
@@ -80,6 +82,8 @@ pub struct Process {
     pub(crate) receiver: ProcessReceive,
     /// The messages already popped from the receiver for this process.
     pub(crate) items: RefCell<Vec<ProcessItem>>,
+    /// Notifies the receivers of this process when messages were added to `items`.
+    pub(crate) popped: Arc<Notify>,
     /// A collection of process aliases.
     pub(crate) aliases: RefCell<BTreeSet<u64>>,
     /// A collection of process monitor references.
@@ -99,6 +103,7 @@ impl Process {
             sender,
             receiver,
             items: RefCell::new(Vec::new()),
+            popped: Arc::new(Notify::new()),
             aliases: RefCell::new(BTreeSet::new()),
             monitors: RefCell::new(BTreeMap::new()),
         }
diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index 93029f9..0c1375e 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -1,4 +1,8 @@
 use std::marker::PhantomData;
+use std::pin::pin;
+
+use futures_util::future::select;
+use futures_util::future::Either;
 
 use crate::deserialize_value;
 use crate::Message;
@@ -40,9 +44,9 @@ where
         }
     }
 
-    /// Selects a single message.
-    pub async fn select<F: (Fn(&Message<&T>) -> bool) + Send>(self, filter: F) -> Message<T> {
-        let result = PROCESS.with(|process| {
+    /// Selects a single message that was already popped from the mailbox.
+    fn select_popped<F: Fn(&Message<&T>) -> bool>(&self, filter: F) -> Option<Message<T>> {
+        PROCESS.with(|process| {
             let mut items = process.items.borrow_mut();
             let mut found: Option<usize> = None;
 
@@ -72,16 +76,34 @@ where
             }
 
             None
-        });
+        })
+    }
+
+    /// Selects a single message.
+    pub async fn select<F: (Fn(&Message<&T>) -> bool) + Send>(self, filter: F) -> Message<T> {
+        let (receiver, popped) =
+            PROCESS.with(|process| (process.receiver.clone(), process.popped.clone()));
+
+        let mut notified = pin!(popped.notified());
 
-        if let Some(message) = result {
+        if let Some(message) = self.select_popped(&filter) {
             return message;
         }
 
-        let receiver = PROCESS.with(|process| process.receiver.clone());
-
         loop {
-            let mut item = receiver.recv_async().await.unwrap();
+            let mut item = match select(&mut notified, receiver.recv_async()).await {
+                Either::Left(_) => {
+                    // Another receiver of this process popped messages that may be for this one.
+                    notified.set(popped.notified());
+
+                    if let Some(message) = self.select_popped(&filter) {
+                        return message;
+                    }
+
+                    continue;
+                }
+                Either::Right((item, _)) => item.unwrap(),
+            };
 
             match process_item::<T>(&mut item) {
                 Ok(Some(message)) => {
@@ -97,12 +119,14 @@ where
                 Err(_) => {
                     if self.ignore_type {
                         PROCESS.with(|process| process.items.borrow_mut().push(item));
-                        continue;
                     } else {
                         panic!("Unsupported message type!")
                     }
                 }
             }
+
+            popped.notify_waiters();
+            notified.set(popped.notified());
         }
     }
 
@@ -144,6 +168,8 @@ where
                 }
             }
         }
+
+        PROCESS.with(|process| process.popped.notify_waiters());
     }
 
     /// Receives a single message.
-- 
2.43.0

