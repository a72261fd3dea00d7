From 3b912424c01966bc4fda1238dae6656c023e934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 01/42] fix: heartbeat_timeout sets the heartbeat timeout, not
 the handshake timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From 88f409887be5c30638cb58ae8393827d64fab3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 02/42] fix: all-significant auto shutdown waits for the last
 running significant child

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..6ea5615 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -740,7 +740,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() {
                 return false;
             }
-- 
2.43.0


From 7ff8b2e0d6b033de0130f3f1531c063983c436aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 03/42] fix: forget the id of a temporary child that declined
 to start

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 6ea5615..1831ee7 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -717,7 +717,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From 45fbeb040aedd2fd2930a0699e9d104891104801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 04/42] fix: terminating a child cancels its pending restart
 even when it has no process

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 1831ee7..992dc44 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -457,12 +457,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
-- 
2.43.0


From d467e32b88c520a2e3ad09f633d9841c32df3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 05/42] fix: terminate_child deletes the specification of a
 temporary child

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 992dc44..c74ff53 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From 166d8a351a0970324c45793c97e958ba3ad6497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 06/42] fix: never restart temporary children with their
 siblings

---
 hydra/src/supervisor.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index c74ff53..1a177a6 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -615,17 +615,9 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
-
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
-
-        for tindex in range {
-            indices.push(tindex);
+        let start = if all { 0 } else { index };
 
+        for tindex in start..self.children.len() {
             if index == tindex {
                 continue;
             }
@@ -633,7 +625,13 @@ impl Supervisor {
             self.terminate_child_by_index(tindex).await;
         }
 
-        for sindex in indices {
+        for tindex in (start..self.children.len()).rev() {
+            if self.children[tindex].is_temporary() {
+                self.remove_child(tindex);
+            }
+        }
+
+        for sindex in start..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From f27df10debdb6e2184d2a2b3bdf1bdcddee75e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 07/42] fix: a cancelled retry does not count as a restart

---
 hydra/src/supervisor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 1a177a6..8f4812e 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -650,14 +650,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From 5dc56a5d61c44c13e07fa87949e91a2335e0794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 08/42] fix: a restart window longer than the system uptime no
 longer panics

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 8f4812e..51799e4 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -755,9 +755,9 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        self.restarts
+            .retain(|restart| now.duration_since(*restart) <= self.max_duration);
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From 13666e5415cc3e1f5deb98a1b4351b9bc5591b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 09/42] fix: clear also removes the overrides of a hash ring

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From 0f35f615f4be9037c69cdfeeb485a7a0053563fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 10/42] fix: a registry without a start routine answers
 StartNotSupported

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From a3a7ef633a79156826ccb241c40d3ef3b9c04584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 11/42] fix: dropping a registry that owns no processes keeps
 the table of a running one

---
 hydra/src/registry.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..a751df5 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -473,6 +473,11 @@ impl Registry {
 
 impl Drop for Registry {
     fn drop(&mut self) {
+        // Clones that never ran (or already terminated) must not affect a running registry.
+        if self.lookup.is_empty() {
+            return;
+        }
+
         REGISTRY.remove(&self.name);
 
         for process in self.lookup.keys() {
-- 
2.43.0


From 72cec8d6f09ed439a496efc64feb5a0f90dd3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 12/42] fix: unlink removes both directions of the link

---
 hydra/src/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..cbc69f9 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -314,6 +314,7 @@ impl Process {
         }
 
         link_destroy(pid, current);
+        link_destroy(current, pid);
     }
 
     /// Starts monitoring the given process from the calling process. If the process is already dead a message is sent immediately.
-- 
2.43.0


From ddd616328b0bd9a22e1ed88022b71770fe7f6eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 13/42] fix: keep the process registered for the duration of
 process_exists_lock

---
 hydra/src/process_registry.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..f6f4630 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,9 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From 72e016aab2c177d73cb94a904fc401abb565749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 14/42] fix: install a remote monitor by name only while the
 process exists

---
 hydra/src/node_remote.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..4d705e1 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -186,9 +186,17 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let installed = process_name_lookup(&name).filter(|process| {
+                            process_exists_lock(*process, |exists| {
+                                if exists {
+                                    monitor_create(*process, reference, from, None);
+                                }
+
+                                exists
+                            })
+                        });
 
+                        if let Some(id) = installed {
                             let monitor_update =
                                 MonitorUpdate::new(from_id, id.id(), reference.id());
 
-- 
2.43.0


From 8db1e9f66f1fc18593ac351e30e3712c4091d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 15/42] fix: start a spawned process only after it has been
 registered

---
 hydra/src/process.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index cbc69f9..b98392d 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -482,8 +482,13 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // The process must not run (and exit) before it has been registered.
+    let (registered_tx, registered) = tokio::sync::oneshot::channel::<()>();
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
+        let _ = registered.await;
+
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
             process_set_exit_reason(Process::current(), e.into());
         }
@@ -492,5 +497,7 @@ where
     // Register the process under it's new id.
     process_insert(next_id, ProcessRegistration::new(handle, tx));
 
+    let _ = registered_tx.send(());
+
     result
 }
-- 
2.43.0


From d815702c239836eb58fe5e24ac47976dd8db87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 16/42] fix: a terminated process only releases its own name

---
 hydra/src/process.rs          | 2 +-
 hydra/src/process_registry.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index b98392d..0e073eb 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -420,7 +420,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index f6f4630..722ea6b 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -61,9 +61,9 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name if it still belongs to the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, process_id| *process_id == pid.id());
 }
 
 /// Checks if the process is alive.
-- 
2.43.0


From d649f4a48f51c731dbde27b611569951242a6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 17/42] fix: demonitor deactivates the alias of a monitor
 without a process

---
 hydra/src/process.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 0e073eb..c9951ab 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -365,11 +365,9 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
-- 
2.43.0


From 544ff9b1819770bddef83fd215ab8b9521c6fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 18/42] fix: demonitor discards a down message that was already
 moved to the mailbox

---
 hydra/src/process.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index c9951ab..9ea9d46 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -58,6 +58,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -355,6 +356,12 @@ impl Process {
     ///
     /// If a monitor message was sent to the process already but was not received, it will be discarded automatically.
     pub fn demonitor(monitor: Reference) {
+        PROCESS.with(|process| {
+            process.items.borrow_mut().retain(|item| {
+                !matches!(item, ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _)) if *reference == monitor)
+            })
+        });
+
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
-- 
2.43.0


From 1c8f2e346eeb875331b171bcce29e18d6d6a24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 19/42] fix: removing a remote monitor reaches the node of the
 monitored process

---
 hydra/src/monitor.rs     | 10 +++++++---
 hydra/src/node_remote.rs | 11 ++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..009b352 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -78,7 +78,11 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                 } else {
                     let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
 
-                    node_send_frame(monitor.into(), reference.node());
+                    node_send_frame(monitor.into(), pid.node());
+
+                    if let Some((name, address)) = node_lookup_remote(pid.node()) {
+                        node_process_monitor_destroy(Node::from((name, address)), *reference);
+                    }
                 }
             }
             ProcessMonitor::ForNode(node) => {
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 4d705e1..7947cd4 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From 5663e4bf3e88b9b12f7d283fa3e6cb2e502a17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 20/42] fix: unalias only deactivates aliases of the calling
 process

---
 hydra/src/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 9ea9d46..423c85a 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -120,9 +120,12 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        let owned = PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id())
+                || process.monitors.borrow().contains_key(&alias)
+        });
 
-        alias_destroy(alias)
+        owned && alias_destroy(alias)
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From 96ee010b321dc1d52b1b37b27825b0fd20c5d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 21/42] fix: link the remote node supervisor to the local node
 supervisor

---
 hydra/src/node_remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 7947cd4..2d4b39b 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -300,7 +300,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From 1cb8c1750efb2e5177e08e57f0302fccb4dcb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 22/42] fix: a complete but truncated frame is an error instead
 of a stall

---
 hydra/src/frame/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..fd7ad84 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -8,7 +8,6 @@ use bincode::config;
 use bincode::config::Configuration;
 use bincode::config::Fixint;
 use bincode::config::LittleEndian;
-use bincode::error::DecodeError;
 
 use bytes::Buf;
 use bytes::BufMut;
@@ -170,17 +169,16 @@ impl Decoder for Codec {
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
+        let result = bincode::decode_from_slice(
+            &src[MARKER_LENGTH..MARKER_LENGTH + length],
+            FRAME_CONFIG,
+        );
 
         match result {
             Ok((frame, _)) => {
                 src.advance(MARKER_LENGTH + length);
                 Ok(Some(frame))
             }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
             Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
         }
     }
-- 
2.43.0


From 85a5178c971ef6626e1633577fd2e04c1c787ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 23/42] fix: a timer is registered before it can fire

---
 hydra/src/process.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 423c85a..df94544 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -178,7 +178,12 @@ impl Process {
 
         let reference = Reference::new();
 
+        // The timer must not fire (and unregister) before it has been registered.
+        let (registered_tx, registered) = tokio::sync::oneshot::channel::<()>();
+
         let handle = tokio::spawn(async move {
+            let _ = registered.await;
+
             Process::sleep(duration).await;
             Process::send(dest, message);
 
@@ -187,6 +192,8 @@ impl Process {
 
         process_register_timer(reference, duration, handle);
 
+        let _ = registered_tx.send(());
+
         reference
     }
 
-- 
2.43.0


From adfc85ebee94cd43fa445fa9ca3a6ae0ee09548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 24/42] fix: Application::test fails when the application is
 killed or panics

---
 hydra/src/application.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 47148d5..9859b67 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -185,10 +185,12 @@ pub trait Application: Sized + Send + 'static {
                 }
             });
 
-            if let Ok(Some(reason)) = rx.await {
-                if reason.is_custom() && reason != "shutdown" {
-                    panic!("Exited: {:?}", reason);
-                }
+            let Ok(Some(reason)) = rx.await else {
+                panic!("Exited before the application was stopped!");
+            };
+
+            if reason.is_kill() || (reason.is_custom() && reason != "shutdown") {
+                panic!("Exited: {:?}", reason);
             }
         });
     }
-- 
2.43.0


From bfd6473fc15e1088b80b0c5abf0892e7ad426b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 25/42] fix: forgetting a node or stopping the local one
 reports the lost connections

---
 hydra/src/node_registry.rs | 82 ++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..f9848e0 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -107,6 +107,8 @@ pub fn node_local_stop() {
         panic!("Local node not started!");
     };
 
+    let nodes = node_list();
+
     NODE_MAP.clear();
 
     if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
@@ -116,6 +118,11 @@ pub fn node_local_stop() {
     }
 
     NODE_REGISTRATIONS.clear();
+
+    for node in nodes {
+        node_connection_lost(&node);
+    }
+
     NODE_PENDING_MESSAGES.clear();
 }
 
@@ -297,48 +304,53 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
+        node_connection_lost(&node);
 
-                link_destroy(process, from);
+        value
+    });
+}
 
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
+/// Tells every process linked to, or monitoring something on the given node that the connection was lost.
+fn node_connection_lost(node: &Node) {
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
+
+            link_destroy(process, from);
+
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
         }
+    }
 
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
                 }
-
-                if reference.is_local() {
-                    alias_destroy(reference);
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
                 }
             }
-        }
 
-        NODE_PENDING_MESSAGES.remove(&node);
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
+        }
+    }
 
-        value
-    });
+    NODE_PENDING_MESSAGES.remove(node);
 }
 
 /// Returns the node list excluding the local node.
@@ -397,11 +409,11 @@ pub fn node_forget(node: Node) {
         return;
     };
 
-    NODE_PENDING_MESSAGES.remove(&node);
-
     if let Some(supervisor) = registration.supervisor {
         Process::exit(supervisor, ExitReason::Kill);
     }
+
+    node_connection_lost(&node);
 }
 
 /// Looks up the node information for the local node.
-- 
2.43.0


From e901a5978ad28d2fcf465a27239aa4531b499ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 26/42] fix: a local node supervisor that is going down does
 not clear a newer local node

---
 hydra/src/node_local.rs    | 2 +-
 hydra/src/node_registry.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..ea3bb6c 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -31,7 +31,7 @@ pub struct NodeLocalSupervisor {
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index f9848e0..e631779 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -127,7 +127,12 @@ pub fn node_local_stop() {
 }
 
 /// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
+pub fn node_local_panic(process: Pid) {
+    // The local node was stopped, or has already been started again.
+    if !node_alive() || node_local_process() != Some(process) {
+        return;
+    }
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
     NODE_PENDING_MESSAGES.clear();
-- 
2.43.0


From cd04e897c2888e44c6b0794a74ba038271f4f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 27/42] fix: the websocket handler is terminated when init
 fails or the connection closes

---
 hydra-websockets/src/websocket_handler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..e5e736a 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -128,6 +128,8 @@ async fn websocket_process_commands<T, S>(
 
             Process::exit(Process::current(), error_to_reason(&error));
         } else {
+            handler.terminate(ExitReason::Normal).await;
+
             Process::exit(Process::current(), ExitReason::Normal);
         }
     }
@@ -146,6 +148,8 @@ where
             }
         }
         Err(reason) => {
+            handler.terminate(reason.clone()).await;
+
             return Process::exit(Process::current(), reason);
         }
     }
@@ -168,7 +172,9 @@ where
             }
             ws_message = stream.next() => {
                 let Some(ws_message) = ws_message else {
-                    panic!("Websocket closed without close frame!");
+                    handler.terminate(ExitReason::from("connection_closed")).await;
+
+                    return Process::exit(Process::current(), ExitReason::from("connection_closed"));
                 };
 
                 match ws_message {
-- 
2.43.0


From 098c94246abdca4b31b5f248b4a5790b6fd5ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 28/42] fix: a failed websocket send ends the handler before
 its close command

---
 hydra-websockets/src/websocket_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index e5e736a..e87d6d9 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -113,7 +113,7 @@ async fn websocket_process_commands<T, S>(
     if let Err(error) = stream.send_all(&mut sends).await {
         handler.terminate(error_to_reason(&error)).await;
 
-        Process::exit(Process::current(), error_to_reason(&error))
+        return Process::exit(Process::current(), error_to_reason(&error));
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
-- 
2.43.0


From 8bea6b0a729f28a1ea689467b61349af636c2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 29/42] fix: the websocket server ends when its listener does

---
 hydra-websockets/src/websocket_server.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hydra-websockets/src/websocket_server.rs b/hydra-websockets/src/websocket_server.rs
index bdb2b47..91f45b8 100644
--- a/hydra-websockets/src/websocket_server.rs
+++ b/hydra-websockets/src/websocket_server.rs
@@ -22,9 +22,11 @@ use hydra::ChildSpec;
 use hydra::ExitReason;
 use hydra::GenServer;
 use hydra::GenServerOptions;
+use hydra::Message;
 use hydra::Pid;
 use hydra::Process;
 use hydra::ProcessFlags;
+use hydra::SystemMessage;
 
 use crate::WebsocketRequest;
 use crate::WebsocketResponse;
@@ -108,6 +110,15 @@ where
             Process::exit(server, ExitReason::Kill);
         }
     }
+
+    async fn handle_info(&mut self, info: Message<Self::Message>) -> Result<(), ExitReason> {
+        match info {
+            Message::System(SystemMessage::Exit(pid, reason)) if self.server == Some(pid) => {
+                Err(reason)
+            }
+            _ => Ok(()),
+        }
+    }
 }
 
 /// Internal [WebsocketServer] accept routine.
-- 
2.43.0


From ca037e0b6a98d42c6c6931e07276d16ba994f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:54 +0000
Subject: [PATCH 30/42] fix: the websocket handler ends once its close command
 was carried out

---
 hydra-websockets/src/websocket_handler.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index e87d6d9..548b987 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -88,7 +88,8 @@ async fn websocket_process_commands<T, S>(
     commands: WebsocketCommands,
     handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
+) -> bool
+where
     T: WebsocketHandler + Send + 'static,
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
@@ -113,7 +114,9 @@ async fn websocket_process_commands<T, S>(
     if let Err(error) = stream.send_all(&mut sends).await {
         handler.terminate(error_to_reason(&error)).await;
 
-        return Process::exit(Process::current(), error_to_reason(&error));
+        Process::exit(Process::current(), error_to_reason(&error));
+
+        return false;
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
@@ -132,7 +135,11 @@ async fn websocket_process_commands<T, S>(
 
             Process::exit(Process::current(), ExitReason::Normal);
         }
+
+        return false;
     }
+
+    true
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -144,7 +151,9 @@ where
     match handler.websocket_init().await {
         Ok(commands) => {
             if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
+                if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                    return;
+                }
             }
         }
         Err(reason) => {
@@ -160,7 +169,9 @@ where
                 match handler.websocket_info(message).await {
                     Ok(commands) => {
                         if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
+                            if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                return;
+                            }
                         }
                     }
                     Err(reason) => {
@@ -200,7 +211,9 @@ where
                         match handler.websocket_handle(message).await {
                             Ok(commands) => {
                                 if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
+                                    if !websocket_process_commands(commands, &mut handler, &mut stream).await {
+                                        return;
+                                    }
                                 }
                             }
                             Err(reason) => {
-- 
2.43.0


From 320f232caf7c4c5f46a6135d5ee81a141f902dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 31/42] fix: comparing a reference with an alias destination
 does not recurse forever

---
 hydra/src/dest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/dest.rs b/hydra/src/dest.rs
index b7504be..d419981 100644
--- a/hydra/src/dest.rs
+++ b/hydra/src/dest.rs
@@ -137,7 +137,7 @@ impl PartialEq<Reference> for Dest {
 impl PartialEq<Dest> for Reference {
     fn eq(&self, other: &Dest) -> bool {
         match other {
-            Dest::Alias(reference) => reference == other,
+            Dest::Alias(reference) => self == reference,
             _ => false,
         }
     }
-- 
2.43.0


From dbda9ca96df0c2a857bbb98b4295b5bfa7ee3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:18 +0000
Subject: [PATCH 32/42] fix: disconnecting a node signals its loss even when it
 is connected again at once

---
 hydra/src/node_registry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index e631779..fd382d0 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -393,13 +393,17 @@ pub fn node_disconnect(node: Node) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        NODE_PENDING_MESSAGES.remove(&node);
-
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
         }
 
+        value.sender = None;
+        value.receiver = None;
         value.state = NodeState::Known;
+
+        // The supervisor may only be gone after the node was connected again.
+        node_connection_lost(&node);
+
         value
     });
 }
-- 
2.43.0


From 835f45e13ee1990b16b18c9f19fa58b4b242f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:18 +0000
Subject: [PATCH 33/42] fix: losing the local node signals the loss of nodes
 still being connected

---
 hydra/src/node_registry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index fd382d0..9851346 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -133,8 +133,15 @@ pub fn node_local_panic(process: Pid) {
         return;
     }
 
+    let nodes = node_list();
+
     NODE_MAP.clear();
     NODE_REGISTRATIONS.clear();
+
+    for node in nodes {
+        node_connection_lost(&node);
+    }
+
     NODE_PENDING_MESSAGES.clear();
 }
 
-- 
2.43.0


From 69a08e3974419f70e1b7f8b4d618557fd020f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:18 +0000
Subject: [PATCH 34/42] fix: a refused websocket request is answered with an
 error response

---
 hydra-websockets/src/websocket_server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_server.rs b/hydra-websockets/src/websocket_server.rs
index 91f45b8..7e1d0b6 100644
--- a/hydra-websockets/src/websocket_server.rs
+++ b/hydra-websockets/src/websocket_server.rs
@@ -13,6 +13,7 @@ use tokio_tungstenite::accept_hdr_async_with_config;
 use tokio_tungstenite::tungstenite;
 
 use tungstenite::handshake::server::ErrorResponse;
+use tungstenite::http::StatusCode;
 use tungstenite::protocol::WebSocketConfig;
 
 #[cfg(feature = "native-tls")]
@@ -136,7 +137,14 @@ where
             handler = Some(rhandler);
             Ok(response)
         }
-        Err(reason) => Err(ErrorResponse::new(Some(format!("{:?}", reason)))),
+        Err(reason) => {
+            let mut response = ErrorResponse::new(Some(format!("{:?}", reason)));
+
+            // The response is only sent if it's an error.
+            *response.status_mut() = StatusCode::FORBIDDEN;
+
+            Err(response)
+        }
     };
 
     let ws_config = WebSocketConfig::default()
-- 
2.43.0


From 157618d4c4f6e130743b85bd724b19a97a660434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:18 +0000
Subject: [PATCH 35/42] fix: a registry is looked up under the name it was
 started with

---
 hydra/src/registry.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index a751df5..670371f 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -315,8 +315,11 @@ impl Registry {
     }
 
     /// Create a registry proces not linked to a supervision tree.
-    pub async fn start(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
+    pub async fn start(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        if let Some(name) = &options.name {
+            // The processes are looked up under the name the registry is registered as.
+            self.name = name.clone();
+        } else {
             options = options.name(self.name.clone());
         }
 
@@ -326,8 +329,11 @@ impl Registry {
     /// Creates a registry process as part of a supervision tree.
     ///
     /// For example, this function ensures that the registry is linked to the calling process (its supervisor).
-    pub async fn start_link(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
+    pub async fn start_link(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        if let Some(name) = &options.name {
+            // The processes are looked up under the name the registry is registered as.
+            self.name = name.clone();
+        } else {
             options = options.name(self.name.clone());
         }
 
-- 
2.43.0


From 9a77aa58dd8157987258e249a712c5f86344445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:56 +0000
Subject: [PATCH 36/42] fix: the first signal that terminates a process decides
 its exit reason

---
 hydra/src/process_registry.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 722ea6b..dfc60cf 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -145,6 +145,11 @@ pub fn process_unregister(name: &str) {
 /// Processes an exit signal for the given [Pid] with the `exit_reason`.
 pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
+        // Only the first signal that terminates a process decides why it exits.
+        if process.exit_reason.is_some() {
+            return process;
+        }
+
         let trapping_exits = process.flags.contains(ProcessFlags::TRAP_EXIT);
 
         match exit_reason {
@@ -189,6 +194,11 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
 /// Forwards an exit signal to the linked [Pid] from the given [Pid] with the `exit_reason`.
 pub fn process_exit_signal_linked(pid: Pid, from: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
+        // Only the first signal that terminates a process decides why it exits.
+        if process.exit_reason.is_some() {
+            return process;
+        }
+
         if process.flags.contains(ProcessFlags::TRAP_EXIT) {
             process
                 .sender
@@ -222,7 +232,11 @@ pub fn process_set_flags(pid: Pid, flags: ProcessFlags) {
 /// Sets the process exit reason.
 pub fn process_set_exit_reason(pid: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
-        process.exit_reason = Some(exit_reason);
+        // A signal that already terminated the process decides why it exits.
+        if process.exit_reason.is_none() {
+            process.exit_reason = Some(exit_reason);
+        }
+
         process
     });
 }
-- 
2.43.0


From 691be3fa5efe5e50f8ec02df781117672d86ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:56 +0000
Subject: [PATCH 37/42] fix: a link that could not be made or has ended is no
 longer recorded

---
 hydra/src/link.rs          | 2 ++
 hydra/src/node_registry.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..0b4f1ad 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,6 +49,7 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_destroy(from, process);
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,6 +65,7 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_destroy(from, process);
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 9851346..c65bbda 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -563,6 +563,7 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From 021427f482e9414c5ae04d9e5e92018b56ece43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:56 +0000
Subject: [PATCH 38/42] fix: the alias of a named monitor not yet resolved ends
 with its process

---
 hydra/src/monitor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 009b352..2c1afea 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -67,6 +67,7 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
                 let Some(pid) = pid else {
+                    alias_destroy(*reference);
                     continue;
                 };
 
-- 
2.43.0


From 6302ccbeb9991ad3022dcf9425ed0d104427e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:56 +0000
Subject: [PATCH 39/42] fix: a named remote monitor given up before it was
 resolved is withdrawn

---
 hydra/src/node_remote.rs      |  8 ++++++--
 hydra/src/process.rs          |  7 +++++++
 hydra/src/process_receiver.rs | 11 ++++++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 2d4b39b..0f73060 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -234,8 +234,12 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 let reference = Reference::local(monitor_update.reference_id);
                 let from = Pid::remote(monitor_update.from_id, node);
 
-                process_sender(Pid::local(monitor_update.process_id))
-                    .map(|sender| sender.send(ProcessItem::MonitorProcessUpdate(reference, from)));
+                if let Some(sender) = process_sender(Pid::local(monitor_update.process_id)) {
+                    let _ = sender.send(ProcessItem::MonitorProcessUpdate(reference, from));
+                } else {
+                    // The process went down without knowing what to withdraw.
+                    monitor_destroy(from, reference);
+                }
             }
             Frame::Link(link) => {
                 let node = node_register(supervisor.node.clone(), false);
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index df94544..e292aa8 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -445,6 +445,13 @@ impl Drop for Process {
         monitor_process_down(self.pid, exit_reason);
         monitor_destroy_all(self.monitors.borrow().iter());
 
+        // The remote processes of named monitors that are only known by now.
+        for item in self.receiver.drain() {
+            if let ProcessItem::MonitorProcessUpdate(reference, pid) = item {
+                monitor_destroy(pid, reference);
+            }
+        }
+
         alias_destroy_all(self.aliases.borrow().iter());
     }
 }
diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index 93029f9..949183a 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -1,6 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::deserialize_value;
+use crate::monitor_destroy;
 use crate::Message;
 use crate::ProcessItem;
 use crate::ProcessMonitor;
@@ -225,12 +226,20 @@ fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<
         ProcessItem::MonitorProcessUpdate(reference, pid) => {
             // Update the existing monitor reference so that if we go down before it fires,
             // We can gracefully clean up the remote monitor, this is only for named monitors.
-            PROCESS.with(|process| {
+            let monitored = PROCESS.with(|process| {
                 if let Some(monitor) = process.monitors.borrow_mut().get_mut(reference) {
                     *monitor = ProcessMonitor::ForProcess(Some(*pid));
+                    true
+                } else {
+                    false
                 }
             });
 
+            // The process has already called demonitor, without knowing what to withdraw.
+            if !monitored {
+                monitor_destroy(*pid, *reference);
+            }
+
             Ok(None)
         }
         ProcessItem::AliasDeactivated(id) => {
-- 
2.43.0


From 53f834458b8b24f72ce23fc7f364f90b4fb136f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:25 +0000
Subject: [PATCH 40/42] fix: a websocket close message is answered

---
 hydra-websockets/src/websocket_handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 548b987..0abb6a2 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -224,6 +224,9 @@ where
                         }
 
                         if should_close {
+                            // The answer to a close message is only sent by the next flush.
+                            let _ = stream.flush().await;
+
                             handler.terminate(ExitReason::from("connection_closed")).await;
 
                             return Process::exit(Process::current(), ExitReason::from("connection_closed"));
-- 
2.43.0


From 85ab300b654a65166c5b3c143dbc62b2d5668e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:11 +0000
Subject: [PATCH 41/42] fix: a timer of any duration can be started

---
 hydra/src/process_registry.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index dfc60cf..4a37aeb 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -26,6 +26,9 @@ static PROCESS_NAMES: Lazy<DashMap<String, u64>> = Lazy::new(DashMap::new);
 /// A collection of process timers.
 static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new(DashMap::new);
 
+/// The remaining time of a timer which is never going to fire.
+const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+
 /// Checks for the given `pid` and calls the given `callback` with the result if it exists or not.
 ///
 /// The process will exist for the duration of `callback`.
@@ -259,7 +262,11 @@ pub fn process_name_list() -> Vec<String> {
 
 /// Registers a timer.
 pub fn process_register_timer(timer: Reference, duration: Duration, handle: JoinHandle<()>) {
-    PROCESS_TIMERS.insert(timer.id(), (Instant::now() + duration, handle));
+    let now = Instant::now();
+    // A deadline too far away to be represented is replaced by one that's never reached.
+    let deadline = now.checked_add(duration).unwrap_or(now + FAR_FUTURE);
+
+    PROCESS_TIMERS.insert(timer.id(), (deadline, handle));
 }
 
 /// Reads a timer.
-- 
2.43.0


From 30758d91d94bcbc8ae4f412817a2e819ebbef767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:14 +0000
Subject: [PATCH 42/42] fix: a timeout of any duration can be awaited

---
 hydra/src/process.rs          | 4 ++++
 hydra/src/process_registry.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index e292aa8..3400817 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -48,6 +48,7 @@ use crate::AsyncCatchUnwind;
 use crate::Dest;
 use crate::Dests;
 use crate::ExitReason;
+use crate::FAR_FUTURE;
 use crate::Message;
 use crate::Pid;
 use crate::ProcessFlags;
@@ -278,6 +279,9 @@ impl Process {
     where
         F: Future,
     {
+        // The timer can't represent a deadline which is too far away, nor one in its very first moment.
+        let duration = duration.clamp(Duration::from_millis(1), FAR_FUTURE);
+
         pingora_timeout::timeout(duration, future)
             .await
             .map_err(|_| Timeout)
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 4a37aeb..07e847e 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -26,8 +26,8 @@ static PROCESS_NAMES: Lazy<DashMap<String, u64>> = Lazy::new(DashMap::new);
 /// A collection of process timers.
 static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new(DashMap::new);
 
-/// The remaining time of a timer which is never going to fire.
-const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+/// The duration used for a timer or a timeout that is never going to fire.
+pub const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
 
 /// Checks for the given `pid` and calls the given `callback` with the result if it exists or not.
 ///
-- 
2.43.0

