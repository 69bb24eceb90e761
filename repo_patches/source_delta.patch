From b329fd5a4db8f74c598b09862b42e07801fb91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 01/24] fix: do not run dependents of tasks that failed in an
 earlier execute() of the session

A task that failed in an earlier call was filtered from the subgraph as if it had
succeeded, so the tasks that depend on it were launched by the next call.
---
 src/execgraph.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..2c61cd0 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -497,7 +497,7 @@ fn get_subgraph<'a, 'b: 'a>(
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
         |_n, &w| {
-            if completed.contains(&w.key) {
+            if completed.contains(&w.key) && !logfile.has_failure(&w.key) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
                 // session
@@ -522,26 +522,28 @@ fn get_subgraph<'a, 'b: 'a>(
         |_e, &w| Some(w),
     );
 
-    // If we are skipping failures, we need to further filter the graph down
-    // to not include the failures or any downstream tasks, and add the failures
-    // that were important to `reused_old_keys`.
-    if !rerun_failures {
+    // Tasks that failed in a previous call to execute within this session are not retried, and
+    // their downstream tasks must not run either. If we are skipping failures from prior sessions,
+    // the same goes for them, and we need to add the failures that were important to `reused_old_keys`.
+    let failures = filtered_subgraph
+        .node_indices()
+        .filter(|&n| {
+            let w = filtered_subgraph[n];
+            logfile.has_failure(&w.key) && (!rerun_failures || completed.contains(&w.key))
+        })
+        .collect::<HashSet<NodeIndex>>();
+    if !failures.is_empty() {
         trace!("Recomputing transitive closure of filtered subgraph");
         let tc = transitive_closure_dag(&filtered_subgraph)?;
-        let failures = tc
-            .node_indices()
-            .filter(|&n| {
-                let w = tc[n];
-                logfile.has_failure(&w.key)
-            })
-            .collect::<HashSet<NodeIndex>>();
 
         trace!("Found N={} commands that previously failed", failures.len());
         filtered_subgraph = filtered_subgraph.filter_map(
             |n, &w| {
                 if failures.contains(&n) {
                     trace!("Skipping {} because it previously failed", w.key);
-                    reused_old_keys.insert(w.key.clone());
+                    if !completed.contains(&w.key) {
+                        reused_old_keys.insert(w.key.clone());
+                    }
                     return None;
                 }
                 for e in tc.edges_directed(n, Direction::Incoming) {
-- 
2.43.0


From 2a44cfefda3209e24a24c639168bc0f1d239e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 02/24] fix: flush back-references to the log when there is
 nothing to run

---
 src/execgraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 2c61cd0..123a180 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -267,6 +267,8 @@ impl ExecGraph {
         )?);
         if subgraph.raw_nodes().is_empty() {
             trace!("Short-circuiting execution because subgraph N=0.");
+            // the back-references of the reused tasks are still in the buffer
+            self.logfile.flush()?;
             return Ok((0, vec![]));
         }
         trace!(
-- 
2.43.0


From ecceedbe9a5c477a12d1a33efdd41db97045227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 03/24] fix: tolerate an incomplete last record in the log

A controller killed in the middle of a write leaves a partial last line. Opening such a
log failed, and appending to it would have glued the next record to the partial one.
The partial line is now cut off when the log is opened for writing; partial UTF-8
sequences no longer make reading fail.
---
 src/logfile2.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..a44c516 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -199,7 +199,13 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, end) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        // a writer that was killed may have left an incomplete last record behind:
+        // cut it off, so that our records don't end up glued to it.
+        if f.metadata()?.len() > end {
+            f.set_len(end)?;
+            f.seek(std::io::SeekFrom::Start(end))?;
+        }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -281,7 +287,7 @@ impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, _) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -294,26 +300,32 @@ impl LogFile<LogFileRO> {
 }
 
 impl<T> LogFile<T> {
+    // Returns the state of each key, the last header, and the offset of the end of
+    // the last complete (newline-terminated) record.
     fn load_runcounts(
         f: &mut std::fs::File,
-    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>)> {
+    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, u64)> {
         let mut runcounts = HashMap::new();
         let mut header = None;
         let mut workflow_key = None;
 
         let mut reader = std::io::BufReader::new(f);
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut iline = 0;
+        let mut end = 0;
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
-            if nbytes == 0 {
+            let nbytes = reader.read_until(b'\n', &mut line)?;
+            if nbytes == 0 || line.last() != Some(&b'\n') {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            let value: LogEntry = serde_json::from_str(&line).map_err(|e| {
-                tracing::error!("Unable to parse {}th line. Got {}", iline, line);
+            end += nbytes as u64;
+            let value: LogEntry = serde_json::from_slice(&line).map_err(|e| {
+                tracing::error!(
+                    "Unable to parse {}th line. Got {}",
+                    iline,
+                    String::from_utf8_lossy(&line)
+                );
                 e
             })?;
             iline += 1;
@@ -386,7 +398,7 @@ impl<T> LogFile<T> {
             }
         }
 
-        Ok((runcounts, header))
+        Ok((runcounts, header, end))
     }
 
     pub fn workflow_key(&self) -> Option<String> {
@@ -572,16 +584,14 @@ impl LogFileSnapshotReader {
         self.f.seek(std::io::SeekFrom::Start(0))?;
         let mut reader = std::io::BufReader::new(&self.f);
         let mut v = Vec::new();
-        let mut line = String::new();
+        let mut line = Vec::new();
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            match serde_json::from_str(&line) {
+            match serde_json::from_slice(&line) {
                 Ok(value) => v.push(value),
                 Err(e) if e.is_data() => {}
                 Err(e) => {
-- 
2.43.0


From 3c9ad4a395a6faa309cd896261e0288ed0e9164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 04/24] fix: soft shutdown returns when idle and waits for
 tasks not yet reported as started

A soft shutdown that arrived while nothing was running never ended, and one that arrived
while a runner had been given a task but had not reported its start dropped that task.
---
 src/sync.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..d62dee1 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -283,6 +283,13 @@ impl<'a> ReadyTrackerServer<'a> {
                     // and wanting to see the log for ones that are generating one event per hour.
                     self.logfile.flush()?;
                     logging::flush_logging()?;
+
+                    // a soft shutdown may arrive when nothing is running, in which case no
+                    // task will ever finish and get us out of the loop.
+                    if self.shutdown_state == ShutdownState::SoftShutdown && self.n_handed_out() == 0 {
+                        debug!("background_serve breaking on soft shutdown with nothing inflight");
+                        break;
+                    }
                 },
                 event = self.completed.recv() => {
                     if event.is_err() {
@@ -339,7 +346,7 @@ impl<'a> ReadyTrackerServer<'a> {
                                 self.shutdown_state = ShutdownState::SoftShutdown;
                             }
 
-                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty()) {
+                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.n_handed_out() == 0) {
                                 // Drop the send side of the `self.ready` channel. This will cause the receive side
                                 // to start returning errors when localrunner.rs and server.rs call recv(), which is exactl
                                 // what we want and will break the run_local_process_loop runners at the point where they're
@@ -389,6 +396,12 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Number of tasks that have been handed out to a runner and haven't finished. In contrast to
+    /// `self.inflight` this includes those which the runner hasn't reported as started yet.
+    fn n_handed_out(&self) -> u32 {
+        self.queuestate.iter().map(|item| item.num_inflight).sum()
+    }
+
     async fn _finished_bookkeeping(&mut self, e: &mut FinishedEvent) -> Result<()> {
         self._finished_bookkeeping_1(e)?;
         let out = self._finished_bookkeeping_2(e).await;
-- 
2.43.0


From 10c1546fdf9751c806f2b2b7576cf22422623d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 05/24] fix: do not underflow num_ready when a task is handed
 out during a shutdown

---
 src/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync.rs b/src/sync.rs
index d62dee1..bd92c5c 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -645,7 +645,8 @@ impl ReadyTrackerClient {
             let (task, _priority) = receiver.recv().await?;
             if !task.taken.fetch_or(true, SeqCst) {
                 let mut x = self.queuestate.get_mut(&task.affinity.data).expect("bar");
-                x.num_ready -= 1;
+                // num_ready may have been zeroed by a shutdown in the meantime
+                x.num_ready = x.num_ready.saturating_sub(1);
                 x.num_inflight += 1;
                 self.ratecounter_launch.update(std::time::Instant::now());
                 return Ok(task.id);
-- 
2.43.0


From b4256162955b852dc9d7389cca0adc223e77e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 06/24] fix: return the tasks that finish while the queue is
 drained

They were counted as failed and recorded in the log, but their keys were not returned by
execute, and a second execute on the same graph ran them again with the same run count.
---
 src/sync.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sync.rs b/src/sync.rs
index bd92c5c..8bcaf9c 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -197,6 +197,7 @@ impl<'a> ReadyTrackerServer<'a> {
                 }
                 Ok(Event::Finished(e)) => {
                     let cmd = self.g[e.id];
+                    self.finished_order.push(e.id);
                     self._finished_bookkeeping_1(&e)?;
                     if inflight.remove(&e.id).is_none() {
                         // With execgraph-remote workers, it's  possible to get a FinishedEvent
@@ -233,6 +234,7 @@ impl<'a> ReadyTrackerServer<'a> {
         for (k, _) in inflight.iter() {
             let cmd = self.g[*k];
             let e = FinishedEvent::new_disconnected(k.to_owned(), "".to_owned());
+            self.finished_order.push(e.id);
             self._finished_bookkeeping_1(&e)?;
             self.logfile.write(LogEntry::new_finished(
                 &cmd.key,
-- 
2.43.0


From f2e8935449f2f95a58e9de2af8492c8c6a241c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 07/24] fix: do not take the lock on a lock file that its
 holder is removing

---
 src/logfile2.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index a44c516..c862a84 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -185,11 +186,23 @@ impl LogFile<LogFileRW> {
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         // acquire the lock file and write something to it
         let lockf_path = path.as_ref().with_file_name(".wrk.lock");
-        let lockf = std::fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .open(&lockf_path)?;
-        lockf.try_lock(FileLockMode::Exclusive)?;
+        let lockf = loop {
+            let lockf = std::fs::OpenOptions::new()
+                .create(true)
+                .write(true)
+                .open(&lockf_path)?;
+            lockf.try_lock(FileLockMode::Exclusive)?;
+            // the previous holder removes the lock file when it releases the lock, so the
+            // file we opened and locked might not be the one at this path anymore, in which
+            // case the lock protects nothing.
+            let ours = lockf.metadata()?;
+            match std::fs::metadata(&lockf_path) {
+                Ok(m) if m.dev() == ours.dev() && m.ino() == ours.ino() => break lockf,
+                Ok(_) => {}
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                Err(e) => return Err(e.into()),
+            }
+        };
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
@@ -466,6 +479,8 @@ impl<T> LogFile<T> {
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
         if let Some((_f, lockf_path)) = self.lockf.as_ref() {
+            // once the lock file is gone, someone else may open the log
+            drop(self.f.flush());
             drop(std::fs::remove_file(lockf_path));
         }
     }
-- 
2.43.0


From edd972a0de8b30a1da302170b805737ef2c85b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 08/24] fix: write all of the output to both the console and
 log.txt

---
 src/logging.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/logging.rs b/src/logging.rs
index a1f7d22..8d3aa3e 100644
--- a/src/logging.rs
+++ b/src/logging.rs
@@ -73,11 +73,12 @@ impl ConsoleAndFile {
 impl<'a> std::io::Write for &'a ConsoleAndFile {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
         let mut guard = self.0.lock().unwrap();
-        guard.1.write(buf)?;
-        match guard.0.as_mut() {
-            Some(f) => f.write(buf),
-            None => Ok(0),
+        // either of the two might accept only a part of the buffer
+        guard.1.write_all(buf)?;
+        if let Some(f) = guard.0.as_mut() {
+            f.write_all(buf)?;
         }
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 49f9cc1148abb96ef3f1f4d56747e7cdd8113374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 09/24] fix: accept the output of remote tasks whatever its
 size

The web framework rejects request bodies of more than 2 MB by default, so that
the /end report of a task with a large output was refused and the task was later
given up for lost.
---
 src/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..79aabc1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,6 +10,7 @@ use crate::{
 };
 use anyhow::Result;
 use axum::{
+    extract::DefaultBodyLimit,
     headers::authorization::Bearer,
     middleware::Next,
     response::{IntoResponse, Response},
@@ -612,5 +613,7 @@ pub fn router(state: Arc<State<'static>>) -> Router {
             post(mark_slurm_job_cancelation),
         )
         .fallback(fallback)
+        // the output of a task, which we receive in /end, can be of any size
+        .layer(DefaultBodyLimit::disable())
         .layer(middleware.into_inner())
 }
-- 
2.43.0


From 89739668c301ad0582937b421ea692456ca504af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 10/24] fix: feed fd_input to the child in the background

The input was written to the pipe before the output of the child was read, so a
child that writes more than the pipe holds before it reads all of its input hung
forever, and a child that exits or closes the descriptor without reading all of
its input made the loop that runs the tasks panic.
---
 src/bin/execgraph-remote.rs |  7 ++-----
 src/localrunner.rs          | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..907fbdd 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, ChildOutput, ChildProcessError
+        spawn_input_writer, wait_with_output, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -18,7 +18,6 @@ use notify::Watcher;
 use reqwest::header::{HeaderMap, HeaderValue};
 use std::{convert::TryInto, io::Read, os::unix::prelude::AsRawFd, sync::atomic::AtomicBool, time::Duration};
 use thiserror::Error;
-use tokio::io::AsyncWriteExt;
 use tokio_command_fds::{CommandFdExt, FdMapping};
 use tokio_util::sync::CancellationToken;
 use tracing::warn;
@@ -393,9 +392,7 @@ async fn run_command(
     // dump input into fd4 immediately
     if let Some(p) = fd4_write_pipe {
         let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
+        spawn_input_writer(p, buf.clone());
     }
 
     let pid = child
diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..b737d8e 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -16,7 +16,7 @@ use tokio::{
     process::Command,
 };
 use tokio_command_fds::{CommandFdExt, FdMapping};
-use tokio_pipe::PipeRead;
+use tokio_pipe::{PipeRead, PipeWrite};
 use tracing::debug;
 
 use crate::{
@@ -116,9 +116,7 @@ pub async fn run_local_process_loop(
         // Dump input into fd4 immediately
         if let Some(p) = fd4_write_pipe {
             let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
+            spawn_input_writer(p, buf.clone());
         }
 
         // Get PID from fd3, or if it doesn't send one, just the child PID
@@ -158,6 +156,17 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Write the input of a child process to its pipe in the background. The child may produce
+/// output before it reads all of its input, so its output needs to be read meanwhile, and it
+/// may well exit without having read all of its input.
+pub fn spawn_input_writer(mut pipe: PipeWrite, buf: Vec<u8>) {
+    tokio::spawn(async move {
+        if let Err(e) = pipe.write_all(&buf).await {
+            debug!("Child process did not read all of its input: {}", e);
+        }
+    });
+}
+
 pub async fn wait_with_output(
     mut child: tokio::process::Child,
     fd: PipeRead,
-- 
2.43.0


From 37669af1aac4ab917ca5cb80579cdce946c26095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 11/24] fix: reports about a task from another job, or
 repeated, have no effect

An /end from a different slurm job than the one that received the task was refused,
but only after the transaction had been removed, so that the result of the rightful
runner was refused too and the task never finished. A second /begun for the same
transaction, or one from a different job, made the controller panic or recorded the
wrong job.
---
 src/server.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 79aabc1..e31392f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -53,6 +53,8 @@ struct ConnectionState {
     timer_id: TimerID,
     disconnect_error_message: String,
     slurm_jobid: String,
+    /// Has the runner told us with /begun that it started the command?
+    begun: bool,
 }
 
 pub struct State<'a> {
@@ -388,6 +390,7 @@ async fn start_request_impl(
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
+            begun: false,
         },
     );
 
@@ -409,11 +412,6 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
-        .connections
-        .get_mut(&request.transaction_id)
-        .ok_or(AppError::NoSuchTransaction)?;
-
     // extract required slurm jobid
     let runner_slurm_jobid = match headers.get("X-EXECGRAPH-SLURM-JOB-ID") {
         Some(headervalue) => match headervalue.to_str() {
@@ -425,6 +423,19 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    let mut cstate = state
+        .connections
+        .get_mut(&request.transaction_id)
+        .ok_or(AppError::NoSuchTransaction)?;
+    // As for /end, only the slurm jobid that received the job may report its start.
+    if cstate.slurm_jobid != runner_slurm_jobid {
+        return Err(AppError::NoSuchTransaction);
+    }
+    // Only the first report counts.
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Ok((StatusCode::OK, "").into_response());
+    }
+
     state
         .tracker
         .send_started(
@@ -461,18 +472,15 @@ async fn end_handler(
         None => return Err(AppError::BadRequest),
     };
 
-    let cstate = {
-        let (_transaction_id, cstate) = state
-            .connections
-            .remove(&request.transaction_id)
-            .ok_or(AppError::NoSuchTransaction)?;
-        cstate
-    };
     // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
+    // than the RPC which started the job, something fishy is going on, and
+    // the job stays with the runner that it was given to.
+    let (_transaction_id, cstate) = state
+        .connections
+        .remove_if(&request.transaction_id, |_transaction_id, cstate| {
+            cstate.slurm_jobid == runner_slurm_jobid
+        })
+        .ok_or(AppError::NoSuchTransaction)?;
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From 9193d34f137de514bad6f316ae65701c2240873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 12/24] fix: call the preamble of a task once

It was called when a runner took the task and once more when the start was reported.
---
 src/localrunner.rs | 4 ++--
 src/server.rs      | 3 ---
 src/sync.rs        | 2 --
 3 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index b737d8e..4b1c7bb 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -98,7 +98,7 @@ pub async fn run_local_process_loop(
             Ok(child) => child,
             Err(e) => {
                 tracker
-                    .send_started(subgraph_node_id, cmd, &hostname, 0, "".to_string())
+                    .send_started(subgraph_node_id, &hostname, 0, "".to_string())
                     .await;
                 tracker
                     .send_finished(
@@ -125,7 +125,7 @@ pub async fn run_local_process_loop(
             .expect("child hasn't been waited for yet, so its pid should exist");
 
         tracker
-            .send_started(subgraph_node_id, cmd, &hostname, pid, "".to_string())
+            .send_started(subgraph_node_id, &hostname, pid, "".to_string())
             .await;
 
         let output: ChildOutput = tokio::select! {
diff --git a/src/server.rs b/src/server.rs
index e31392f..c8c93bb 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -48,7 +48,6 @@ lazy_static::lazy_static! {
 #[derive(Debug)]
 struct ConnectionState {
     node_id: NodeIndex,
-    cmd: Cmd,
     start_time_approx: Instant,
     timer_id: TimerID,
     disconnect_error_message: String,
@@ -386,7 +385,6 @@ async fn start_request_impl(
         ConnectionState {
             start_time_approx: std::time::Instant::now(),
             timer_id,
-            cmd: cmd.clone(),
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
@@ -440,7 +438,6 @@ async fn begun_handler(
         .tracker
         .send_started(
             cstate.node_id,
-            &cstate.cmd,
             &request.host,
             request.pid,
             runner_slurm_jobid,
diff --git a/src/sync.rs b/src/sync.rs
index 8bcaf9c..b37945d 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -660,12 +660,10 @@ impl ReadyTrackerClient {
     pub async fn send_started(
         &self,
         v: NodeIndex,
-        cmd: &Cmd,
         host: &str,
         pid: u32,
         slurm_jobid: String,
     ) {
-        cmd.call_preamble();
         let r = self
             .s
             .send(Event::Started(StartedEvent {
-- 
2.43.0


From 39d5355bc1693ba16a6615db3ba8b86cb94d5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 13/24] fix: never give a task to a job that was marked as
 cancelled while it waited for one

Only the beginning of /start looked at the cancelled jobs: a runner already waiting
for a task, or asking for its next one with /end, was given one although the reply to
/mark-slurm-job-cancelation had said that it would not be. The task is now returned to
the ready queue and the runner is told to shut down.
---
 src/server.rs | 70 ++++++++++++++++++++++++++++++---------------------
 src/sync.rs   | 43 +++++++++++++++++++++++++++++++
 2 files changed, 85 insertions(+), 28 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index c8c93bb..82fc20d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -110,6 +110,10 @@ impl<'a> State<'a> {
         }
     }
 
+    fn is_cancelled(&self, slurm_jobid: &str) -> bool {
+        self.cancelled_slurm_jobids.read().unwrap().contains(slurm_jobid)
+    }
+
     pub async fn reap_pings_forever(&self, mut stop: oneshot::Receiver<()>) {
         // the ping timeout is 30 seconds, so we've got a time wheel with 256 slots which gives
         // about 117ms per tick, which seems totally fine. that means that rather than timing out after
@@ -328,17 +332,6 @@ async fn start_handler(
         None => return Err(AppError::BadRequest),
     };
 
-    // If this jobid has been scanceled, don't give out a job and just tell the runner
-    // to shut down. This happens with a read lock on cancelled_slurm_jobids so if someone
-    // is modying the set of cancelled_slurm_jobids, we have to wait till they finish to
-    // know if we should tell this runner to shut down.
-    {
-        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
-        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
-            return Err(AppError::Shutdown);
-        }
-    }
-
     Ok(Postcard(
         start_request_impl(state, request, runner_slurm_jobid).await?,
     ))
@@ -349,6 +342,12 @@ async fn start_request_impl(
     request: StartRequest,
     runner_slurm_jobid: String,
 ) -> Result<StartResponse, AppError> {
+    // If this jobid has been scanceled, don't give out a job and just tell the runner
+    // to shut down.
+    if state.is_cancelled(&runner_slurm_jobid) {
+        return Err(AppError::Shutdown);
+    }
+
     // Grab the next task off the ready queue, which might pause if we're rate limited.
     // Hold the connection for up to ``HOLD_RATELIMITED_TIME`` (30 seconds), and then if
     // we're still rate limited, respond to the execgraph-remote with a "RateLimited"
@@ -372,25 +371,40 @@ async fn start_request_impl(
         }
     }.await?;
     let cmd = state.subgraph[node_id];
-    cmd.call_preamble();
     let transaction_id = rand::random::<u32>();
 
-    let timer_id = state.timeouts.insert(
-        std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
-        transaction_id,
-    );
-
-    state.connections.insert(
-        transaction_id,
-        ConnectionState {
-            start_time_approx: std::time::Instant::now(),
-            timer_id,
-            node_id,
-            disconnect_error_message: request.disconnect_error_message,
-            slurm_jobid: runner_slurm_jobid,
-            begun: false,
-        },
-    );
+    // The jobid may have been scanceled while it was waiting for the task. This happens with a
+    // read lock on cancelled_slurm_jobids, so if someone is modifying the set we have to wait till
+    // they finish to know if we should tell this runner to shut down, and they'll see this
+    // connection if we don't.
+    let is_cancelled = {
+        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
+        let is_cancelled = cancelled_slurm_jobids.contains(&runner_slurm_jobid);
+        if !is_cancelled {
+            let timer_id = state.timeouts.insert(
+                std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
+                transaction_id,
+            );
+
+            state.connections.insert(
+                transaction_id,
+                ConnectionState {
+                    start_time_approx: std::time::Instant::now(),
+                    timer_id,
+                    node_id,
+                    disconnect_error_message: request.disconnect_error_message,
+                    slurm_jobid: runner_slurm_jobid,
+                    begun: false,
+                },
+            );
+        }
+        is_cancelled
+    };
+    if is_cancelled {
+        state.tracker.send_returned(node_id).await;
+        return Err(AppError::Shutdown);
+    }
+    cmd.call_preamble();
 
     Ok(StartResponse {
         transaction_id,
diff --git a/src/sync.rs b/src/sync.rs
index b37945d..8cb8075 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -223,6 +223,7 @@ impl<'a> ReadyTrackerServer<'a> {
                         e.values,
                     ))?;
                 }
+                Ok(Event::Returned(_)) => {}
                 Err(_) => {
                     break;
                 }
@@ -309,6 +310,9 @@ impl<'a> ReadyTrackerServer<'a> {
                             ))?;
                             assert!(self.inflight.insert(e.id, Instant::now()).is_none());
                         }
+                        Event::Returned(id) => {
+                            self.return_to_ready_queue(id).await;
+                        }
                         Event::Finished(mut e) => {
                             #[cfg(feature = "coz")]
                             {
@@ -584,6 +588,35 @@ impl<'a> ReadyTrackerServer<'a> {
 
         Ok(())
     }
+
+    /// Make a task that was taken from the ready queue, but not handed out, available again.
+    async fn return_to_ready_queue(&mut self, id: NodeIndex) {
+        let cmd = self.g[id];
+        {
+            let mut v = self
+                .queuestate
+                .get_mut(&cmd.affinity.data)
+                .expect("No such queue");
+            v.num_inflight = v.num_inflight.checked_sub(1).expect("Underflow");
+            if self.ready.is_some() {
+                v.num_ready += 1;
+            }
+        }
+        if let Some(channels) = &self.ready {
+            let taken = Arc::new(AtomicBool::new(false));
+            for i in cmd.affinity.iter_ones() {
+                let item = TaskItem {
+                    id,
+                    taken: taken.clone(),
+                    affinity: cmd.affinity,
+                };
+                if let Err(e) = channels[i].send(item, cmd.priority).await {
+                    error!("Perhaps TOCTOU? {}", e);
+                }
+            }
+            self.ready_or_inflight_increased_event.incr();
+        }
+    }
 }
 
 impl ReadyTrackerClient {
@@ -686,6 +719,14 @@ impl ReadyTrackerClient {
         };
     }
 
+    /// Put back a task received from recv() which could not be handed out to a runner after all.
+    pub async fn send_returned(&self, v: NodeIndex) {
+        let r = self.s.send(Event::Returned(v)).await;
+        if r.is_err() {
+            debug!("send_returned: cannot send to channel: {:#?}", r);
+        };
+    }
+
     /// Retreive a snapshot of the state of the queue
     /// etag: only return once the ready_or_inflight_increased_event
     ///       has fired at least this number of times. the idea with this is that
@@ -788,6 +829,8 @@ impl FinishedEvent {
 enum Event {
     Started(StartedEvent),
     Finished(FinishedEvent),
+    /// The task was taken from the ready queue but could not be handed out.
+    Returned(NodeIndex),
 }
 
 #[derive(Debug)]
-- 
2.43.0


From a3aaded15cee13dc6744425b22575e2bde375c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 14/24] fix: signal the task of a runner once before the
 deadline

sleep_until() is always ready once the deadline has passed, so that the loop sent
SIGTERM to the task over and over again, keeping a processor busy, until it ended.
---
 src/bin/execgraph-remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index 907fbdd..d04332a 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -456,7 +456,7 @@ async fn run_command(
                     }
                 return Err(RemoteError::Sigterm)
             },
-            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline) => {
+            _ = tokio::time::sleep_until(time_to_sigterm_child.deadline), if stderr_prefix.is_none() => {
                 // send sigterm to child, but then go back into this loop and continue, waiting for the child to
                 // hopefully actually exit itself.
                 unsafe { libc::kill(pid.try_into().unwrap(), libc::SIGTERM); }
-- 
2.43.0


From f2a0a336c5f42a547e29181d13441e11fd831455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 15/24] fix: do not wait for the connections of silent peers
 when shutting down

---
 src/admin_server.rs             |  5 ++++-
 src/constants.rs                |  1 +
 src/execgraph.rs                |  6 ++++--
 src/fancy_cancellation_token.rs | 28 +++++++++++++++++++++++++++-
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/admin_server.rs b/src/admin_server.rs
index f2809fe..6e5fec8 100644
--- a/src/admin_server.rs
+++ b/src/admin_server.rs
@@ -1,6 +1,7 @@
 use crate::constants::ADMIN_SOCKET_PREFIX;
 use crate::fancy_cancellation_token::CancellationState;
 use crate::fancy_cancellation_token::CancellationToken;
+use crate::fancy_cancellation_token::ConnectionExecutor;
 use crate::httpinterface::ShutdownRequest;
 use crate::httpinterface::StatusReply;
 use crate::httpinterface::UpdateRatelimitRequest;
@@ -106,7 +107,9 @@ pub async fn run_admin_service_forever(state: Arc<State<'static>>, token: Cancel
     let uds = tokio::net::UnixListener::bind(path.clone()).unwrap();
     let stream = UnixListenerStream::new(uds);
     let acceptor = hyper::server::accept::from_stream(stream);
-    let server = Server::builder(acceptor).serve(service);
+    let server = Server::builder(acceptor)
+        .executor(ConnectionExecutor(token.clone()))
+        .serve(service);
     tokio::spawn(clean_up_socket_dir(path.parent().unwrap().to_path_buf()));
     let graceful = server.with_graceful_shutdown(token.hard_cancelled());
     if let Err(err) = graceful.await {
diff --git a/src/constants.rs b/src/constants.rs
index c39f600..07ac3b1 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -5,3 +5,4 @@ pub const PING_INTERVAL_MSECS: u64 = 15_000;
 pub const PING_TIMEOUT_MSECS: u64 = 2 * PING_INTERVAL_MSECS + 5000;
 pub const HOLD_RATETIMITED_TIME: std::time::Duration = std::time::Duration::from_secs(30);
 pub const DEFAULT_RATE_COUNTER_TIMESCALE: f64 = 30.; // seconds
+pub const GRACEFUL_SHUTDOWN_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(5);
diff --git a/src/execgraph.rs b/src/execgraph.rs
index 123a180..0f316de 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -1,6 +1,6 @@
 use crate::{
     admin_server::run_admin_service_forever,
-    fancy_cancellation_token::{CancellationState, CancellationToken},
+    fancy_cancellation_token::{CancellationState, CancellationToken, ConnectionExecutor},
     graphtheory::transitive_closure_dag,
     localrunner::{run_local_process_loop, LocalQueueType},
     logfile2::{LogEntry, LogFile, LogFileRW},
@@ -340,7 +340,9 @@ impl ExecGraph {
             handles.push(tokio::spawn(async move {
                 let service = router(state.clone()).into_make_service();
                 let addr = SocketAddr::from(([0, 0, 0, 0], 0));
-                let server = Server::bind(&addr).serve(service);
+                let server = Server::bind(&addr)
+                    .executor(ConnectionExecutor(token1.clone()))
+                    .serve(service);
                 let bound_addr = server.local_addr();
                 http_service_up_sender
                     .send(format!("http://{}", bound_addr))
diff --git a/src/fancy_cancellation_token.rs b/src/fancy_cancellation_token.rs
index f3fcfcf..41cb9e8 100644
--- a/src/fancy_cancellation_token.rs
+++ b/src/fancy_cancellation_token.rs
@@ -1,4 +1,5 @@
-use std::{sync::Arc, time::Instant};
+use crate::constants::GRACEFUL_SHUTDOWN_TIMEOUT;
+use std::{future::Future, sync::Arc, time::Instant};
 
 #[derive(Clone)]
 pub struct CancellationToken {
@@ -109,3 +110,28 @@ impl core::fmt::Debug for CancellationToken {
         f.debug_struct("CancellationToken").finish()
     }
 }
+
+/// Executor for the connections of an HTTP server. Once the token is hard cancelled,
+/// the connections get a limited time to complete: a peer that went away without closing
+/// its connection, or that keeps a request open, must not hold up the shutdown.
+#[derive(Clone)]
+pub struct ConnectionExecutor(pub CancellationToken);
+
+impl<F> hyper::rt::Executor<F> for ConnectionExecutor
+where
+    F: Future + Send + 'static,
+    F::Output: Send + 'static,
+{
+    fn execute(&self, connection: F) {
+        let token = self.0.clone();
+        tokio::spawn(async move {
+            tokio::select! {
+                _ = connection => {},
+                _ = async {
+                    token.hard_cancelled().await;
+                    tokio::time::sleep(GRACEFUL_SHUTDOWN_TIMEOUT).await;
+                } => {},
+            }
+        });
+    }
+}
-- 
2.43.0


From de8610a6c11625ce3d3f57783dd036c6414b8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 16/24] fix: answer a /status long poll as soon as its etag is
 reached

---
 src/async_flag.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/async_flag.rs b/src/async_flag.rs
index eb15d4a..156cb3e 100644
--- a/src/async_flag.rs
+++ b/src/async_flag.rs
@@ -90,13 +90,13 @@ impl AsyncCounter {
         self.inner.value.load(Ordering::SeqCst)
     }
 
-    /// Wait for the counter to go above the value `from`. Returns
+    /// Wait for the counter to reach the value `target`. Returns
     /// the new value
-    pub async fn wait(&self, from: u64) -> u64 {
+    pub async fn wait(&self, target: u64) -> u64 {
         loop {
             // Check the flag.
             let value = self.inner.value.load(Ordering::SeqCst);
-            if value > from {
+            if value >= target {
                 return value;
             }
 
@@ -105,7 +105,7 @@ impl AsyncCounter {
 
             // Check the flag again after creating the listener.
             let value = self.inner.value.load(Ordering::SeqCst);
-            if value > from {
+            if value >= target {
                 return value;
             }
 
-- 
2.43.0


From ea533c76c85d9b5427aad338ecf4c9dfbd510b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 17/24] fix: call the preamble before the task can be given up

---
 src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 82fc20d..bf7ecc4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -381,6 +381,8 @@ async fn start_request_impl(
         let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
         let is_cancelled = cancelled_slurm_jobids.contains(&runner_slurm_jobid);
         if !is_cancelled {
+            cmd.call_preamble();
+
             let timer_id = state.timeouts.insert(
                 std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
                 transaction_id,
@@ -404,7 +406,6 @@ async fn start_request_impl(
         state.tracker.send_returned(node_id).await;
         return Err(AppError::Shutdown);
     }
-    cmd.call_preamble();
 
     Ok(StartResponse {
         transaction_id,
-- 
2.43.0


From 491245b431865cb923c13a31a95672787963018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 18/24] fix: keep the log well-formed when a record is only
 written in part

A write error (a full disk, say) in the middle of a record left the first
part of the record in the file, and the records written later by the same
object were glued to it: the log could not be opened any more. Keep what
could not be written pending, and carry on from there with the next flush.
---
 src/logfile2.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index c862a84..56ee7dd 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -1,5 +1,4 @@
 use advisory_lock::{AdvisoryFileLock, FileLockMode};
-use bufreaderwriter::seq::BufReaderWriterSeq as BufReaderWriter;
 use serde::{Deserialize, Serialize};
 use std::{
     collections::{HashMap, HashSet},
@@ -15,6 +14,7 @@ use thiserror::Error;
 pub type Result<T> = core::result::Result<T, LogfileError>;
 pub type ValueMaps = Vec<HashMap<String, String>>;
 pub const LOGFILE_VERSION: u32 = 4;
+const PENDING_SIZE: usize = 8192;
 
 #[derive(Serialize, Deserialize, Debug)]
 pub enum LogEntry {
@@ -153,7 +153,9 @@ impl LogEntry {
 pub struct LogFileRO;
 pub struct LogFileRW;
 pub struct LogFile<T> {
-    f: BufReaderWriter<std::fs::File>,
+    f: std::fs::File,
+    // whole records (and, after a failed write, the rest of one) that are not in the file yet
+    pending: Vec<u8>,
     path: std::path::PathBuf,
     lockf: Option<(std::io::BufWriter<std::fs::File>, std::path::PathBuf)>,
     header: Option<HeaderEntry>,
@@ -220,7 +222,8 @@ impl LogFile<LogFileRW> {
             f.seek(std::io::SeekFrom::Start(end))?;
         }
         Ok(LogFile {
-            f: BufReaderWriter::new_reader(f),
+            f,
+            pending: Vec::new(),
             path: path.as_ref().to_path_buf().canonicalize()?,
             header,
             runcounts,
@@ -290,8 +293,15 @@ impl LogFile<LogFileRW> {
             LogEntry::Backref(_) => {}
         }
 
-        serde_json::to_writer(&mut self.f, &e)?;
-        self.f.write_all(&[b'\n'])?;
+        let len = self.pending.len();
+        if let Err(e) = serde_json::to_writer(&mut self.pending, &e) {
+            self.pending.truncate(len);
+            return Err(e.into());
+        }
+        self.pending.push(b'\n');
+        if self.pending.len() >= PENDING_SIZE {
+            self.flush()?;
+        }
         Ok(())
     }
 }
@@ -302,7 +312,8 @@ impl LogFile<LogFileRO> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
         let (runcounts, header, _) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
-            f: BufReaderWriter::new_reader(f),
+            f,
+            pending: Vec::new(),
             path: path.as_ref().to_path_buf().canonicalize()?,
             header,
             runcounts,
@@ -447,8 +458,18 @@ impl<T> LogFile<T> {
         self.header.as_ref().map(|h| h.version)
     }
 
+    // What could not be written stays pending, and the next flush carries on from there:
+    // otherwise a record that was cut off by an error would end up glued to the next one.
     pub fn flush(&mut self) -> std::result::Result<(), std::io::Error> {
-        self.f.flush()
+        while !self.pending.is_empty() {
+            match self.f.write(&self.pending) {
+                Ok(0) => return Err(std::io::ErrorKind::WriteZero.into()),
+                Ok(n) => drop(self.pending.drain(..n)),
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(())
     }
 
     pub fn runcount(&self, key: &str) -> Option<RuncountStatus> {
@@ -478,9 +499,11 @@ impl<T> LogFile<T> {
 
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
-        if let Some((_f, lockf_path)) = self.lockf.as_ref() {
+        if self.lockf.is_some() {
             // once the lock file is gone, someone else may open the log
-            drop(self.f.flush());
+            drop(self.flush());
+        }
+        if let Some((_f, lockf_path)) = self.lockf.as_ref() {
             drop(std::fs::remove_file(lockf_path));
         }
     }
-- 
2.43.0


From abf0cba9e4c7ec3d6033293e3b95c5b428d0f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 19/24] fix: wait for the worker tasks when execute() fails

They use data on the stack frame of execute(), and kept running after an
error (of writing the log, say) had unwound it. Report such an error as an
exception of its own rather than as a panic.
---
 src/execgraph.rs | 12 +++++++-----
 src/sync.rs      |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 0f316de..8754455 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -389,16 +389,18 @@ impl ExecGraph {
         // run the background service that will send commands to the ready channel
         // to be picked up by the tasks spawned above. background_serve should wait for
         // sigint
-        servicer
-            .background_serve(token.clone())
-            .await
-            .expect("background_serve failed");
+        let served = servicer.background_serve(token.clone()).await;
+        // also if that failed: the tasks we spawned use the tracker, so they have to end before we return
+        servicer.stop_serving();
         token.cancel(CancellationState::HardCancelled);
 
         debug!("Joining {} handles", handles.len());
         join_all(handles).await;
+        served.map_err(|e| anyhow!("background_serve failed: {:#}", e))?;
         debug!("Draining servicer");
-        servicer.drain().expect("failed to drain queue");
+        servicer
+            .drain()
+            .map_err(|e| anyhow!("failed to drain queue: {:#}", e))?;
 
         let n_failed = servicer.n_failed;
 
diff --git a/src/sync.rs b/src/sync.rs
index 8cb8075..4cc76a1 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -402,6 +402,11 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    /// Hand out no more tasks.
+    pub fn stop_serving(&mut self) {
+        self.ready = None;
+    }
+
     /// Number of tasks that have been handed out to a runner and haven't finished. In contrast to
     /// `self.inflight` this includes those which the runner hasn't reported as started yet.
     fn n_handed_out(&self) -> u32 {
-- 
2.43.0


From 1251527f5b78db84db196edbe0ab7e0e7beb31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 20/24] fix: a task whose pipes cannot be created fails

Running out of descriptors (or an fd_input that asks for descriptor 3)
made the local runner panic, and the execution waited for the task forever.
---
 src/localrunner.rs | 50 +++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index 4b1c7bb..bcdea48 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -48,9 +48,21 @@ pub async fn run_local_process_loop(
         cmd.call_preamble();
 
         // we're making a pipe to pass to the child process as fd3.
-        let (fd3_read_pipe, fd3_write_pipe) = tokio_pipe::pipe().expect("Cannot create pipe");
+        let (fd3_read_pipe, fd3_write_pipe) = match tokio_pipe::pipe() {
+            Ok(pipe) => pipe,
+            Err(e) => {
+                send_unable_to_start(tracker, subgraph_node_id, &hostname, cmd, e).await;
+                continue;
+            }
+        };
         let (fd4_read_pipe, fd4_write_pipe) = if cmd.fd_input.is_some() {
-            let (read, write) = tokio_pipe::pipe().expect("Cannot create pipe");
+            let (read, write) = match tokio_pipe::pipe() {
+                Ok(pipe) => pipe,
+                Err(e) => {
+                    send_unable_to_start(tracker, subgraph_node_id, &hostname, cmd, e).await;
+                    continue;
+                }
+            };
             (Some(read), Some(write))
         } else {
             (None, None)
@@ -85,8 +97,8 @@ pub async fn run_local_process_loop(
                 .stderr(Stdio::inherit()),
         }
         .fd_mappings(fd_mapping)
-        .unwrap()
-        .spawn();
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))
+        .and_then(|command| command.spawn());
 
         // Deadlock potential: After spawning the command and passing it the
         // write end of the pipe we need to close it ourselves
@@ -97,18 +109,7 @@ pub async fn run_local_process_loop(
         let child = match maybe_child {
             Ok(child) => child,
             Err(e) => {
-                tracker
-                    .send_started(subgraph_node_id, &hostname, 0, "".to_string())
-                    .await;
-                tracker
-                    .send_finished(
-                        FinishedEvent::new_error(
-                            subgraph_node_id,
-                            -1,
-                            format!("Unable to start {:#?}: {:#?}", &cmd.cmdline[0], e),
-                        ),
-                    )
-                    .await;
+                send_unable_to_start(tracker, subgraph_node_id, &hostname, cmd, e).await;
                 continue;
             }
         };
@@ -156,6 +157,23 @@ pub async fn run_local_process_loop(
     );
 }
 
+async fn send_unable_to_start(
+    tracker: &ReadyTrackerClient,
+    id: NodeIndex,
+    hostname: &str,
+    cmd: &Cmd,
+    e: std::io::Error,
+) {
+    tracker.send_started(id, hostname, 0, "".to_string()).await;
+    tracker
+        .send_finished(FinishedEvent::new_error(
+            id,
+            -1,
+            format!("Unable to start {:#?}: {:#?}", &cmd.cmdline[0], e),
+        ))
+        .await;
+}
+
 /// Write the input of a child process to its pipe in the background. The child may produce
 /// output before it reads all of its input, so its output needs to be read meanwhile, and it
 /// may well exit without having read all of its input.
-- 
2.43.0


From c1190e87b9c68b5262c32576960db6920a87f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 21/24] fix: the pipes a command inherits block

tokio_pipe makes both ends of a pipe non-blocking. The command inherits one end of
each, so reading input that has not arrived yet, or writing values faster than they
are read, failed in the command with EAGAIN.
---
 src/bin/execgraph-remote.rs |  6 +++++-
 src/localrunner.rs          | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index d04332a..3efba3e 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        spawn_input_writer, wait_with_output, ChildOutput, ChildProcessError
+        set_blocking, spawn_input_writer, wait_with_output, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -312,6 +312,10 @@ async fn run_command(
     } else {
         (None, None)
     };
+    set_blocking(&write_fd3).expect("Cannot set up pipe");
+    if let Some(pipe) = &fd4_read_pipe {
+        set_blocking(pipe).expect("Cannot set up pipe");
+    }
     let mut fd_mapping = vec![
         // Map the pipe as FD 3 in the child process.
         FdMapping {
diff --git a/src/localrunner.rs b/src/localrunner.rs
index bcdea48..039d359 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -3,6 +3,7 @@ use crate::{
     sync::ExitStatus,
 };
 use anyhow::Result;
+use nix::fcntl::{fcntl, FcntlArg, OFlag};
 use petgraph::prelude::*;
 use std::{
     collections::HashMap,
@@ -67,6 +68,12 @@ pub async fn run_local_process_loop(
         } else {
             (None, None)
         };
+        if let Err(e) = set_blocking(&fd3_write_pipe)
+            .and_then(|()| fd4_read_pipe.as_ref().map_or(Ok(()), set_blocking))
+        {
+            send_unable_to_start(tracker, subgraph_node_id, &hostname, cmd, e).await;
+            continue;
+        }
         let mut fd_mapping = vec![
             // Map the pipe as FD 3 in the child process.
             FdMapping {
@@ -174,6 +181,18 @@ async fn send_unable_to_start(
         .await;
 }
 
+/// Both ends of a tokio pipe are non-blocking. The end which a child process inherits must not
+/// be: most programs take EAGAIN for an error when their input is not there yet, or when their
+/// values are not read as quickly as they write them.
+pub fn set_blocking(pipe: &impl AsRawFd) -> std::io::Result<()> {
+    let flags = OFlag::from_bits_truncate(fcntl(pipe.as_raw_fd(), FcntlArg::F_GETFL)?);
+    fcntl(
+        pipe.as_raw_fd(),
+        FcntlArg::F_SETFL(flags & !OFlag::O_NONBLOCK),
+    )?;
+    Ok(())
+}
+
 /// Write the input of a child process to its pipe in the background. The child may produce
 /// output before it reads all of its input, so its output needs to be read meanwhile, and it
 /// may well exit without having read all of its input.
-- 
2.43.0


From faba37da66da0a76088b5cc4bf353d5635093d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 22/24] fix: a task that ends while the failure limit cuts it
 off does not stop the reaper

A connection found to be cut off can be removed by its own /end before the reaper
removes it. The reaper panicked, so that no other task was ever cut off or timed out
and execute() did not return.
---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index bf7ecc4..ec6026a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -142,7 +142,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // the task may have ended in the meantime
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From 7b26790c139da60fd2aa55afaee5e8275ef17267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 23/24] fix: arguments that are not UTF-8 do not stop the
 workflow

display() panicked on them when the task ended, although command lines are OsStrings
and the log and the messages only need a readable form.
---
 src/execgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 8754455..720c6bc 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -126,7 +126,7 @@ impl Cmd {
                     }
                     buffer.push(item);
                 }
-                let s = buffer.into_string().expect("cmdline must be utf-8");
+                let s = buffer.to_string_lossy();
                 let mut dst = String::new();
                 ESCAPED_NEWLINE_OR_TAB.replace_all_with(&s, &mut dst, |_m, t, d| {
                     if t == "\\\n" {
-- 
2.43.0


From 55b4c3f0562af6c6c4d2622ff8ddb082f5badc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 24/24] fix: a failing preamble fails its task, a failing
 postamble fails execute()

Both panicked. The panic of a preamble ended the worker that had taken the task, or
the request of the runner, the task was lost and execute() did not return. The panic
of a postamble left the worker tasks running.
---
 src/execgraph.rs   | 44 +++++++++++++++-------------------------
 src/localrunner.rs | 14 ++++++++++++-
 src/server.rs      | 50 +++++++++++++++++++++++++++++++++-------------
 src/sync.rs        |  2 +-
 4 files changed, 66 insertions(+), 44 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 720c6bc..7aa36de 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -143,38 +143,26 @@ impl Cmd {
         }
     }
 
-    pub fn call_preamble(&self) {
+    pub fn call_preamble(&self) -> Result<()> {
         match &self.preamble {
-            Some(preamble) => {
-                match preamble.call(false, 0, 0) {
-                    Ok(i) if i != 0 => {
-                        panic!("Preamble failed with error code {}", i);
-                    }
-                    Ok(_) => {}
-                    Err(e) => {
-                        panic!("Invalid preamble in cmd `{}`: {}", self.display(), e);
-                    }
-                };
-            }
-            None => {}
-        };
+            Some(preamble) => match preamble.call(false, 0, 0) {
+                Ok(0) => Ok(()),
+                Ok(i) => Err(anyhow!("Preamble failed with error code {}", i)),
+                Err(e) => Err(anyhow!("Invalid preamble in cmd `{}`: {}", self.display(), e)),
+            },
+            None => Ok(()),
+        }
     }
 
-    pub fn call_postamble(&self, success: bool, runcount: u32, ntasks: u64) {
+    pub fn call_postamble(&self, success: bool, runcount: u32, ntasks: u64) -> Result<()> {
         match &self.postamble {
-            Some(postamble) => {
-                match postamble.call(success, runcount, ntasks) {
-                    Ok(i) if i != 0 => {
-                        panic!("Postamble failed with error code {}", i);
-                    }
-                    Ok(_) => {}
-                    Err(e) => {
-                        panic!("Invalid postamble in cmd `{}`: {}", self.display(), e);
-                    }
-                };
-            }
-            None => {}
-        };
+            Some(postamble) => match postamble.call(success, runcount, ntasks) {
+                Ok(0) => Ok(()),
+                Ok(i) => Err(anyhow!("Postamble failed with error code {}", i)),
+                Err(e) => Err(anyhow!("Invalid postamble in cmd `{}`: {}", self.display(), e)),
+            },
+            None => Ok(()),
+        }
     }
 }
 
diff --git a/src/localrunner.rs b/src/localrunner.rs
index 039d359..3237e56 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -46,7 +46,19 @@ pub async fn run_local_process_loop(
 
     while let Ok(subgraph_node_id) = tracker.recv(runnertypeid).await {
         let cmd = subgraph[subgraph_node_id];
-        cmd.call_preamble();
+        if let Err(e) = cmd.call_preamble() {
+            tracker
+                .send_started(subgraph_node_id, &hostname, 0, "".to_string())
+                .await;
+            tracker
+                .send_finished(FinishedEvent::new_error(
+                    subgraph_node_id,
+                    -1,
+                    format!("{}\n", e),
+                ))
+                .await;
+            continue;
+        }
 
         // we're making a pipe to pass to the child process as fd3.
         let (fd3_read_pipe, fd3_write_pipe) = match tokio_pipe::pipe() {
diff --git a/src/server.rs b/src/server.rs
index ec6026a..048c20b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -345,9 +345,22 @@ async fn start_request_impl(
     request: StartRequest,
     runner_slurm_jobid: String,
 ) -> Result<StartResponse, AppError> {
+    loop {
+        if let Some(response) = try_start_request(&state, &request, &runner_slurm_jobid).await? {
+            return Ok(response);
+        }
+    }
+}
+
+// Hand out the next task. Returns None if the task failed before it could be handed out.
+async fn try_start_request(
+    state: &State<'static>,
+    request: &StartRequest,
+    runner_slurm_jobid: &str,
+) -> Result<Option<StartResponse>, AppError> {
     // If this jobid has been scanceled, don't give out a job and just tell the runner
     // to shut down.
-    if state.is_cancelled(&runner_slurm_jobid) {
+    if state.is_cancelled(runner_slurm_jobid) {
         return Err(AppError::Shutdown);
     }
 
@@ -380,12 +393,11 @@ async fn start_request_impl(
     // read lock on cancelled_slurm_jobids, so if someone is modifying the set we have to wait till
     // they finish to know if we should tell this runner to shut down, and they'll see this
     // connection if we don't.
-    let is_cancelled = {
+    let preamble = {
         let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
-        let is_cancelled = cancelled_slurm_jobids.contains(&runner_slurm_jobid);
-        if !is_cancelled {
-            cmd.call_preamble();
-
+        let is_cancelled = cancelled_slurm_jobids.contains(runner_slurm_jobid);
+        let preamble = (!is_cancelled).then(|| cmd.call_preamble());
+        if let Some(Ok(())) = preamble {
             let timer_id = state.timeouts.insert(
                 std::time::Duration::from_millis(PING_TIMEOUT_MSECS),
                 transaction_id,
@@ -397,25 +409,35 @@ async fn start_request_impl(
                     start_time_approx: std::time::Instant::now(),
                     timer_id,
                     node_id,
-                    disconnect_error_message: request.disconnect_error_message,
-                    slurm_jobid: runner_slurm_jobid,
+                    disconnect_error_message: request.disconnect_error_message.clone(),
+                    slurm_jobid: runner_slurm_jobid.to_owned(),
                     begun: false,
                 },
             );
         }
-        is_cancelled
+        preamble
     };
-    if is_cancelled {
-        state.tracker.send_returned(node_id).await;
-        return Err(AppError::Shutdown);
+    match preamble {
+        Some(Ok(())) => {}
+        Some(Err(e)) => {
+            state
+                .tracker
+                .send_finished(FinishedEvent::new_error(node_id, -1, format!("{}\n", e)))
+                .await;
+            return Ok(None);
+        }
+        None => {
+            state.tracker.send_returned(node_id).await;
+            return Err(AppError::Shutdown);
+        }
     }
 
-    Ok(StartResponse {
+    Ok(Some(StartResponse {
         transaction_id,
         cmdline: cmd.cmdline.clone(),
         fd_input: cmd.fd_input.clone(),
         ping_interval_msecs: PING_INTERVAL_MSECS,
-    })
+    }))
 }
 
 // POST /begun
diff --git a/src/sync.rs b/src/sync.rs
index 4cc76a1..11278c9 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -431,7 +431,7 @@ impl<'a> ReadyTrackerServer<'a> {
             is_success,
             cmd.runcount,
             self.g.node_count() as u64,
-        );
+        )?;
 
         // elapsed is none if the task never started, which happens if we're being
         // called during the drain() shutdown phase on tasks that never began.
-- 
2.43.0

