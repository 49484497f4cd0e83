From 66b8f032ad587af81ea0451a45dc50ae2462f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 01/52] fix: parse /proc/pid/stat of a command whose name
 contains a parenthesis

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c9f66d2..36a30c8 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -186,7 +186,8 @@ impl ProcStat {
         let pid = pid.parse::<pid_t>().unwrap();
 
         let (_, text) = text.split_once('(').unwrap();
-        let (comm, text) = text.split_once(')').unwrap();
+        // The command name may itself contain parentheses.
+        let (comm, text) = text.rsplit_once(')').unwrap();
         let comm = comm.to_owned();
         let text = text.trim();
 
-- 
2.43.0


From d0750fdaa5c43bb2425fd5dfd28b71f85be8a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 02/52] fix: signal lists in proc_stat were off by one

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 36a30c8..9f40eed 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -172,7 +172,8 @@ pub struct ProcStat {
 fn expand_sig_bitmap(bits: i32) -> Vec<String> {
     let mut abbrevs = Vec::new();
     for s in 1..sig::NSIG {
-        if bits & (1 << s) != 0 {
+        // Bit 0 stands for signal 1.
+        if bits & (1 << (s - 1)) != 0 {
             abbrevs.push(sig::get_abbrev(s).unwrap_or("???"));
         }
     }
-- 
2.43.0


From 3dde9dcb6cc0707b7f4c8d7b81a665da61afc25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 03/52] fix: minor device number of tty_nr

---
 src/procinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 9f40eed..f52efd0 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -201,7 +201,7 @@ impl ProcStat {
         let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
         let tty_nr = (
             ((tty_nr >> 8) & 0xff) as u16,
-            ((tty_nr >> 16) | (tty_nr & 0xff)) as u16,
+            (((tty_nr >> 12) & 0xff00) | (tty_nr & 0xff)) as u16,
         );
         let tpgid = parts.next().unwrap();
         let tpgid = if tpgid == "-1" {
-- 
2.43.0


From 41ce114ae1bd00bdbc5d975c71cbc0f9978f051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 04/52] fix: a process killed by a signal without a name made
 procstar panic

---
 src/procinfo.rs | 2 +-
 src/res.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index f52efd0..1312e63 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -247,7 +247,7 @@ impl ProcStat {
         let exit_signal = if exit_signal == 0 {
             None
         } else {
-            Some(sig::get_abbrev(exit_signal).unwrap().to_owned())
+            sig::get_abbrev(exit_signal).map(|s| s.to_owned())
         };
         let processor = parts.next().unwrap().parse().unwrap();
         let rt_priority = parts.next().unwrap().parse().unwrap();
diff --git a/src/res.rs b/src/res.rs
index ac283a9..88bb66f 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -183,7 +183,7 @@ impl Status {
                 (None, Some(libc::WTERMSIG(status)), libc::WCOREDUMP(status))
             }
         };
-        let signal = signum.map(|s| sig::get_abbrev(s).unwrap().to_owned());
+        let signal = signum.and_then(sig::get_abbrev).map(|s| s.to_owned());
         Self {
             status,
             exit_code,
-- 
2.43.0


From 14f9a8d6d84378bc71d95173893628d734e168fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 05/52] fix: don't send a signal to the pid of a process that
 has been waited for

---
 src/procs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index d8eb0de..2707c1b 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,6 +67,10 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
+        // Once waited for, the pid may belong to another process.
+        if self.wait_info.is_some() {
+            return Err(Error::NoProc);
+        }
         match kill(self.pid, signum) {
             Ok(()) => Ok(()),
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => Err(Error::NoProc),
-- 
2.43.0


From 35a85faa11e695e3544a1155216df0c933c04313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 06/52] fix: a signal sent to a process before its exec was
 lost

---
 src/sys.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/sys.rs b/src/sys.rs
index b2a3883..235c133 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -108,16 +108,49 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
     Err(io::Error::last_os_error())
 }
 
+/// Forks a child process.
+///
+/// Signal handlers aren't inherited by the child: a signal sent to it has its
+/// default effect, even before the child calls exec.
 pub fn fork() -> io::Result<pid_t> {
+    let mut all = MaybeUninit::<libc::sigset_t>::uninit();
+    let mut old = MaybeUninit::<libc::sigset_t>::uninit();
+    unsafe {
+        libc::sigfillset(all.as_mut_ptr());
+        libc::pthread_sigmask(libc::SIG_SETMASK, all.as_ptr(), old.as_mut_ptr());
+    }
     let child_pid = unsafe { libc::fork() };
+    let err = io::Error::last_os_error();
+    if child_pid == 0 {
+        reset_signal_handlers();
+    }
+    unsafe { libc::pthread_sigmask(libc::SIG_SETMASK, old.as_ptr(), std::ptr::null_mut()) };
     assert!(child_pid >= -1);
     match child_pid {
-        -1 => Err(io::Error::last_os_error()),
+        -1 => Err(err),
         _ if child_pid >= 0 => Ok(child_pid),
         _ => panic!("fork returned {}", child_pid),
     }
 }
 
+/// Restores default actions of signals that this process handles.
+fn reset_signal_handlers() {
+    for signum in 1..=libc::SIGRTMAX() {
+        let mut action = MaybeUninit::<libc::sigaction>::uninit();
+        unsafe {
+            if libc::sigaction(signum, std::ptr::null(), action.as_mut_ptr()) == 0 {
+                let handler = action.assume_init().sa_sigaction;
+                // The Rust runtime ignores SIGPIPE.
+                if handler != libc::SIG_DFL
+                    && (handler != libc::SIG_IGN || signum == libc::SIGPIPE)
+                {
+                    libc::signal(signum, libc::SIG_DFL);
+                }
+            }
+        }
+    }
+}
+
 pub fn getpid() -> pid_t {
     unsafe { libc::getpid() }
 }
-- 
2.43.0


From 88cff22d99826dd927249e1f517b725b708676db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 07/52] fix: reading a capture file moved the offset at which
 the process writes

Reading past its end closed the file, too.
---
 src/sys.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 235c133..98d3a84 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -4,9 +4,9 @@ use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
 use std::ffi::CString;
 use std::fs;
 use std::io;
-use std::io::{Read, Seek};
-use std::mem::MaybeUninit;
-use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::mem::{ManuallyDrop, MaybeUninit};
+use std::os::fd::{FromRawFd, RawFd};
+use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -238,24 +238,23 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-    // Wrap the fd in a file object, for convenience.  This takes ownership of the fd.
-    let mut file = unsafe { fs::File::from_raw_fd(fd) };
-    // Seek to front.
-    file.seek(std::io::SeekFrom::Start(start))?;
-    let buf = if let Some(stop) = stop {
-        // Read to indicated stop position.
-        let mut buf = vec![0; if start < stop { stop - start } else { 0 } as usize];
-        file.read_exact(&mut buf)?;
-        buf
-    } else {
-        // Read entire contents.
-        let mut buf = Vec::<u8>::new();
-        file.read_to_end(&mut buf)?;
-        buf
-    };
-
-    // Take back ownership of the fd.
-    assert!(file.into_raw_fd() == fd);
+    // Wrap the fd in a file object, for convenience; the fd remains open.
+    let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });
+    // Only read what is there.
+    let end = get_file_length(fd)? as u64;
+    let stop = stop.map_or(end, |s| s.min(end));
+    let mut buf = vec![0; stop.saturating_sub(start) as usize];
+    let mut len = 0;
+    while len < buf.len() {
+        // The process may share the file offset, so don't move it.
+        match file.read_at(&mut buf[len..], start + len as u64) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
+            Err(err) => return Err(err),
+        }
+    }
+    buf.truncate(len);
     Ok(buf)
 }
 
-- 
2.43.0


From 9a2e3977627502682b8c95cfab65174244f680b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 08/52] fix: a request for fd data outside what was captured
 made procstar panic

---
 src/fd.rs    | 4 +++-
 src/proto.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 8abb461..ecc3dad 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -480,7 +480,9 @@ impl SharedFdHandler {
             }),
 
             FdHandler::CaptureMemory { buf, encoding, .. } => {
-                let stop = stop.unwrap_or_else(|| buf.len());
+                // Only return what is there.
+                let stop = stop.map_or(buf.len(), |s| s.min(buf.len()));
+                let start = start.min(stop);
                 Some(FdData {
                     data: buf[start..stop].to_vec(),
                     encoding: *encoding,
diff --git a/src/proto.rs b/src/proto.rs
index 8e7a107..89635b2 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -240,6 +240,9 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
             start,
             stop,
         } => match parse_fd(fd_name) {
+            Ok(_) if start < 0 || stop.map_or(false, |s| s < start) => {
+                Some(incoming_error(msg, "invalid fd data range"))
+            }
             Ok(fd) => {
                 if let Some(proc) = procs.get(proc_id) {
                     match proc
@@ -250,7 +253,7 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
                             proc_id: proc_id.clone(),
                             fd: fd_name.clone(),
                             start,
-                            stop: stop.unwrap_or_else(|| start + (data.len() as i64)),
+                            stop: start + (data.len() as i64),
                             encoding,
                             data,
                         }),
-- 
2.43.0


From d956253a3230931e9ee1eed5e6a71941968ed6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 09/52] fix: output written just before termination could be
 missing from the final result

---
 src/fd.rs    | 43 ++++++++++++++++++++++++++++++++++---------
 src/procs.rs |  7 +++++++
 src/sys.rs   |  9 +++++++++
 3 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index ecc3dad..8ad63bd 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -353,16 +353,25 @@ impl SharedFdHandler {
         loop {
             // Don't hold a ref to the handler object across await, so `buf` is
             // accessible elsewhere.
-            let len = read_pipe.read(&mut read_buf).await?;
-            if len == 0 {
-                break;
+            let res = read_pipe.read(&mut read_buf).await;
+            if let &mut FdHandler::CaptureMemory {
+                ref mut buf,
+                ref mut read_fd,
+                ..
+            } = &mut *rc.borrow_mut()
+            {
+                match res {
+                    Ok(len) if len > 0 => buf.extend_from_slice(&read_buf[..len]),
+                    _ => {
+                        // The fd is closed when we return.
+                        *read_fd = -1;
+                        res?;
+                        break;
+                    }
+                }
             } else {
-                if let &mut FdHandler::CaptureMemory { ref mut buf, .. } = &mut *rc.borrow_mut() {
-                    buf.extend_from_slice(&read_buf[..len]);
-                } else {
-                    panic!();
-                };
-            }
+                panic!();
+            };
         }
         Ok(())
     }
@@ -469,6 +478,22 @@ impl SharedFdHandler {
         Ok(())
     }
 
+    /// Captures what the process has written so far, without waiting for more.
+    pub fn drain(&self) -> Result<()> {
+        if let FdHandler::CaptureMemory { read_fd, buf, .. } = &mut *self.0.borrow_mut() {
+            if *read_fd != -1 {
+                let pos = buf.len();
+                let mut len = sys::get_available(*read_fd)?;
+                buf.resize(pos + len, 0);
+                if len > 0 {
+                    len = sys::read(*read_fd, &mut buf[pos..]).unwrap_or(0);
+                }
+                buf.truncate(pos + len);
+            }
+        }
+        Ok(())
+    }
+
     /// Returns data for the fd, if available, and whether it is UTF-8 text.
     pub fn get_data(&self, start: usize, stop: Option<usize>) -> Result<Option<FdData>> {
         Ok(match &*self.0.borrow() {
diff --git a/src/procs.rs b/src/procs.rs
index 2707c1b..f45591c 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -470,6 +470,13 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
             let stop_time = Utc::now();
             let stop_instant = Instant::now();
 
+            // Everything the process wrote is part of its results.
+            for (fd, fd_handler) in proc.borrow().fd_handlers.iter() {
+                if let Err(err) = fd_handler.drain() {
+                    error!("failed to read fd {}: {}", fd, err);
+                }
+            }
+
             // Process terminated; update its stuff.
             let mut proc = proc.borrow_mut();
             assert!(proc.wait_info.is_none());
diff --git a/src/sys.rs b/src/sys.rs
index 98d3a84..696245e 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -235,6 +235,15 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
     }
 }
 
+/// Returns the number of bytes that can be read from a pipe right away.
+pub fn get_available(fd: RawFd) -> io::Result<usize> {
+    let mut len: c_int = 0;
+    match unsafe { libc::ioctl(fd, libc::FIONREAD, &mut len) } {
+        -1 => Err(io::Error::last_os_error()),
+        _ => Ok(len as usize),
+    }
+}
+
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-- 
2.43.0


From 8df1b8193650ce59d5c9f1ffb68f70fca1d47b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 10/52] fix: a process that failed to start could be reported
 as terminated without its errors

---
 src/err_pipe.rs | 11 +++++++----
 src/procs.rs    | 28 ++++++++++++++--------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 0cdcce9..d0be7a8 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,4 +1,5 @@
 use bytes::{BufMut, BytesMut};
+use std::future::Future;
 use std::io;
 use std::os::fd::RawFd;
 use tokio::io::AsyncReadExt;
@@ -101,7 +102,7 @@ impl ErrorPipe {
         errors
     }
 
-    pub async fn in_parent(self) -> Vec<String> {
+    pub fn in_parent(self) -> impl Future<Output = Vec<String>> {
         let ErrorPipe { read_fd, write_fd } = self;
 
         // Close the write pipe.  This is necessary so that we see EOF on the
@@ -109,9 +110,11 @@ impl ErrorPipe {
         // usually when it exec's.
         sys::close(write_fd).unwrap();
 
-        // Wrap the read pipe for async.
-        let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
-        ErrorPipe::get_errors(read_pipe).await
+        async move {
+            // Wrap the read pipe for async.
+            let read_pipe = PipeRead::from_raw_fd_checked(read_fd).unwrap();
+            ErrorPipe::get_errors(read_pipe).await
+        }
     }
 
     /// To be called immediatley after `fork()` in the child process.  This is
diff --git a/src/procs.rs b/src/procs.rs
index f45591c..ae8998f 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -4,6 +4,7 @@ use libc::pid_t;
 use log::*;
 use std::cell::RefCell;
 use std::collections::{BTreeMap, HashSet};
+use std::future::Future;
 use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
@@ -490,21 +491,20 @@ async fn wait_for_proc(proc: SharedProc, mut sigchld_receiver: SignalReceiver) {
 }
 
 /// Runs a recently-forked/execed process.
-async fn run_proc(proc: SharedProc, sigchld_receiver: SignalReceiver, error_pipe: ErrorPipe) {
+async fn run_proc(
+    proc: SharedProc,
+    sigchld_receiver: SignalReceiver,
+    errors: impl Future<Output = Vec<String>>,
+) {
     // FIXME: Error pipe should append directly to errors, so that they are
     // available earlier.
-    let error_task = {
-        let proc = Rc::clone(&proc);
-        tokio::task::spawn_local(async move {
-            let mut errors = error_pipe.in_parent().await;
-            proc.borrow_mut().errors.append(&mut errors);
-        })
-    };
-
-    let wait_task = tokio::task::spawn_local(wait_for_proc(proc, sigchld_receiver));
-
-    _ = error_task.await;
-    _ = wait_task.await;
+    //
+    // The process either execs or terminates before the errors are complete.
+    // Don't report it as terminated without them.
+    let mut errors = errors.await;
+    proc.borrow_mut().errors.append(&mut errors);
+
+    wait_for_proc(proc, sigchld_receiver).await;
 }
 
 //------------------------------------------------------------------------------
@@ -662,7 +662,7 @@ pub fn start_procs(
                 procs.insert(proc_id.clone(), proc.clone());
 
                 // Build the task that awaits the process.
-                let fut = run_proc(proc, sigchld_receiver.clone(), error_pipe);
+                let fut = run_proc(proc, sigchld_receiver.clone(), error_pipe.in_parent());
                 // Let subscribers know when it terminates.
                 let fut = {
                     let procs = procs.clone();
-- 
2.43.0


From adad37c468091a7714294c0cbe3fdb4f02387bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 11/52] fix: captures' and pipes' fds leaked into processes
 started later

---
 src/sys.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 696245e..25090cc 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -186,7 +186,10 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
     let path = CString::new(template)?;
     let (fd, path) = unsafe {
         let ptr = path.into_raw();
-        (libc::mkstemp(ptr), CString::from_raw(ptr))
+        (
+            libc::mkostemp(ptr, libc::O_CLOEXEC),
+            CString::from_raw(ptr),
+        )
     };
     match fd {
         -1 => Err(io::Error::last_os_error()),
@@ -214,10 +217,11 @@ pub struct RWPair<T> {
 
 /// Creates an anonymous pipe.
 ///
-/// Returns the read and write file descriptors of the ends of the pipe.
+/// Returns the read and write file descriptors of the ends of the pipe.  Both are
+/// closed on exec.
 pub fn pipe() -> io::Result<RWPair<RawFd>> {
     let mut fildes: Vec<fd_t> = vec![-1, 2];
-    match unsafe { libc::pipe(fildes.as_mut_ptr()) } {
+    match unsafe { libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC) } {
         -1 => Err(io::Error::last_os_error()),
         0 => Ok(RWPair {
             read: fildes[0],
-- 
2.43.0


From c3798fcddf41dc55cec99df094faad6da19eb24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 12/52] fix: fds of a process could collide with procstar's own
 fds

---
 src/err_pipe.rs |  7 +++++++
 src/fd.rs       | 50 ++++++++++++++++++++++++++++++++++++-------------
 src/procs.rs    | 25 ++++++++++++++++++++-----
 src/sys.rs      | 18 ++++++++++++++++++
 4 files changed, 82 insertions(+), 18 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index d0be7a8..bdd773f 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,4 +1,5 @@
 use bytes::{BufMut, BytesMut};
+use std::collections::BTreeSet;
 use std::future::Future;
 use std::io;
 use std::os::fd::RawFd;
@@ -36,6 +37,12 @@ pub struct ErrorWriter {
 }
 
 impl ErrorWriter {
+    /// Makes sure that the pipe isn't one of the fds about to be set up.
+    pub fn avoid(&mut self, fds: &BTreeSet<RawFd>) -> Result<()> {
+        self.write_fd = sys::dup_avoiding(self.write_fd, fds)?;
+        Ok(())
+    }
+
     pub fn write(&self, error: String) -> Result<()> {
         let bytes = error.as_bytes();
         // Encode the message len, which cannot be more than 64.
diff --git a/src/fd.rs b/src/fd.rs
index 8ad63bd..7aef711 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -1,7 +1,7 @@
 use libc::c_int;
 use log::*;
 use std::cell::RefCell;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::os::fd::RawFd;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -413,6 +413,35 @@ impl SharedFdHandler {
         })
     }
 
+    /// Returns the proc-visible fds that are used in `in_child()`.
+    pub fn get_set_fds(&self) -> Vec<RawFd> {
+        match *self.0.borrow() {
+            FdHandler::Inherit | FdHandler::Error { .. } => vec![],
+            FdHandler::Dup { fd, dup_fd } => vec![fd, dup_fd],
+            FdHandler::Close { fd }
+            | FdHandler::UnmanagedFile { fd, .. }
+            | FdHandler::UnlinkedFile { fd, .. }
+            | FdHandler::CaptureMemory { fd, .. }
+            | FdHandler::PipeWrite { fd, .. }
+            | FdHandler::PipeRead { fd, .. } => vec![fd],
+        }
+    }
+
+    /// In the child process, makes sure that the fds allocated in the parent
+    /// aren't any of `fds`, which are about to be set up.
+    pub fn avoid(&self, fds: &BTreeSet<RawFd>) -> Result<()> {
+        match *self.0.borrow_mut() {
+            FdHandler::UnlinkedFile { file_fd: ref mut f, .. }
+            | FdHandler::CaptureMemory { write_fd: ref mut f, .. }
+            | FdHandler::PipeWrite { pipe_write_fd: ref mut f, .. }
+            | FdHandler::PipeRead { pipe_read_fd: ref mut f, .. } => {
+                *f = sys::dup_avoiding(*f, fds)?
+            }
+            _ => {}
+        }
+        Ok(())
+    }
+
     pub fn in_child(self) -> Result<()> {
         match Rc::into_inner(self.0).unwrap().into_inner() {
             FdHandler::Inherit => {}
@@ -424,6 +453,10 @@ impl SharedFdHandler {
             }
 
             FdHandler::Dup { fd, dup_fd } => {
+                // Fds that are closed on exec are procstar's own.
+                if sys::get_cloexec(dup_fd)? {
+                    return Err(Error::NoFd(dup_fd));
+                }
                 if dup_fd != fd {
                     sys::dup2(dup_fd, fd)?;
                 }
@@ -443,20 +476,11 @@ impl SharedFdHandler {
             }
 
             FdHandler::UnlinkedFile { fd, file_fd, .. } => {
-                if file_fd != fd {
-                    sys::dup2(file_fd, fd)?;
-                    // Don't close file_fd; we'll close it in FdHandler::drop().
-                }
+                // Don't close file_fd; we'll close it in FdHandler::drop().
+                sys::dup2(file_fd, fd)?;
             }
 
-            FdHandler::CaptureMemory {
-                fd,
-                read_fd,
-                write_fd,
-                ..
-            } => {
-                // In the child, don't read from the pipe.
-                sys::close(read_fd)?;
+            FdHandler::CaptureMemory { fd, write_fd, .. } => {
                 // Attach the write pipe to the target fd.
                 sys::dup2(write_fd, fd)?;
                 sys::close(write_fd)?;
diff --git a/src/procs.rs b/src/procs.rs
index ae8998f..baa1183 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -3,7 +3,7 @@ use futures_util::future::FutureExt;
 use libc::pid_t;
 use log::*;
 use std::cell::RefCell;
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 use std::future::Future;
 use std::os::fd::RawFd;
 use std::rc::Rc;
@@ -592,10 +592,28 @@ pub fn start_procs(
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
-                let error_writer = error_pipe.in_child().unwrap();
+                let mut error_writer = error_pipe.in_child().unwrap();
                 // True if we should finally exec.
                 let mut ok_to_exec = true;
 
+                // Close pipes that connect other procs.
+                pipes.close().unwrap();
+
+                // Our own fds may be in the way of those we are about to set up.
+                let set_fds = fd_handlers
+                    .iter()
+                    .flat_map(|(_, fd_handler)| fd_handler.get_set_fds())
+                    .collect::<BTreeSet<_>>();
+                let res = error_writer.avoid(&set_fds).and_then(|_| {
+                    fd_handlers
+                        .iter()
+                        .try_for_each(|(_, fd_handler)| fd_handler.avoid(&set_fds))
+                });
+                if let Err(err) = res {
+                    error_writer.try_write(format!("failed to set up fds: {}", err));
+                    ok_to_exec = false;
+                }
+
                 // If a restricted executable is set, make sure ours matches.
                 if let Some(restricted_exe) = RESTRICTED_EXE.read().unwrap().as_ref() {
                     if exe != *restricted_exe {
@@ -611,9 +629,6 @@ pub fn start_procs(
                         ok_to_exec = false;
                     });
                 }
-                // Close remaining pipes, having dup'ed those we connect to.
-                pipes.close().unwrap();
-
                 // Put the child process into a new session, to avoid
                 // getting signals from the parent process group.
                 if let Err(err) = setsid() {
diff --git a/src/sys.rs b/src/sys.rs
index 25090cc..3c338a0 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -1,6 +1,7 @@
 extern crate libc;
 
 use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
+use std::collections::BTreeSet;
 use std::ffi::CString;
 use std::fs;
 use std::io;
@@ -362,6 +363,23 @@ pub fn fcntl_setfd(fd: RawFd, flags: i32) -> io::Result<()> {
     }
 }
 
+pub fn get_cloexec(fd: RawFd) -> io::Result<bool> {
+    Ok(fcntl_getfd(fd)? & libc::FD_CLOEXEC != 0)
+}
+
+/// Returns `fd`, or if it is one of `avoid`, a duplicate of it that is not.  The
+/// duplicate is closed on exec.
+pub fn dup_avoiding(fd: RawFd, avoid: &BTreeSet<RawFd>) -> io::Result<RawFd> {
+    let mut fd = fd;
+    while avoid.contains(&fd) {
+        fd = match unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, fd + 1) } {
+            -1 => return Err(io::Error::last_os_error()),
+            new_fd => new_fd,
+        };
+    }
+    Ok(fd)
+}
+
 pub fn set_cloexec(fd: RawFd) -> io::Result<()> {
     let flags = fcntl_getfd(fd)?;
     return if flags & libc::FD_CLOEXEC == 0 {
-- 
2.43.0


From 7a3457510a277b121c79078f5c9fa4504bd4265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 13/52] fix: closing a fd that isn't open made a process fail
 to start

---
 src/fd.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 7aef711..17525d7 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -448,9 +448,11 @@ impl SharedFdHandler {
 
             FdHandler::Error { ref mut err } => return Err(std::mem::replace(err, Error::None)),
 
-            FdHandler::Close { fd } => {
-                sys::close(fd)?;
-            }
+            FdHandler::Close { fd } => match sys::close(fd) {
+                // The fd may not be open.
+                Err(err) if err.raw_os_error() == Some(libc::EBADF) => {}
+                res => res?,
+            },
 
             FdHandler::Dup { fd, dup_fd } => {
                 // Fds that are closed on exec are procstar's own.
-- 
2.43.0


From 37f7b836a5384dfeb0006677b09579b91dc62721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 14/52] fix: a negative number was accepted as a fd

---
 src/spec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spec.rs b/src/spec.rs
index 155b3b8..74af8fd 100644
--- a/src/spec.rs
+++ b/src/spec.rs
@@ -260,7 +260,10 @@ pub fn parse_fd(fd: &str) -> std::result::Result<RawFd, Error> {
         "stdin" => Ok(0),
         "stdout" => Ok(1),
         "stderr" => Ok(2),
-        _ => fd.parse::<RawFd>().map_err(|_| Error::BadFd(fd.to_owned())),
+        _ => match fd.parse::<RawFd>() {
+            Ok(fd_num) if fd_num >= 0 => Ok(fd_num),
+            _ => Err(Error::BadFd(fd.to_owned())),
+        },
     }
 }
 
-- 
2.43.0


From 33eef96f9c99ef216092d3e4ba9dc06747bf510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:50 +0000
Subject: [PATCH 15/52] fix: a panic in a child process made it go on as a
 second procstar

---
 src/err_pipe.rs |  4 ++--
 src/procs.rs    | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index bdd773f..16acd95 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -130,8 +130,8 @@ impl ErrorPipe {
     pub fn in_child(self) -> io::Result<ErrorWriter> {
         let ErrorPipe { read_fd, write_fd } = self;
 
-        // Close the read pipe.
-        sys::close(read_fd).unwrap();
+        // Close the read pipe.  If this fails, it closes on exec anyway.
+        _ = sys::close(read_fd);
 
         // Since the pipe is CLOEXEC, so the write pipe will close automatically
         // in the child process when it exec's.
diff --git a/src/procs.rs b/src/procs.rs
index baa1183..e73ff5c 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -530,6 +530,15 @@ fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
 
 //------------------------------------------------------------------------------
 
+/// Ends this process when dropped.
+struct ExitOnDrop(i32);
+
+impl Drop for ExitOnDrop {
+    fn drop(&mut self) {
+        std::process::exit(self.0);
+    }
+}
+
 /// Starts zero or more new processes.  `input` maps new proc IDs to
 /// corresponding process specs.  All proc IDs must be unused.
 ///
@@ -589,7 +598,9 @@ pub fn start_procs(
         // Fork the child process.
         match fork() {
             Ok(0) => {
-                // In the child process.
+                // In the child process.  Even on a panic, don't go on in the
+                // parent's code.
+                let _exit = ExitOnDrop(63);
 
                 // Set up to write errors, if any, back to the parent.
                 let mut error_writer = error_pipe.in_child().unwrap();
@@ -597,7 +608,10 @@ pub fn start_procs(
                 let mut ok_to_exec = true;
 
                 // Close pipes that connect other procs.
-                pipes.close().unwrap();
+                if let Err(err) = pipes.close() {
+                    error_writer.try_write(format!("failed to close pipes: {}", err));
+                    ok_to_exec = false;
+                }
 
                 // Our own fds may be in the way of those we are about to set up.
                 let set_fds = fd_handlers
-- 
2.43.0


From 9c0769958b5a0ec9dc855392365193e4da93cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:54 +0000
Subject: [PATCH 16/52] fix: a NUL byte in a process spec made the child
 process panic

---
 src/sys.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 3c338a0..88e707f 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -7,6 +7,7 @@ use std::fs;
 use std::io;
 use std::mem::{ManuallyDrop, MaybeUninit};
 use std::os::fd::{FromRawFd, RawFd};
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
@@ -39,16 +40,17 @@ impl CStringVec {
     }
 }
 
-impl<T> From<T> for CStringVec
-where
-    T: IntoIterator<Item = String>,
-{
-    fn from(strings: T) -> Self {
+impl CStringVec {
+    /// Fails if one of the strings contains a nul byte.
+    fn try_from<T>(strings: T) -> io::Result<Self>
+    where
+        T: IntoIterator<Item = String>,
+    {
         // Build nul-terminated strings.
         let strs = strings
             .into_iter()
-            .map(|s| CString::new(s).unwrap())
-            .collect::<Vec<_>>();
+            .map(CString::new)
+            .collect::<Result<Vec<_>, _>>()?;
 
         // Grab their pointers into an array.
         let mut ptrs = strs
@@ -58,7 +60,7 @@ where
         // NULL-terminate the pointer array.
         ptrs.push(std::ptr::null());
 
-        Self { strs, ptrs }
+        Ok(Self { strs, ptrs })
     }
 }
 
@@ -83,7 +85,8 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
 }
 
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
-    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::from(args).as_ptr()) };
+    let args = CStringVec::try_from(args)?;
+    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, args.as_ptr()) };
     // execv only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -96,14 +99,10 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
         .map(|(n, v)| format!("{}={}", n, v))
         .collect();
 
-    let exe = CString::new(exe).unwrap();
-    let res = unsafe {
-        libc::execve(
-            exe.as_ptr() as *const i8,
-            CStringVec::from(args).as_ptr(),
-            CStringVec::from(env).as_ptr(),
-        )
-    };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::try_from(args)?;
+    let env = CStringVec::try_from(env)?;
+    let res = unsafe { libc::execve(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr()) };
     // execve only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -200,10 +199,8 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
 }
 
 pub fn open(path: &Path, oflag: c_int, mode: c_int) -> io::Result<fd_t> {
-    let fd = unsafe {
-        let path = CString::new(path.to_str().unwrap()).unwrap();
-        libc::open(path.as_ptr() as *const i8, oflag, mode)
-    };
+    let path = CString::new(path.as_os_str().as_bytes())?;
+    let fd = unsafe { libc::open(path.as_ptr() as *const i8, oflag, mode) };
     match fd {
         -1 => Err(io::Error::last_os_error()),
         _ if fd >= 0 => Ok(fd),
-- 
2.43.0


From 9b9febde3d60107d74cee81f0348b76b159e1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 17/52] fix: a process spec with neither exe nor argv made
 procstar panic

---
 src/procs.rs | 7 +++++++
 src/spec.rs  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index e73ff5c..452f492 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -559,6 +559,13 @@ pub fn start_procs(
         Err(spec::Error::DuplicateProcId(proc_id))?;
     }
 
+    // Check that we know what to execute.
+    for (proc_id, spec) in specs.iter() {
+        if spec.exe.is_none() && spec.argv.is_empty() {
+            Err(spec::Error::NoExe(proc_id.clone()))?;
+        }
+    }
+
     spec::validate_procs_fds(&specs)?;
 
     // Check that we're not shutting down.
diff --git a/src/spec.rs b/src/spec.rs
index 74af8fd..7271fae 100644
--- a/src/spec.rs
+++ b/src/spec.rs
@@ -22,6 +22,7 @@ pub enum Error {
     DuplicateProcId(ProcId),
     Io(std::io::Error),
     Json(serde_json::error::Error),
+    NoExe(ProcId),
     UnmatchedReadFd(ProcId, FdName),
     UnmatchedWriteFd(ProcId, FdName),
 }
@@ -33,6 +34,7 @@ impl fmt::Display for Error {
             Error::DuplicateFd(fd) => f.write_str(&format!("duplicate fd: {}", fd)),
             Error::Io(err) => err.fmt(f),
             Error::Json(err) => err.fmt(f),
+            Error::NoExe(proc_id) => f.write_str(&format!("no exe or argv: {}", proc_id)),
             Error::DuplicateProcId(proc_id) => {
                 f.write_str(&format!("duplicate proc id: {}", proc_id))
             }
-- 
2.43.0


From eeb09f7221279c75f4e0ef60ebaef721604fc524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 18/52] fix: a process spec with an exe but empty argv made
 procstar panic

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 452f492..fe5f2fc 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -525,7 +525,7 @@ pub fn get_restricted_exe() -> Option<String> {
 /// Returns the path to the executable to exec for the process.
 fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
     // Use the explicit exe, if given, else argv[0] per convention.
-    exe.unwrap_or(argv[0].clone())
+    exe.unwrap_or_else(|| argv[0].clone())
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From a86c3d9eb8f23bd2078265f9449f8519db1b68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 19/52] fix: an env var that isn't UTF-8 made procstar panic

---
 src/environ.rs | 6 ++++++
 src/net.rs     | 4 ++--
 src/procs.rs   | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/environ.rs b/src/environ.rs
index 31c11f6..05c4343 100644
--- a/src/environ.rs
+++ b/src/environ.rs
@@ -18,6 +18,12 @@ lazy_static! {
     };
 }
 
+/// Returns this process's env vars, except those that aren't UTF-8.
+pub fn vars() -> impl Iterator<Item = (String, String)> {
+    std::env::vars_os()
+        .filter_map(|(name, val)| Some((name.into_string().ok()?, val.into_string().ok()?)))
+}
+
 pub fn build<I: Iterator<Item = (String, String)>>(start_env: I, spec: &spec::Env) -> Env {
     let mut env: Env = match &spec.inherit {
         spec::EnvInherit::None => Env::new(),
diff --git a/src/net.rs b/src/net.rs
index 63a6d12..ef721e3 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -7,7 +7,7 @@ use crate::err::Error;
 pub fn get_tls_connector() -> Result<TlsConnector, Error> {
     let mut builder = native_tls::TlsConnector::builder();
 
-    if let Some((_, cert_path)) = std::env::vars()
+    if let Some((_, cert_path)) = std::env::vars_os()
         .filter(|(n, _)| n == "PROCSTAR_AGENT_CERT")
         .next()
     {
@@ -20,7 +20,7 @@ pub fn get_tls_connector() -> Result<TlsConnector, Error> {
 }
 
 pub fn get_access_token() -> String {
-    if let Some((_, token)) = std::env::vars()
+    if let Some((_, token)) = crate::environ::vars()
         .filter(|(n, _)| n == "PROCSTAR_AGENT_TOKEN")
         .next()
     {
diff --git a/src/procs.rs b/src/procs.rs
index fe5f2fc..86cfb3d 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -590,7 +590,7 @@ pub fn start_procs(
             ..
         } = spec;
         let exe = get_exe(exe, &argv);
-        let env = environ::build(std::env::vars(), &env);
+        let env = environ::build(environ::vars(), &env);
 
         let error_pipe = ErrorPipe::new().unwrap_or_else(|err| {
             error!("failed to create pipe: {}", err);
-- 
2.43.0


From e1df2bd560a372b4eaa7afdb1eb749c55fcd10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 20/52] fix: a failure to accept an HTTP connection made
 procstar panic

---
 src/http.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 9bed9fc..c89a3c6 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -5,6 +5,7 @@ use hyper::{Method, Request, Response, StatusCode};
 use log::*;
 use serde_json::json;
 use std::rc::Rc;
+use std::time::Duration;
 
 use crate::err::Error;
 use crate::fd::FdData;
@@ -230,6 +231,9 @@ impl Router {
 
 //------------------------------------------------------------------------------
 
+/// Time to wait before accepting connections again after a failure.
+const ACCEPT_RETRY_INTERVAL: Duration = Duration::from_millis(100);
+
 /// Runs the HTTP service.
 pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::error::Error>> {
     let addr: std::net::SocketAddr = ([127, 0, 0, 1], port).into();
@@ -243,7 +247,15 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
     let router = Rc::new(Router::new());
 
     loop {
-        let (stream, _) = listener.accept().await?;
+        let (stream, _) = match listener.accept().await {
+            Ok(conn) => conn,
+            Err(err) => {
+                // The client may be gone, or we may be out of fds for now.
+                error!("failed to accept connection: {}", err);
+                tokio::time::sleep(ACCEPT_RETRY_INTERVAL).await;
+                continue;
+            }
+        };
         let procs = procs.clone();
         let router = router.clone();
 
-- 
2.43.0


From cebf389e5983791357ef707ded97180cad536d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 21/52] fix: an error message longer than 64k made the child
 process panic

---
 src/err_pipe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 16acd95..4353be6 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -44,9 +44,10 @@ impl ErrorWriter {
     }
 
     pub fn write(&self, error: String) -> Result<()> {
+        // Encode the message len, which cannot be more than 64k; truncate the
+        // message if necessary.
         let bytes = error.as_bytes();
-        // Encode the message len, which cannot be more than 64.
-        assert!(bytes.len() <= u16::MAX as usize);
+        let bytes = &bytes[..bytes.len().min(u16::MAX as usize)];
         let mut len = BytesMut::with_capacity(2);
         len.put_u16_le(bytes.len() as u16);
 
-- 
2.43.0


From 5a88ae608933e684cdb1c73b4f6e8ecb57d1a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 22/52] fix: a shortage of fds or processes made procstar exit
 or panic

---
 src/err_pipe.rs | 10 ++++++++++
 src/fd.rs       | 18 ++++++++++++++++++
 src/procs.rs    | 44 +++++++++++++++++++++++++++++++++++---------
 3 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 4353be6..c375e8b 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,4 +1,5 @@
 use bytes::{BufMut, BytesMut};
+use log::*;
 use std::collections::BTreeSet;
 use std::future::Future;
 use std::io;
@@ -73,6 +74,15 @@ impl ErrorPipe {
         Ok(ErrorPipe { read_fd, write_fd })
     }
 
+    /// Closes both ends, if there is no child process.
+    pub fn close(self) {
+        for fd in [self.read_fd, self.write_fd] {
+            if let Err(err) = sys::close(fd) {
+                error!("failed to close {fd}: {err}");
+            }
+        }
+    }
+
     async fn get_errors(mut read_pipe: PipeRead) -> Vec<String> {
         let mut errors = Vec::new();
         loop {
diff --git a/src/fd.rs b/src/fd.rs
index 17525d7..82fe043 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -413,6 +413,24 @@ impl SharedFdHandler {
         })
     }
 
+    /// Closes the fds allocated for a child process that could not be created.
+    pub fn close(&self) {
+        let fds = match *self.0.borrow() {
+            FdHandler::CaptureMemory {
+                read_fd, write_fd, ..
+            } => vec![read_fd, write_fd],
+            FdHandler::PipeWrite { pipe_write_fd, .. } => vec![pipe_write_fd],
+            FdHandler::PipeRead { pipe_read_fd, .. } => vec![pipe_read_fd],
+            // An unlinked file is closed in FdHandler::drop().
+            _ => vec![],
+        };
+        for fd in fds {
+            if let Err(err) = sys::close(fd) {
+                error!("failed to close {fd}: {err}");
+            }
+        }
+    }
+
     /// Returns the proc-visible fds that are used in `in_child()`.
     pub fn get_set_fds(&self) -> Vec<RawFd> {
         match *self.0.borrow() {
diff --git a/src/procs.rs b/src/procs.rs
index 86cfb3d..de203dc 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -31,6 +31,9 @@ use crate::sys::{execve, fork, kill, setsid, wait, WaitInfo};
 
 type FdHandlers = Vec<(RawFd, SharedFdHandler)>;
 
+/// Stands in for the pid of a process that could not be started.
+const NO_PID: pid_t = 0;
+
 // FIXME: Refactor this into enum for running, error, terminated procs.
 pub struct Proc {
     pub pid: pid_t,
@@ -68,8 +71,9 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
-        // Once waited for, the pid may belong to another process.
-        if self.wait_info.is_some() {
+        // Once waited for, the pid may belong to another process.  A process
+        // that failed to start has none.
+        if self.wait_info.is_some() || self.pid == NO_PID {
             return Err(Error::NoProc);
         }
         match kill(self.pid, signum) {
@@ -530,6 +534,16 @@ fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
 
 //------------------------------------------------------------------------------
 
+/// Registers a process that could not be started.
+fn insert_failed(procs: &SharedProcs, proc_id: ProcId, error: String) {
+    error!("{}", error);
+    let mut proc = Proc::new(NO_PID, Utc::now(), Instant::now(), Vec::new());
+    proc.errors.push(error);
+    proc.elapsed = Some(Duration::ZERO);
+    procs.insert(proc_id.clone(), Rc::new(RefCell::new(proc)));
+    procs.notify(Notification::NotRunning(proc_id));
+}
+
 /// Ends this process when dropped.
 struct ExitOnDrop(i32);
 
@@ -592,10 +606,13 @@ pub fn start_procs(
         let exe = get_exe(exe, &argv);
         let env = environ::build(environ::vars(), &env);
 
-        let error_pipe = ErrorPipe::new().unwrap_or_else(|err| {
-            error!("failed to create pipe: {}", err);
-            std::process::exit(1);
-        });
+        let error_pipe = match ErrorPipe::new() {
+            Ok(error_pipe) => error_pipe,
+            Err(err) => {
+                insert_failed(procs, proc_id, format!("failed to create pipe: {}", err));
+                continue;
+            }
+        };
 
         let fd_handlers = fds
             .into_iter()
@@ -711,12 +728,21 @@ pub fn start_procs(
                 info!("proc started: {}", child_pid);
             }
 
-            Err(err) => panic!("failed to fork: {}", err),
+            Err(err) => {
+                error_pipe.close();
+                for (_, fd_handler) in fd_handlers.iter() {
+                    fd_handler.close();
+                }
+                insert_failed(procs, proc_id, format!("failed to fork: {}", err));
+            }
         }
     }
 
-    // Both ends of all pipes should have been used.
-    assert!(pipes.close().unwrap() == 0);
+    // Both ends of all pipes have been used, except with processes that failed
+    // to start.
+    if let Err(err) = pipes.close() {
+        error!("failed to close pipes: {}", err);
+    }
 
     Ok(tasks)
 }
-- 
2.43.0


From 4222a3604783e1bf63845f826c5994cfa97ee122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 23/52] fix: a signal could undo a completed shutdown, and
 procstar never exited

---
 src/procs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index de203dc..b7cba32 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -429,7 +429,12 @@ impl SharedProcs {
     }
 
     /// Requests shutdown.
+    ///
+    /// A completed shutdown is final; requests that follow have no effect.
     pub fn set_shutdown(&self, state: shutdown::State) {
+        if matches!(self.get_shutdown(), shutdown::State::Done) {
+            return;
+        }
         self.0.borrow_mut().shutdown.0.send(state.clone()).unwrap();
         self.notify(Notification::ShutDown(state));
         self.check_idling();
-- 
2.43.0


From 1c111aae2dcece844dc588aaea3d08b146bc3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 24/52] fix: an agent connection could miss events and hold up
 or prevent shutdown

---
 src/agent.rs | 31 +++++++++++++++++++++----------
 src/main.rs  | 10 ++++++++--
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index c5c3699..fafb35a 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -13,7 +13,7 @@ use url::Url;
 use crate::err::Error;
 use crate::net::{get_access_token, get_tls_connector};
 use crate::procinfo::ProcessInfo;
-use crate::procs::{get_restricted_exe, Notification, SharedProcs};
+use crate::procs::{get_restricted_exe, Notification, NotificationSub, SharedProcs};
 use crate::proto;
 use crate::proto::{ConnectionInfo, IncomingMessage, OutgoingMessage};
 use crate::shutdown;
@@ -96,16 +96,21 @@ async fn send(sender: &mut SocketSender, msg: OutgoingMessage) -> Result<(), Err
     Ok(())
 }
 
+/// Connects and registers.
+///
+/// Also returns a subscription to notifications of whatever happens after the
+/// state of affairs given in the registration.
 async fn connect(
     connection: &mut Connection,
     procs: &SharedProcs,
-) -> Result<(SocketSender, SocketReceiver), Error> {
+) -> Result<(SocketSender, SocketReceiver, NotificationSub), Error> {
     let connector = Connector::NativeTls(get_tls_connector()?);
     let (ws_stream, _) =
         connect_async_tls_with_config(&connection.url, None, false, Some(connector)).await?;
     let (mut sender, mut receiver) = ws_stream.split();
 
     // Send a register message.
+    let sub = procs.subscribe();
     let register = OutgoingMessage::Register {
         conn: connection.conn.clone(),
         proc: connection.proc.clone(),
@@ -119,7 +124,7 @@ async fn connect(
     let msg = receiver.next().await;
     match msg {
         Some(Ok(Message::Binary(ref data))) => match deserialize(data)? {
-            IncomingMessage::Registered => Ok((sender, receiver)),
+            IncomingMessage::Registered => Ok((sender, receiver, sub)),
             _msg => Err(proto::Error::UnexpectedMessage(_msg))?,
         },
         Some(Ok(Message::Close(_))) => Err(proto::Error::WrongMessageType(
@@ -210,11 +215,16 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver) = match connect(&mut connection, &procs).await
-        {
-            Ok(pair) => {
+        let res = tokio::select! {
+            // Don't let a pending connection hold up shutdown.
+            biased;
+            _ = procs.wait_for_shutdown() => break,
+            res = connect(&mut connection, &procs) => res,
+        };
+        let (mut sender, mut receiver, mut sub) = match res {
+            Ok(res) => {
                 info!("agent connected: {}", connection.url);
-                pair
+                res
             }
             Err(err) => {
                 warn!("agent connection failed: {}: {}", connection.url, err);
@@ -225,7 +235,10 @@ pub async fn run(
                 }
 
                 // Take a break.
-                sleep(interval).await;
+                tokio::select! {
+                    _ = procs.wait_for_shutdown() => break,
+                    _ = sleep(interval) => {},
+                }
 
                 // Exponential backoff in interval.
                 interval = interval.mul_f64(cfg.interval_mult);
@@ -243,8 +256,6 @@ pub async fn run(
         interval = cfg.interval_start;
         count = 0;
 
-        let mut sub = procs.subscribe();
-
         // Simultaneously wait for an incoming websocket message or a
         // notification, dispatching either.  Also watch for shutdown.
         while !done {
diff --git a/src/main.rs b/src/main.rs
index fdfa3e7..03cd2d6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -16,6 +16,9 @@ use procstar::spec;
 
 //------------------------------------------------------------------------------
 
+/// How long to wait on shutdown for the agent connection to complete.
+const AGENT_SHUTDOWN_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(5);
+
 async fn maybe_run_http(args: &argv::Args, procs: &SharedProcs) {
     if args.serve {
         // Run the HTTP server until we receive a shutdown signal.
@@ -49,8 +52,11 @@ async fn maybe_run_agent(args: &argv::Args, procs: &SharedProcs) {
         tokio::select! {
             _ = &mut run => {},
             _ = procs.wait_for_shutdown() => {
-                // Make sure the connection loop completes too.
-                run.await;
+                // Make sure the connection loop completes too, but don't let an
+                // unresponsive server hold up shutdown.
+                if tokio::time::timeout(AGENT_SHUTDOWN_TIMEOUT, run).await.is_err() {
+                    warn!("agent connection did not complete");
+                }
             },
         }
     }
-- 
2.43.0


From bee2fb6f08ee48ea511b421db302c5dc7c4246b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 25/52] fix: the deletion that completed a shutdown was not
 notified

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index b7cba32..0bd8bb6 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -317,8 +317,8 @@ impl SharedProcs {
         // OK, we can proceed with removing.
         let proc = procs.procs.remove(proc_id).unwrap();
         drop(procs);
-        self.check_idling();
         self.notify(Notification::Delete(proc_id.clone()));
+        self.check_idling();
         Ok(proc)
     }
 
-- 
2.43.0


From 421527953a7007a89d5d028222244d3bdf7ae1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 26/52] fix: a burst of over 1024 notifications made procstar
 fail

---
 src/procs.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 0bd8bb6..67f1861 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -9,8 +9,7 @@ use std::os::fd::RawFd;
 use std::rc::Rc;
 use std::sync::RwLock;
 use std::time::{Duration, Instant};
-use tokio::sync::broadcast;
-use tokio::sync::broadcast::error::RecvError;
+use tokio::sync::mpsc;
 use tokio::sync::watch;
 
 use crate::environ;
@@ -213,8 +212,8 @@ pub enum Notification {
     ShutDown(shutdown::State),
 }
 
-type NotificationSender = broadcast::Sender<Notification>;
-type NotificationReceiver = broadcast::Receiver<Notification>;
+type NotificationSender = mpsc::UnboundedSender<Notification>;
+type NotificationReceiver = mpsc::UnboundedReceiver<Notification>;
 
 pub struct NotificationSub {
     receiver: NotificationReceiver,
@@ -222,11 +221,7 @@ pub struct NotificationSub {
 
 impl NotificationSub {
     pub async fn recv(&mut self) -> Option<Notification> {
-        match self.receiver.recv().await {
-            Ok(noti) => Some(noti),
-            Err(RecvError::Closed) => None,
-            Err(RecvError::Lagged(i)) => panic!("notification subscriber lagging: {}", i),
-        }
+        self.receiver.recv().await
     }
 }
 
@@ -236,8 +231,9 @@ pub struct Procs {
     /// Map from proc ID to proc object.
     procs: BTreeMap<ProcId, SharedProc>,
 
-    /// Notification subscriptions.
-    subs: NotificationSender,
+    /// Notification subscriptions.  Each has an unbounded queue, as procs may
+    /// start and stop faster than a subscriber is able to follow.
+    subs: Vec<NotificationSender>,
 
     /// Shutdown notification channel.
     // FIXME: Use CancellationToken instead?
@@ -252,10 +248,9 @@ pub struct SharedProcs(Rc<RefCell<Procs>>);
 
 impl SharedProcs {
     pub fn new() -> SharedProcs {
-        let (sender, _receiver) = broadcast::channel(1024);
         SharedProcs(Rc::new(RefCell::new(Procs {
             procs: BTreeMap::new(),
-            subs: sender,
+            subs: Vec::new(),
             shutdown: watch::channel(shutdown::State::Active),
         })))
     }
@@ -369,16 +364,17 @@ impl SharedProcs {
     }
 
     pub fn subscribe(&self) -> NotificationSub {
-        NotificationSub {
-            receiver: self.0.borrow().subs.subscribe(),
-        }
+        let (sender, receiver) = mpsc::unbounded_channel();
+        self.0.borrow_mut().subs.push(sender);
+        NotificationSub { receiver }
     }
 
     fn notify(&self, noti: Notification) {
-        let s = self.0.borrow();
-        if s.subs.receiver_count() > 0 {
-            s.subs.send(noti).unwrap();
-        }
+        // Sending fails if the subscriber is gone; forget it then.
+        self.0
+            .borrow_mut()
+            .subs
+            .retain(|sub| sub.send(noti.clone()).is_ok());
     }
 
     /// Sends a signal to all running procs.
-- 
2.43.0


From 8a24020aa1e7e4068fd64671f2557c556955e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 27/52] fix: malformed process statistics made procstar panic

---
 src/procinfo.rs | 147 +++++++++++++++++++++++++-----------------------
 1 file changed, 77 insertions(+), 70 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 1312e63..c462e81 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -181,90 +181,95 @@ fn expand_sig_bitmap(bits: i32) -> Vec<String> {
 }
 
 impl ProcStat {
-    /// Parses contents of a /proc/{pid}/stat file.  Panics on failure.
-    pub fn parse(text: &str) -> Self {
-        let (pid, text) = text.split_once(' ').unwrap();
-        let pid = pid.parse::<pid_t>().unwrap();
+    /// Parses contents of a /proc/{pid}/stat file.  Returns none if they are
+    /// malformed.
+    pub fn parse(text: &str) -> Option<Self> {
+        let (pid, text) = text.split_once(' ')?;
+        let pid = pid.parse::<pid_t>().ok()?;
 
-        let (_, text) = text.split_once('(').unwrap();
+        let (_, text) = text.split_once('(')?;
         // The command name may itself contain parentheses.
-        let (comm, text) = text.rsplit_once(')').unwrap();
+        let (comm, text) = text.rsplit_once(')')?;
         let comm = comm.to_owned();
         let text = text.trim();
 
         let mut parts = text.split(' ').into_iter();
 
-        let state = parts.next().unwrap().to_owned();
-        let ppid = parts.next().unwrap().parse().unwrap();
-        let pgrp = parts.next().unwrap().parse().unwrap();
-        let session = parts.next().unwrap().parse().unwrap();
-        let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
+        let state = parts.next()?.to_owned();
+        let ppid = parts.next()?.parse().ok()?;
+        let pgrp = parts.next()?.parse().ok()?;
+        let session = parts.next()?.parse().ok()?;
+        let tty_nr = parts.next()?.parse::<u32>().ok()?;
         let tty_nr = (
             ((tty_nr >> 8) & 0xff) as u16,
             (((tty_nr >> 12) & 0xff00) | (tty_nr & 0xff)) as u16,
         );
-        let tpgid = parts.next().unwrap();
+        let tpgid = parts.next()?;
         let tpgid = if tpgid == "-1" {
             None
         } else {
-            Some(tpgid.parse().unwrap())
+            Some(tpgid.parse().ok()?)
         };
-        let flags = parts.next().unwrap().parse().unwrap();
-        let minflt = parts.next().unwrap().parse().unwrap();
-        let cminflt = parts.next().unwrap().parse().unwrap();
-        let majflt = parts.next().unwrap().parse().unwrap();
-        let cmajflt = parts.next().unwrap().parse().unwrap();
-        let tick = get_clk_tck().unwrap() as f64;
-        let utime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let stime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let cutime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let cstime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let priority = parts.next().unwrap().parse().unwrap();
-        let nice = parts.next().unwrap().parse().unwrap();
-        let num_threads = parts.next().unwrap().parse().unwrap();
+        let flags = parts.next()?.parse().ok()?;
+        let minflt = parts.next()?.parse().ok()?;
+        let cminflt = parts.next()?.parse().ok()?;
+        let majflt = parts.next()?.parse().ok()?;
+        let cmajflt = parts.next()?.parse().ok()?;
+        let tick = get_clk_tck().ok()? as f64;
+        let utime = parts.next()?.parse::<u64>().ok()? as f64 / tick;
+        let stime = parts.next()?.parse::<u64>().ok()? as f64 / tick;
+        let cutime = parts.next()?.parse::<u64>().ok()? as f64 / tick;
+        let cstime = parts.next()?.parse::<u64>().ok()? as f64 / tick;
+        let priority = parts.next()?.parse().ok()?;
+        let nice = parts.next()?.parse().ok()?;
+        let num_threads = parts.next()?.parse().ok()?;
         let _itrealvalue = parts.next();
-        let starttime = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
+        let starttime = parts.next()?.parse::<u64>().ok()? as f64 / tick;
         let starttime = chrono::DateTime::<chrono::Utc>::from(
             *BOOT_TIME + std::time::Duration::from_secs_f64(starttime),
         )
         .to_rfc3339();
-        let vsize = parts.next().unwrap().parse().unwrap();
-        let rss = parts.next().unwrap().parse::<i64>().unwrap() * *PAGE_SIZE as i64;
-        let rsslim = parts.next().unwrap().parse().unwrap();
-        let _startcode = parts.next().unwrap();
-        let _endcode = parts.next().unwrap();
-        let _startstack = parts.next().unwrap();
-        let _kstkesp = parts.next().unwrap();
-        let _kstkeip = parts.next().unwrap();
-        let signal = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());
-        let blocked = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());
-        let sigignore = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());
-        let sigcatch = expand_sig_bitmap(parts.next().unwrap().parse().unwrap());
-        let wchan = parts.next().unwrap().parse().unwrap();
+        let vsize = parts.next()?.parse().ok()?;
+        let rss = parts
+            .next()?
+            .parse::<i64>()
+            .ok()?
+            .checked_mul(*PAGE_SIZE as i64)?;
+        let rsslim = parts.next()?.parse().ok()?;
+        let _startcode = parts.next()?;
+        let _endcode = parts.next()?;
+        let _startstack = parts.next()?;
+        let _kstkesp = parts.next()?;
+        let _kstkeip = parts.next()?;
+        let signal = expand_sig_bitmap(parts.next()?.parse().ok()?);
+        let blocked = expand_sig_bitmap(parts.next()?.parse().ok()?);
+        let sigignore = expand_sig_bitmap(parts.next()?.parse().ok()?);
+        let sigcatch = expand_sig_bitmap(parts.next()?.parse().ok()?);
+        let wchan = parts.next()?.parse().ok()?;
         let _nswap = parts.next();
         let _cswap = parts.next();
-        let exit_signal = parts.next().unwrap().parse::<i32>().unwrap();
+        let exit_signal = parts.next()?.parse::<i32>().ok()?;
         let exit_signal = if exit_signal == 0 {
             None
         } else {
             sig::get_abbrev(exit_signal).map(|s| s.to_owned())
         };
-        let processor = parts.next().unwrap().parse().unwrap();
-        let rt_priority = parts.next().unwrap().parse().unwrap();
-        let policy = parts.next().unwrap().parse().unwrap();
-        let delayacct_blkio_ticks = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let guest_time = parts.next().unwrap().parse::<u64>().unwrap() as f64 / tick;
-        let cguest_time = parts.next().unwrap().parse().unwrap();
-        let _start_data = parts.next().unwrap();
-        let _end_data = parts.next().unwrap();
-        let _start_brk = parts.next().unwrap();
-        let _arg_start = parts.next().unwrap();
-        let _arg_end = parts.next().unwrap();
-        let _env_start = parts.next().unwrap();
-        let _env_end = parts.next().unwrap();
-        let exit_code = parts.next().unwrap().parse().unwrap();
+        let processor = parts.next()?.parse().ok()?;
+        let rt_priority = parts.next()?.parse().ok()?;
+        let policy = parts.next()?.parse().ok()?;
+        let delayacct_blkio_ticks = parts.next()?.parse::<u64>().ok()? as f64 / tick;
+        let guest_time = parts.next()?.parse::<u64>().ok()? as f64 / tick;
+        let cguest_time = parts.next()?.parse().ok()?;
+        let _start_data = parts.next()?;
+        let _end_data = parts.next()?;
+        let _start_brk = parts.next()?;
+        let _arg_start = parts.next()?;
+        let _arg_end = parts.next()?;
+        let _env_start = parts.next()?;
+        let _env_end = parts.next()?;
+        let exit_code = parts.next()?.parse().ok()?;
 
-        Self {
+        Some(Self {
             pid,
             comm,
             state,
@@ -315,14 +320,14 @@ impl ProcStat {
             // env_start,
             // env_end,
             exit_code,
-        }
+        })
     }
 
     /// Loads process status from /proc/{pid}/stat.
     pub fn load(pid: pid_t) -> Result<Self, std::io::Error> {
         let path = format!("/proc/{}/stat", pid);
         let text = std::fs::read_to_string(path)?;
-        Ok(Self::parse(&text))
+        Self::parse(&text).ok_or_else(|| std::io::ErrorKind::InvalidData.into())
     }
 
     pub fn load_or_log(pid: pid_t) -> Option<Self> {
@@ -357,17 +362,19 @@ pub struct ProcStatm {
 }
 
 impl ProcStatm {
-    /// Parses contents of a /proc/{pid}/statm file.  Panics on failure.
-    pub fn parse(text: &str) -> Self {
+    /// Parses contents of a /proc/{pid}/statm file.  Returns none if they are
+    /// malformed.
+    pub fn parse(text: &str) -> Option<Self> {
         let mut parts = text.trim().split(' ').into_iter();
-        let size = parts.next().unwrap().parse::<u64>().unwrap() * *PAGE_SIZE;
-        let resident = parts.next().unwrap().parse::<u64>().unwrap() * *PAGE_SIZE;
-        let shared = parts.next().unwrap().parse::<u64>().unwrap() * *PAGE_SIZE;
-        let text = parts.next().unwrap().parse::<u64>().unwrap() * *PAGE_SIZE;
-        let _lib = parts.next().unwrap();
-        let data = parts.next().unwrap().parse::<u64>().unwrap() * *PAGE_SIZE;
-        let _dt = parts.next().unwrap();
-        Self {
+        let mut size_in_bytes = || parts.next()?.parse::<u64>().ok()?.checked_mul(*PAGE_SIZE);
+        let size = size_in_bytes()?;
+        let resident = size_in_bytes()?;
+        let shared = size_in_bytes()?;
+        let text = size_in_bytes()?;
+        let _lib = size_in_bytes()?;
+        let data = size_in_bytes()?;
+        let _dt = size_in_bytes()?;
+        Some(Self {
             size,
             resident,
             shared,
@@ -375,14 +382,14 @@ impl ProcStatm {
             // lib,
             data,
             // dt,
-        }
+        })
     }
 
     /// Loads process memory usage from /proc/{pid}/statm.
     pub fn load(pid: pid_t) -> Result<Self, std::io::Error> {
         let path = format!("/proc/{}/statm", pid);
         let text = std::fs::read_to_string(path)?;
-        Ok(Self::parse(&text))
+        Self::parse(&text).ok_or_else(|| std::io::ErrorKind::InvalidData.into())
     }
 
     pub fn load_or_log(pid: pid_t) -> Option<Self> {
-- 
2.43.0


From 44ef3a384c7e64e576986e70701d65beb1cc367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 28/52] fix: children's guest time was given in ticks, unlike
 the other times

---
 src/procinfo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c462e81..b756f4f 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -157,7 +157,7 @@ pub struct ProcStat {
     /// Guest time of process.
     pub guest_time: f64,
     /// Guest time of awaited children.
-    pub cguest_time: i64,
+    pub cguest_time: f64,
     // pub start_data: u64,
     // pub end_data: u64,
     // pub start_brk: u64,
@@ -259,7 +259,7 @@ impl ProcStat {
         let policy = parts.next()?.parse().ok()?;
         let delayacct_blkio_ticks = parts.next()?.parse::<u64>().ok()? as f64 / tick;
         let guest_time = parts.next()?.parse::<u64>().ok()? as f64 / tick;
-        let cguest_time = parts.next()?.parse().ok()?;
+        let cguest_time = parts.next()?.parse::<u64>().ok()? as f64 / tick;
         let _start_data = parts.next()?;
         let _end_data = parts.next()?;
         let _start_brk = parts.next()?;
-- 
2.43.0


From 729e415141729f115aac508de1154d69371c8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 29/52] fix: large device numbers of terminals were truncated

---
 src/procinfo.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index b756f4f..69c2fe2 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -91,7 +91,7 @@ pub struct ProcStat {
     /// Session ID.
     pub session: pid_t,
     /// Controlling terminal (major, minor) device number.
-    pub tty_nr: (u16, u16),
+    pub tty_nr: (u16, u32),
     /// Group ID of foreground process group on controlling terminal.
     pub tpgid: Option<gid_t>,
     /// Kernel flags word.
@@ -199,10 +199,11 @@ impl ProcStat {
         let ppid = parts.next()?.parse().ok()?;
         let pgrp = parts.next()?.parse().ok()?;
         let session = parts.next()?.parse().ok()?;
-        let tty_nr = parts.next()?.parse::<u32>().ok()?;
+        // The kernel prints the encoded device number as a signed integer.
+        let tty_nr = parts.next()?.parse::<i32>().ok()? as u32;
         let tty_nr = (
-            ((tty_nr >> 8) & 0xff) as u16,
-            (((tty_nr >> 12) & 0xff00) | (tty_nr & 0xff)) as u16,
+            ((tty_nr >> 8) & 0xfff) as u16,
+            ((tty_nr >> 12) & 0xfff00) | (tty_nr & 0xff),
         );
         let tpgid = parts.next()?;
         let tpgid = if tpgid == "-1" {
-- 
2.43.0


From de74612ecad503b84493fe5c8d90ca7df79ec5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 30/52] fix: no statistics of a process whose command name is
 not UTF-8

---
 src/procinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 69c2fe2..0564328 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -327,7 +327,9 @@ impl ProcStat {
     /// Loads process status from /proc/{pid}/stat.
     pub fn load(pid: pid_t) -> Result<Self, std::io::Error> {
         let path = format!("/proc/{}/stat", pid);
-        let text = std::fs::read_to_string(path)?;
+        // The command name may be any bytes.
+        let text = std::fs::read(path)?;
+        let text = String::from_utf8_lossy(&text);
         Self::parse(&text).ok_or_else(|| std::io::ErrorKind::InvalidData.into())
     }
 
-- 
2.43.0


From ae2f3082790e7e40de509bbebf941a7f72511458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 31/52] fix: a terminated process could get the statistics of
 another

---
 src/procs.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index 67f1861..5565101 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -141,12 +141,14 @@ impl Proc {
             elapsed: elapsed.as_secs_f64(),
         };
 
-        // Use termination proc stat on the process object, if available;
+        // Use termination proc stat on the process object, if terminated;
         // otherwise, snapshot current.
-        let proc_stat = self
-            .proc_stat
-            .clone()
-            .or_else(|| ProcStat::load_or_log(self.pid));
+        let proc_stat = if self.wait_info.is_some() {
+            // The pid may be another process's by now.
+            self.proc_stat.clone()
+        } else {
+            ProcStat::load_or_log(self.pid)
+        };
 
         res::ProcRes {
             state: self.get_state(),
-- 
2.43.0


From d906ff8f16964f06fc48f5282fa4e815c3eef790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 32/52] fix: an environment variable that is not UTF-8 could
 make an agent panic at startup

---
 src/sys.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 88e707f..058e570 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -494,8 +494,5 @@ lazy_static! {
 
 /// Returns the value of an environment variable.
 pub fn getenv(name: &str) -> Option<String> {
-    std::env::vars()
-        .filter(|(n, _)| n == name)
-        .next()
-        .map(|(_, v)| v)
+    std::env::var(name).ok()
 }
-- 
2.43.0


From 6762b5966c087ebe80382f835ac9f8c90b13ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 33/52] fix: the agent package could not be imported with
 Python 3.11 or later

---
 python/procstar/agent/proc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index b804db5..a8e1a5e 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -4,7 +4,7 @@ Processes on connected procstar instances.
 
 import asyncio
 from   collections.abc import Mapping
-from   dataclasses import dataclass
+from   dataclasses import dataclass, field
 from   functools import cached_property
 import logging
 
@@ -70,7 +70,7 @@ class FdData:
     """
     The interval of output bytes contained in this update.
     """
-    interval: Interval = Interval(0, 0)
+    interval: Interval = field(default_factory=lambda: Interval(0, 0))
 
     """
     The output encoding.
-- 
2.43.0


From d3c875abf0025427e8a9d1056b2fde225b6b9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 34/52] fix: some invalid messages to the agent server were not
 recognized as such

---
 python/procstar/proto.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/procstar/proto.py b/python/procstar/proto.py
index 65de6af..a638db7 100644
--- a/python/procstar/proto.py
+++ b/python/procstar/proto.py
@@ -102,6 +102,12 @@ class ConnectionInfo:
     group_id: str
     restricted_exe: str | None
 
+    def __post_init__(self):
+        for name in ("conn_id", "group_id"):
+            if not isinstance(getattr(self, name), str):
+                raise TypeError(f"{name} not a string")
+
+
     def to_jso(self):
         return dict(self.__dict__)
 
@@ -269,7 +275,7 @@ def deserialize_message(msg):
     # Parse MessagePack.
     try:
         jso = msgpack.loads(msg)
-    except msgpack.UnpackException as err:
+    except (msgpack.UnpackException, ValueError) as err:
         raise ProtocolError(f"ws msg JSON error: {err}") from None
     if not isinstance(jso, dict):
         raise ProtocolError("msg not a dict")
@@ -281,7 +287,7 @@ def deserialize_message(msg):
     # Look up the corresponding class.
     try:
         cls = INCOMING_MESSAGE_TYPES[type_name]
-    except KeyError:
+    except (KeyError, TypeError):
         raise ProtocolError(f"unknown msg type: {type_name}") from None
     # Convert to an instance of the message class.
     try:
@@ -290,7 +296,7 @@ def deserialize_message(msg):
         from_jso = lambda o: cls(**o)
     try:
         obj = from_jso(jso)
-    except (TypeError, ValueError) as exc:
+    except (KeyError, TypeError, ValueError) as exc:
         raise ProtocolError(f"invalid {type_name} msg: {exc}") from None
 
     return type_name, obj
-- 
2.43.0


From 3a5a80636eda4a76aaa56398338e1f078407fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 35/52] fix: the end of a replaced agent connection could drop
 the live one

---
 python/procstar/agent/server.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 0af9046..83e67b1 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -241,10 +241,6 @@ class Server:
                             done = True
                         self.connections._publish((conn_id, conn))
 
-            # Update stats.
-            conn.info.stats.connected = False
-            conn.info.stats.last_disconnect_time = now()
-
             await ws.close()
 
         except Exception as exc:
@@ -254,7 +250,19 @@ class Server:
             self.connections._publish((conn_id, conn))
 
         finally:
-            if done:
+            # If the agent has meanwhile reconnected, the new WebSocket is
+            # current, and what follows is up to its handler.
+            is_current = conn.ws is ws
+
+            if is_current:
+                # Update stats.
+                conn.info.stats.connected = False
+                conn.info.stats.last_disconnect_time = now()
+
+            if not is_current:
+                logger.info(f"connection already replaced: {conn_id}")
+
+            elif done:
                 assert self.connections._pop(conn_id) is conn
 
             # Else don't drop the connection yet; the agent may reconnect.  But
-- 
2.43.0


From dc16a3e947aa3b3c83cbc044594af11df40aa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 36/52] fix: processes of an agent that returned after its
 timeout stayed dead

---
 python/procstar/agent/proc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index a8e1a5e..9df6b9c 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -249,13 +249,15 @@ class Processes(Mapping):
                 logger.info(f"new proc on {conn_id}: {proc_id}")
                 return self.create(conn, proc_id)
 
-        def send_by_conn():
+        def pop_by_conn():
             """
-            Dispatches the current msg to all processes on this connection.
+            Removes all processes on this connection, and dispatches the current
+            msg to them.
             """
-            for proc in self.__procs.values():
-                if proc.conn_id == conn_id:
-                    proc._on_message(msg)
+            procs = [ p for p in self.__procs.values() if p.conn_id == conn_id ]
+            for proc in procs:
+                del self.__procs[proc.proc_id]
+                proc._on_message(msg)
 
         match msg:
             case proto.ProcidList(proc_ids):
@@ -295,7 +297,9 @@ class Processes(Mapping):
 
             case proto.ConnectionTimeout():
                 logger.warning(f"agent connection timeout: {conn_id}")
-                send_by_conn()
+                # This ends the updates of these processes.  If the agent returns
+                # after all, we track its processes anew.
+                pop_by_conn()
 
             case proto.ShutDown(shutdown_state):
                 logger.info(f"agent shut down: {conn_id}: {shutdown_state}")
-- 
2.43.0


From 3d6e4e11f4e214dff4b3c37fe41124022c3a201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 37/52] fix: reconnect() without a timeout failed even if the
 agent was connected

---
 python/procstar/agent/server.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 83e67b1..a618148 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -338,13 +338,15 @@ class Server:
         :raise NoConnectionError:
           Timeout waiting for connection.
         """
-        try:
-            conn = await asyncio.wait_for(
-                wait_for_connection(self.connections, conn_id),
-                timeout=conn_timeout
-            )
-        except asyncio.TimeoutError:
-            raise NoConnectionError(conn_id)
+        conn = self.connections.get(conn_id)
+        if conn is None or not conn.open:
+            try:
+                conn = await asyncio.wait_for(
+                    wait_for_connection(self.connections, conn_id),
+                    timeout=conn_timeout
+                )
+            except asyncio.TimeoutError:
+                raise NoConnectionError(conn_id)
 
         try:
             return self.processes[proc_id]
-- 
2.43.0


From 95b0edf091aba19bba02f7b88253ae623321fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 38/52] fix: a cancelled wait, a failed request or a concurrent
 delete() ended the updates of a process

---
 python/procstar/agent/proc.py | 98 +++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 33 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 9df6b9c..19b62cd 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -10,7 +10,6 @@ import logging
 
 from   .exc import ProcessUnknownError
 from   procstar import proto
-from   procstar.lib.asyn import iter_queue
 from   procstar.lib.py import Interval
 import procstar.lib.json
 
@@ -86,6 +85,68 @@ class FdData:
 
 #-------------------------------------------------------------------------------
 
+class Updates:
+    """
+    Async iterator over updates for a process.
+
+    Cancelling a wait for the next update loses no updates.
+    """
+
+    def __init__(self, proc, msgs):
+        self.__proc = proc
+        self.__msgs = msgs
+
+
+    def __aiter__(self):
+        return self
+
+
+    async def __anext__(self):
+        msg = await self.__msgs.get()
+
+        match msg:
+            case proto.ProcResult(_, result):
+                return Result(result)
+
+            case proto.ProcFdData(_, fd, start, stop, encoding, data):
+                # FIXME: Process data.
+                return FdData(
+                    fd      =fd,
+                    interval=Interval(start, stop),
+                    encoding=encoding,
+                    data    =data,
+                )
+
+            case proto.ProcDelete(_):
+                # Done.
+                self.__end(msg)
+                raise StopAsyncIteration
+
+            case proto.ProcUnknown(_):
+                self.__end(msg)
+                raise ProcessUnknownError(self.__proc.proc_id)
+
+            case proto.RequestError(req, err):
+                logger.error(f"agent error: {err}")
+                raise AgentMessageError(req, err)
+
+            case proto.ConnectionTimeout():
+                proc_id, conn_id = self.__proc.proc_id, self.__proc.conn_id
+                logger.warning(f"proc {proc_id}: agent connection timeout: {conn_id}")
+                self.__end(msg)
+                raise ConnectionTimeoutError(conn_id)
+
+            case _:
+                assert False, f"unexpected msg: {msg!r}"
+
+
+    def __end(self, msg):
+        # No further updates.  Keep the final message, for others who wait for
+        # an update, or do so later.
+        self.__msgs.put_nowait(msg)
+
+
+
 class Process:
     """
     A process running under a connected procstar instance.
@@ -117,7 +178,7 @@ class Process:
 
 
     @cached_property
-    async def updates(self):
+    def updates(self):
         """
         A singleton async iterator over updates for this process.
 
@@ -126,40 +187,11 @@ class Process:
         - yield a `FdData` instance
         - terminate if the process is deleted
         - raise `ProcessUnknownError` if the proc ID is unknown
+        - raise `AgentMessageError` if a request for the process failed
         - raise `ConnectionTimeoutError` if the connection timed out
 
         """
-        async for msg in iter_queue(self.__msgs):
-            match msg:
-                case proto.ProcResult(_, result):
-                    yield Result(result)
-
-                case proto.ProcFdData(_, fd, start, stop, encoding, data):
-                    # FIXME: Process data.
-                    yield FdData(
-                        fd      =fd,
-                        interval=Interval(start, stop),
-                        encoding=encoding,
-                        data    =data,
-                    )
-
-                case proto.ProcDelete(_):
-                    # Done.
-                    break
-
-                case proto.ProcUnknown(_):
-                    raise ProcessUnknownError(self.proc_id)
-
-                case proto.RequestError(msg, err):
-                    logger.error(f"agent error: {err}")
-                    raise AgentMessageError(msg, err)
-
-                case proto.ConnectionTimeout():
-                    logger.warning(f"proc {self.proc_id}: agent connection timeout: {self.conn_id}")
-                    raise ConnectionTimeoutError(self.conn_id)
-
-                case _:
-                    assert False, f"unexpected msg: {msg!r}"
+        return Updates(self, self.__msgs)
 
 
     def request_result(self):
-- 
2.43.0


From a9347add1b3c24b303e8a34784fef4c6321df887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 39/52] fix: the deletion of a process crossing a request about
 it ended the connection

---
 python/procstar/agent/proc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 19b62cd..89b0e1b 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -306,7 +306,13 @@ class Processes(Mapping):
                 get_proc(proc_id)._on_message(msg)
 
             case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):
-                self.__procs.pop(proc_id)._on_message(msg)
+                try:
+                    proc = self.__procs.pop(proc_id)
+                except KeyError:
+                    # Already deleted, e.g. another request crossed its deletion.
+                    logger.info(f"unknown proc on {conn_id}: {proc_id}")
+                else:
+                    proc._on_message(msg)
 
             case proto.Register:
                 # We should receive this only immediately after connection.
-- 
2.43.0


From 35a7468c2de1c020582c632c49716b551c4bfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 40/52] fix: a process that could not be started remained among
 the processes

---
 python/procstar/agent/proc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 89b0e1b..1e87cb8 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -325,7 +325,10 @@ class Processes(Mapping):
                     # An error in response to ProcStartRequest may pertain to multiple proc IDs.
                     if msg.msg["type"] == "ProcStartRequest":
                         for proc_id in msg.msg["specs"].keys():
-                            get_proc(proc_id)._on_message(msg)
+                            proc = get_proc(proc_id)
+                            # The process wasn't started.
+                            del self.__procs[proc_id]
+                            proc._on_message(msg)
                     else:
                         # No associated proc ID, or we can't figure it out.
                         logger.error(f"agent error: {msg.err}: {msg.msg}")
-- 
2.43.0


From c87c332e1c4e38e9cba3871d2dd4814aff87f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 41/52] fix: starting a process raced with its first result,
 and with a process that has the ID

---
 python/procstar/agent/proc.py   |  8 ++++++++
 python/procstar/agent/server.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 1e87cb8..8215608 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -262,6 +262,14 @@ class Processes(Mapping):
         return proc
 
 
+    def discard(self, proc):
+        """
+        Stops tracking `proc`.
+        """
+        if self.__procs.get(proc.proc_id) is proc:
+            del self.__procs[proc.proc_id]
+
+
     def on_message(self, conn, msg):
         """
         Processes `msg` to the corresponding process.
diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index a618148..a191216 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -310,8 +310,15 @@ class Server:
             timeout=conn_timeout,
         )
 
-        await conn.send(proto.ProcStartRequest(specs={proc_id: spec}))
-        return self.processes.create(conn, proc_id)
+        # Create the process first: its first result may arrive before the send
+        # completes, and the proc ID must not be in use.
+        proc = self.processes.create(conn, proc_id)
+        try:
+            await conn.send(proto.ProcStartRequest(specs={proc_id: spec}))
+        except BaseException:
+            self.processes.discard(proc)
+            raise
+        return proc
 
 
     async def start(self, *args, **kw_args) -> (Process, Result):
-- 
2.43.0


From f1263d2b842960a75d54d9aceab6dbca11b471f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 42/52] fix: concurrent requests to an agent that reads slowly
 failed, as did one on a closing connection

---
 python/procstar/agent/conn.py | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index b15dfe7..d180aa0 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -4,13 +4,13 @@ Incoming connections to the websocket service.
 
 import asyncio
 from   collections.abc import Mapping
-from   dataclasses import dataclass
+from   dataclasses import dataclass, field
 from   datetime import datetime
 import ipaddress
 import logging
 import random
 import time
-from   websockets.exceptions import ConnectionClosedError
+from   websockets.exceptions import ConnectionClosed
 
 from   .exc import NoOpenConnectionInGroup, NotConnectedError, WebSocketNotOpen
 from   procstar.lib.asyn import Subscribeable
@@ -138,6 +138,10 @@ class Connection:
 
     __reconnect_timeout_task: asyncio.Future = None
 
+    # A websocket doesn't allow concurrent sends if its buffer is full.
+    __send_lock: asyncio.Lock = field(
+        default_factory=asyncio.Lock, repr=False, compare=False)
+
     def __hash__(self):
         return hash(self.info.conn.conn_id)
 
@@ -160,22 +164,24 @@ class Connection:
 
 
     async def send(self, msg):
-        if self.ws is None:
-            raise NotConnectedError(self.conn_id)
-        if not self.ws.open:
-            raise WebSocketNotOpen(self.conn_id)
-
         data = serialize_message(msg)
-        try:
-            await self.ws.send(data)
-        except ConnectionClosedError:
-            assert self.ws.closed
-            # Connection closed.  Don't forget about it; it may reconnect.
-            logger.warning(f"{self.info.socket}: connection closed")
-            # FIXME: Think carefully the temporarily dropped connection logic.
-            raise WebSocketNotOpen(self.conn_id)
-        else:
-            self.info.stats.num_sent += 1
+        async with self.__send_lock:
+            # The connection may have been replaced or lost meanwhile.
+            ws = self.ws
+            if ws is None:
+                raise NotConnectedError(self.conn_id)
+            if not ws.open:
+                raise WebSocketNotOpen(self.conn_id)
+
+            try:
+                await ws.send(data)
+            except ConnectionClosed:
+                # Connection closed.  Don't forget about it; it may reconnect.
+                logger.warning(f"{self.info.socket}: connection closed")
+                # FIXME: Think carefully the temporarily dropped connection logic.
+                raise WebSocketNotOpen(self.conn_id)
+            else:
+                self.info.stats.num_sent += 1
 
 
     async def try_send(self, msg):
-- 
2.43.0


From 0b73d05f52e7571b6813ab4ec48c1470d15757ba Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 43/52] fix: fd specs to inherit or close an fd or for a pipe
 were not understood by procstar

---
 python/procstar/spec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index d6911f3..bc177fd 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -86,14 +86,14 @@ class Proc:
         class Inherit:
 
             def to_jso(self):
-                return {}
+                return "inherit"
 
 
 
         class Close:
 
             def to_jso(self):
-                return {}
+                return "close"
 
 
 
@@ -184,7 +184,7 @@ class Proc:
         class PipeWrite:
 
             def to_jso(self):
-                return {}
+                return "pipe-write"
 
 
 
@@ -197,8 +197,10 @@ class Proc:
 
             def to_jso(self):
                 return {
-                    "proc_id": self.__proc_id,
-                    "fd": self.__fd,
+                    "pipe-read": {
+                        "proc_id"   : self.__proc_id,
+                        "fd"        : self.__fd,
+                    }
                 }
 
 
-- 
2.43.0


From f85c54a109614423c7f88b7e42ee37b0d41acf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 44/52] fix: an env var to inherit was set to 'True' by
 make_proc()

---
 python/procstar/spec.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index bc177fd..dbd78c7 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -252,7 +252,13 @@ def make_proc(what, /, *, env_vars={}, fds={}):
         fds["stderr"] = Proc.Fd.Capture("memory", "utf-8")
     # FIXME: Close the rest.
 
-    env = Proc.Env(inherit=Proc.Env.MINIMUM_ENV_VARS, vars=env_vars)
+    env = Proc.Env(
+        inherit =(
+            *Proc.Env.MINIMUM_ENV_VARS,
+            *( n for n, v in env_vars.items() if v is True ),
+        ),
+        vars    ={ n: v for n, v in env_vars.items() if v is not True },
+    )
 
     return Proc(argv, fds=fds, env=env)
 
-- 
2.43.0


From bed99870f99c8c8874bfb85b6dce984c7d00355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 45/52] fix: the HTTP client could not send a signal by number

---
 python/procstar/http/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index d28ddc9..aa39523 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -5,6 +5,13 @@ import uuid
 
 #-------------------------------------------------------------------------------
 
+def _to_str(val):
+    """
+    Converts a path component, e.g. a process ID, fd, or signal number.
+    """
+    return str(int(val)) if isinstance(val, int) else str(val)
+
+
 class AsyncClient:
 
     def __init__(self, addr, http_client):
@@ -17,7 +24,7 @@ class AsyncClient:
     @contextlib.asynccontextmanager
     async def __request(self, method, *path, jso=None, args={}):
         netloc = f"{self.__host}:{self.__port}"
-        path = "/" + "/".join( quote(p, safe="") for p in path )
+        path = "/" + "/".join( quote(_to_str(p), safe="") for p in path )
         query = "&".join( f"{k}={quote_plus(v)}" for k, v in args.items() )
         url = urlunsplit((
             "http",     # FIXME: HTTPS
@@ -117,7 +124,7 @@ class Client:
 
     def __request(self, method, *path, jso=None, args={}):
         netloc = f"{self.__host}:{self.__port}"
-        path = "/" + "/".join( quote(p, safe="") for p in path )
+        path = "/" + "/".join( quote(_to_str(p), safe="") for p in path )
         query = "&".join( f"{k}={quote_plus(v)}" for k, v in args.items() )
         url = urlunsplit((
             "http",     # FIXME: HTTPS
-- 
2.43.0


From 824a156fe49dc9098ece638e2bf471108f30a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 46/52] fix: the HTTP client decoded output that is not text

---
 python/procstar/http/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index aa39523..47bb831 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -88,7 +88,11 @@ class AsyncClient:
                 "GET", "procs", proc_id, "output", fd, "data"
         ) as rsp:
             rsp.raise_for_status()
-            return rsp.content if rsp.encoding is None else rsp.text
+            # The response has a charset only if the output is text.
+            return (
+                rsp.content if rsp.charset_encoding is None
+                else rsp.text
+            )
 
 
     async def delete_proc(self, proc_id):
-- 
2.43.0


From 55ba6f91f7161c54c30d717f5345261cd2d56b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 47/52] fix: a process whose ID was in use for a failed start
 was lost

---
 python/procstar/agent/proc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index 8215608..2643d5c 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -165,6 +165,8 @@ class Process:
         self.proc_id = proc_id
         # FIXME: Receive proc-specific errors.
         self.errors = []
+        # True if the agent has sent a result.
+        self.had_result = False
         self.__msgs = asyncio.Queue()
 
 
@@ -174,6 +176,8 @@ class Process:
 
 
     def _on_message(self, msg):
+        if isinstance(msg, proto.ProcResult):
+            self.had_result = True
         self.__msgs.put_nowait(msg)
 
 
@@ -334,8 +338,10 @@ class Processes(Mapping):
                     if msg.msg["type"] == "ProcStartRequest":
                         for proc_id in msg.msg["specs"].keys():
                             proc = get_proc(proc_id)
-                            # The process wasn't started.
-                            del self.__procs[proc_id]
+                            # The process wasn't started.  If it nevertheless
+                            # had a result, the agent has another with this ID.
+                            if not proc.had_result:
+                                del self.__procs[proc_id]
                             proc._on_message(msg)
                     else:
                         # No associated proc ID, or we can't figure it out.
-- 
2.43.0


From 8cca49a913a5105ea2fbf921c6c2e5445ceeb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 48/52] fix: percent-encoded process IDs in HTTP request paths
 were not decoded

---
 src/http.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index c89a3c6..96a1f4d 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -156,6 +156,30 @@ async fn procs_output_data_get(procs: SharedProcs, proc_id: &str, fd: &str) -> R
 
 //------------------------------------------------------------------------------
 
+/// Decodes percent-encoded octets in a path component.
+fn percent_decode(component: &str) -> String {
+    fn hex(b: Option<&u8>) -> Option<u8> {
+        b.and_then(|b| (*b as char).to_digit(16)).map(|d| d as u8)
+    }
+
+    let bytes = component.as_bytes();
+    let mut decoded = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        match (bytes[i], hex(bytes.get(i + 1)), hex(bytes.get(i + 2))) {
+            (b'%', Some(h), Some(l)) => {
+                decoded.push(h << 4 | l);
+                i += 3;
+            }
+            (b, _, _) => {
+                decoded.push(b);
+                i += 1;
+            }
+        }
+    }
+    String::from_utf8(decoded).unwrap_or_else(|_| component.to_owned())
+}
+
 struct Router {
     router: matchit::Router<i32>,
 }
@@ -196,7 +220,7 @@ impl Router {
         let (parts, body) = req.into_parts();
         match self.router.at(parts.uri.path()) {
             Ok(m) => {
-                let param = |p| m.params.get(p).unwrap();
+                let param = |p| percent_decode(m.params.get(p).unwrap());
                 match (m.value, parts.method.clone()) {
                     // Match route numbers obtained from the matchit router, and
                     // methods.
@@ -208,15 +232,17 @@ impl Router {
                         };
                         json_response(procs_post(procs, input).await)
                     }
-                    (1, Method::GET) => json_response(procs_id_get(procs, param("id")).await),
-                    (1, Method::DELETE) => json_response(procs_id_delete(procs, param("id")).await),
+                    (1, Method::GET) => json_response(procs_id_get(procs, &param("id")).await),
+                    (1, Method::DELETE) => {
+                        json_response(procs_id_delete(procs, &param("id")).await)
+                    }
 
                     (2, Method::POST) => json_response(
-                        procs_signal_signum_post(procs, param("id"), param("signum")).await,
+                        procs_signal_signum_post(procs, &param("id"), &param("signum")).await,
                     ),
 
                     (3, Method::GET) => {
-                        procs_output_data_get(procs, param("id"), param("fd")).await
+                        procs_output_data_get(procs, &param("id"), &param("fd")).await
                     }
                     // Route number (i.e. path match) but no method match.
                     (_, _) => json_response(Err(RspError(StatusCode::METHOD_NOT_ALLOWED, None))),
-- 
2.43.0


From b0a25e910e795f3fffae793d8e242045bdcf892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 49/52] fix: processes of an agent that shut down stayed, with
 updates that never ended

---
 python/procstar/agent/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index a191216..2865ad9 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -264,6 +264,11 @@ class Server:
 
             elif done:
                 assert self.connections._pop(conn_id) is conn
+                # The agent is gone, with any processes it still had.
+                for proc in list(self.processes.values()):
+                    if proc.conn_id == conn_id:
+                        self.processes.on_message(
+                            conn, proto.ProcUnknown(proc.proc_id))
 
             # Else don't drop the connection yet; the agent may reconnect.  But
             # we may add a timeout to do this.
-- 
2.43.0


From b7cde999e4ffe03b42243bd9116a63458b619dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 50/52] fix: an HTTP client that disconnected early spoiled the
 results that are printed

The error was written to stdout, to which --print writes the results as JSON.
---
 src/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 96a1f4d..c87619c 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -300,7 +300,7 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
                 .serve_connection(stream, service)
                 .await
             {
-                println!("Error serving connection: {:?}", err);
+                error!("failed to serve connection: {}", err);
             }
         });
     }
-- 
2.43.0


From 8c29d331ad79ad95f90690265e83de6aab8fa50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 51/52] fix: agent failed to start if the host name has 64
 characters

---
 src/sys.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sys.rs b/src/sys.rs
index 058e570..8708986 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -446,7 +446,8 @@ pub fn get_groupname() -> Option<String> {
 const HOST_NAME_MAX: usize = 64;
 
 pub fn get_hostname() -> String {
-    let mut buffer = vec![0u8; HOST_NAME_MAX];
+    // Leave room for the terminating null.
+    let mut buffer = vec![0u8; HOST_NAME_MAX + 1];
     let ret = unsafe { libc::gethostname(buffer.as_mut_ptr() as *mut i8, buffer.len()) };
     match ret {
         0 => {
-- 
2.43.0


From 9086ca8ad8da6208f82a4f6ca41c9d33b5b43836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 52/52] fix: the agent's access token was logged

---
 src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/agent.rs b/src/agent.rs
index fafb35a..d9679d3 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -118,7 +118,9 @@ async fn connect(
         access_token: get_access_token(),
         shutdown_state: procs.get_shutdown(),
     };
-    send(&mut sender, register).await?;
+    // Don't use `send()`, which would log the access token.
+    trace!("> Register");
+    sender.send(Message::Binary(serialize(&register)?)).await?;
 
     // The first message we received should be Registered.
     let msg = receiver.next().await;
-- 
2.43.0

