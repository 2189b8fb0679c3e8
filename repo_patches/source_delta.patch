From 3e13ea3634186169006ed2d06aa6ced4aeb99084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 01/76] fix: command substitution closed its pipe twice,
 aborting the shell

---
 src/ast.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8051d66..5418124 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -404,7 +404,6 @@ impl SimpleCommand {
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
                 waitpid(child, None).unwrap();
                 file.read_to_string(&mut buf).unwrap();
-                nix::unistd::close(pip.0).unwrap();
                 buf.trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
-- 
2.43.0


From 8505dbe44fe5899527de80a61f0783cc891768e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 02/76] fix: command substitution waited for the child before
 draining the pipe (deadlock on large output)

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 5418124..ebae82f 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -402,8 +402,8 @@ impl SimpleCommand {
                 nix::unistd::close(pip.1).unwrap();
                 let mut buf = String::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                waitpid(child, None).unwrap();
                 file.read_to_string(&mut buf).unwrap();
+                waitpid(child, None).unwrap();
                 buf.trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
-- 
2.43.0


From 80a4ec9cc8bf7716583da63971ef1ce67fa7b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 03/76] fix: a syntax error inside a command substitution
 aborted the shell

---
 src/ast.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index ebae82f..34e257b 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -391,9 +391,14 @@ impl SimpleCommand {
         let subshell = &chars.collect::<String>();
 
         let lexer = Lexer::new(&subshell);
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&subshell,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&subshell,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    eprintln!("Error: {:?}", err);
+                    return String::new();
+                }
+            };
 
         let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
 
-- 
2.43.0


From 8178b47dd4fbc3a5d5f9c4ef43ce957e5dec5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 04/76] fix: a '$' inside double quotes lost the next
 character, or panicked at the end of the word

---
 src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 34e257b..8131aa1 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -342,8 +342,8 @@ impl SimpleCommand {
         let mut subshell = String::new();
 
         if chr == '$' {
-            let Some(c) = chars.next() else { panic!("Unexpected EOF") };
             subshell.push(chr);
+            let Some(c) = chars.next() else { return subshell };
             if c == '(' {
                 subshell.push(c);
                 while let Some(c) = chars.next() {
@@ -356,6 +356,9 @@ impl SimpleCommand {
                 
 
             }
+            else {
+                subshell.push(c);
+            }
         }
         else {
             subshell.push(chr);
-- 
2.43.0


From 211ca3856b9aac3cf758ffeb55cb113d9d6949b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 05/76] fix: '>' did not truncate an existing file

---
 src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.rs b/src/eval.rs
index 1c83e5e..5c4f991 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -406,6 +406,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                     let file = OpenOptions::new()
                         .write(true)
                         .create(true)
+                        .truncate(true)
                         .open(&io_file.filename)
                         .unwrap();
                     dup2(file.as_raw_fd(), 1).unwrap();
-- 
2.43.0


From 57c894816c1002981dcf55e11dc28996c4f58b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 06/76] fix: waiting panicked while any other process of the
 shell was still running, and took a pipeline's status from its first command

---
 src/jobs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 94e50cf..c92e2e9 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -534,9 +534,11 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
                 stopped = true;
             }
         }
-        let stop_status = jb.borrow().processes[0].status.unwrap();
-        jb.borrow_mut().stop_status = stop_status;
         if this_job.is_some() {
+            let stop_status = jb.borrow().processes.last().and_then(|process| process.status);
+            if let Some(stop_status) = stop_status {
+                jb.borrow_mut().stop_status = stop_status;
+            }
             if state != JobState::Running {
                 this_job.as_ref().unwrap().borrow_mut().changed = true;
 
-- 
2.43.0


From 1eefa854b6e515925cd13fe7df306c15f8cd67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 07/76] fix: waiting for a pipeline returned as soon as one of
 its processes had exited

---
 src/jobs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index c92e2e9..1cf7f29 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -602,7 +602,7 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 
         block &= !DOWAIT_WAITCMD_ALL;
 
-        if pid.is_ok() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
+        if job.is_none() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
             block = DOWAIT_NONBLOCK;
         }
        
-- 
2.43.0


From 1b6952a44fe08b3af9f156756cb98863823872ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 08/76] fix: the SIGCHLD handler could steal the status of a
 process being waited for, and a failed wait left signals blocked

---
 src/jobs.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 1cf7f29..f663f31 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -469,15 +469,10 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
 
     let mut this_job: Option<Rc<RefCell<Job>>> = None;
 
-    // block interapt
-    trap::interrupts_off();
-
     let result = wait_process(block)?;
 
 
     if result.pid().is_none() {
-        // unblock interupt
-        trap::interrupts_on();
         if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
 
             let output = format_status(result, true);
@@ -554,9 +549,6 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         }
     }
 
-    // unblock interupts
-    trap::interrupts_on();
-
     if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
 
         let output = format_status(result, true);
@@ -584,6 +576,9 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
     }
 
     let mut return_pid = 1;
+
+    // the SIGCHLD handler must not reap a process of this job between two waits
+    trap::interrupts_off();
     
     loop {
         let pid = wait_one(block, &job);
@@ -612,6 +607,8 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 
     }
 
+    trap::interrupts_on();
+
     return_pid
 }
 
-- 
2.43.0


From 225a9ed19d1453ada51239c5f6475752fb2f7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 09/76] fix: the SIGCHLD handler blocked the shell until a
 background pipeline had finished

---
 src/jobs.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index f663f31..5b14fcb 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -409,7 +409,7 @@ impl Display for Job {
 ///
 /// This variant of the function is similar to to wait_for_job but also takes in a WaitStatus.
 /// This is called from a SIGCHLD handler as we need to to know the if the job only has one process or not.
-/// If the job has more than one process then we call the normal wait_for_job function.
+/// It runs inside the signal handler, so it must never block.
 pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -> WaitStatus {
 
     if job.is_none() {
@@ -417,7 +417,10 @@ pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -
     }
     let job = job.unwrap();
 
-    if job.borrow().processes.len() == 1 {
+    let finished = job.borrow().processes.iter()
+        .all(|process| matches!(process.status, Some(WaitStatus::Exited(..)) | Some(WaitStatus::Signaled(..))));
+
+    if finished {
         job.borrow_mut().stop_status = status;
         job.borrow_mut().state = JobState::Finished;
         let id = {
@@ -426,10 +429,11 @@ pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -
         shell::delete_job(id);
         return status;
     }
-    trap::interrupts_off();
-    let result = wait_for_job(Some(job));
-    trap::interrupts_on();
-    result
+    if matches!(status, WaitStatus::Stopped(..)) {
+        job.borrow_mut().stop_status = status;
+        job.borrow_mut().state = JobState::Stopped;
+    }
+    status
 }
 
 /// This function waits for a job to finish.
-- 
2.43.0


From bf67113d12b01759ce3fa697df35cc43c1986ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 10/76] fix: children that exited together were not all reaped

---
 src/trap.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/trap.rs b/src/trap.rs
index 0d22b4c..3da8e50 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -188,7 +188,7 @@ extern "C" fn on_sig(sig_num: c_int) {
         if sig_num == signal::SIGCHLD as c_int {
             GOT_SIGCHLD.store(true, Ordering::Relaxed);
 
-            sig_chld();
+            while sig_chld() {}
             
             
 
@@ -221,13 +221,14 @@ extern "C" fn on_sig(sig_num: c_int) {
 ///
 /// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
 /// If the process is in the background then we can wait on it.
-fn sig_chld() {
+/// Reaps at most one child. Returns false when there is nothing left to reap.
+fn sig_chld() -> bool {
     let pid = Pid::from_raw(-1);
 
     let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
     let result = waitpid(pid, Some(flag));
     if result.is_err() {
-        return;
+        return false;
     }
     let status = result.unwrap();
     let pid;
@@ -245,16 +246,16 @@ fn sig_chld() {
             status
         },
         WaitStatus::StillAlive => {
-            return;
+            return false;
         },
         _ => {
-            return;
+            return true;
         }, 
     };
 
     let job = shell::get_job(*pid);
     if job.is_none() {
-        return;
+        return true;
     }
     job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
    
@@ -275,6 +276,7 @@ fn sig_chld() {
         
         jobs::wait_for_job_sigchld(job, status);
     }
+    true
 }
 
 /// This functions is called if the signal was a SIGINT.
-- 
2.43.0


From 10fd900e327d25a5a649cb94b94ab5a50524e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 11/76] fix: unsetting PS1 or PS4 crashed the shell

---
 src/jobs.rs | 8 ++++----
 src/main.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 5b14fcb..cecacf8 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -252,7 +252,7 @@ impl Display for JobControl {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap(), job.borrow()));
+            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         }
         write!(f, "{}", s)
     }
@@ -679,14 +679,14 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             if dump {
                 output.push_str(&format!("({}) (core dumped)", signal));
             }
@@ -699,7 +699,7 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             output.push_str(&format!("({})", signal));
         },
         _ => return None,
diff --git a/src/main.rs b/src/main.rs
index a7e4f64..2ead710 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,7 +186,7 @@ fn interactive_loop() {
     loop {
         let input;
 
-        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
+        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap_or_default().as_str());
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
-- 
2.43.0


From 03227851cf7138b588900d6debd0354b58e5b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 12/76] fix: the jobs builtin crashed whenever there was a job,
 and listed finished jobs forever

---
 src/jobs.rs  |  8 ++++----
 src/shell.rs | 12 ++++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index cecacf8..448599a 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -248,13 +248,13 @@ impl JobUtils<JobId> for JobControl {
 }
 
 /// This implementation allows us to print out the job table.
-impl Display for JobControl {
-    fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
+impl JobControl {
+    pub fn display(&self, ps4: &str) -> String {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
+            s.push_str(&format!("[{}] {}{}\n",id, ps4, job.borrow()));
         }
-        write!(f, "{}", s)
+        s
     }
 }
 
diff --git a/src/shell.rs b/src/shell.rs
index ee89cdb..f44b2a3 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -215,8 +215,8 @@ impl Shell {
 
     /// This function returns a formatted String with all of the jobs to be printed out.
     /// This is so that it can be used in a way to prevent deadlocks if needed.
-    pub fn display_jobs(&self) -> String {
-        format!("{}",self.job_control)
+    pub fn display_jobs(&self, ps4: &str) -> String {
+        self.job_control.display(ps4)
     }
 
     /// This function gets the last job that was created.
@@ -497,8 +497,12 @@ where
 
 /// This function returns a string that contains all the jobs in the shell.
 pub fn display_jobs() -> String {
-    let shell = SHELL.get().borrow();
-    shell.display_jobs()
+    // formatting a job looks up PS4, so the shell must not be borrowed meanwhile
+    let ps4 = expand_var("PS4").unwrap_or_default();
+    let mut shell = SHELL.get().borrow_mut();
+    let jobs = shell.display_jobs(&ps4);
+    shell.job_control.clear_completed_jobs();
+    jobs
 }
 
 /// This function gets the last job in the shell.
-- 
2.43.0


From 6000543a0b6e736627ca26e217393a1045a6de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 13/76] fix: signals stayed blocked after a builtin, an error
 or a failed pipe

---
 src/eval.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 5c4f991..44738b1 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -112,6 +112,15 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 /// handle it.
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
 fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
+    let result = run_pipeline(pipeline);
+
+    //unblock interrupts, whichever way the pipeline ended
+    trap::interrupts_on();
+
+    result
+}
+
+fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     let background = pipeline.background;
     let mut pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
@@ -293,10 +302,6 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     //let job = temp_exec(processes)?;
 
-    
-    //unblock interrupts
-    trap::interrupts_on();
-
     Ok(get_exit_code())
 }
 
-- 
2.43.0


From 1a57a873055700265f6993781a7020661b048652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 14/76] fix: a pipeline was launched with SIGCHLD unblocked, so
 a child could be reaped before its pid was known

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 44738b1..cb8d9c4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -179,6 +179,9 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     
 
+    // evaluating a builtin or a function above may have unblocked interrupts again
+    trap::interrupts_off();
+
     let proc_count;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
-- 
2.43.0


From aca3cb2c009b0158f7f87b2d061003e78b39ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 15/76] fix: a command killed or stopped by a signal kept the
 previous command's exit status

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index cb8d9c4..83c5f33 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -289,6 +289,9 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                 WaitStatus::Exited(_, status) => {
                     set_exit_status(status);
                 },
+                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+                    set_exit_status(128 + signal as i32);
+                },
                 _ => (),
             }
         }
-- 
2.43.0


From 3802a4cb1530f40f23aa8f05dff886ab7fee4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 16/76] fix: '! cmd &' ran in the foreground

---
 src/grammar.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index c71df9e..07df683 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -78,7 +78,7 @@ Pipeline: ast::Pipeline = {
     <ps:PipelineSeq> => ast::Pipeline{bang: false, pipe_sequence: ps, background: false},
     <bang:"bang"> <ps:PipelineSeq> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
     <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: false, pipe_sequence: ps, background: true},
-    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
+    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: true},
 }
 
 PipelineSeq: ast::PipeSequence = {
-- 
2.43.0


From 8beda180fc8d887b913c2f7741da9f9397d6cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 17/76] fix: '!' did not negate the status of a pipeline

---
 src/eval.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 83c5f33..42b481f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -112,7 +112,14 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 /// handle it.
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
 fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
-    let result = run_pipeline(pipeline);
+    let mut result = run_pipeline(pipeline);
+
+    if pipeline.bang {
+        if let Ok(status) = &mut result {
+            *status = if *status == 0 { 1 } else { 0 };
+            set_exit_status(*status);
+        }
+    }
 
     //unblock interrupts, whichever way the pipeline ended
     trap::interrupts_on();
-- 
2.43.0


From 7396001d60d4fde6fc06a9ba53b60ad740acf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 18/76] fix: the descriptor number of a redirection ('2>') was
 ignored

---
 src/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 42b481f..0426bfc 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -417,7 +417,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .open(&io_file.filename)
                         .unwrap();
                     
-                    dup2(file.as_raw_fd(), 0).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(0)).unwrap();
                     mem::forget(file);
                 },
                 RedirectType::Output => {
@@ -427,7 +427,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .truncate(true)
                         .open(&io_file.filename)
                         .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
                     mem::forget(file);
                 },
                 RedirectType::Append => {
@@ -437,7 +437,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .create(true)
                         .open(&io_file.filename)
                         .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
                     mem::forget(file);
                 },
                 _ => (),
-- 
2.43.0


From b45524142f564f08bb4632b386f746fe783d96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 19/76] fix: a prefix assignment lost everything after a second
 '=' in its value

---
 src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 0426bfc..3af8ec8 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -400,8 +400,9 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-        let assign = assign.split('=').collect::<Vec<&str>>();
-        env::set_var(&assign[0], &assign[1]);
+        if let Some((name, value)) = assign.split_once('=') {
+            env::set_var(name, value);
+        }
     }
 }
 
-- 
2.43.0


From b47e28fbc0cd90b1897052247d813a7127a4bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 20/76] fix: a function in a pipeline ran outside of the
 pipeline and its neighbours crashed

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 3af8ec8..c2be895 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -155,7 +155,7 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
    
     let mut remove_index: Vec<usize> = Vec::new();
     
-    if !background {
+    if !background && commands.len() == 1 {
         for (index,command) in commands.iter_mut().enumerate() {
             if shell::is_function(&command.name) {
                 remove_index.push(index);
-- 
2.43.0


From 42d800b15a72b18d6297a7e6a59f01f036abc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 21/76] fix: 'exec' of an unknown command left the shell
 without its signal handlers

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index c2be895..c17a26f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -673,8 +673,6 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
     //set env
     //
     //set assignments
-  
-    jobs::fork_reset();
 
     let argv0 = match shell::lookup_command(&process.argv0) {
         Some(cmd) => cmd,
@@ -683,6 +681,8 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
         }
     };
 
+    jobs::fork_reset();
+
     let command = CString::new(argv0).unwrap();
 
 
-- 
2.43.0


From e8130d1b9db017005892308f3f268a382f516523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 22/76] fix: a failing builtin aborted the whole list instead
 of setting the exit status

---
 src/eval.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index c17a26f..c4d497a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -150,7 +150,7 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     }
     
     if processes.len() == 0 {
-        return Ok(0);
+        return Ok(get_exit_code());
     }
    
     let mut remove_index: Vec<usize> = Vec::new();
@@ -343,6 +343,7 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
     let name = &function_definition.name;
     let body = function_definition.function_body.clone();
     shell::add_function(&name, body);
+    set_exit_status(0);
     Ok(None)
 }
 
@@ -492,12 +493,16 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
 
     let result = call_builtin(command);
 
-    if result.is_err() {
-        return Err(format!("{}", result.err().unwrap()));
-    }
-    else {
-        return Ok(None)
+    match result {
+        Err(err) => {
+            eprintln!("{}: {}", command.name, err);
+            set_exit_status(1);
+        },
+        // these leave the status of what they evaluated, or were asked for
+        Ok(_) if matches!(command.name.as_str(), "return" | "eval" | "." | "source") => {},
+        Ok(_) => set_exit_status(0),
     }
+    Ok(None)
     
 }
 
-- 
2.43.0


From 84dc55d457021f1a376e0948a0c7d9cc67ce0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 23/76] fix: a function's exit status was always 0, and a
 function called inside a subprocess ended it after its first command

---
 src/eval.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index c4d497a..35f7977 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -163,18 +163,12 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                 let result = eval_function(command);
                 
                 match result {
-                    Ok(_) => {},
+                    Ok(status) => set_exit_status(status),
                     Err(_) => {
                         eprintln!("{}: Command not found\n", command.name);
-                        std::process::exit(1);
+                        set_exit_status(127);
                     }
                 }
-                if shell::get_forked() {
-                    std::process::exit(0);
-                }
-                else {
-                    set_exit_status(0);
-                }
             }
 
         }
@@ -247,13 +241,12 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                     let result = eval_function(&mut commands[count]);
                     
                     match result {
-                        Ok(_) => {},
+                        Ok(status) => std::process::exit(status),
                         Err(_) => {
                             eprintln!("{}: Command not found\n", commands[count].name);
                             std::process::exit(1);
                         }
                     }
-                    std::process::exit(0);
                 }
                 else {
                     match temp_exec(process) {
@@ -604,25 +597,31 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
 
     let mut function = function.unwrap().borrow().clone();
 
-    eval_compound_command(&mut function.compound_command);
+    let result = eval_compound_command(&mut function.compound_command);
     shell::pop_context();
 
-    Ok(0)//todo: change this to return the right exit code
+    match result {
+        Ok(status) => Ok(status),
+        Err(err) => {
+            eprintln!("{}: {}", command.name, err);
+            Ok(1)
+        }
+    }
 }
 
 /// This function evaluates a CompoundCommand.
-fn eval_compound_command(command: &mut CompoundCommand) {
+fn eval_compound_command(command: &mut CompoundCommand) -> Result<i32,String> {
     match command {
         CompoundCommand::BraceGroup(bg) => {
-            eval_compound_list(&mut bg.0);
+            eval_compound_list(&mut bg.0)
         }
         _ => unimplemented!(),
     }
 }
 
 /// This function evaluates a CompoundList.
-fn eval_compound_list(compound_list: &mut CompoundList) {
-    parse_tree(&mut compound_list.0.0);
+fn eval_compound_list(compound_list: &mut CompoundList) -> Result<i32,String> {
+    parse_tree(&mut compound_list.0.0)
 }
 
 /// This function is a wraper for fork().
-- 
2.43.0


From c575b1cfed19bce873cd1a75ea612c8751ac0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 24/76] fix: starting a background job kept the previous
 command's exit status

---
 src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.rs b/src/eval.rs
index 35f7977..3bb3485 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -296,6 +296,7 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             }
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
+            set_exit_status(0);
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
         }
         else if proc_count == 0 {
-- 
2.43.0


From e75c440a9900b2a4aff3f57c139a0f49ce384d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 25/76] fix: variables lost everything after a second '=' in
 their value

---
 src/builtins.rs |  8 ++------
 src/context.rs  | 14 ++------------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 59d9f72..2337f4f 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -302,9 +302,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "export context needs an argument"));
         }
         if suffix.word[1].as_str().contains('=') {
-            let mut split = suffix.word[1].split('=');
-            let namespace = split.next().unwrap();
-            let file = split.next().unwrap();
+            let (namespace, file) = suffix.word[1].split_once('=').unwrap();
             
             if file == "self" {
                 let context = shell::get_current_context();
@@ -349,9 +347,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             continue;//TODO: make this read argument
         }
-        let mut split = word.split('=');
-        let key = split.next().unwrap();
-        let value = split.next().unwrap();
+        let (key, value) = word.split_once('=').unwrap();
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
     }
diff --git a/src/context.rs b/src/context.rs
index 7609ece..1c0196e 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -517,12 +517,7 @@ impl ContextUtils<&str> for Context {
     /// # Arguments
     /// * `var` - The &str set that is to be added to the context.
     fn add_var(&mut self, var: &str) {
-        let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
-            (split.next().unwrap(), split.next().unwrap())
-        } else {
-            (var, "")
-        };
+        let (name, value) = var.split_once('=').unwrap_or((var, ""));
 
         let var_struct = Var::new(name, &Self::trim(value));
     
@@ -540,12 +535,7 @@ impl ContextUtils<&str> for Context {
     }
 
     fn add_var_readonly(&mut self, var: &str) {
-        let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
-            (split.next().unwrap(), split.next().unwrap())
-        } else {
-            (var, "")
-        };
+        let (name, value) = var.split_once('=').unwrap_or((var, ""));
 
         let mut var_struct = Var::new(name, &Self::trim(value));
     
-- 
2.43.0


From c317b6afbb6e90e134327351cd7fc55c29e1ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 26/76] fix: setting a variable whose name starts with a digit
 could crash the shell

---
 src/context.rs | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1c0196e..e854686 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -520,15 +520,6 @@ impl ContextUtils<&str> for Context {
         let (name, value) = var.split_once('=').unwrap_or((var, ""));
 
         let var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
 
 
         self.add_var(var_struct);
@@ -538,15 +529,6 @@ impl ContextUtils<&str> for Context {
         let (name, value) = var.split_once('=').unwrap_or((var, ""));
 
         let mut var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
 
         var_struct.readonly = true;
         
@@ -563,15 +545,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var(&mut self, (name, value): (&str, &str)) {
         let var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
 
         self.add_var(var_struct);
     }
@@ -580,15 +553,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
         let mut var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
         var_struct.readonly = true;
 
         self.add_var(var_struct);
-- 
2.43.0


From 64f5c0ee8f8d5bd5939bf3366a6a222a5ba65a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 27/76] fix: only the first of several assignments took effect,
 and a redirection without a command crashed the shell

---
 src/builtins.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2337f4f..9077c67 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -358,9 +358,11 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This evaluates an assignment which is a SimpleCommand with a prefix that is a string of the form 'variable=value'.
 pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
-
-
-    shell::add_var_context(command.prefix.as_ref().unwrap().assignment[0].as_str());
+    if let Some(prefix) = command.prefix.as_ref() {
+        for assignment in prefix.assignment.iter() {
+            shell::add_var_context(assignment.as_str());
+        }
+    }
     Ok(())
 }
 
-- 
2.43.0


From 5c384f744ed56e4770a90d6c22237c695c163391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 28/76] fix: a variable in the value of an assignment was not
 expanded

---
 src/ast.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8131aa1..c0fec9e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -283,10 +283,8 @@ impl SimpleCommand {
         if self.prefix.is_some() {
             for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
                 if word.contains("$") {
-                    let mut split = word.split("=");
-                    let var = split.next().unwrap();
-                    let val = split.next().unwrap();
-                    let val = match shell::expand_var(val) {
+                    let Some((var, val)) = word.split_once('=') else { continue };
+                    let val = match val.strip_prefix('$').and_then(shell::expand_var) {
                         Some(expanded) => {
                             expanded
                         }
-- 
2.43.0


From c51dbe1e1c76d3281640a502e50c7dbedcbc63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 29/76] fix: 'cd' without an argument crashed the shell

---
 src/builtins.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 9077c67..2395ecc 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -51,10 +51,12 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     
     trap::interrupts_off();
     let path;
-    if command.suffix.is_none() {
-        path = env::var("HOME").unwrap();
-    } else {
-        path = command.suffix.as_ref().unwrap().word[0].to_string();
+    match command.suffix.as_ref().and_then(|suffix| suffix.word.first()) {
+        Some(dir) => path = dir.to_string(),
+        None => match env::var("HOME") {
+            Ok(home) => path = home,
+            Err(_) => return Err(std::io::Error::new(std::io::ErrorKind::Other, "HOME not set")),
+        },
     }
     env::set_current_dir(path)?;
     trap::interrupts_on();
-- 
2.43.0


From 03e2b794bf07e0f186276bfdbc727efb7f3b1630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 30/76] fix: 'exit' and 'return' with a non-numeric argument
 crashed the shell

---
 src/builtins.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2395ecc..c1c0ba1 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -75,7 +75,10 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = match command.suffix.as_ref().unwrap().word[0].parse::<i32>() {
+        Ok(code) => code,
+        Err(_) => return Err(std::io::Error::new(std::io::ErrorKind::Other, "numeric argument required")),
+    };
 
     exit(code);
 }
@@ -90,7 +93,10 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = match command.suffix.as_ref().unwrap().word[0].parse::<i32>() {
+        Ok(code) => code,
+        Err(_) => return Err(std::io::Error::new(std::io::ErrorKind::Other, "numeric argument required")),
+    };
 
     eval::set_exit_status(code);
     Ok(())
-- 
2.43.0


From 2d8fa9c7bf10e4b6d589c69ca716602aae9180f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 31/76] fix: 'fg' and 'bg' crashed the shell without an
 argument or with one that is no number

---
 src/builtins.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index c1c0ba1..548386b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -117,23 +117,27 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     trap::interrupts_off();
     let id;
     let id_type;
-    if command.suffix.is_none() {
-        return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
-    }
-    if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
-        let mut chars = command.suffix.as_ref().unwrap().word[0].chars();
-        chars.next();
-        id = chars.as_str().parse().unwrap();
+    let word = match command.suffix.as_ref().and_then(|suffix| suffix.word.first()) {
+        Some(word) => word,
+        None => return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument")),
+    };
+    let digits;
+    if let Some(jid) = word.strip_prefix('%') {
+        digits = jid;
         id_type = IdType::Jid;
     } else {
-        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>().unwrap();
+        digits = word.as_str();
         id_type = IdType::Pid;
     }
+    match digits.parse::<u32>() {
+        Ok(number) => id = number as usize,
+        Err(_) => return Err(std::io::Error::new(std::io::ErrorKind::Other, "no such job")),
+    }
 
     if command.name == "fg" {
-        fg(id.try_into().unwrap(), id_type)?;
+        fg(id, id_type)?;
     } else {
-        bg(id.try_into().unwrap(), id_type)?;
+        bg(id, id_type)?;
     }
     trap::interrupts_on();
 
-- 
2.43.0


From 9245171d6506b1b5423c5b39cae43ac59897ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 32/76] fix: continuing a job crashed the shell when one of its
 processes had ended, and the others still counted as stopped

---
 src/builtins.rs |  9 +++++++--
 src/jobs.rs     | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 548386b..362cc77 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -170,8 +170,11 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = false;
 
+    job.as_ref().unwrap().borrow_mut().clear_stopped();
+
     for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
+        // a process of the job may have ended already
+        let _ = kill(process.pid, Signal::SIGCONT);
     }
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
@@ -202,9 +205,11 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = true;
+    job.as_ref().unwrap().borrow_mut().clear_stopped();
     
     for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
+        // a process of the job may have ended already
+        let _ = kill(process.pid, Signal::SIGCONT);
     }
 
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
diff --git a/src/jobs.rs b/src/jobs.rs
index 448599a..3c2bafc 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -373,6 +373,16 @@ impl Job {
         &mut self.processes
     }
 
+    /// This method forgets that processes of the job were stopped, as they are about to be continued.
+    pub fn clear_stopped(&mut self) {
+        self.stop_status = WaitStatus::StillAlive;
+        for process in &mut self.processes {
+            if matches!(process.status, Some(WaitStatus::Stopped(..))) {
+                process.status = None;
+            }
+        }
+    }
+
     /// This method sets the status of a process in the job via the pid.
     pub fn set_process_status(&mut self, pid: Pid, status: WaitStatus) {
         for process in &mut self.processes {
-- 
2.43.0


From 92928a25c36c7b78d8d27374364c08be09e9901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 33/76] fix: 'alias' and 'unalias' crashed the shell without an
 argument, and took any word with '-p' or '-a' in it for the option

---
 src/builtins.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 362cc77..925e748 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -223,11 +223,11 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is empty, it will print out all of the current aliases.
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         shell::display_aliases();
         return Ok(());
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if command.suffix.as_ref().unwrap().word[0] == "-p" {
         shell::display_aliases();
         return Ok(());
     }
@@ -247,13 +247,13 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'alias'.
 /// If the suffix is '-a', it will remove all of the current aliases.
 pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word.len() > 1 {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias only takes one argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-a") {
+    if command.suffix.as_ref().unwrap().word[0] == "-a" {
         shell::clear_aliases();
         return Ok(());
     }
-- 
2.43.0


From 5fe8020473b749790e8775f4e20d8eab9519ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 34/76] fix: a file that failed to evaluate left its context on
 the stack

---
 src/builtins.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 925e748..854a0e2 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -284,13 +284,14 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 
     shell::push_context_new();
 
-    match eval::eval(&mut ast) {
+    let result = eval::eval(&mut ast);
+    let context = shell::pop_context().unwrap();
+    match result {
         Ok(_) => {},
         Err(e) => {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)));
         }
     }
-    let context = shell::pop_context().unwrap();
     Ok(context)
 }
 
-- 
2.43.0


From a4cb5a8d23f41eb84048dd25882e2b67081fcaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 35/76] fix: 'export context' without a name crashed the shell,
 or read a file called 'context'

---
 src/builtins.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 854a0e2..13baf93 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -336,15 +336,16 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         else {
             if suffix.word[1].as_str() == "self" {
                 let context = shell::get_current_context();
-                let namespace = {
-                    context.borrow().get_var("0").unwrap().borrow().value.clone()
+                let namespace = match context.borrow().get_var("0") {
+                    Some(name) => name.borrow().value.clone(),
+                    None => return Err(std::io::Error::new(std::io::ErrorKind::Other, "the context has no name")),
                 };
                 shell::add_context(&namespace, context);
                 return Ok(());
             }
             else {
-                let result = create_context_from_file(suffix.word[0].as_str())?;
-                shell::add_context(suffix.word[0].as_str(), result);
+                let result = create_context_from_file(suffix.word[1].as_str())?;
+                shell::add_context(suffix.word[1].as_str(), result);
             }
         }
         return Ok(());
-- 
2.43.0


From 37c911d8155cb408585464381e4330ebb8db7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 36/76] fix: 'export NAME' did not reach the environment of
 commands, and 'export' crashed on an empty name or took '-p' in a value for
 the option

---
 src/builtins.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 13baf93..2fe07de 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -306,9 +306,9 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is a file, it will evaluate the as a new context and export it.
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].contains("-p") {
-        env::vars().for_each(|(key, value)| {
-            println!("{}={}", key, value);
+    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
+        env::vars_os().for_each(|(key, value)| {
+            println!("{}={}", key.to_string_lossy(), value.to_string_lossy());
         });
         return Ok(());
     }
@@ -361,12 +361,19 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 }
             }
             else {
-                let temp = format!("{}={}",word,var.unwrap());
+                let value = var.unwrap();
+                let temp = format!("{}={}",word,value);
                 shell::get_env_context().borrow_mut().add_var(temp.as_str());
+                if !word.is_empty() {
+                    env::set_var(word, &value);
+                }
             }
             continue;//TODO: make this read argument
         }
         let (key, value) = word.split_once('=').unwrap();
+        if key.is_empty() {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, "not a valid name"));
+        }
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
     }
-- 
2.43.0


From bdf443924beb37c21ee7ed1214d45d584fe326fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 37/76] fix: 'eval' crashed the shell without an argument, and
 ignored all but the first

---
 src/builtins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2fe07de..80a82b4 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -397,12 +397,12 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It evaluates a string as a command.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'string'.
 pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "eval needs an argument"));
     }
 
 
-    let string = command.suffix.as_ref().unwrap().word[0].as_str().to_string() + "\n";
+    let string = command.suffix.as_ref().unwrap().word.join(" ") + "\n";
     
     let mut lexer = Lexer::new(string.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(string.as_str(),lexer) {
-- 
2.43.0


From ff1a9e92b5d4cb266067a73ddc0d6199bc22c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 38/76] fix: 'pwd' in a deleted directory and 'source' of an
 unreadable file crashed the shell

---
 src/builtins.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 80a82b4..caf90f1 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -106,7 +106,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It prints out all of the jobs that are currently running.
 pub fn jobs() -> Result<(), std::io::Error> {
     print!("{}", shell::display_jobs());
-    io::stdout().flush().unwrap();
+    io::stdout().flush()?;
     Ok(())
 }
 
@@ -427,7 +427,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'pwd' command of the shell.
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
-    let path = env::current_dir().unwrap();
+    let path = env::current_dir()?;
     println!("{}", path.display());
     Ok(())
 }
@@ -711,7 +711,7 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut file = file.unwrap();
 
     let mut contents = String::new();
-    file.read_to_string(&mut contents).unwrap();
+    file.read_to_string(&mut contents)?;
 
     let mut lexer = Lexer::new(contents.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(contents.as_str(),lexer) {
-- 
2.43.0


From b95b7ebaaaff48391f03c31b6980f1978cd1d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 39/76] fix: 'unset' crashed the shell with an option but no
 name

---
 src/builtins.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index caf90f1..968f3e2 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -445,7 +445,7 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     let mut flags = Flags::Variable;
     let mut pos = 0;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
 	if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
 	    flags = Flags::Function;
 	    pos = 1;
@@ -462,6 +462,9 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 	    return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset: invalid option"));
 	}
     }
+    if command.suffix.as_ref().unwrap().word.len() == pos {
+	return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
+    }
 
     match flags {
         Flags::Variable => {
-- 
2.43.0


From 78f5e3a6a1a516b85840ad46e5198ef9ab170ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 40/76] fix: 'readonly' crashed the shell with an option but no
 name, and took a '-' in a value for an option

---
 src/builtins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 968f3e2..2c109ca 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -491,7 +491,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let mut flags = Flags::Variable;
     let mut pos = 0;
     let mut print = false;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
             flags = Flags::Function;
             pos = 1;
@@ -512,7 +512,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word.get(pos).map_or(false, |word| word.starts_with('-')) {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
-- 
2.43.0


From 36421e9bfc5bcb9efca178bb89a82ddb60032f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 41/76] fix: 'readonly -p' overflowed the stack

---
 src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index e854686..c02d9d2 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -47,7 +47,7 @@ impl Var {
 }*/
 impl Display for Var {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.to_string())
+        write!(f, "{}={}", self.name, self.value)
     }
 }
 
-- 
2.43.0


From 40da4d41aa1d293e38fcb268f5f03d69f6f6a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 42/76] fix: 'readonly' of an unknown variable crashed the
 shell

---
 src/context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index c02d9d2..1b3567c 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -252,7 +252,7 @@ impl ContextManager {
         self.get_context().borrow_mut().add_var(set);
     }
     pub fn add_var_readonly(&mut self, set: &str) {
-        if set.contains("::") {
+        if set.split('=').next().unwrap_or(set).contains("::") {
             let mut split = set.split("::");
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
@@ -279,7 +279,9 @@ impl ContextManager {
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().get_var(var_name).unwrap().borrow_mut().readonly = true;
+                if let Some(var) = context.borrow_mut().get_var(var_name) {
+                    var.borrow_mut().readonly = true;
+                }
             }
             return;
         }
@@ -290,7 +292,7 @@ impl ContextManager {
                 return;
             }
         }
-        self.get_context().borrow_mut().get_var(name).unwrap().borrow_mut().readonly = true;
+        self.get_context().borrow_mut().add_var_readonly(name);
     }
 
     /// Adds a variable to a particular context on the stack.
-- 
2.43.0


From 078b88aa200e1727c68c58fb677787442df5af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 43/76] fix: 'exec' crashed the shell for a command with a '-'
 in its name or an option without a command

---
 src/builtins.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2c109ca..761418e 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -4,6 +4,7 @@ use std::fs::File;
 use std::io::prelude::*;
 use std::process::exit;
 use std::io::Write;
+use std::os::unix::ffi::OsStringExt;
 use crate::ast::SimpleCommand;
 use crate::shell;
 use nix::unistd::Pid;
@@ -583,7 +584,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut rename = false;
     let mut pos = 0;
     
-    if suffix.word[0].contains('-') {
+    if suffix.word[0].starts_with('-') {
         if suffix.word[0].contains('c') {
             empty_env = true;
             pos = 1;
@@ -600,7 +601,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             }
         }
     }
-    if suffix.word[pos].contains('-') {
+    if suffix.word.len() > pos && suffix.word[pos].starts_with('-') {
         if suffix.word[pos].contains('c') {
             empty_env = true;
             pos += 1;
@@ -618,6 +619,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
 
+    if suffix.word.len() <= pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
+    }
+
     log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
 
     let mut args = Vec::new();
@@ -658,7 +663,12 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         Vec::new()
     }
     else {
-        env::vars().map(|(k, v)| CString::new(k + "=" + &v).unwrap()).collect()
+        env::vars_os().map(|(k, v)| {
+            let mut entry = k.into_vec();
+            entry.push(b'=');
+            entry.extend(v.into_vec());
+            CString::new(entry).unwrap()
+        }).collect()
     };
 
     
-- 
2.43.0


From 736cb123f065282b18f00f2c54c8814eb3fa474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 44/76] fix: running a command whose alias is empty crashed the
 shell

---
 src/shell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shell.rs b/src/shell.rs
index f44b2a3..63cca11 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -176,7 +176,7 @@ impl Shell {
             None => None,
             Some(alias) => {
                 let mut args = alias.split_whitespace();
-                let command = args.next().unwrap();
+                let command = args.next()?;
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
                     Some((command.to_string(), None))
-- 
2.43.0


From 7919282b8ccf63f5fcad70912563f92fba0049d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 45/76] fix: an alias with '=' in its value was refused

---
 src/shell.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/shell.rs b/src/shell.rs
index 63cca11..17ad0c7 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -383,12 +383,11 @@ impl ShellAliasUtils<&str> for Shell {
     /// and the second part is used as the alias value.
     /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, input: &str) {
-        let split = input.split('=').collect::<Vec<&str>>();
-        if split.len() != 2 {
+        let Some((name, value)) = input.split_once('=') else {
             eprintln!("Invalid alias");
             return;
-        }
-        self.aliases.insert(split[0].to_string(), Self::trim(split[1]));
+        };
+        self.aliases.insert(name.to_string(), Self::trim(value));
     }
 }
 
-- 
2.43.0


From d7e1a36c3cce14bc8c58b78769e62752fbd79b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 46/76] fix: the arguments of an alias were put behind those of
 the command line

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index c0fec9e..071a866 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -264,7 +264,8 @@ impl SimpleCommand {
                 self.name = name;
                 match &mut self.suffix {
                     Some(suffix) => {
-                        suffix.word.append(&mut args);
+                        args.append(&mut suffix.word);
+                        suffix.word = args;
                     }
                     None => {
                         self.suffix = Some(Suffix {
-- 
2.43.0


From b1db0412ecd96a3ea08fbc97e1af93eb94233b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 47/76] fix: an alias for a builtin was not found, and an alias
 named like a builtin broke it

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 3bb3485..7f24050 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -344,6 +344,8 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
 /// This function evaluates a simple command and returns a tuple with a Process and the SimpleCommand that
 /// made the Process.
 fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Process, SimpleCommand)>,String> {
+
+    simple_command.alias_lookup();
    
     if check_if_builtin(&simple_command.name) {
         return eval_builtin(simple_command);
@@ -364,7 +366,6 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
     simple_command.remove_single_quotes();
     log!("remove_single_quotes: {:?}", simple_command);*/
 
-    simple_command.alias_lookup();
     simple_command.expand_vars();
     simple_command.eval();
    
@@ -480,7 +481,6 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
     log!("remove_single_quotes: {:?}", command);*/
 
 
-    command.alias_lookup();
     command.expand_vars();
     command.eval();
 
-- 
2.43.0


From c6a2a5e6f6c7038055662d5400f992ec28052209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 48/76] fix: a command given by its path was not found, and
 looking up a command without PATH crashed

---
 src/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 1b3567c..23ed28b 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -302,7 +302,12 @@ impl ContextManager {
 
     /// Looks up a command in the PATH variable.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
-        for path in self.context_stack.first().unwrap().borrow().get_var("PATH").unwrap().borrow().value.split(":") {
+        // a name with a slash in it is not searched for
+        if cmd.contains('/') {
+            return if std::fs::metadata(cmd).map_or(false, |metadata| metadata.is_file()) { Some(cmd.to_string()) } else { None };
+        }
+        let path = self.get_var("PATH")?.borrow().value.clone();
+        for path in path.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
             if metadata.is_ok() {
-- 
2.43.0


From 0dd5fc758d1c22eb08c6eac1067d2ba847b61f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 49/76] fix: a readonly variable could be changed by 'export'
 and 'readonly', and removed by 'unset'

---
 src/builtins.rs |  3 +++
 src/context.rs  | 16 ++++++++++++++++
 src/shell.rs    |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/builtins.rs b/src/builtins.rs
index 761418e..4505c1f 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -375,6 +375,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         if key.is_empty() {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "not a valid name"));
         }
+        if shell::is_readonly_var(key) {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{}: readonly variable", key)));
+        }
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
     }
diff --git a/src/context.rs b/src/context.rs
index 23ed28b..c3fb3d6 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -455,8 +455,16 @@ impl Context {
     pub fn get_var(&self, name: &str) -> Option<Rc<RefCell<Var>>> {
         self.vars.get(name).cloned()
     }
+    /// Tells whether the context has a readonly variable with a given name.
+    pub fn is_readonly(&self, name: &str) -> bool {
+        self.vars.get(name).map_or(false, |var| var.borrow().readonly)
+    }
     /// Removes a variable from the context with a given name.
     pub fn remove_var(&mut self, name: &str) {
+        if self.is_readonly(name) {
+            eprintln!("{}: readonly variable", name);
+            return;
+        }
         self.vars.remove(name);
     }
 
@@ -572,10 +580,18 @@ impl ContextUtils<Var> for Context {
     /// # Arguments
     /// * `var` - The Var struct to be added to the context.
     fn add_var(&mut self, var: Var) {
+        if self.is_readonly(&var.name) {
+            eprintln!("{}: readonly variable", var.name);
+            return;
+        }
         self.vars.insert(var.name.to_string(), Rc::new(RefCell::new(var)));
     }
 
     fn add_var_readonly(&mut self, mut var: Var) {
+        if self.is_readonly(&var.name) {
+            eprintln!("{}: readonly variable", var.name);
+            return;
+        }
         var.readonly = true;
         self.vars.insert(var.name.to_string(), Rc::new(RefCell::new(var)));
     }
diff --git a/src/shell.rs b/src/shell.rs
index 17ad0c7..ef2c2f1 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -292,6 +292,11 @@ impl Shell {
         self.context_manager.all_readonly_vars_context(context)
     }
 
+    /// This function tells whether the variable a name refers to is readonly.
+    pub fn is_readonly_var(&self, var: &str) -> bool {
+        self.context_manager.get_var(var).map_or(false, |var| var.borrow().readonly)
+    }
+
     /// Wrapper to the context manager remove var function.
     pub fn remove_var(&mut self, var: &str) {
 	self.context_manager.remove_var(var);
@@ -628,6 +633,10 @@ pub fn add_readonly_var(var: &str) {
     let mut shell = SHELL.get().borrow_mut();
     shell.add_var_readonly(var);
 }
+pub fn is_readonly_var(name: &str) -> bool {
+    let shell = SHELL.get().borrow();
+    shell.is_readonly_var(name)
+}
 pub fn set_readonly_var(name: &str) {
     let mut shell = SHELL.get().borrow_mut();
     shell.set_var_readonly(name);
-- 
2.43.0


From 417a3f14025eff30c2906a4447eb0108abb831c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 50/76] fix: calling a function overwrote the positional
 parameters of its caller

---
 src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 7f24050..32163f5 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -5,6 +5,7 @@ use crate::jobs;
 use crate::builtins;
 use crate::shell;
 use crate::trap;
+use crate::context::ContextUtils;
 use nix::errno::Errno;
 use nix::sys::wait::WaitStatus;
 use std::fs::OpenOptions;
@@ -583,7 +584,7 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
     shell::push_context_new();
-    shell::add_var_context(&format!("0={}", command.name));
+    shell::get_current_context().borrow_mut().add_var(format!("0={}", command.name).as_str());
     //eprintln!("0={}", command.name);
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
@@ -592,7 +593,7 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
                 break;
             }
             //eprintln!("{}={}", i+1, arg);
-            shell::add_var_context(&format!("{}={}", i+1, arg));
+            shell::get_current_context().borrow_mut().add_var(format!("{}={}", i+1, arg).as_str());
         }
     }
 
-- 
2.43.0


From 43870a2c62739c57f59d0157fcae83c5e17845e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 51/76] fix: an empty quoted command name crashed the shell

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 071a866..1537818 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -601,7 +601,7 @@ impl SimpleCommand {
                 words.push(word.to_string());
             }
         }
-        self.name = words.remove(0);
+        self.name = if words.is_empty() { String::new() } else { words.remove(0) };
         
         if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
             self.suffix = Some(Suffix {
-- 
2.43.0


From 2dfa09299f916390b4b4cc685638f6ab9bcb74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 52/76] fix: a multibyte whitespace character in a command name
 crashed the shell

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 1537818..95f1160 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -225,7 +225,7 @@ impl SplitWhitespaceIgnoringQuotes for str {
                     } else if c.is_whitespace() {
                         end = i;
                         splits.push(&self[start..end]);
-                        start = i + 1;
+                        start = i + c.len_utf8();
                     }
                 }
                 QuoteType::Single => {
-- 
2.43.0


From e06c690f1fbf5dcff4c035f9b40e704eca8e615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 53/76] fix: the output of a command substitution was run as a
 command again

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 95f1160..20a1d51 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -639,7 +639,7 @@ impl SimpleCommand {
         let mut new_word = word.to_string();
         Self::cut_quotes(&mut new_word);
         let mut ret = Vec::new();
-        let eval = Self::eval_subshell(&new_word);
+        let eval = new_word;
         if eval.contains(" ") {
             ret.append(&mut eval.split_whitespace().map(|word| word.to_string()).collect());
         }
-- 
2.43.0


From f72ae2686d25a78e33d7fa96b5028d08ea1d114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 54/76] fix: a command substitution crashed the shell when its
 output was not UTF-8, a signal arrived or resources ran out

---
 src/ast.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 20a1d51..c38c0ba 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -402,16 +402,34 @@ impl SimpleCommand {
                 }
             };
 
-        let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
+        let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
+            Ok(pip) => pip,
+            Err(err) => {
+                eprintln!("Error: {}", err);
+                return String::new();
+            }
+        };
+
+        let fork_result = match unsafe {nix::unistd::fork()} {
+            Ok(fork_result) => fork_result,
+            Err(err) => {
+                eprintln!("Error: {}", err);
+                let _ = nix::unistd::close(pip.0);
+                let _ = nix::unistd::close(pip.1);
+                return String::new();
+            }
+        };
 
-        match unsafe {nix::unistd::fork().expect("failed to fork")} {
+        match fork_result {
             nix::unistd::ForkResult::Parent { child } => {
                 nix::unistd::close(pip.1).unwrap();
-                let mut buf = String::new();
+                let mut buf = Vec::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                file.read_to_string(&mut buf).unwrap();
-                waitpid(child, None).unwrap();
-                buf.trim().to_string()
+                if let Err(err) = file.read_to_end(&mut buf) {
+                    eprintln!("Error: {}", err);
+                }
+                while let Err(nix::errno::Errno::EINTR) = waitpid(child, None) {}
+                String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
                 nix::unistd::dup2(pip.1, 1).unwrap();
-- 
2.43.0


From 430a8dd4dbb784d27c2157156fad5d645632d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 55/76] fix: a redirection that cannot be opened panicked in
 the child

---
 src/eval.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 32163f5..3363258 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -403,6 +403,12 @@ fn eval_assignment(assignment: &Vec<String>) {
     }
 }
 
+/// This function ends a child whose redirection could not be opened, so that the command is not run.
+fn redirect_failed(filename: &str, err: std::io::Error) -> ! {
+    eprintln!("{}: {}", filename, err);
+    std::process::exit(1);
+}
+
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
 fn eval_redirect(redirect: &Vec<IoRedirect>) {
     for redir in redirect.iter() {
@@ -413,7 +419,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                     let file = OpenOptions::new()
                         .read(true)
                         .open(&io_file.filename)
-                        .unwrap();
+                        .unwrap_or_else(|err| redirect_failed(&io_file.filename, err));
                     
                     dup2(file.as_raw_fd(), redir.io_number.unwrap_or(0)).unwrap();
                     mem::forget(file);
@@ -424,7 +430,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .create(true)
                         .truncate(true)
                         .open(&io_file.filename)
-                        .unwrap();
+                        .unwrap_or_else(|err| redirect_failed(&io_file.filename, err));
                     dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
                     mem::forget(file);
                 },
@@ -434,7 +440,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .append(true)
                         .create(true)
                         .open(&io_file.filename)
-                        .unwrap();
+                        .unwrap_or_else(|err| redirect_failed(&io_file.filename, err));
                     dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
                     mem::forget(file);
                 },
-- 
2.43.0


From 578c6542b1f40aa2caac4e72db8a4b7035769e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 56/76] fix: the shell printed its arguments, and crashed on an
 empty one

---
 src/main.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2ead710..62645c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,8 +105,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
     let mut pos = 0;
 
     for arg in args.iter() {
-            println!("arg: {}", arg);
-        if arg.chars().nth(0).unwrap() == '-' && !non_interactive_mode {
+        if arg.starts_with('-') && !non_interactive_mode {
             read_from_args = parse_dash_arg(&arg);
             if read_from_args {
                 break;
@@ -133,8 +132,6 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 
         args.drain(0..=pos);
 
-        println!("{:?}", args);
-
         let output = args.join(" ");
 
         return Some(output);
@@ -150,7 +147,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 /// This is how we check to see if the we are going to evaluate the commandline arguments as a script.
 fn parse_dash_arg(arg: &str) -> bool {
     let mut read_from_args = false;
-    if arg.chars().nth(0).unwrap() == '-' {
+    if arg.starts_with('-') {
         let mut chars = arg.chars();
         chars.next();
         for c in chars {
-- 
2.43.0


From 6c384ea6d92fa0bdfa3d81af109f2c1c634e5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 57/76] fix: a script never ended, and a missing script or a
 syntax error in it crashed the shell

---
 src/main.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 62645c9..76482da 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -247,20 +247,44 @@ fn interactive_loop() {
 /// This function takes a file name and puts the contents of the file into a buffer.
 /// The buffer is then passed into the parser and evaluated.
 fn script_loop(script_name: &str) {
-    let file = File::open(script_name).unwrap();
+    let file = match File::open(script_name) {
+        Ok(file) => file,
+        Err(err) => {
+            eprintln!("{}: {}", script_name, err);
+            eval::set_exit_status(127);
+            return;
+        }
+    };
     let mut buf_reader = BufReader::new(file);
     loop {
 
         let mut input = String::new();
-        buf_reader.read_line(&mut input).unwrap();
+        match buf_reader.read_line(&mut input) {
+            Ok(0) => break,
+            Ok(_) => {},
+            Err(err) => {
+                eprintln!("{}: {}", script_name, err);
+                eval::set_exit_status(1);
+                break;
+            }
+        }
 
 
         let lexer = Lexer::new(&input);        
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&input,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&input,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    eprintln!("{}: {:?}", script_name, err);
+                    eval::set_exit_status(2);
+                    break;
+                }
+            };
 
-        let _result = eval::eval(&mut ast);
+        if let Err(err) = eval::eval(&mut ast) {
+            eprintln!("{}: {}", script_name, err);
+            eval::set_exit_status(1);
+        }
 
     }
 }
-- 
2.43.0


From 7efbee882cf20654e2b0bf9968970b8ea9272b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 58/76] fix: a syntax error in the argument of -c crashed the
 shell

---
 src/main.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 76482da..95580d4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -292,11 +292,20 @@ fn script_loop(script_name: &str) {
 /// This function takes in the commandline arguments as a &str and evaluates it.
 fn read_from_args(input: &str) {
     let lexer = Lexer::new(&input);        
-    let mut ast = grammar::CompleteCommandParser::new()
-        .parse(&input,lexer)
-        .unwrap();
+    let mut ast = match grammar::CompleteCommandParser::new()
+        .parse(&input,lexer) {
+            Ok(ast) => ast,
+            Err(err) => {
+                eprintln!("Error: {:?}", err);
+                eval::set_exit_status(2);
+                return;
+            }
+        };
 
-    let _result = eval::eval(&mut ast);
+    if let Err(err) = eval::eval(&mut ast) {
+        eprintln!("{}", err);
+        eval::set_exit_status(1);
+    }
 }
 
 
-- 
2.43.0


From 345e1cda91f3f96a7634e1900f0394c26e0fe184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 59/76] fix: an error in a startup file crashed the shell

---
 src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 95580d4..210123b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -338,7 +338,9 @@ fn read_profile() -> Result<(), Box<dyn Error>>{
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        println!("{}", err);
+    }
 
 
     Ok(())
@@ -373,7 +375,9 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        println!("{}", err);
+    }
 
     Ok(())
 }
@@ -407,7 +411,9 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        println!("{}", err);
+    }
 
     Ok(())
 }
-- 
2.43.0


From 44679bbfd9036729db6c1db77cfca6204f877484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 60/76] fix: the shell's own exit status was always 0

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 210123b..4f2839e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -83,6 +83,7 @@ fn main() {
         script_loop(&shell::get_script_name());
     }
 
+    std::process::exit(eval::get_exit_code());
 }
 
 /// This function reads the commandline arguments passed into the shell and parses them.
-- 
2.43.0


From abddcd1d64c5274c4b0887c1f1b4ad7d1db1b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 61/76] fix: a failed line left the exit status of the previous
 command

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 4f2839e..36c86dd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -219,6 +219,7 @@ fn interactive_loop() {
                 Ok(ast) => ast,
                 Err(err) => {
                     println!("Error: {:?}", err);
+                    eval::set_exit_status(2);
                     continue;
                 }
             };
@@ -231,6 +232,7 @@ fn interactive_loop() {
             Ok(_) => {},
             Err(err) => {
                 println!("{}", err);
+                eval::set_exit_status(1);
             }
         }
 
-- 
2.43.0


From b8649f208614c9dddc8b24a90de7818b3d77df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 62/76] fix: the saved history was never loaded, and
 overwritten on exit

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 36c86dd..232697a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,6 +73,7 @@ fn main() {
         trap::set_signal(2);
 
         shell::set_history_location("history.txt");
+        shell::load_history();
 
         interactive_loop();
     }
-- 
2.43.0


From 99a33862a31af9d33892188f109d7757c13c2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 63/76] fix: the job tables kept entries of jobs that were gone

---
 src/jobs.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 3c2bafc..e459fd1 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -65,10 +65,6 @@ impl JobControl {
     /// It creates a new job and adds it to the job table.
     pub fn create_job(&mut self, processes: Vec<Process>, background: bool) -> Rc<RefCell<Job>> {
         
-        for process in &processes {
-            self.pid_to_job.insert(process.pid, self.next_job_id);
-        }
-
         let job = Job::new(processes, self.next_job_id, background);
         
         self.job_table.borrow_mut().insert(self.next_job_id, Rc::new(RefCell::new(job)));
@@ -210,13 +206,9 @@ impl JobUtils<JobId> for JobControl {
             None => return,
         };
 
-        if job.borrow().processes.len() == 0 {
-            return;
-        }
-
          {
              let mut job = job.borrow_mut();
-             if matches!(job.processes[0].status, Some(WaitStatus::Stopped(_,_))) {
+             if matches!(job.processes.first().and_then(|process| process.status), Some(WaitStatus::Stopped(_,_))) {
                  job.state = JobState::Stopped;
                  job.stop_status = job.processes[0].status.unwrap();
              }
@@ -234,9 +226,8 @@ impl JobUtils<JobId> for JobControl {
             self.pid_to_job.remove(&process.pid);
         }
 
-        if job.borrow().background {
-            self.background_jobs.remove(&job_id);
-        }
+        // the job may have been brought to the foreground meanwhile
+        self.background_jobs.remove(&job_id);
         
         self.update_next_job_id();
     }
-- 
2.43.0


From 1b27fc8ec8016a6e6df03bbfde96724e76e4a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 64/76] fix: a SIGCHLD pending while a job was deleted aborted
 the shell

---
 src/shell.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shell.rs b/src/shell.rs
index ef2c2f1..c0fafd6 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -494,8 +494,10 @@ where
     Shell: ShellJobUtils<T>,
 {
     trap::interrupts_off();
-    let mut shell = SHELL.get().borrow_mut();
-    shell.delete_job(id);
+    {
+        let mut shell = SHELL.get().borrow_mut();
+        shell.delete_job(id);
+    }
     trap::interrupts_on();
 }
 
-- 
2.43.0


From 50c8aaf36963583c481cfc68f4383766ee192ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 65/76] fix: SIGINT aborted the shell when its standard input
 cannot be written to

---
 src/trap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trap.rs b/src/trap.rs
index 3da8e50..6b92aaa 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -205,7 +205,7 @@ extern "C" fn on_sig(sig_num: c_int) {
 
 
     if sig_num == signal::SIGINT as c_int && !is_trap_set(signal::SIGINT) {
-        nix::unistd::write(0,&[0xA as u8]).unwrap();
+        let _ = nix::unistd::write(0,&[0xA as u8]);
         //io::stdin().read_line(&mut String::new()).unwrap();
         unsafe {
             if !SUPRESS_SIGINT.load(Ordering::Relaxed) {
-- 
2.43.0


From e4e9365ae22102a500b5357121422fd157ff4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 66/76] fix: the shell did not start with an environment
 variable that is not UTF-8

---
 src/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index c3fb3d6..fc64dac 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -369,7 +369,9 @@ impl ContextManager {
     /// Converts the environment variables into a HashMap of variables.
     fn convert_env() -> HashMap<String, Rc<RefCell<Var>>> {
         let mut vars = HashMap::new();
-        for (key, value) in std::env::vars() {
+        for (key, value) in std::env::vars_os() {
+            // the shell's variables are text
+            let (Ok(key), Ok(value)) = (key.into_string(), value.into_string()) else { continue };
             vars.insert(key.clone(), Rc::new(RefCell::new(Var::new(&key, &value))));
         }
         vars
-- 
2.43.0


From c9d188db4315df3e03e3fc46301125af3bb51c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 67/76] fix: completing a command crashed the shell without
 PATH or with a file name that is not UTF-8 on it

---
 src/completion.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 76bd276..dfb520c 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -97,9 +97,8 @@ impl Completer for PathCompleter {
 }
 
 fn command_complete(line: &str) -> Vec<Pair> {
-    let path = {
-        env::var_os("PATH").unwrap().into_string().unwrap()
-        //shell::expand_var("PATH").unwrap().clone()
+    let Ok(path) = env::var("PATH") else {
+        return Vec::new();
     };
     let paths = path.split(":");
     let mut entries = Vec::new();
@@ -110,8 +109,8 @@ fn command_complete(line: &str) -> Vec<Pair> {
             continue;
         }
         for entry in entry_fs.unwrap() {
-            let entry = entry.unwrap();
-            let name = entry.file_name().into_string().unwrap();
+            let Ok(entry) = entry else { continue };
+            let Ok(name) = entry.file_name().into_string() else { continue };
 
             if !name.starts_with(line) {
                 continue;
-- 
2.43.0


From 50c7666caf2630416538907f8e13df0af78da6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 68/76] fix: a pipeline whose pipe could not be created leaked
 a descriptor

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 3363258..1fe270a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -204,6 +204,9 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             if count < proc_count - 1 {
                 let pipe_result = pipe();
                 if pipe_result.is_err() {
+                    if prev_fd >= 0 {
+                        let _ = close(prev_fd);
+                    }
                     return Err("Failed to create pipe".to_string());
                 }
                 pip = pipe_result.unwrap();
-- 
2.43.0


From 2b60fa5105f6f19520eb6d745c4ad4003f37e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 69/76] fix: 'fg' did not report the exit status of the job

---
 src/builtins.rs |  2 +-
 src/eval.rs     | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 4505c1f..1a586e4 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -179,7 +179,7 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
-    jobs::wait_for_job(job);
+    eval::set_exit_status_from_wait(jobs::wait_for_job(job));
     Ok(())
 }
 
diff --git a/src/eval.rs b/src/eval.rs
index 1fe270a..1b032fe 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -33,6 +33,18 @@ pub fn set_exit_status(status: i32) {
         EXIT_STATUS.store(status, Ordering::Relaxed);
     }
 }
+/// sets the exit status of the last command to that of a job that was waited for
+pub fn set_exit_status_from_wait(status: WaitStatus) {
+    match status {
+        WaitStatus::Exited(_, status) => {
+            set_exit_status(status);
+        },
+        WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+            set_exit_status(128 + signal as i32);
+        },
+        _ => (),
+    }
+}
 /// gets the exit code of the last command
 pub fn get_exit_code() -> i32 {
     unsafe {
@@ -289,15 +301,7 @@ fn run_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             }
             shell::delete_job(id);
 
-            match status {
-                WaitStatus::Exited(_, status) => {
-                    set_exit_status(status);
-                },
-                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
-                    set_exit_status(128 + signal as i32);
-                },
-                _ => (),
-            }
+            set_exit_status_from_wait(status);
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             set_exit_status(0);
@@ -503,7 +507,7 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
             set_exit_status(1);
         },
         // these leave the status of what they evaluated, or were asked for
-        Ok(_) if matches!(command.name.as_str(), "return" | "eval" | "." | "source") => {},
+        Ok(_) if matches!(command.name.as_str(), "return" | "fg" | "eval" | "." | "source") => {},
         Ok(_) => set_exit_status(0),
     }
     Ok(None)
-- 
2.43.0


From a4a1fcb6c77b87280e78cbc3e3ccf8462872b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 70/76] fix: keep everything after `::` in the value of a
 readonly assignment to another scope

---
 src/context.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index fc64dac..d42d832 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -253,9 +253,7 @@ impl ContextManager {
     }
     pub fn add_var_readonly(&mut self, set: &str) {
         if set.split('=').next().unwrap_or(set).contains("::") {
-            let mut split = set.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
+            let (context_name, var_name) = set.split_once("::").unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow_mut().add_var_readonly(var_name);
             }
-- 
2.43.0


From 443285aab9205a622f41d2be8f6f03aad5755d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 71/76] fix: a failed exec leaves the shell with its signal
 handlers

---
 src/eval.rs |  2 ++
 src/trap.rs | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 1b032fe..21c9964 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -710,6 +710,8 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
             unreachable!();
         },
         Err(e) => {
+            // the shell lives on
+            trap::restore_handlers();
             return Err(format!("Failed to execute: {}", e));
         }
     }
diff --git a/src/trap.rs b/src/trap.rs
index 6b92aaa..c03b483 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -436,6 +436,29 @@ pub fn sig_suspend(mask: &signal::SigSet) {
     }*/
 }
 
+/// This function puts the handlers that set_signal installed back, after remove_handlers.
+pub fn restore_handlers() {
+    let data = TRAP_DATA.get();
+
+    for (signal, mode) in data.signal_mode.iter() {
+        let sig_handler = match *mode {
+            S_CATCH => signal::SigHandler::Handler(on_sig),
+            S_IGN => signal::SigHandler::SigIgn,
+            _ => signal::SigHandler::SigDfl,
+        };
+
+        let sig_action = signal::SigAction::new(
+            sig_handler,
+            signal::SaFlags::empty(),
+            signal::SigSet::all(),
+        );
+
+        unsafe {
+            signal::sigaction(*signal, &sig_action).unwrap();
+        }
+    }
+}
+
 /// This function removes all signal handlers
 /// however it is not complete
 /// # Todo
-- 
2.43.0


From 7ec8cfac48d494933bd4a37b996dc4e3225829c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 72/76] fix: a function did not see its arguments from a quoted
 '&' on

---
 src/eval.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 21c9964..87aa4d6 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -602,9 +602,6 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
         for (i, arg) in suffix.word.iter().enumerate() {
-            if arg == "&" {
-                break;
-            }
             //eprintln!("{}={}", i+1, arg);
             shell::get_current_context().borrow_mut().add_var(format!("{}={}", i+1, arg).as_str());
         }
-- 
2.43.0


From a1f313bd086792113ce0296fecf5a8a306b85a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 73/76] fix: a redirection after a command without arguments
 was lost

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index c38c0ba..a8a6c01 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -621,7 +621,7 @@ impl SimpleCommand {
         }
         self.name = if words.is_empty() { String::new() } else { words.remove(0) };
         
-        if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
+        if self.suffix.is_none() {
             self.suffix = Some(Suffix {
                 io_redirect: Vec::new(),
                 word: words,
-- 
2.43.0


From e070211b32e5d051a7228b1ba264eaaa8a0aed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 74/76] fix: a job stays in the table while any of its
 processes is stopped, not only the first or the last

---
 src/jobs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index e459fd1..dd954eb 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -208,9 +208,12 @@ impl JobUtils<JobId> for JobControl {
 
          {
              let mut job = job.borrow_mut();
-             if matches!(job.processes.first().and_then(|process| process.status), Some(WaitStatus::Stopped(_,_))) {
+             let stopped = job.processes.iter()
+                 .filter_map(|process| process.status)
+                 .find(|status| matches!(status, WaitStatus::Stopped(_,_)));
+             if let Some(status) = stopped {
                  job.state = JobState::Stopped;
-                 job.stop_status = job.processes[0].status.unwrap();
+                 job.stop_status = status;
              }
          } 
         
-- 
2.43.0


From 92f6170de9378e57c5e484a09e96dd2777fe5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:54 +0000
Subject: [PATCH 75/76] fix: 'exec -c -l' without a command is an error, not a
 crash of the shell

---
 src/builtins.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 1a586e4..aa41167 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -605,17 +605,22 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
     if suffix.word.len() > pos && suffix.word[pos].starts_with('-') {
-        if suffix.word[pos].contains('c') {
+        let flags = suffix.word[pos].as_str();
+        let mut used = 0;
+        if flags.contains('c') {
             empty_env = true;
-            pos += 1;
+            used = 1;
         }
-        if suffix.word[pos].contains('l') {
+        if flags.contains('l') {
             dash = true;
-            pos += 1;
+            used = 1;
         }
-        if suffix.word[pos].contains('a') {
+        if flags.contains('a') {
             rename = true;
-            pos += 2;
+            used = 2;
+        }
+        pos += used;
+        if used == 2 {
             if suffix.word.len() <= pos {
                 return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
             }
-- 
2.43.0


From 7e3e0d59adaa67e9038ef992e45489d454c4d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:38 +0000
Subject: [PATCH 76/76] fix: exec and export report a word with a NUL instead
 of crashing the shell

---
 src/builtins.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index aa41167..4e41f7b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -363,6 +363,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             else {
                 let value = var.unwrap();
+                if value.contains('\0') {
+                    return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, format!("{}: the value contains a NUL", word)));
+                }
                 let temp = format!("{}={}",word,value);
                 shell::get_env_context().borrow_mut().add_var(temp.as_str());
                 if !word.is_empty() {
@@ -372,7 +375,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             continue;//TODO: make this read argument
         }
         let (key, value) = word.split_once('=').unwrap();
-        if key.is_empty() {
+        if key.is_empty() || word.contains('\0') {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "not a valid name"));
         }
         if shell::is_readonly_var(key) {
@@ -582,6 +585,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     
     let suffix = command.suffix.as_ref().unwrap();
 
+    if suffix.word.iter().any(|word| word.contains('\0')) {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "an argument contains a NUL"));
+    }
+
     let mut empty_env = false;
     let mut dash = false;
     let mut rename = false;
-- 
2.43.0

