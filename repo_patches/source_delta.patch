From 1fb0a4c65244d4ffd3f4b3bca748855b1784422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 01/68] fix: wait for every process of a foreground job and
 take its status from the last one

---
 src/jobs.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 94e50cf..6d1f9cc 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -517,6 +517,8 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         }
         state = JobState::Finished;
         let mut stopped = false;
+        // the status of a job is that of its last process, or of its first stopped process
+        let mut stop_status = None;
         for process in jb.borrow_mut().borrow_processes_mut() {
             if process.pid == pid {
                 process.status = Some(status);
@@ -528,16 +530,20 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
             if state == JobState::Running {
                 continue;
             }
+            if !stopped {
+                stop_status = process.status;
+            }
             if matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
                 //println!("stopped");
                 state = JobState::Stopped;
                 stopped = true;
             }
         }
-        let stop_status = jb.borrow().processes[0].status.unwrap();
-        jb.borrow_mut().stop_status = stop_status;
         if this_job.is_some() {
             if state != JobState::Running {
+                if let Some(stop_status) = stop_status {
+                    jb.borrow_mut().stop_status = stop_status;
+                }
                 this_job.as_ref().unwrap().borrow_mut().changed = true;
 
                 if this_job.as_ref().unwrap().borrow().state != state {
@@ -600,7 +606,8 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 
         block &= !DOWAIT_WAITCMD_ALL;
 
-        if pid.is_ok() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
+        // keep blocking until the job we are waiting for is no longer running
+        if job.is_none() || job.as_ref().unwrap().borrow().state != JobState::Running {
             block = DOWAIT_NONBLOCK;
         }
        
-- 
2.43.0


From 30f2cd3deb13cd0015587ec1a55fd27a271be18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 02/68] fix: a command killed by a signal does not leave the
 previous exit status

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 1c83e5e..b81a6f9 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -277,6 +277,9 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                 WaitStatus::Exited(_, status) => {
                     set_exit_status(status);
                 },
+                WaitStatus::Signaled(_, signal, _) => {
+                    set_exit_status(128 + signal as i32);
+                },
                 _ => (),
             }
         }
-- 
2.43.0


From fc5184f5731753e96bbbbbac5f3ddd6d0dc5fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 03/68] fix: > empties the file it writes to

---
 src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.rs b/src/eval.rs
index b81a6f9..6e9ed7a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -409,6 +409,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                     let file = OpenOptions::new()
                         .write(true)
                         .create(true)
+                        .truncate(true)
                         .open(&io_file.filename)
                         .unwrap();
                     dup2(file.as_raw_fd(), 1).unwrap();
-- 
2.43.0


From 81b84b940f375b89d683b03d07f0148196eb0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 04/68] fix: a function called by a background function does
 not end its caller

---
 src/eval.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 6e9ed7a..b503a5e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -153,12 +153,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                         std::process::exit(1);
                     }
                 }
-                if shell::get_forked() {
-                    std::process::exit(0);
-                }
-                else {
-                    set_exit_status(0);
-                }
+                set_exit_status(0);
             }
 
         }
-- 
2.43.0


From 9dd01788ca68dfe5ea565e3e4f3830c12a4b2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 05/68] fix: command substitution reads before it waits and
 closes its pipe once

---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8051d66..8b41965 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -402,9 +402,9 @@ impl SimpleCommand {
                 nix::unistd::close(pip.1).unwrap();
                 let mut buf = String::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                waitpid(child, None).unwrap();
+                // read before waiting: the child blocks once the pipe is full. The file closes pip.0
                 file.read_to_string(&mut buf).unwrap();
-                nix::unistd::close(pip.0).unwrap();
+                waitpid(child, None).unwrap();
                 buf.trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
-- 
2.43.0


From 38a7a7afb7357bd2a5dd3437537c0ca162c89ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 06/68] fix: the words of an alias come before the arguments of
 the command

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8b41965..e34dd61 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -264,7 +264,8 @@ impl SimpleCommand {
                 self.name = name;
                 match &mut self.suffix {
                     Some(suffix) => {
-                        suffix.word.append(&mut args);
+                        args.append(&mut suffix.word);
+                        suffix.word = args;
                     }
                     None => {
                         self.suffix = Some(Suffix {
-- 
2.43.0


From 3f2d920ce371395599da1779f7a00793aea46a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 07/68] fix: values keep everything after the first =

---
 src/ast.rs      | 4 ++--
 src/builtins.rs | 2 +-
 src/context.rs  | 4 ++--
 src/eval.rs     | 2 +-
 src/shell.rs    | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index e34dd61..79b3165 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -284,7 +284,7 @@ impl SimpleCommand {
         if self.prefix.is_some() {
             for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
                 if word.contains("$") {
-                    let mut split = word.split("=");
+                    let mut split = word.splitn(2, "=");
                     let var = split.next().unwrap();
                     let val = split.next().unwrap();
                     let val = match shell::expand_var(val) {
@@ -503,7 +503,7 @@ impl SimpleCommand {
         if self.prefix.is_some() {
             for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
                 if (word.contains("$(") && word.ends_with(")")) || (word.contains("`") && word.ends_with("`")) {
-                    let mut split = word.split("=");
+                    let mut split = word.splitn(2, "=");
                     let var = split.next().unwrap();
                     let val = split.next().unwrap();
                     let val = Self::eval_subshell(val);
diff --git a/src/builtins.rs b/src/builtins.rs
index 59d9f72..31bb4d1 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -349,7 +349,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             continue;//TODO: make this read argument
         }
-        let mut split = word.split('=');
+        let mut split = word.splitn(2, '=');
         let key = split.next().unwrap();
         let value = split.next().unwrap();
         shell::add_var(word,0);
diff --git a/src/context.rs b/src/context.rs
index 7609ece..50afe53 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -518,7 +518,7 @@ impl ContextUtils<&str> for Context {
     /// * `var` - The &str set that is to be added to the context.
     fn add_var(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
@@ -541,7 +541,7 @@ impl ContextUtils<&str> for Context {
 
     fn add_var_readonly(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
diff --git a/src/eval.rs b/src/eval.rs
index b503a5e..fe9cdfd 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -380,7 +380,7 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-        let assign = assign.split('=').collect::<Vec<&str>>();
+        let assign = assign.splitn(2, '=').collect::<Vec<&str>>();
         env::set_var(&assign[0], &assign[1]);
     }
 }
diff --git a/src/shell.rs b/src/shell.rs
index ee89cdb..794277c 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -383,7 +383,7 @@ impl ShellAliasUtils<&str> for Shell {
     /// and the second part is used as the alias value.
     /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, input: &str) {
-        let split = input.split('=').collect::<Vec<&str>>();
+        let split = input.splitn(2, '=').collect::<Vec<&str>>();
         if split.len() != 2 {
             eprintln!("Invalid alias");
             return;
-- 
2.43.0


From a236bae14d450442fbda8fd090555a0e305bbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 08/68] fix: a long number in a value does not crash the shell

---
 src/context.rs | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 50afe53..8bd3c1c 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -526,15 +526,6 @@ impl ContextUtils<&str> for Context {
 
         let var_struct = Var::new(name, &Self::trim(value));
     
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
 
         self.add_var(var_struct);
     }
@@ -549,15 +540,6 @@ impl ContextUtils<&str> for Context {
 
         let mut var_struct = Var::new(name, &Self::trim(value));
     
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
         var_struct.readonly = true;
         
         self.add_var(var_struct);
@@ -573,15 +555,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var(&mut self, (name, value): (&str, &str)) {
         let var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
 
         self.add_var(var_struct);
     }
@@ -590,15 +563,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
         let mut var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
         var_struct.readonly = true;
 
         self.add_var(var_struct);
-- 
2.43.0


From e9b806559e2fe5236468c6504da019f630808260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 09/68] fix: a function call does not overwrite the positional
 parameters of its caller

---
 src/eval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index fe9cdfd..8426e04 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -13,6 +13,7 @@ use std::mem;
 use std::env;
 use std::sync::atomic::{AtomicI32, Ordering};
 use crate::log;
+use crate::context::{ContextUtils, Var};
 
 use std::os::unix::io::RawFd;
 use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
@@ -563,7 +564,9 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
     shell::push_context_new();
-    shell::add_var_context(&format!("0={}", command.name));
+    // the parameters belong to this call: set them in its own context, not in the caller's
+    let context = shell::get_current_context();
+    context.borrow_mut().add_var(Var::new("0", &command.name));
     //eprintln!("0={}", command.name);
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
@@ -572,7 +575,7 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
                 break;
             }
             //eprintln!("{}={}", i+1, arg);
-            shell::add_var_context(&format!("{}={}", i+1, arg));
+            context.borrow_mut().add_var(Var::new(&(i+1).to_string(), arg));
         }
     }
 
-- 
2.43.0


From 6bab301efedd33ce1a7beb46dcf067a33c4d8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 10/68] fix: export, readonly and unset do not change a
 read-only variable

---
 src/builtins.rs |  2 +-
 src/context.rs  | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 31bb4d1..0815d6b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -345,7 +345,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             else {
                 let temp = format!("{}={}",word,var.unwrap());
-                shell::get_env_context().borrow_mut().add_var(temp.as_str());
+                shell::add_var(temp.as_str(),0);
             }
             continue;//TODO: make this read argument
         }
diff --git a/src/context.rs b/src/context.rs
index 8bd3c1c..7a07035 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -148,6 +148,9 @@ impl ContextManager {
         else {
             for context in self.context_stack.iter().rev() {
                 if context.borrow().get_var(name).is_some() {
+                    if context.borrow().get_var(name).unwrap().borrow().readonly {
+                        return;
+                    }
                     context.borrow_mut().remove_var(name);
                     return;
                 }
@@ -266,6 +269,9 @@ impl ContextManager {
 
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
+                if context.borrow().get_var(name).unwrap().borrow().readonly {
+                    return;
+                }
                 context.borrow_mut().add_var_readonly(set);
                 return;
             }
@@ -295,6 +301,12 @@ impl ContextManager {
 
     /// Adds a variable to a particular context on the stack.
     pub fn add_var_pos(&mut self, set: &str, pos: usize) {
+        let name = set.split("=").next().unwrap();
+        if let Some(var) = self.context_stack[pos].borrow().get_var(name) {
+            if var.borrow().readonly {
+                return;
+            }
+        }
         self.context_stack[pos].borrow_mut().add_var(set);
     }
 
-- 
2.43.0


From 1b6450c1f6622c1226b495e13d6042e35c18642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 11/68] fix: export of an existing variable puts it in the
 environment

---
 src/builtins.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 0815d6b..f965b16 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -344,8 +344,10 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 }
             }
             else {
-                let temp = format!("{}={}",word,var.unwrap());
+                let value = var.unwrap();
+                let temp = format!("{}={}",word,value);
                 shell::add_var(temp.as_str(),0);
+                env::set_var(word, &value);
             }
             continue;//TODO: make this read argument
         }
-- 
2.43.0


From b5911bc09a183eceff374c548956eeef5f01f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 12/68] fix: a bang negates the status of its pipeline

---
 src/eval.rs         | 14 ++++++++++++--
 src/grammar.lalrpop |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 8426e04..49579df 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -77,7 +77,7 @@ fn parse_tree(list: &mut Vec<AndOr>) -> Result<i32,String> {
 fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 
     if and_or.and_or.is_none() {
-        return eval_pipeline(&mut and_or.pipeline);
+        return eval_negated_pipeline(&mut and_or.pipeline);
     }
     else {
         let status = eval_and_or(and_or.and_or.as_mut().unwrap())?;
@@ -98,7 +98,17 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
         }
     }
 
-    let status = eval_pipeline(&mut and_or.pipeline)?;
+    let status = eval_negated_pipeline(&mut and_or.pipeline)?;
+    Ok(status)
+}
+
+/// This is where we evaluate a pipeline and negate its status if it starts with a bang
+fn eval_negated_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
+    let mut status = eval_pipeline(pipeline)?;
+    if pipeline.bang {
+        status = if status == 0 { 1 } else { 0 };
+        set_exit_status(status);
+    }
     Ok(status)
 }
 
diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index c71df9e..07df683 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -78,7 +78,7 @@ Pipeline: ast::Pipeline = {
     <ps:PipelineSeq> => ast::Pipeline{bang: false, pipe_sequence: ps, background: false},
     <bang:"bang"> <ps:PipelineSeq> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
     <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: false, pipe_sequence: ps, background: true},
-    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
+    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: true},
 }
 
 PipelineSeq: ast::PipeSequence = {
-- 
2.43.0


From 77a522886535cc6d22ae880fcea906d73df830a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 13/68] fix: unblock signals on every path out of a pipeline,
 block them again after functions

---
 src/eval.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 49579df..17543ba 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -133,7 +133,13 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     //block interrupts
     trap::interrupts_off();
     for command in pipeline.iter_mut() {
-        let process = eval_command(command)?;
+        let process = match eval_command(command) {
+            Ok(process) => process,
+            Err(err) => {
+                trap::interrupts_on();
+                return Err(err);
+            }
+        };
         if process.is_none() {
             break;   
         }
@@ -145,6 +151,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     }
     
     if processes.len() == 0 {
+        trap::interrupts_on();
         return Ok(0);
     }
    
@@ -172,6 +179,8 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             processes.remove(*index);
             commands.remove(*index);
         }
+        // the commands of a function have unblocked interrupts
+        trap::interrupts_off();
     }
 
     
@@ -196,6 +205,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             if count < proc_count - 1 {
                 let pipe_result = pipe();
                 if pipe_result.is_err() {
+                    trap::interrupts_on();
                     return Err("Failed to create pipe".to_string());
                 }
                 pip = pipe_result.unwrap();
-- 
2.43.0


From 51d96828e3282ab2020ca7da56c2077b7422ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 14/68] fix: exit and return with an argument that is not a
 number

---
 src/builtins.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index f965b16..2654f85 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -73,7 +73,13 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = match command.suffix.as_ref().unwrap().word[0].parse::<i32>() {
+        Ok(code) => code,
+        Err(_) => {
+            eprintln!("exit: {}: numeric argument required", command.suffix.as_ref().unwrap().word[0]);
+            2
+        }
+    };
 
     exit(code);
 }
@@ -88,7 +94,12 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = match command.suffix.as_ref().unwrap().word[0].parse::<i32>() {
+        Ok(code) => code,
+        Err(_) => {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, "return: numeric argument required"));
+        }
+    };
 
     eval::set_exit_status(code);
     Ok(())
-- 
2.43.0


From 906aa2d80fd9d02d1cb072f6376a20279edfa5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 15/68] fix: deleting a job forgets it everywhere, also as the
 current job

---
 src/jobs.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 6d1f9cc..3fd339c 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -90,7 +90,7 @@ impl JobControl {
 
     /// This method checks to see if there are any background jobs
     pub fn background_jobs(&self) -> bool {
-        self.background_jobs.is_empty()
+        !self.background_jobs.is_empty()
     }
     /// This method takes a JobId and sees if it corresponds to a background job
     pub fn is_background_job(&self, job_id: usize) -> bool {
@@ -135,6 +135,15 @@ impl JobControl {
         }
     }
 
+    /// This function forgets a deleted job: the current job becomes the newest job left.
+    fn forget_job(&mut self, job_id: JobId) {
+        self.background_jobs.remove(&job_id);
+        if self.current_job == Some(job_id) {
+            self.current_job = self.job_table.borrow().keys().last().copied();
+        }
+        self.update_next_job_id();
+    }
+
     /// This method gets a reference to the job table
     pub fn get_job_table(&mut self) -> Rc<RefCell<BTreeMap<usize, Rc<RefCell<Job>>>>> {
         self.job_table.clone()
@@ -174,15 +183,11 @@ impl JobUtils<Pid> for JobControl {
             return;
         }
         
-        if job.borrow().background {
-            self.background_jobs.remove(&job_id);
-        }
-
         for process in job.borrow().borrow_processes() {
             self.pid_to_job.remove(&process.pid);
         }
 
-        self.update_next_job_id();
+        self.forget_job(job_id);
     }
 
     /// This method gets a job given a pid.
@@ -211,6 +216,7 @@ impl JobUtils<JobId> for JobControl {
         };
 
         if job.borrow().processes.len() == 0 {
+            self.forget_job(job_id);
             return;
         }
 
@@ -234,11 +240,7 @@ impl JobUtils<JobId> for JobControl {
             self.pid_to_job.remove(&process.pid);
         }
 
-        if job.borrow().background {
-            self.background_jobs.remove(&job_id);
-        }
-        
-        self.update_next_job_id();
+        self.forget_job(job_id);
     }
 
     /// This method gets a job given a job id.
-- 
2.43.0


From 596811411d2577d6f7b721147da739b8d8d40eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 16/68] fix: a dollar sign in double quotes does not swallow
 the next character

---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 79b3165..cfc1b3b 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -343,10 +343,10 @@ impl SimpleCommand {
         let mut subshell = String::new();
 
         if chr == '$' {
-            let Some(c) = chars.next() else { panic!("Unexpected EOF") };
             subshell.push(chr);
+            let Some(c) = chars.next() else { return subshell };
+            subshell.push(c);
             if c == '(' {
-                subshell.push(c);
                 while let Some(c) = chars.next() {
                     if c == ')' {
                         subshell.push(c);
-- 
2.43.0


From ce96544a126e20c7e57f43d486fdd7053f3ee2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 17/68] fix: run commands given by path, do not crash when PATH
 is unset

---
 src/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 7a07035..78a76ab 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -312,7 +312,12 @@ impl ContextManager {
 
     /// Looks up a command in the PATH variable.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
-        for path in self.context_stack.first().unwrap().borrow().get_var("PATH").unwrap().borrow().value.split(":") {
+        // a name with a slash is the path of the command
+        if cmd.contains("/") {
+            return Some(cmd.to_string());
+        }
+        let path_var = self.context_stack.first().unwrap().borrow().get_var("PATH")?;
+        for path in path_var.borrow().value.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
             if metadata.is_ok() {
-- 
2.43.0


From f2ed653f5fcf7fd035f0192bc59bc33a0da5bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 18/68] fix: builtins called without arguments do not crash the
 shell

---
 src/builtins.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2654f85..60b7d66 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -51,7 +51,7 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     
     trap::interrupts_off();
     let path;
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         path = env::var("HOME").unwrap();
     } else {
         path = command.suffix.as_ref().unwrap().word[0].to_string();
@@ -120,7 +120,7 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     trap::interrupts_off();
     let id;
     let id_type;
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
@@ -217,7 +217,7 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is empty, it will print out all of the current aliases.
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         shell::display_aliases();
         return Ok(());
     }
@@ -241,7 +241,7 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'alias'.
 /// If the suffix is '-a', it will remove all of the current aliases.
 pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word.len() > 1 {
@@ -386,7 +386,7 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It evaluates a string as a command.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'string'.
 pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "eval needs an argument"));
     }
 
-- 
2.43.0


From ce91ea218a607479962e73c421572993a996ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 19/68] fix: every assignment of a line is made

---
 src/builtins.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 60b7d66..e7d3e80 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -377,7 +377,11 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
 
 
-    shell::add_var_context(command.prefix.as_ref().unwrap().assignment[0].as_str());
+    if let Some(prefix) = command.prefix.as_ref() {
+        for assignment in prefix.assignment.iter() {
+            shell::add_var_context(assignment.as_str());
+        }
+    }
     Ok(())
 }
 
-- 
2.43.0


From f9ebd181512e6f54aafee2ba8b0283ae1fbfccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 20/68] fix: expand a variable on the right of an assignment

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index cfc1b3b..54481b0 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -287,7 +287,7 @@ impl SimpleCommand {
                     let mut split = word.splitn(2, "=");
                     let var = split.next().unwrap();
                     let val = split.next().unwrap();
-                    let val = match shell::expand_var(val) {
+                    let val = match val.strip_prefix("$").and_then(|name| shell::expand_var(name)) {
                         Some(expanded) => {
                             expanded
                         }
-- 
2.43.0


From 25c4ef7c719d14cd86f02aa921f7d944168ffef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 21/68] fix: cut the quotes of an assignment in front of a
 command

---
 src/builtins.rs | 2 +-
 src/eval.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index e7d3e80..e614264 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -32,7 +32,7 @@ enum IdType {
 }
 
 /// This function trims quotes off of its input.
-fn trim(word: &str) -> String {
+pub fn trim(word: &str) -> String {
     if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
         let mut chars = word.chars();
         chars.next();
diff --git a/src/eval.rs b/src/eval.rs
index 17543ba..908e63c 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -402,7 +402,7 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
         let assign = assign.splitn(2, '=').collect::<Vec<&str>>();
-        env::set_var(&assign[0], &assign[1]);
+        env::set_var(&assign[0], &builtins::trim(assign[1]));
     }
 }
 
-- 
2.43.0


From c5b8207e457eca578d391f52b49da82060912eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 22/68] fix: readonly of an undefined variable does not crash
 the shell

---
 src/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 78a76ab..d02b3f3 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -296,7 +296,8 @@ impl ContextManager {
                 return;
             }
         }
-        self.get_context().borrow_mut().get_var(name).unwrap().borrow_mut().readonly = true;
+        // an undefined variable becomes an empty read-only one
+        self.get_context().borrow_mut().add_var_readonly(name);
     }
 
     /// Adds a variable to a particular context on the stack.
-- 
2.43.0


From 1a99941d56d26fb68d99a70a980a98cfd7f97621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 23/68] fix: keep the redirections of a command without
 arguments

---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 54481b0..43a5192 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -599,8 +599,10 @@ impl SimpleCommand {
         self.name = words.remove(0);
         
         if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
+            // a suffix without words can still have redirections
+            let io_redirect = self.suffix.take().map_or(Vec::new(), |suffix| suffix.io_redirect);
             self.suffix = Some(Suffix {
-                io_redirect: Vec::new(),
+                io_redirect,
                 word: words,
             });
             return;
-- 
2.43.0


From 7a19eaa0f2d5cbef0e2c942def53486e4d7ce7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 24/68] fix: an empty quoted command name does not crash the
 shell

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 43a5192..e2faa95 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -596,7 +596,7 @@ impl SimpleCommand {
                 words.push(word.to_string());
             }
         }
-        self.name = words.remove(0);
+        self.name = if words.is_empty() { String::new() } else { words.remove(0) };
         
         if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
             // a suffix without words can still have redirections
-- 
2.43.0


From a6ace77a3c5671d2836594a237f0d69c889a6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 25/68] fix: a builtin's option starts with a dash; a dash
 elsewhere in its operand is not an option

---
 src/builtins.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index e614264..805d8a9 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -221,7 +221,7 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
         shell::display_aliases();
         return Ok(());
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if command.suffix.as_ref().unwrap().word[0].starts_with("-p") {
         shell::display_aliases();
         return Ok(());
     }
@@ -247,7 +247,7 @@ pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().unwrap().word.len() > 1 {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias only takes one argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-a") {
+    if command.suffix.as_ref().unwrap().word[0].starts_with("-a") {
         shell::clear_aliases();
         return Ok(());
     }
@@ -299,7 +299,7 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is a file, it will evaluate the as a new context and export it.
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].starts_with("-p") {
         env::vars().for_each(|(key, value)| {
             println!("{}={}", key, value);
         });
@@ -438,7 +438,7 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     let mut flags = Flags::Variable;
     let mut pos = 0;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
 	if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
 	    flags = Flags::Function;
 	    pos = 1;
@@ -481,7 +481,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let mut flags = Flags::Variable;
     let mut pos = 0;
     let mut print = false;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
             flags = Flags::Function;
             pos = 1;
@@ -502,7 +502,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[pos].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
@@ -573,7 +573,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut rename = false;
     let mut pos = 0;
     
-    if suffix.word[0].contains('-') {
+    if suffix.word[0].starts_with('-') {
         if suffix.word[0].contains('c') {
             empty_env = true;
             pos = 1;
@@ -590,7 +590,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             }
         }
     }
-    if suffix.word[pos].contains('-') {
+    if suffix.word[pos].starts_with('-') {
         if suffix.word[pos].contains('c') {
             empty_env = true;
             pos += 1;
-- 
2.43.0


From 1a1189f1346c4eddcd4c69bac561174990fbf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 26/68] fix: unset, readonly and exec with an option but no
 operand do not crash the shell

---
 src/builtins.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 805d8a9..e78705d 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -455,6 +455,9 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 	    return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset: invalid option"));
 	}
     }
+    if command.suffix.as_ref().unwrap().word.len() == pos {
+	return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
+    }
 
     match flags {
         Flags::Variable => {
@@ -502,7 +505,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().starts_with('-') {
+    if command.suffix.as_ref().unwrap().word.len() > pos && command.suffix.as_ref().unwrap().word[pos].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
@@ -590,7 +593,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             }
         }
     }
-    if suffix.word[pos].starts_with('-') {
+    if suffix.word.len() > pos && suffix.word[pos].starts_with('-') {
         if suffix.word[pos].contains('c') {
             empty_env = true;
             pos += 1;
@@ -608,6 +611,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
 
+    if suffix.word.len() <= pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
+    }
+
     log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
 
     let mut args = Vec::new();
-- 
2.43.0


From 2924a65da36d2c493be559adce16a65d1cfed3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 27/68] fix: the child signal handler only records the signal;
 children are reaped between commands

A handler that runs while the shell allocates or has the job table borrowed
crashed it, and could reap a process of the pipeline being waited for, whose
status was then lost.
---
 src/eval.rs |  2 ++
 src/trap.rs | 29 ++++++++++++++++++-----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 908e63c..e91f2da 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -130,6 +130,8 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     let mut processes = Vec::new();
     let mut commands = Vec::new();
 
+    trap::reap_children();
+
     //block interrupts
     trap::interrupts_off();
     for command in pipeline.iter_mut() {
diff --git a/src/trap.rs b/src/trap.rs
index 0d22b4c..302a5cd 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -186,13 +186,9 @@ extern "C" fn on_sig(sig_num: c_int) {
     }
     unsafe {
         if sig_num == signal::SIGCHLD as c_int {
+            // the child is reaped between commands: a handler must not touch the job table
             GOT_SIGCHLD.store(true, Ordering::Relaxed);
 
-            sig_chld();
-            
-            
-
-            //sig_chld();//this is different from how dash does it but it should allow for for traps to be set
             if !is_trap_set(signal::SIGCHLD) {
                 return;
             }
@@ -217,17 +213,27 @@ extern "C" fn on_sig(sig_num: c_int) {
     }
 }
 
-/// This is the signal handler for SIGCHLD.
+/// This function reaps the children that have changed state since the last SIGCHLD.
+/// It is called between commands.
+pub fn reap_children() {
+    if shell::get_forked() || !got_sigchld() {
+        return;
+    }
+    set_got_sigchld(false);
+    while sig_chld() {}
+}
+
+/// This function reaps one child, it returns false if there was none to reap.
 ///
 /// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
 /// If the process is in the background then we can wait on it.
-fn sig_chld() {
+fn sig_chld() -> bool {
     let pid = Pid::from_raw(-1);
 
     let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
     let result = waitpid(pid, Some(flag));
     if result.is_err() {
-        return;
+        return false;
     }
     let status = result.unwrap();
     let pid;
@@ -245,16 +251,16 @@ fn sig_chld() {
             status
         },
         WaitStatus::StillAlive => {
-            return;
+            return false;
         },
         _ => {
-            return;
+            return false;
         }, 
     };
 
     let job = shell::get_job(*pid);
     if job.is_none() {
-        return;
+        return true;
     }
     job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
    
@@ -275,6 +281,7 @@ fn sig_chld() {
         
         jobs::wait_for_job_sigchld(job, status);
     }
+    true
 }
 
 /// This functions is called if the signal was a SIGINT.
-- 
2.43.0


From 3039b40d706a364c1a4e1923b3c8d34d2a785977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 28/68] fix: a background pipeline does not make the shell wait
 for it when its first process ends

---
 src/jobs.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 3fd339c..204a7a6 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -407,11 +407,9 @@ impl Display for Job {
 
 //pub fn forkshell()
 
-/// This function waits for a job to finish.
+/// This function finishes a background job once all of its processes have changed state.
 ///
-/// This variant of the function is similar to to wait_for_job but also takes in a WaitStatus.
-/// This is called from a SIGCHLD handler as we need to to know the if the job only has one process or not.
-/// If the job has more than one process then we call the normal wait_for_job function.
+/// It is called when a child has been reaped between commands, so it must not wait for the processes of the job that still run.
 pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -> WaitStatus {
 
     if job.is_none() {
@@ -419,18 +417,20 @@ pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -
     }
     let job = job.unwrap();
 
-    if job.borrow().processes.len() == 1 {
-        job.borrow_mut().stop_status = status;
-        job.borrow_mut().state = JobState::Finished;
-        let id = {
-            job.borrow().job_id
-        };
-        shell::delete_job(id);
+    if job.borrow().processes.iter().any(|process| process.status.is_none()) {
         return status;
     }
-    trap::interrupts_off();
-    let result = wait_for_job(Some(job));
-    trap::interrupts_on();
+
+    // the status of a job is that of its last process, or of its first stopped process
+    let stopped = job.borrow().processes.iter().find(|process| matches!(process.status, Some(WaitStatus::Stopped(_, _)))).map(|process| process.status.unwrap());
+    let last = job.borrow().processes.last().map(|process| process.status.unwrap());
+    let result = stopped.or(last).unwrap_or(status);
+    job.borrow_mut().stop_status = result;
+    job.borrow_mut().state = JobState::Finished;
+    let id = {
+        job.borrow().job_id
+    };
+    shell::delete_job(id);
     result
 }
 
-- 
2.43.0


From 3541a0da912dbc65707317a8262bde06491ad6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 29/68] fix: the output of a command substitution is not
 evaluated a second time

---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index e2faa95..18f43c6 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -636,12 +636,12 @@ impl SimpleCommand {
         let mut new_word = word.to_string();
         Self::cut_quotes(&mut new_word);
         let mut ret = Vec::new();
-        let eval = Self::eval_subshell(&new_word);
-        if eval.contains(" ") {
-            ret.append(&mut eval.split_whitespace().map(|word| word.to_string()).collect());
+        // cut_quotes has run the commands: what they wrote is not evaluated again
+        if new_word.contains(" ") {
+            ret.append(&mut new_word.split_whitespace().map(|word| word.to_string()).collect());
         }
         else {
-            ret.push(eval);
+            ret.push(new_word);
         }
         ret
     }
-- 
2.43.0


From cb84fc96f8b14af2c745147142185daa6112442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 30/68] fix: the file of a redirection is not named with the
 quotes around it

---
 src/eval.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index e91f2da..edde269 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -413,11 +413,12 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
+            let filename = builtins::trim(&io_file.filename);
             match &io_file.redirect_type {
                 RedirectType::Input => {
                     let file = OpenOptions::new()
                         .read(true)
-                        .open(&io_file.filename)
+                        .open(&filename)
                         .unwrap();
                     
                     dup2(file.as_raw_fd(), 0).unwrap();
@@ -428,7 +429,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .write(true)
                         .create(true)
                         .truncate(true)
-                        .open(&io_file.filename)
+                        .open(&filename)
                         .unwrap();
                     dup2(file.as_raw_fd(), 1).unwrap();
                     mem::forget(file);
@@ -438,7 +439,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .write(true)
                         .append(true)
                         .create(true)
-                        .open(&io_file.filename)
+                        .open(&filename)
                         .unwrap();
                     dup2(file.as_raw_fd(), 1).unwrap();
                     mem::forget(file);
-- 
2.43.0


From f15518d97f46255653fe7554d7684904f4f6fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 31/68] fix: listing the jobs does not crash the shell

---
 src/jobs.rs  | 8 ++++----
 src/shell.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 204a7a6..e78d34d 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -254,7 +254,7 @@ impl Display for JobControl {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap(), job.borrow()));
+            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         }
         write!(f, "{}", s)
     }
@@ -685,14 +685,14 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             if dump {
                 output.push_str(&format!("({}) (core dumped)", signal));
             }
@@ -705,7 +705,7 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             output.push_str(&format!("({})", signal));
         },
         _ => return None,
diff --git a/src/shell.rs b/src/shell.rs
index 794277c..4803af1 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -297,7 +297,7 @@ impl Shell {
 	self.context_manager.remove_var(var);
     }
     /// This function takes in a &str and returns the value of the variable if it exists.
-    pub fn expand_variable(&mut self, var: &str) -> Option<String> {
+    pub fn expand_variable(&self, var: &str) -> Option<String> {
         let var = self.context_manager.get_var(var);
         if var.is_none() {
             return None;
@@ -640,7 +640,7 @@ pub fn add_var_context(set: &str) {
 }
 /// This function takes in a variable name and returns the value of that variable if it exists.
 pub fn expand_var(var: &str) -> Option<String> {
-    let mut shell = SHELL.get().borrow_mut();
+    let shell = SHELL.get().borrow();
     shell.expand_variable(var)
 }
 pub fn print_readonly_vars() {
-- 
2.43.0


From e1616a80a422b6c8b8131e75f03dd9d7e531fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 32/68] fix: an interrupt does not crash a shell whose standard
 input cannot be written

---
 src/trap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trap.rs b/src/trap.rs
index 302a5cd..e6f2a42 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -201,7 +201,8 @@ extern "C" fn on_sig(sig_num: c_int) {
 
 
     if sig_num == signal::SIGINT as c_int && !is_trap_set(signal::SIGINT) {
-        nix::unistd::write(0,&[0xA as u8]).unwrap();
+        // the standard input may not be writable, which is no reason to crash in a signal handler
+        let _ = nix::unistd::write(0,&[0xA as u8]);
         //io::stdin().read_line(&mut String::new()).unwrap();
         unsafe {
             if !SUPRESS_SIGINT.load(Ordering::Relaxed) {
-- 
2.43.0


From 90d4d05bf088bc1f5621f2686ae96092dbaf4e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 33/68] fix: the span of a two-character operator covers both
 characters

---
 src/lexer.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 4e0943d..5f4adaa 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -155,7 +155,7 @@ impl<'input> Iterator for Lexer<'input> {
                 ';' => Some(Ok((start, Token::SemiColon, end))),
                 '|' => {
                     match self.lookahead {
-                        Some((_, '|', _)) => {
+                        Some((_, '|', end)) => {
                             self.advance();
                             Some(Ok((start, Token::Or, end)))
                         },
@@ -164,7 +164,7 @@ impl<'input> Iterator for Lexer<'input> {
                 },
                 '&' => {
                     match self.lookahead {
-                        Some((_, '&', _)) => {
+                        Some((_, '&', end)) => {
                             self.advance();
                             Some(Ok((start, Token::And, end)))
                         },
@@ -201,11 +201,11 @@ impl<'input> Iterator for Lexer<'input> {
                 '}' => Some(Ok((start, Token::CloseBrace, end))),
                 '>' => {
                     match self.lookahead {
-                        Some((_, '>', _)) => {
+                        Some((_, '>', end)) => {
                             self.advance();
                             Some(Ok((start, Token::DoubleGreater, end)))
                         },
-                        Some((_, '&', _)) => {
+                        Some((_, '&', end)) => {
                             self.advance();
                             Some(Ok((start, Token::GreaterAnd, end)))
                         },
@@ -214,11 +214,11 @@ impl<'input> Iterator for Lexer<'input> {
                 },
                 '<' => {
                     match self.lookahead {
-                        Some((_, '<', _)) => {
+                        Some((_, '<', end)) => {
                             self.advance();
                             Some(Ok((start, Token::DoubleLess, end)))
                         },
-                        Some((_, '&', _)) => {
+                        Some((_, '&', end)) => {
                             self.advance();
                             Some(Ok((start, Token::LessAnd, end)))
                         },
@@ -345,13 +345,14 @@ impl<'input> Lexer<'input> {
         }
     }
 
-    fn newline_list(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
-        while let Some((_, chr, _)) = self.lookahead {
+    fn newline_list(&mut self, start: usize, mut end: usize) -> Result<(usize, Token<'input>, usize), Error> {
+        while let Some((_, chr, next_end)) = self.lookahead {
             //eprintln!("chr: {}", chr);
             match chr {
                 '\n' => self.advance(),
                 _ => break,
             };
+            end = next_end;
         }
         Ok((start, Token::NewlineList, end))
     }
-- 
2.43.0


From bf6eb465b5fc3b1da300153430eec90d6f6858ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 34/68] fix: block signals again before a background job is set
 up

---
 src/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index edde269..f66a2df 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -181,9 +181,9 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             processes.remove(*index);
             commands.remove(*index);
         }
-        // the commands of a function have unblocked interrupts
-        trap::interrupts_off();
     }
+    // the commands of a function or of a builtin have unblocked interrupts
+    trap::interrupts_off();
 
     
 
-- 
2.43.0


From 143769cd870fb6caf4baf11d9e0e5783f6f2aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 35/68] fix: an alias without words does not end the shell

---
 src/shell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shell.rs b/src/shell.rs
index 4803af1..beee1dc 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -176,7 +176,8 @@ impl Shell {
             None => None,
             Some(alias) => {
                 let mut args = alias.split_whitespace();
-                let command = args.next().unwrap();
+                // an alias without words stands for a command without a name
+                let command = args.next().unwrap_or("");
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
                     Some((command.to_string(), None))
-- 
2.43.0


From 3efa9d5052e982fb43d7721c870547cef15d5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 36/68] fix: the arguments of a sourced script do not change
 the parameters of a calling function

---
 src/builtins.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index e78705d..6a440cf 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -16,6 +16,7 @@ use crate::eval;
 use crate::log;
 use crate::context::ContextUtils;
 use crate::context::Context;
+use crate::context::Var;
 use crate::jobs::Process;
 
 use std::rc::Rc;
@@ -690,8 +691,14 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
         Vec::new()
     };
 
+    // the arguments belong to the script: set them in the innermost context, not in that of a calling function
+    let context = shell::get_current_context();
     for (pos, arg) in args.iter().enumerate() {
-        shell::add_var_context(&format!("{}={}", pos + 1, arg));
+        let name = (pos + 1).to_string();
+        let readonly = context.borrow().get_var(&name).map_or(false, |var| var.borrow().readonly);
+        if !readonly {
+            context.borrow_mut().add_var(Var::new(&name, arg));
+        }
     }
 
     // Open the file directly if it has a slash
-- 
2.43.0


From aa907e830096c98102a77ba6ba8d10853142bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 37/68] fix: export context removes its scope when the commands
 of the file fail

---
 src/builtins.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 6a440cf..d65f276 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -279,13 +279,16 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 
     shell::push_context_new();
 
-    match eval::eval(&mut ast) {
+    let result = eval::eval(&mut ast);
+
+    // the new context is removed whether or not the commands succeed
+    let context = shell::pop_context().unwrap();
+    match result {
         Ok(_) => {},
         Err(e) => {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)));
         }
     }
-    let context = shell::pop_context().unwrap();
     Ok(context)
 }
 
-- 
2.43.0


From c2512eb3308b0e67cbf75044dbf3d38c0213fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 38/68] fix: fg and bg wait for what they let go on, and pass
 over processes that have ended

---
 src/builtins.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index d65f276..2516b26 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -9,6 +9,7 @@ use crate::shell;
 use nix::unistd::Pid;
 use nix::sys::signal::kill;
 use nix::sys::signal::Signal;
+use nix::sys::wait::WaitStatus;
 use std::ffi::CString;
 use crate::jobs;
 use crate::trap;
@@ -170,8 +171,9 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = false;
 
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
+    if !continue_processes(job.as_ref().unwrap()) {
+        jobs::wait_for_job_sigchld(job, WaitStatus::StillAlive);
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "Job has terminated"));
     }
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
@@ -179,6 +181,23 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     Ok(())
 }
 
+/// This function lets the processes of a job that have not ended go on, it returns false if there are none.
+fn continue_processes(job: &Rc<RefCell<jobs::Job>>) -> bool {
+    let mut job = job.borrow_mut();
+    let mut alive = false;
+    job.stop_status = WaitStatus::StillAlive;
+    for process in job.borrow_processes_mut() {
+        if matches!(process.status, Some(WaitStatus::Exited(_, _)) | Some(WaitStatus::Signaled(_, _, _))) {
+            continue;
+        }
+        // a stopped process runs again
+        process.status = None;
+        kill(process.pid, Signal::SIGCONT).unwrap();
+        alive = true;
+    }
+    alive
+}
+
 /// This is the 'bg' command of the shell.
 /// It is used to bring a stopped job to the background.
 /// It takes a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
@@ -203,8 +222,9 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = true;
     
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
+    if !continue_processes(job.as_ref().unwrap()) {
+        jobs::wait_for_job_sigchld(job, WaitStatus::StillAlive);
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "Job has terminated"));
     }
 
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
-- 
2.43.0


From 577e2006b1db4212e87ea967848ccfb9c2f12042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 39/68] fix: fg and bg report an argument that is no job
 instead of crashing

---
 src/builtins.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2516b26..2accaba 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -125,20 +125,21 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
-        let mut chars = command.suffix.as_ref().unwrap().word[0].chars();
-        chars.next();
-        id = chars.as_str().parse().unwrap();
-        id_type = IdType::Jid;
-    } else {
-        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>().unwrap();
-        id_type = IdType::Pid;
-    }
+    let word = &command.suffix.as_ref().unwrap().word[0];
+    let (number, kind) = match word.strip_prefix('%') {
+        Some(number) => (number, IdType::Jid),
+        None => (word.as_str(), IdType::Pid),
+    };
+    id = match number.parse::<i32>() {
+        Ok(number) if number >= 0 => number as usize,
+        _ => return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{}: no such job", word))),
+    };
+    id_type = kind;
 
     if command.name == "fg" {
-        fg(id.try_into().unwrap(), id_type)?;
+        fg(id, id_type)?;
     } else {
-        bg(id.try_into().unwrap(), id_type)?;
+        bg(id, id_type)?;
     }
     trap::interrupts_on();
 
-- 
2.43.0


From e99c5e49a950017f3eaaacb6c25d90cef84cc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 40/68] fix: cd reports that HOME is not set instead of
 crashing

---
 src/builtins.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2accaba..c0af483 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -54,7 +54,10 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     trap::interrupts_off();
     let path;
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
-        path = env::var("HOME").unwrap();
+        path = match env::var("HOME") {
+            Ok(home) => home,
+            Err(_) => return Err(std::io::Error::new(std::io::ErrorKind::Other, "cd: HOME not set")),
+        };
     } else {
         path = command.suffix.as_ref().unwrap().word[0].to_string();
     }
-- 
2.43.0


From 08493fa187ba9329b6cca9fd0a0884d4a37d18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 41/68] fix: brackets inside of quotes or comments do not keep
 a command line from running

---
 src/completion.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 76bd276..df7d256 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -1,26 +1,26 @@
 use std::fs;
 use std::env;
 use crate::shell;
+use crate::lexer::{Lexer, Token};
 
 use std::borrow::Cow::{self, Borrowed, Owned};
 
 use rustyline::completion::FilenameCompleter;
 use rustyline::highlight::{Highlighter, MatchingBracketHighlighter};
 use rustyline::hint::HistoryHinter;
-use rustyline::validate::MatchingBracketValidator;
-use rustyline::{Completer, Helper, Hinter, Validator};
+use rustyline::validate::{MatchingBracketValidator, ValidationContext, ValidationResult, Validator};
+use rustyline::{Completer, Helper, Hinter};
 
 use rustyline::{Context,Result};
 use rustyline::completion::{Pair, Completer};
 use rustyline::completion::Candidate;
 
 
-#[derive(Helper, Completer, Hinter, Validator)]
+#[derive(Helper, Completer, Hinter)]
 pub struct CompletionHelper {
     #[rustyline(Completer)]
     completer: PathCompleter,
     highlighter: MatchingBracketHighlighter,
-    #[rustyline(Validator)]
     validator: MatchingBracketValidator,
     #[rustyline(Hinter)]
     hinter: HistoryHinter,
@@ -48,6 +48,38 @@ impl Highlighter for CompletionHelper {
     }
 }
 
+impl Validator for CompletionHelper {
+    /// A line is complete when the brackets of its tokens are closed: brackets inside of quotes are part of a word.
+    fn validate(&self, ctx: &mut ValidationContext) -> Result<ValidationResult> {
+        let mut closing = Vec::new();
+        for token in Lexer::new(ctx.input()) {
+            match token {
+                Ok((_, Token::OpenParen, _)) => closing.push(Token::CloseParen),
+                Ok((_, Token::OpenBrace, _)) => closing.push(Token::CloseBrace),
+                Ok((_, token, _)) if token == Token::CloseParen || token == Token::CloseBrace => {
+                    if closing.pop() != Some(token) {
+                        return self.validator.validate(ctx);
+                    }
+                },
+                // a word that is not closed yet
+                Ok((_, Token::Word(word), _)) if word.starts_with(|c| c == '"' || c == '\'' || c == '`') && (word.len() == 1 || !word.ends_with(&word[..1])) => {
+                    return self.validator.validate(ctx);
+                },
+                Ok((_, Token::Word(word), _)) if word.starts_with("$(") && !word.ends_with(')') => {
+                    return self.validator.validate(ctx);
+                },
+                Ok(_) => {},
+                Err(_) => return self.validator.validate(ctx),
+            }
+        }
+        if closing.is_empty() {
+            Ok(ValidationResult::Valid(None))
+        } else {
+            Ok(ValidationResult::Incomplete)
+        }
+    }
+}
+
 impl Default for CompletionHelper {
     fn default() -> CompletionHelper {
         Self {
-- 
2.43.0


From 12f5bd1f274c9aaae58feff3c70235e2549760e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 42/68] fix: source reports a file that cannot be read instead
 of crashing

---
 src/builtins.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index c0af483..7e22daf 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -745,7 +745,9 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut file = file.unwrap();
 
     let mut contents = String::new();
-    file.read_to_string(&mut contents).unwrap();
+    if let Err(e) = file.read_to_string(&mut contents) {
+        return Err(std::io::Error::new(e.kind(), format!("{} {}: {}", command.name, filename, e)));
+    }
 
     let mut lexer = Lexer::new(contents.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(contents.as_str(),lexer) {
-- 
2.43.0


From 0073d1eb5d08d4da647f824d92ee5b7032ae53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 43/68] fix: export reports an empty name instead of crashing

---
 src/builtins.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builtins.rs b/src/builtins.rs
index 7e22daf..e70a61d 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -393,6 +393,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         let mut split = word.splitn(2, '=');
         let key = split.next().unwrap();
         let value = split.next().unwrap();
+        if key.is_empty() {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: not a valid name", word)));
+        }
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
     }
-- 
2.43.0


From ec6de58b28258a804af6531a556961d1f4b495df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 44/68] fix: an expanded command name with wide white space
 does not crash the shell

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 18f43c6..52bc29d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -225,7 +225,7 @@ impl SplitWhitespaceIgnoringQuotes for str {
                     } else if c.is_whitespace() {
                         end = i;
                         splits.push(&self[start..end]);
-                        start = i + 1;
+                        start = i + c.len_utf8();
                     }
                 }
                 QuoteType::Single => {
-- 
2.43.0


From 8477a36dbad912e9ab3f2890dd59302b3a65ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 45/68] fix: the output of a substitution is split at newlines
 and tabs also when it has no space

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 52bc29d..3c49163 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -637,7 +637,7 @@ impl SimpleCommand {
         Self::cut_quotes(&mut new_word);
         let mut ret = Vec::new();
         // cut_quotes has run the commands: what they wrote is not evaluated again
-        if new_word.contains(" ") {
+        if !new_word.is_empty() {
             ret.append(&mut new_word.split_whitespace().map(|word| word.to_string()).collect());
         }
         else {
-- 
2.43.0


From 5ff3fbcce02b59618803b0e3dc0c67a05f6c0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 46/68] fix: a substitution whose commands do not parse is
 reported instead of ending the shell

---
 src/ast.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 3c49163..90b883a 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -392,9 +392,14 @@ impl SimpleCommand {
         let subshell = &chars.collect::<String>();
 
         let lexer = Lexer::new(&subshell);
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&subshell,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&subshell,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    eprintln!("Error: {:?}", err);
+                    return String::new();
+                }
+            };
 
         let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
 
-- 
2.43.0


From e0c9e66925b6925cd0a099661cf40c6109e4dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 47/68] fix: the interactive shell goes on when PS1 is unset

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a7e4f64..2ead710 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,7 +186,7 @@ fn interactive_loop() {
     loop {
         let input;
 
-        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
+        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap_or_default().as_str());
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
-- 
2.43.0


From 92eb111dd745a5f30632716e273f28e3570d7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 48/68] fix: output of a substitution that is no UTF-8 does not
 end the shell

---
 Cargo.lock | 946 +++++++++++++++++++++++++++++++++++++++++++++++++----
 src/ast.rs |   7 +-
 2 files changed, 886 insertions(+), 67 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index b98862d..6a0bd8a 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "aho-corasick"
@@ -11,6 +11,21 @@ dependencies = [
  "memchr",
 ]
 
+[[package]]
+name = "android_system_properties"
+version = "0.1.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ae221649c9976a6f6c56ae1facf410f3ddb33cc661c4b7b61020a912d4237fbc"
+dependencies = [
+ "libc",
+]
+
+[[package]]
+name = "arrayvec"
+version = "0.7.8"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d3fb67a6e08acf24fdeccbac2cb6ac4305825bd1f117462e0e6f2f193345ad56"
+
 [[package]]
 name = "ascii-canvas"
 version = "3.0.0"
@@ -37,6 +52,12 @@ version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "d468802bab17cbc0cc575e9b053f41e72aa36bfa6b7f55e3529ffa43161b97fa"
 
+[[package]]
+name = "beef"
+version = "0.5.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3a8241f3ebb85c056b509d4327ad0358fbbba6ffb340bf388f26350aeda225b1"
+
 [[package]]
 name = "bit-set"
 version = "0.5.3"
@@ -58,6 +79,18 @@ version = "1.3.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bef38d45163c2f1dde094a7dfd33ccf595c92905c8f8f4fdc18d06fb1037718a"
 
+[[package]]
+name = "bitflags"
+version = "2.13.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3ded4057c258ba199e2d26386d3af3780957ecaee6c4ef4041c6b4b8b97c0b06"
+
+[[package]]
+name = "bumpalo"
+version = "3.20.3"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "72f5acc6cb2ba439de613abc23857ec3d78374d8ed5ac84e9d11336e87da8649"
+
 [[package]]
 name = "cc"
 version = "1.0.79"
@@ -66,15 +99,33 @@ checksum = "50d30906286121d95be3d479533b458f87493b30a4b5f79a607db8f5d11aa91f"
 
 [[package]]
 name = "cfg-if"
-version = "0.1.10"
+version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "4785bdd1c96b2a846b2bd7cc02e86b6b3dbf14e7e53446c4f54c92a361040822"
+checksum = "baf1de4339761588bc0619e3cbc0120ee582ebb74b53b4efbf79117bd2da40fd"
 
 [[package]]
-name = "cfg-if"
-version = "1.0.0"
+name = "chrono"
+version = "0.4.45"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "baf1de4339761588bc0619e3cbc0120ee582ebb74b53b4efbf79117bd2da40fd"
+checksum = "1aa79e62e7697b8e29b513a68abacf485adcd1fe8284a4316c5ae868e6633327"
+dependencies = [
+ "iana-time-zone",
+ "js-sys",
+ "num-traits",
+ "wasm-bindgen",
+ "windows-link",
+]
+
+[[package]]
+name = "clipboard-win"
+version = "4.5.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7191c27c2357d9b7ef96baac1773290d4ca63b24205b82a3fd8a0637afcf0362"
+dependencies = [
+ "error-code",
+ "str-buf",
+ "winapi",
+]
 
 [[package]]
 name = "const_fn"
@@ -82,6 +133,68 @@ version = "0.4.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "fbdcdcb6d86f71c5e97409ad45898af11cbc995b4ee8112d59095a28d376c935"
 
+[[package]]
+name = "core-foundation-sys"
+version = "0.8.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "773648b94d0e5d620f64f280777445740e61fe701025087ec8b57f45c791888b"
+
+[[package]]
+name = "crossbeam"
+version = "0.8.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e71406cd8807725f7ac2f999a4cdd32e98f829fdf65f528343cebf945e41df1e"
+dependencies = [
+ "crossbeam-channel",
+ "crossbeam-deque",
+ "crossbeam-epoch",
+ "crossbeam-queue",
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-channel"
+version = "0.5.17"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "98b0cc327b5bc766e7fda9c9260cc0fa81b43a8e240440422dff70788e3f9ef1"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-deque"
+version = "0.8.8"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "622f3fc73690be383c7214310406f28a90e6edeadc3cea882f9d71e495b9711a"
+dependencies = [
+ "crossbeam-epoch",
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-epoch"
+version = "0.9.21"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc74980687109a3b14c72fd458107bf0baa1da1a1a805e178d15501ba9b86d9d"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-queue"
+version = "0.3.14"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "03e8bd762f7479489c70ed6c768ddca99d7296857de437a68dcb2a94365b3fae"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-utils"
+version = "0.8.23"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a31eee39dddec8330830986fcd7625edb5a24ec90ea038215273bbc3adb08ac6"
+
 [[package]]
 name = "crunchy"
 version = "0.2.2"
@@ -89,40 +202,101 @@ source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "7a81dae078cea95a014a339291cec439d2f232ebe854a9d672b796c6afafa9b7"
 
 [[package]]
-name = "diff"
-version = "0.1.13"
+name = "darling"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "56254986775e3233ffa9c4d7d3faaf6d36a2c09d30b20687e9f88bc8bafc16c8"
+checksum = "7b750cb3417fd1b327431a470f388520309479ab0bf5e323505daf0290cd3850"
+dependencies = [
+ "darling_core",
+ "darling_macro",
+]
 
 [[package]]
-name = "dirs"
-version = "2.0.2"
+name = "darling_core"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "13aea89a5c93364a98e9b37b2fa237effbb694d5cfe01c5b70941f7eb087d5e3"
+checksum = "109c1ca6e6b7f82cc233a97004ea8ed7ca123a9af07a8230878fcfda9b158bf0"
 dependencies = [
- "cfg-if 0.1.10",
- "dirs-sys",
+ "fnv",
+ "ident_case",
+ "proc-macro2",
+ "quote",
+ "strsim",
+ "syn 1.0.109",
 ]
 
 [[package]]
-name = "dirs-next"
-version = "2.0.0"
+name = "darling_macro"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "b98cf8ebf19c3d1b223e151f99a4f9f0690dca41414773390fc824184ac833e1"
+checksum = "a4aab4dbc9f7611d8b55048a3a16d2d010c2c8334e46304b40ac1cc14bf3b48e"
 dependencies = [
- "cfg-if 1.0.0",
- "dirs-sys-next",
+ "darling_core",
+ "quote",
+ "syn 1.0.109",
 ]
 
 [[package]]
-name = "dirs-sys"
-version = "0.3.7"
+name = "defer-drop"
+version = "1.3.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "1b1d1d91c932ef41c0f2663aa8b0ca0342d444d842c06914aa0a7e352d0bada6"
+checksum = "f613ec9fa66a6b28cdb1842b27f9adf24f39f9afc4dcdd9fdecee4aca7945c57"
 dependencies = [
- "libc",
- "redox_users",
- "winapi",
+ "crossbeam-channel",
+ "once_cell",
+]
+
+[[package]]
+name = "deranged"
+version = "0.5.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e9de72ce2ad1f90dc62fa25f0f430ef85eb4b0d8fa0be4f30373bc40a21d28e"
+
+[[package]]
+name = "derive_builder"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d07adf7be193b71cc36b193d0f5fe60b918a3a9db4dad0449f57bcfd519704a3"
+dependencies = [
+ "derive_builder_macro",
+]
+
+[[package]]
+name = "derive_builder_core"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1f91d4cfa921f1c05904dc3c57b4a32c38aed3340cce209f3a6fd1478babafc4"
+dependencies = [
+ "darling",
+ "proc-macro2",
+ "quote",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "derive_builder_macro"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f0314b72bed045f3a68671b3c86328386762c93f82d98c65c3cb5e5f573dd68"
+dependencies = [
+ "derive_builder_core",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "diff"
+version = "0.1.13"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "56254986775e3233ffa9c4d7d3faaf6d36a2c09d30b20687e9f88bc8bafc16c8"
+
+[[package]]
+name = "dirs-next"
+version = "2.0.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b98cf8ebf19c3d1b223e151f99a4f9f0690dca41414773390fc824184ac833e1"
+dependencies = [
+ "cfg-if",
+ "dirs-sys-next",
 ]
 
 [[package]]
@@ -151,25 +325,101 @@ dependencies = [
  "log",
 ]
 
+[[package]]
+name = "endian-type"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c34f04666d835ff5d62e058c3995147c06f42fe86ff053337632bca83e42702d"
+
+[[package]]
+name = "errno"
+version = "0.3.14"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "39cab71617ae0d63f51a36d69f866391735b51691dbda63cf6f96d042b63efeb"
+dependencies = [
+ "libc",
+ "windows-sys 0.61.2",
+]
+
+[[package]]
+name = "error-code"
+version = "2.3.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "64f18991e7bf11e7ffee451b5318b5c1a73c52d0d0ada6e5a3017c8c1ced6a21"
+dependencies = [
+ "libc",
+ "str-buf",
+]
+
+[[package]]
+name = "fd-lock"
+version = "3.0.13"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ef033ed5e9bad94e55838ca0ca906db0e043f517adda0c8b79c7a8c66c93c1b5"
+dependencies = [
+ "cfg-if",
+ "rustix",
+ "windows-sys 0.48.0",
+]
+
 [[package]]
 name = "fixedbitset"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "0ce7134b9999ecaf8bcd65542e436736ef32ddca1b3e06094cb6ec5755203b80"
 
+[[package]]
+name = "fnv"
+version = "1.0.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f9eec918d3f24069decb9af1554cad7c880e2da24a9afd88aca000531ab82c1"
+
 [[package]]
 name = "fragile"
 version = "2.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "6c2141d6d6c8512188a7891b4b01590a45f6dac67afb4f255c4124dbb86d4eaa"
 
+[[package]]
+name = "futures-core"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "92d699e522242e69e3003b94ecc1f960f3a5e015aa7c5d7486e65ad01dd94f5e"
+
+[[package]]
+name = "futures-task"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cd417de3d1d015fc3bfd2b1ea46dfc7bab72ef86f1cc7cc9c78e728b34a6d1fd"
+
+[[package]]
+name = "futures-util"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0d50a92467f8ba5dd6e3ee5d4bd04d73ab2e4e1c44474a0674821dfce14b79bc"
+dependencies = [
+ "futures-core",
+ "futures-task",
+ "pin-project-lite",
+ "slab",
+]
+
+[[package]]
+name = "fuzzy-matcher"
+version = "0.3.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "54614a3312934d066701a80f20f15fa3b56d67ac7722b39eea5b4c9dd1d66c94"
+dependencies = [
+ "thread_local",
+]
+
 [[package]]
 name = "getrandom"
 version = "0.2.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "c05aeb6a22b8f62540c194aac980f2115af067bfe15a0734d7277a768d396b31"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
  "libc",
  "wasi",
 ]
@@ -189,6 +439,36 @@ dependencies = [
  "libc",
 ]
 
+[[package]]
+name = "iana-time-zone"
+version = "0.1.65"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e31bc9ad994ba00e440a8aa5c9ef0ec67d5cb5e5cb0cc7f8b744a35b389cc470"
+dependencies = [
+ "android_system_properties",
+ "core-foundation-sys",
+ "iana-time-zone-haiku",
+ "js-sys",
+ "log",
+ "wasm-bindgen",
+ "windows-core",
+]
+
+[[package]]
+name = "iana-time-zone-haiku"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f31827a206f56af32e590ba56d5d2d085f558508192593743f16b2306495269f"
+dependencies = [
+ "cc",
+]
+
+[[package]]
+name = "ident_case"
+version = "1.0.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b9e0384b61958566e926dc50660321d12159025e767c18e043daf26b70104c39"
+
 [[package]]
 name = "indexmap"
 version = "1.9.2"
@@ -208,6 +488,17 @@ dependencies = [
  "either",
 ]
 
+[[package]]
+name = "js-sys"
+version = "0.3.107"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8dc09d2154098bbf4ef54eab6b117a3c24cbbffe94046b16ee6d6d4510584d3a"
+dependencies = [
+ "cfg-if",
+ "futures-util",
+ "wasm-bindgen",
+]
+
 [[package]]
 name = "lalrpop"
 version = "0.19.8"
@@ -248,9 +539,9 @@ checksum = "e2abad23fbc42b3700f2f279844dc832adb2b2eb069b2df918f455c4e18cc646"
 
 [[package]]
 name = "libc"
-version = "0.2.139"
+version = "0.2.191"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "201de327520df007757c1f0adce6e827fe8562fbc28bfd9c15571c66ca1f5f79"
+checksum = "65cd87c9a6d60536580b316ad985726104730a5151c99845f2490428ef91240a"
 
 [[package]]
 name = "likely_stable"
@@ -262,6 +553,12 @@ dependencies = [
  "rustc_version",
 ]
 
+[[package]]
+name = "linux-raw-sys"
+version = "0.4.15"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d26c52dbd32dccf2d10cac7725f8eae5296885fb5703b261f7d0a0739ec807ab"
+
 [[package]]
 name = "lock_api"
 version = "0.4.9"
@@ -278,7 +575,7 @@ version = "0.4.17"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "abb12e687cfb44aa40f41fc3978ef76448f9b6038cad6aef4259d3c095a2382e"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
 ]
 
 [[package]]
@@ -287,6 +584,15 @@ version = "2.5.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "2dffe52ecf27772e601905b7522cb4ef790d2cc203488bbd0e2fe85fcb74566d"
 
+[[package]]
+name = "memoffset"
+version = "0.6.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5aa361d4faea93603064a027415f07bd8e1d5c88c9fbf68bf56a285428fd79ce"
+dependencies = [
+ "autocfg",
+]
+
 [[package]]
 name = "memoffset"
 version = "0.7.1"
@@ -302,17 +608,38 @@ version = "1.0.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "e4a24736216ec316047a1fc4252e27dabb04218aa4a3f37c6e7ddbf1f9782b54"
 
+[[package]]
+name = "nibble_vec"
+version = "0.1.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "77a5d83df9f36fe23f0c3648c6bbb8b0298bb5f1939c8f2704431371f4b84d43"
+dependencies = [
+ "smallvec",
+]
+
 [[package]]
 name = "nix"
-version = "0.14.1"
+version = "0.24.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6c722bee1037d430d0f8e687bbdbf222f27cc6e4e68d5caf630857bb2b6dbdce"
+checksum = "fa52e972a9a719cecb6864fb88568781eb706bac2cd1d4f04a648542dbf78069"
 dependencies = [
- "bitflags",
- "cc",
- "cfg-if 0.1.10",
+ "bitflags 1.3.2",
+ "cfg-if",
  "libc",
- "void",
+]
+
+[[package]]
+name = "nix"
+version = "0.25.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f346ff70e7dbfd675fe90590b92d59ef2de15a8779ae305ebcbfd3f0caf59be4"
+dependencies = [
+ "autocfg",
+ "bitflags 1.3.2",
+ "cfg-if",
+ "libc",
+ "memoffset 0.6.5",
+ "pin-utils",
 ]
 
 [[package]]
@@ -321,14 +648,29 @@ version = "0.26.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bfdda3d196821d6af13126e40375cdf7da646a96114af134d5f417a9a1dc8e1a"
 dependencies = [
- "bitflags",
- "cfg-if 1.0.0",
+ "bitflags 1.3.2",
+ "cfg-if",
  "libc",
- "memoffset",
+ "memoffset 0.7.1",
  "pin-utils",
  "static_assertions",
 ]
 
+[[package]]
+name = "num-conv"
+version = "0.2.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "521739c6d2bac4aa25192232afe6841231376b2b26d4d9fae5ecf8ca5772e441"
+
+[[package]]
+name = "num-traits"
+version = "0.2.19"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "071dfc062690e90b734c0b2273ce72ad0ffa95f0c74596bc250dcfd960262841"
+dependencies = [
+ "autocfg",
+]
+
 [[package]]
 name = "once_cell"
 version = "1.17.1"
@@ -351,11 +693,11 @@ version = "0.9.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "9069cbb9f99e3a5083476ccb29ceb1de18b9118cafa53e90c9551235de2b9521"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
  "libc",
  "redox_syscall",
  "smallvec",
- "windows-sys",
+ "windows-sys 0.45.0",
 ]
 
 [[package]]
@@ -393,12 +735,24 @@ version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "db8bcd96cb740d03149cbad5518db9fd87126a10ab519c011893b1754134c468"
 
+[[package]]
+name = "pin-project-lite"
+version = "0.2.17"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a89322df9ebe1c1578d689c92318e070967d1042b512afbe49518723f4e6d5cd"
+
 [[package]]
 name = "pin-utils"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8b870d8c151b6f2fb93e84a13146138f05d02ed11c7e7c54f8826aaaf7c9f184"
 
+[[package]]
+name = "powerfmt"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4a6394b9e965e73d0a289ee54f589087e2c676aedf60885baf52c76b771e4958"
+
 [[package]]
 name = "precomputed-hash"
 version = "0.1.1"
@@ -407,29 +761,59 @@ checksum = "925383efa346730478fb4838dbe9137d2a47675ad789c546d150a6e1dd4ab31c"
 
 [[package]]
 name = "proc-macro2"
-version = "1.0.51"
+version = "1.0.107"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "5d727cae5b39d21da60fa540906919ad737832fe0b1c165da3a34d6548c849d6"
+checksum = "985e7ec9bb745e6ce6535b544d84d6cd6f7ad8bd711c398938ae983b91a766d9"
 dependencies = [
  "unicode-ident",
 ]
 
 [[package]]
 name = "quote"
-version = "1.0.23"
+version = "1.0.47"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8856d8364d252a14d474036ea1358d63c9e6965c8e5c1885c18f73d70bff9c7b"
+checksum = "1fbf4db142a473a8d80c26bbf18454ed458bf8d26c8219c331daecfdbd079001"
 dependencies = [
  "proc-macro2",
 ]
 
+[[package]]
+name = "radix_trie"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c069c179fcdc6a2fe24d8d18305cf085fdbd4f922c041943e203685d6a1c58fd"
+dependencies = [
+ "endian-type",
+ "nibble_vec",
+]
+
+[[package]]
+name = "rayon"
+version = "1.12.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fb39b166781f92d482534ef4b4b1b2568f42613b53e5b6c160e24cfbfa30926d"
+dependencies = [
+ "either",
+ "rayon-core",
+]
+
+[[package]]
+name = "rayon-core"
+version = "1.13.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "22e18b0f0062d30d4230b2e85ff77fdfe4326feb054b9783a3460d8435c8ab91"
+dependencies = [
+ "crossbeam-deque",
+ "crossbeam-utils",
+]
+
 [[package]]
 name = "redox_syscall"
 version = "0.2.16"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "fb5a58c1855b4b6819d59012155603f0b22ad30cad752600aadfcb695265519a"
 dependencies = [
- "bitflags",
+ "bitflags 1.3.2",
 ]
 
 [[package]]
@@ -468,6 +852,7 @@ dependencies = [
  "lalrpop",
  "lalrpop-util",
  "lazy_static",
+ "libc",
  "likely_stable",
  "nix 0.26.2",
  "regex",
@@ -484,6 +869,19 @@ dependencies = [
  "semver",
 ]
 
+[[package]]
+name = "rustix"
+version = "0.38.44"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fdb5bc1ae2baa591800df16c9ca78619bf65c0488b41b96ccec5d11220d8c154"
+dependencies = [
+ "bitflags 2.13.2",
+ "errno",
+ "libc",
+ "linux-raw-sys",
+ "windows-sys 0.59.0",
+]
+
 [[package]]
 name = "rustversion"
 version = "1.0.11"
@@ -492,22 +890,40 @@ checksum = "5583e89e108996506031660fe09baa5011b9dd0341b89029313006d1fb508d70"
 
 [[package]]
 name = "rustyline"
-version = "5.0.6"
+version = "11.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "a23cb19702a8d6afb6edb3c842386e680d4883760e0df74e6848e23c2a87a635"
+checksum = "5dfc8644681285d1fb67a467fb3021bfea306b99b4146b166a1fe3ada965eece"
 dependencies = [
- "cfg-if 0.1.10",
- "dirs",
+ "bitflags 1.3.2",
+ "cfg-if",
+ "clipboard-win",
+ "dirs-next",
+ "fd-lock",
  "libc",
  "log",
  "memchr",
- "nix 0.14.1",
+ "nix 0.26.2",
+ "radix_trie",
+ "rustyline-derive",
+ "scopeguard",
+ "skim",
  "unicode-segmentation",
  "unicode-width",
  "utf8parse",
  "winapi",
 ]
 
+[[package]]
+name = "rustyline-derive"
+version = "0.8.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8218eaf5d960e3c478a1b0f129fa888dd3d8d22eb3de097e9af14c1ab4438024"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 1.0.109",
+]
+
 [[package]]
 name = "scopeguard"
 version = "1.1.0"
@@ -532,6 +948,26 @@ dependencies = [
  "pest",
 ]
 
+[[package]]
+name = "serde_core"
+version = "1.0.229"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "67dca2c9c51e58a4791a4b1ed58308b39c64224d349a935ab5039aa360942a48"
+dependencies = [
+ "serde_derive",
+]
+
+[[package]]
+name = "serde_derive"
+version = "1.0.229"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e7a5d71263a5a7d47b41f6b3f06ba276f10cc18b0931f1799f710578e2309348"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+]
+
 [[package]]
 name = "signal-hook"
 version = "0.3.15"
@@ -557,6 +993,37 @@ version = "0.3.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "7bd3e3206899af3f8b12af284fafc038cc1dc2b41d1b89dd17297221c5d225de"
 
+[[package]]
+name = "skim"
+version = "0.10.4"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e5d28de0a6cb2cdd83a076f1de9d965b973ae08b244df1aa70b432946dda0f32"
+dependencies = [
+ "beef",
+ "bitflags 1.3.2",
+ "chrono",
+ "crossbeam",
+ "defer-drop",
+ "derive_builder",
+ "fuzzy-matcher",
+ "lazy_static",
+ "log",
+ "nix 0.25.1",
+ "rayon",
+ "regex",
+ "time",
+ "timer",
+ "tuikit",
+ "unicode-width",
+ "vte",
+]
+
+[[package]]
+name = "slab"
+version = "0.4.12"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0c790de23124f9ab44544d7ac05d60440adc586479ce501c1d6d7da3cd8c9cf5"
+
 [[package]]
 name = "smallvec"
 version = "1.10.0"
@@ -569,6 +1036,12 @@ version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "a2eb9349b6444b326872e140eb1cf5e7c522154d69e7a0ffb0fb81c06b37543f"
 
+[[package]]
+name = "str-buf"
+version = "1.0.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e08d8363704e6c71fc928674353e6b7c23dcea9d82d7012c8faf2a3a025f8d0"
+
 [[package]]
 name = "string_cache"
 version = "0.8.6"
@@ -582,6 +1055,12 @@ dependencies = [
  "precomputed-hash",
 ]
 
+[[package]]
+name = "strsim"
+version = "0.10.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "73473c0e59e6d5812c5dfe2a064a6444949f089e20eec9a2e5506596494e4623"
+
 [[package]]
 name = "syn"
 version = "1.0.109"
@@ -593,6 +1072,28 @@ dependencies = [
  "unicode-ident",
 ]
 
+[[package]]
+name = "syn"
+version = "2.0.119"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "872831b642d1a07999a962a351ed35b955ea2cfc8f3862091e2a240a84f17297"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
+[[package]]
+name = "syn"
+version = "3.0.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d78c8dee4c7bf0e14673097256fed6142ce9d3b85a408189d07482442145823b"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
 [[package]]
 name = "term"
 version = "0.7.0"
@@ -621,7 +1122,44 @@ checksum = "1fb327af4685e4d03fa8cbcf1716380da910eeb2bb8be417e7f9fd3fb164f36f"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "thread_local"
+version = "1.1.10"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1ad99c4c6d32803332c548b1af0540b357b3f5fc0be8f6c6bfe8b2e6ae784070"
+dependencies = [
+ "cfg-if",
+]
+
+[[package]]
+name = "time"
+version = "0.3.55"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cdb87b95ec50ddfa440816d227a17b2ccbdda963a316a727fda0fc4334f7d134"
+dependencies = [
+ "deranged",
+ "num-conv",
+ "powerfmt",
+ "serde_core",
+ "time-core",
+]
+
+[[package]]
+name = "time-core"
+version = "0.1.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e1c906769ad99c88eaa54e728060edef082f8e358ff32030cb7c7d315e81109"
+
+[[package]]
+name = "timer"
+version = "0.2.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "31d42176308937165701f50638db1c31586f183f1aab416268216577aec7306b"
+dependencies = [
+ "chrono",
 ]
 
 [[package]]
@@ -633,6 +1171,20 @@ dependencies = [
  "crunchy",
 ]
 
+[[package]]
+name = "tuikit"
+version = "0.5.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5e19c6ab038babee3d50c8c12ff8b910bdb2196f62278776422f50390d8e53d8"
+dependencies = [
+ "bitflags 1.3.2",
+ "lazy_static",
+ "log",
+ "nix 0.24.3",
+ "term",
+ "unicode-width",
+]
+
 [[package]]
 name = "ucd-trie"
 version = "0.1.5"
@@ -665,15 +1217,30 @@ checksum = "f962df74c8c05a667b5ee8bcf162993134c104e96440b663c8daa176dc772d8c"
 
 [[package]]
 name = "utf8parse"
-version = "0.1.1"
+version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8772a4ccbb4e89959023bc5b7cb8623a795caa7092d99f3aa9501b9484d4557d"
+checksum = "06abde3611657adf66d383f00b093d7faecc7fa57071cce2578660c9f1010821"
 
 [[package]]
-name = "void"
-version = "1.0.2"
+name = "vte"
+version = "0.11.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
+checksum = "f5022b5fbf9407086c180e9557be968742d839e68346af7792b8592489732197"
+dependencies = [
+ "arrayvec",
+ "utf8parse",
+ "vte_generate_state_changes",
+]
+
+[[package]]
+name = "vte_generate_state_changes"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2e369bee1b05d510a7b4ed645f5faa90619e05437111783ea5848f28d97d3c2e"
+dependencies = [
+ "proc-macro2",
+ "quote",
+]
 
 [[package]]
 name = "wasi"
@@ -681,6 +1248,50 @@ version = "0.11.0+wasi-snapshot-preview1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "9c8d87e72b64a3b4db28d11ce29237c246188f4f51057d65a7eab63b7987e423"
 
+[[package]]
+name = "wasm-bindgen"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a0181c14ddd6c7b8b0b0132a5f1ea2f32be0d893cd3ea97b6e3b28886b8a3d1c"
+dependencies = [
+ "cfg-if",
+ "rustversion",
+ "wasm-bindgen-macro",
+ "wasm-bindgen-shared",
+]
+
+[[package]]
+name = "wasm-bindgen-macro"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6e931a02a39abdbf66966fc35902b5ed58344750a70885bed4ebb3d8eaf28ed9"
+dependencies = [
+ "quote",
+ "wasm-bindgen-macro-support",
+]
+
+[[package]]
+name = "wasm-bindgen-macro-support"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2ca4b54280e455bd831e33a6b8e734baf432fe63fbc35c42ac14ce67a043a53a"
+dependencies = [
+ "bumpalo",
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+ "wasm-bindgen-shared",
+]
+
+[[package]]
+name = "wasm-bindgen-shared"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3b1f9c3798725016c6ee5f2f57869ec0831e8bbc0ab0310a86e787e97f41389e"
+dependencies = [
+ "unicode-ident",
+]
+
 [[package]]
 name = "winapi"
 version = "0.3.9"
@@ -703,13 +1314,99 @@ version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
 
+[[package]]
+name = "windows-core"
+version = "0.62.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b8e83a14d34d0623b51dce9581199302a221863196a1dde71a7663a4c2be9deb"
+dependencies = [
+ "windows-implement",
+ "windows-interface",
+ "windows-link",
+ "windows-result",
+ "windows-strings",
+]
+
+[[package]]
+name = "windows-implement"
+version = "0.60.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "053e2e040ab57b9dc951b72c264860db7eb3b0200ba345b4e4c3b14f67855ddf"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 2.0.119",
+]
+
+[[package]]
+name = "windows-interface"
+version = "0.59.3"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f316c4a2570ba26bbec722032c4099d8c8bc095efccdc15688708623367e358"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 2.0.119",
+]
+
+[[package]]
+name = "windows-link"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f0805222e57f7521d6a62e36fa9163bc891acd422f971defe97d64e70d0a4fe5"
+
+[[package]]
+name = "windows-result"
+version = "0.4.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7781fa89eaf60850ac3d2da7af8e5242a5ea78d1a11c49bf2910bb5a73853eb5"
+dependencies = [
+ "windows-link",
+]
+
+[[package]]
+name = "windows-strings"
+version = "0.5.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7837d08f69c77cf6b07689544538e017c1bfcf57e34b4c0ff58e6c2cd3b37091"
+dependencies = [
+ "windows-link",
+]
+
 [[package]]
 name = "windows-sys"
 version = "0.45.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "75283be5efb2831d37ea142365f009c02ec203cd29a3ebecbc093d52315b66d0"
 dependencies = [
- "windows-targets",
+ "windows-targets 0.42.1",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.48.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "677d2418bec65e3338edb076e806bc1ec15693c5d0104683f2efe857f61056a9"
+dependencies = [
+ "windows-targets 0.48.5",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.59.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1e38bc4d79ed67fd075bcc251a1c39b32a1776bbe92e5bef1f0bf1f8c531853b"
+dependencies = [
+ "windows-targets 0.52.6",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.61.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ae137229bcbd6cdf0f7b80a31df61766145077ddf49416a728b02cb3921ff3fc"
+dependencies = [
+ "windows-link",
 ]
 
 [[package]]
@@ -718,13 +1415,44 @@ version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8e2522491fbfcd58cc84d47aeb2958948c4b8982e9a2d8a2a35bbaed431390e7"
 dependencies = [
- "windows_aarch64_gnullvm",
- "windows_aarch64_msvc",
- "windows_i686_gnu",
- "windows_i686_msvc",
- "windows_x86_64_gnu",
- "windows_x86_64_gnullvm",
- "windows_x86_64_msvc",
+ "windows_aarch64_gnullvm 0.42.1",
+ "windows_aarch64_msvc 0.42.1",
+ "windows_i686_gnu 0.42.1",
+ "windows_i686_msvc 0.42.1",
+ "windows_x86_64_gnu 0.42.1",
+ "windows_x86_64_gnullvm 0.42.1",
+ "windows_x86_64_msvc 0.42.1",
+]
+
+[[package]]
+name = "windows-targets"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9a2fa6e2155d7247be68c096456083145c183cbbbc2764150dda45a87197940c"
+dependencies = [
+ "windows_aarch64_gnullvm 0.48.5",
+ "windows_aarch64_msvc 0.48.5",
+ "windows_i686_gnu 0.48.5",
+ "windows_i686_msvc 0.48.5",
+ "windows_x86_64_gnu 0.48.5",
+ "windows_x86_64_gnullvm 0.48.5",
+ "windows_x86_64_msvc 0.48.5",
+]
+
+[[package]]
+name = "windows-targets"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9b724f72796e036ab90c1021d4780d4d3d648aca59e491e6b98e725b84e99973"
+dependencies = [
+ "windows_aarch64_gnullvm 0.52.6",
+ "windows_aarch64_msvc 0.52.6",
+ "windows_i686_gnu 0.52.6",
+ "windows_i686_gnullvm",
+ "windows_i686_msvc 0.52.6",
+ "windows_x86_64_gnu 0.52.6",
+ "windows_x86_64_gnullvm 0.52.6",
+ "windows_x86_64_msvc 0.52.6",
 ]
 
 [[package]]
@@ -733,38 +1461,128 @@ version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8c9864e83243fdec7fc9c5444389dcbbfd258f745e7853198f365e3c4968a608"
 
+[[package]]
+name = "windows_aarch64_gnullvm"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2b38e32f0abccf9987a4e3079dfb67dcd799fb61361e53e2882c3cbaf0d905d8"
+
+[[package]]
+name = "windows_aarch64_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "32a4622180e7a0ec044bb555404c800bc9fd9ec262ec147edd5989ccd0c02cd3"
+
 [[package]]
 name = "windows_aarch64_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "4c8b1b673ffc16c47a9ff48570a9d85e25d265735c503681332589af6253c6c7"
 
+[[package]]
+name = "windows_aarch64_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc35310971f3b2dbbf3f0690a219f40e2d9afcf64f9ab7cc1be722937c26b4bc"
+
+[[package]]
+name = "windows_aarch64_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "09ec2a7bb152e2252b53fa7803150007879548bc709c039df7627cabbd05d469"
+
 [[package]]
 name = "windows_i686_gnu"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "de3887528ad530ba7bdbb1faa8275ec7a1155a45ffa57c37993960277145d640"
 
+[[package]]
+name = "windows_i686_gnu"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a75915e7def60c94dcef72200b9a8e58e5091744960da64ec734a6c6e9b3743e"
+
+[[package]]
+name = "windows_i686_gnu"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8e9b5ad5ab802e97eb8e295ac6720e509ee4c243f69d781394014ebfe8bbfa0b"
+
+[[package]]
+name = "windows_i686_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0eee52d38c090b3caa76c563b86c3a4bd71ef1a819287c19d586d7334ae8ed66"
+
 [[package]]
 name = "windows_i686_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bf4d1122317eddd6ff351aa852118a2418ad4214e6613a50e0191f7004372605"
 
+[[package]]
+name = "windows_i686_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f55c233f70c4b27f66c523580f78f1004e8b5a8b659e05a4eb49d4166cca406"
+
+[[package]]
+name = "windows_i686_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "240948bc05c5e7c6dabba28bf89d89ffce3e303022809e73deaefe4f6ec56c66"
+
 [[package]]
 name = "windows_x86_64_gnu"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "c1040f221285e17ebccbc2591ffdc2d44ee1f9186324dd3e84e99ac68d699c45"
 
+[[package]]
+name = "windows_x86_64_gnu"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "53d40abd2583d23e4718fddf1ebec84dbff8381c07cae67ff7768bbf19c6718e"
+
+[[package]]
+name = "windows_x86_64_gnu"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "147a5c80aabfbf0c7d901cb5895d1de30ef2907eb21fbbab29ca94c5b08b1a78"
+
 [[package]]
 name = "windows_x86_64_gnullvm"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "628bfdf232daa22b0d64fdb62b09fcc36bb01f05a3939e20ab73aaf9470d0463"
 
+[[package]]
+name = "windows_x86_64_gnullvm"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0b7b52767868a23d5bab768e390dc5f5c55825b6d30b86c844ff2dc7414044cc"
+
+[[package]]
+name = "windows_x86_64_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "24d5b23dc417412679681396f2b49f3de8c1473deb516bd34410872eff51ed0d"
+
 [[package]]
 name = "windows_x86_64_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "447660ad36a13288b1db4d4248e857b510e8c3a225c822ba4fb748c0aafecffd"
+
+[[package]]
+name = "windows_x86_64_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ed94fce61571a4006852b7389a063ab983c02eb1bb37b47f8272ce92d06d9538"
+
+[[package]]
+name = "windows_x86_64_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "589f6da84c646204747d1270a2a5661ea66ed1cced2631d546fdfb155959f9ec"
diff --git a/src/ast.rs b/src/ast.rs
index 90b883a..4c37a86 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -406,12 +406,13 @@ impl SimpleCommand {
         match unsafe {nix::unistd::fork().expect("failed to fork")} {
             nix::unistd::ForkResult::Parent { child } => {
                 nix::unistd::close(pip.1).unwrap();
-                let mut buf = String::new();
+                let mut buf = Vec::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
                 // read before waiting: the child blocks once the pipe is full. The file closes pip.0
-                file.read_to_string(&mut buf).unwrap();
+                file.read_to_end(&mut buf).unwrap();
                 waitpid(child, None).unwrap();
-                buf.trim().to_string()
+                // what is no UTF-8 is replaced
+                String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
                 nix::unistd::dup2(pip.1, 1).unwrap();
-- 
2.43.0


From 40de35c9fce7c7d148e3ceb03b8c36dcd220589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 49/68] fix: a script ends at the end of its file

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2ead710..e11dfe9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -255,8 +255,10 @@ fn script_loop(script_name: &str) {
     loop {
 
         let mut input = String::new();
-        buf_reader.read_line(&mut input).unwrap();
-
+        if buf_reader.read_line(&mut input).unwrap() == 0 {
+            // the end of the script
+            break;
+        }
 
         let lexer = Lexer::new(&input);        
         let mut ast = grammar::CompleteCommandParser::new()
-- 
2.43.0


From 413d6e8491fdcc20d0694b34f31d393635096ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 50/68] fix: an empty word on the command line is no option and
 no crash

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e11dfe9..22ce0bb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -106,7 +106,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 
     for arg in args.iter() {
             println!("arg: {}", arg);
-        if arg.chars().nth(0).unwrap() == '-' && !non_interactive_mode {
+        if arg.starts_with('-') && !non_interactive_mode {
             read_from_args = parse_dash_arg(&arg);
             if read_from_args {
                 break;
-- 
2.43.0


From ef0e74aff7c01a7fc9b68e2d0c8974cea3c797d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 51/68] fix: parameters of a script keep their quotes

---
 src/shell.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/shell.rs b/src/shell.rs
index beee1dc..6662a04 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -15,7 +15,7 @@ use rustyline::history::FileHistory;
 use rustyline::config;
 use crate::var::{VarData, VarDataUtils};
 use crate::ast::FunctionBody;
-use crate::context::{ContextManager, Context};
+use crate::context::{ContextManager, Context, ContextUtils, Var};
 use crate::completion::CompletionHelper;
 
 use std::sync::atomic::AtomicBool;
@@ -565,11 +565,10 @@ pub fn get_script_name() -> String {
 /// This function takes in a &str and an index and sets the input arguments.
 /// Input arguments are usually $0, $1, $2, etc.
 pub fn set_input_args(arg: &str, index: usize) {
-    let mut shell = SHELL.get().borrow_mut();
-
-    let set = format!("{}={}", index, arg);
+    let shell = SHELL.get().borrow();
 
-    shell.add_var(&set,0);
+    // the argument is the value as it is: quotes in it are not removed
+    shell.get_env_context().borrow_mut().add_var(Var::new(&index.to_string(), arg));
 }
 
 /*pub fn push_var_stack() {
@@ -660,10 +659,9 @@ pub fn print_readonly_vars_context(namespace: &str) {
 /// This function sets $0 to the script name.
 /// This should be called after we have figured out if we are running a script or not.
 pub fn set_arg_0() {
-    let mut shell = SHELL.get().borrow_mut();
-    let set = format!("0={}", shell.script_name);
+    let shell = SHELL.get().borrow();
 
-    shell.add_var(&set,1);
+    shell.get_current_context().borrow_mut().add_var(Var::new("0", &shell.script_name));
 }
 
 /// This function adds a FunctionBody to the shell with a given name.
-- 
2.43.0


From 75fabc55188f869bce4e3f5d5f6bbf421a586c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 52/68] fix: the value of a variable is not processed for
 quotes and substitutions

---
 src/ast.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 4c37a86..5ce2a1e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -289,7 +289,8 @@ impl SimpleCommand {
                     let val = split.next().unwrap();
                     let val = match val.strip_prefix("$").and_then(|name| shell::expand_var(name)) {
                         Some(expanded) => {
-                            expanded
+                            // quoted, so that the value is taken as it is
+                            format!("'{}'", expanded)
                         }
                         None => {
                             val.to_string()
@@ -319,7 +320,8 @@ impl SimpleCommand {
                 chars.next();
                 match shell::expand_var(&chars.collect::<String>()) {
                     Some(expanded) => {
-                        *word = expanded;
+                        // quoted, so that the value is taken as it is
+                        *word = format!("'{}'", expanded);
                     }
                     None => {}
                 }
-- 
2.43.0


From 611fd8cd87f4273e283b46dc5a3dbf118ebec9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 53/68] fix: a quoted & is an argument of a function like any
 other

---
 src/eval.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index f66a2df..1cb010f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -594,9 +594,6 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
         for (i, arg) in suffix.word.iter().enumerate() {
-            if arg == "&" {
-                break;
-            }
             //eprintln!("{}={}", i+1, arg);
             context.borrow_mut().add_var(Var::new(&(i+1).to_string(), arg));
         }
-- 
2.43.0


From aa61c47adead0a6b753a4aa7e73472caddf7d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 54/68] fix: pwd reports that the directory is gone instead of
 crashing the shell

---
 src/builtins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index e70a61d..d68c108 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -451,7 +451,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'pwd' command of the shell.
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
-    let path = env::current_dir().unwrap();
+    let path = env::current_dir()?;
     println!("{}", path.display());
     Ok(())
 }
-- 
2.43.0


From 30476190a8d556d40b600e253a0d109ab3381179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 55/68] fix: readonly -p lists the variables instead of
 overflowing the stack

---
 src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index d02b3f3..df5bee5 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -47,7 +47,7 @@ impl Var {
 }*/
 impl Display for Var {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.to_string())
+        write!(f, "{}={}", self.name, self.value)
     }
 }
 
-- 
2.43.0


From 5d89f67897043b2323b5c48af5541925f7a9b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 56/68] fix: a pipeline whose pipe cannot be made keeps no
 descriptor and no job of commands that never started

---
 src/eval.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 1cb010f..ed903ce 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -188,6 +188,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     
 
     let proc_count;
+    let mut pipe_failed = false;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
     {
@@ -207,8 +208,8 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             if count < proc_count - 1 {
                 let pipe_result = pipe();
                 if pipe_result.is_err() {
-                    trap::interrupts_on();
-                    return Err("Failed to create pipe".to_string());
+                    pipe_failed = true;
+                    break;
                 }
                 pip = pipe_result.unwrap();
             }
@@ -279,6 +280,13 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             count += 1;
         }
+        if pipe_failed {
+            // the commands started so far are all there is of the job
+            procs.truncate(count);
+            if prev_fd >= 0 {
+                close(prev_fd).unwrap();
+            }
+        }
         
     }
         if !background && proc_count > 0 && job.borrow().processes.len() > 0{
@@ -304,7 +312,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
         }
-        else if proc_count == 0 {
+        else if job.borrow().processes.len() == 0 {
             let id = {
                 let job = job.borrow();
                 job.job_id
@@ -318,6 +326,10 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     //unblock interrupts
     trap::interrupts_on();
 
+    if pipe_failed {
+        return Err("Failed to create pipe".to_string());
+    }
+
     Ok(get_exit_code())
 }
 
-- 
2.43.0


From 5aac9e36a07724fc9d17085a21fac0609e9a29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 57/68] fix: readonly of a name that its namespace does not
 have does not crash the shell

---
 src/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index df5bee5..fa4febe 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -285,7 +285,9 @@ impl ContextManager {
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().get_var(var_name).unwrap().borrow_mut().readonly = true;
+                if let Some(var) = context.borrow_mut().get_var(var_name) {
+                    var.borrow_mut().readonly = true;
+                }
             }
             return;
         }
-- 
2.43.0


From e994d32a2557e54288f12cf54f16aeba95606e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 58/68] fix: export context self in a scope without $0 does not
 crash the shell

---
 src/builtins.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index d68c108..b9eb1e0 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -359,8 +359,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         else {
             if suffix.word[1].as_str() == "self" {
                 let context = shell::get_current_context();
-                let namespace = {
-                    context.borrow().get_var("0").unwrap().borrow().value.clone()
+                let namespace = match context.borrow().get_var("0") {
+                    Some(name) => name.borrow().value.clone(),
+                    None => return Err(std::io::Error::new(std::io::ErrorKind::Other, "export: the context has no name")),
                 };
                 shell::add_context(&namespace, context);
                 return Ok(());
-- 
2.43.0


From ed3a75ab7e4fa0ed11f4e39f7c158cd0d349f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 59/68] fix: a command name in single quotes is neither split
 nor expanded

---
 src/ast.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 5ce2a1e..f9a30f6 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -592,16 +592,20 @@ impl SimpleCommand {
         if self.name.as_str() == "" {
             return;
         }
+        let mut words = Vec::new();
         if self.name.starts_with('\'') {
+            // nothing between single quotes is split or expanded
             Self::cut_quotes(&mut self.name);
+            words.push(self.name.clone());
         }
-        let mut words = Vec::new();
-        for word in self.name.split_whitespace_ig_qts().iter() {
-            if word.starts_with('"') {
-                words.append(&mut Self::eval_double_quotes(word));
-            }
-            else {
-                words.push(word.to_string());
+        else {
+            for word in self.name.split_whitespace_ig_qts().iter() {
+                if word.starts_with('"') {
+                    words.append(&mut Self::eval_double_quotes(word));
+                }
+                else {
+                    words.push(word.to_string());
+                }
             }
         }
         self.name = if words.is_empty() { String::new() } else { words.remove(0) };
-- 
2.43.0


From f4bb278626db0d6aaab984c7dd3492e52e093245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 60/68] fix: a command that fails in a startup file does not
 crash the shell

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 22ce0bb..461cb9f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -345,7 +345,7 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    let _result = eval::eval(&mut ast);
 
     Ok(())
 }
@@ -379,7 +379,7 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    let _result = eval::eval(&mut ast);
 
     Ok(())
 }
-- 
2.43.0


From a88c9263f1e7346cc1b93b2fdb634dad582587e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 61/68] fix: a command that could not be started is an error,
 not a success

---
 src/eval.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index ed903ce..a690dfe 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -188,7 +188,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     
 
     let proc_count;
-    let mut pipe_failed = false;
+    let mut start_failed: Option<&str> = None;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
     {
@@ -208,7 +208,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             if count < proc_count - 1 {
                 let pipe_result = pipe();
                 if pipe_result.is_err() {
-                    pipe_failed = true;
+                    start_failed = Some("Failed to create pipe");
                     break;
                 }
                 pip = pipe_result.unwrap();
@@ -217,6 +217,14 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
             
 
             let temp_fork_result = temp_fork(process);
+            if temp_fork_result.is_err() {
+                start_failed = Some("Failed to fork");
+                if pip.1 >= 0 {
+                    close(pip.0).unwrap();
+                    close(pip.1).unwrap();
+                }
+                break;
+            }
             if temp_fork_result == Ok(Pid::from_raw(0)) {
                 if pgid.is_none() {
                     pgid = Some(getpid());
@@ -280,7 +288,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             count += 1;
         }
-        if pipe_failed {
+        if start_failed.is_some() {
             // the commands started so far are all there is of the job
             procs.truncate(count);
             if prev_fd >= 0 {
@@ -326,8 +334,8 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     //unblock interrupts
     trap::interrupts_on();
 
-    if pipe_failed {
-        return Err("Failed to create pipe".to_string());
+    if let Some(reason) = start_failed {
+        return Err(reason.to_string());
     }
 
     Ok(get_exit_code())
-- 
2.43.0


From 9721ee749ac559de64ed8fdf0a3300d4d5c3d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 62/68] fix: a substitution that gets no pipe or process is
 empty instead of crashing the shell

---
 src/ast.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f9a30f6..53663e4 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -403,9 +403,25 @@ impl SimpleCommand {
                 }
             };
 
-        let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
+        let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
+            Ok(pip) => pip,
+            Err(err) => {
+                eprintln!("Error: failed to create pipe: {}", err);
+                return String::new();
+            }
+        };
+
+        let fork_result = match unsafe {nix::unistd::fork()} {
+            Ok(fork_result) => fork_result,
+            Err(err) => {
+                eprintln!("Error: failed to fork: {}", err);
+                nix::unistd::close(pip.0).unwrap();
+                nix::unistd::close(pip.1).unwrap();
+                return String::new();
+            }
+        };
 
-        match unsafe {nix::unistd::fork().expect("failed to fork")} {
+        match fork_result {
             nix::unistd::ForkResult::Parent { child } => {
                 nix::unistd::close(pip.1).unwrap();
                 let mut buf = Vec::new();
-- 
2.43.0


From 4000ee9a04e397305054764d12e9e3345a7a5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 63/68] fix: NUL bytes in the output of a substitution are left
 out instead of crashing the shell

---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 53663e4..9674983 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -429,8 +429,8 @@ impl SimpleCommand {
                 // read before waiting: the child blocks once the pipe is full. The file closes pip.0
                 file.read_to_end(&mut buf).unwrap();
                 waitpid(child, None).unwrap();
-                // what is no UTF-8 is replaced
-                String::from_utf8_lossy(&buf).trim().to_string()
+                // what is no UTF-8 is replaced, and NUL, which no argument can hold, is left out
+                String::from_utf8_lossy(&buf).replace('\0', "").trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
                 nix::unistd::dup2(pip.1, 1).unwrap();
-- 
2.43.0


From c32a3ca88e27a985b5cada602bb6318e4067c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 64/68] fix: export and exec refuse names and values the
 environment cannot hold

---
 src/builtins.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/builtins.rs b/src/builtins.rs
index b9eb1e0..71a2322 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -375,6 +375,13 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     
     for word in command.suffix.as_ref().unwrap().word.iter() {
+        // the environment can hold neither an empty name nor a NUL character
+        if word.is_empty() {
+            continue;
+        }
+        if word.contains('\0') {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: not a valid word", word)));
+        }
         if !word.contains('=') {
             let var = shell::expand_var(word);
             if var.is_none() {
@@ -385,6 +392,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             else {
                 let value = var.unwrap();
+                if value.contains('\0') {
+                    return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: not a valid value", word)));
+                }
                 let temp = format!("{}={}",word,value);
                 shell::add_var(temp.as_str(),0);
                 env::set_var(word, &value);
@@ -603,6 +613,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     
     let suffix = command.suffix.as_ref().unwrap();
 
+    if suffix.word.iter().any(|word| word.contains('\0')) {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec: not a valid argument"));
+    }
+
     let mut empty_env = false;
     let mut dash = false;
     let mut rename = false;
-- 
2.43.0


From d0ea7a0f225a7c5ba4cf074666f69c02fbf72bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:27 +0000
Subject: [PATCH 65/68] fix: NUL characters are left out of arguments instead
 of crashing the command

---
 src/ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 9674983..91c5d26 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -766,11 +766,12 @@ impl SimpleCommand {
 
     pub fn argv(&self) -> Vec<CString> {
         let mut argv = Vec::new();
-        argv.push(CString::new(self.name.clone()).unwrap());
+        // an argument cannot hold NUL: it is left out
+        argv.push(CString::new(self.name.replace('\0', "")).unwrap());
         
         if self.suffix.is_some() {
             for word in self.suffix.as_ref().unwrap().word.iter() {
-                argv.push(CString::new(word.clone()).unwrap());
+                argv.push(CString::new(word.replace('\0', "")).unwrap());
             }
         }
 
-- 
2.43.0


From 514936c4aa71cb3b63f2d3c692809bdb8fd0c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 66/68] fix: a command name with a NUL character is not found
 instead of crashing

---
 src/eval.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index a690dfe..84b220c 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -675,7 +675,11 @@ fn temp_exec(process: &mut Process) -> Result<i32,String> {
         }
     };
 
-    let command = CString::new(argv0).unwrap();
+    // no file has a NUL character in its name
+    let command = match CString::new(argv0) {
+        Ok(command) => command,
+        Err(_) => return Err(format!("{}: Command not found", process.argv0)),
+    };
 
 
     match execv(&command, &process.argv) {
@@ -705,7 +709,11 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
         }
     };
 
-    let command = CString::new(argv0).unwrap();
+    // no file has a NUL character in its name
+    let command = match CString::new(argv0) {
+        Ok(command) => command,
+        Err(_) => return Err(format!("{}: Command not found", process.argv0)),
+    };
 
 
     match nix::unistd::execve(&command, &process.argv, &env) {
-- 
2.43.0


From 9ee3ca286d42bc6ffd67e8881f7fae42ec066bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:25 +0000
Subject: [PATCH 67/68] fix: a read-only variable of a named context is neither
 removed nor changed

---
 src/context.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index fa4febe..5db59f4 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -142,6 +142,11 @@ impl ContextManager {
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
+                if let Some(var) = context.borrow().get_var(var_name) {
+                    if var.borrow().readonly {
+                        return;
+                    }
+                }
                 context.borrow_mut().remove_var(var_name);
             }
         }
@@ -260,6 +265,11 @@ impl ContextManager {
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
+                if let Some(var) = context.borrow().get_var(var_name.split("=").next().unwrap()) {
+                    if var.borrow().readonly {
+                        return;
+                    }
+                }
                 context.borrow_mut().add_var_readonly(var_name);
             }
             return;
-- 
2.43.0


From 72afecb11b3de2c43c939598e792ede7053f12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:25 +0000
Subject: [PATCH 68/68] fix: readonly X=a::b makes X read-only with the value
 a::b

---
 src/context.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 5db59f4..7670be3 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -260,17 +260,17 @@ impl ContextManager {
         self.get_context().borrow_mut().add_var(set);
     }
     pub fn add_var_readonly(&mut self, set: &str) {
-        if set.contains("::") {
-            let mut split = set.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
-            if let Some(context) = self.get_context_by_name(context_name) {
-                if let Some(var) = context.borrow().get_var(var_name.split("=").next().unwrap()) {
-                    if var.borrow().readonly {
-                        return;
+        // only the name is looked at: a value may hold :: itself
+        if set.split("=").next().unwrap().contains("::") {
+            if let Some((context_name, var_name)) = set.split_once("::") {
+                if let Some(context) = self.get_context_by_name(context_name) {
+                    if let Some(var) = context.borrow().get_var(var_name.split("=").next().unwrap()) {
+                        if var.borrow().readonly {
+                            return;
+                        }
                     }
+                    context.borrow_mut().add_var_readonly(var_name);
                 }
-                context.borrow_mut().add_var_readonly(var_name);
             }
             return;
         }
-- 
2.43.0

