From cebff4385ce5e57d1c8e7e3c237d923668029753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:57 +0000
Subject: [PATCH 01/19] fix: flush std.print output so it is ordered, not lost,
 and errors are reported

---
 src/runtime/lib/print.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/print.rs b/src/runtime/lib/print.rs
index 256db16..d91ec5a 100644
--- a/src/runtime/lib/print.rs
+++ b/src/runtime/lib/print.rs
@@ -51,8 +51,9 @@ impl NativeFun for Print {
 				.map_err(|error| Panic::io(error, context.pos.copy()))?;
 		}
 
-		//writeln!(stdout)
-			//.map_err(|error| Panic::io(error, context.pos))?;
+		// There may be no trailing newline, so make sure the output is not held in the buffer.
+		stdout.flush()
+			.map_err(|error| Panic::io(error, context.pos))?;
 
 		Ok(Value::default())
 	}
-- 
2.43.0


From 747f88bcf7c86c7a2c39efeeb4f7ef26e4f9912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:29 +0000
Subject: [PATCH 02/19] fix: std.randint panics properly on an empty range
 instead of crashing

---
 src/runtime/lib/rand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..707bbcd 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,6 +51,9 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
+			[ Value::Int(m), Value::Int(n) ] if m > n => Err(
+				Panic::value_error(Value::Int(*n), "upper bound not below the lower bound", context.pos)
+			),
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
-- 
2.43.0


From 4d59e1f26483bc7ca679eadd9f48253b3a5512f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:29 +0000
Subject: [PATCH 03/19] fix: std.export refuses an empty name with an error
 instead of crashing

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From 7e99c7820ad7110c483dc8e2ad33d3d0e7eccb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:29 +0000
Subject: [PATCH 04/19] fix: restore the stack when the evaluation of a module
 panics

---
 src/runtime/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..f408084 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,14 +103,17 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
+		let result = self.eval_block(&program.statements);
+
+		// Drop global variables, even in case of panic, as the panic may be caught.
+		self.stack.shrink(slots);
+		self.arguments.truncate(initial_args_len);
+
+		let value = match result? {
 			Flow::Regular(value) => value,
 			flow => panic!("invalid flow in root state: {:#?}", flow)
 		};
 
-		// Drop global variables.
-		self.stack.shrink(slots);
-
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
-- 
2.43.0


From e36a2f08b2e210aec8ae99a4a88d97a41e61aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:09 +0000
Subject: [PATCH 05/19] fix: std.read takes only its line from stdin and
 accepts any bytes

---
 src/runtime/lib/read.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/runtime/lib/read.rs b/src/runtime/lib/read.rs
index 7f01922..f3f3d47 100644
--- a/src/runtime/lib/read.rs
+++ b/src/runtime/lib/read.rs
@@ -1,4 +1,9 @@
-use std::io::{self, Write};
+use std::{
+	fs::File,
+	io::{self, Read as _, Write},
+	mem::ManuallyDrop,
+	os::unix::io::FromRawFd,
+};
 
 use gc::{Finalize, Trace};
 
@@ -18,12 +23,29 @@ struct Read;
 
 
 impl Read {
+	/// Read a line from stdin, including the line terminator, if any.
+	/// As commands share stdin with the script, we must not consume anything past the line,
+	/// and therefore the input can't be buffered.
 	fn read() -> io::Result<Value> {
-		let mut input = String::new();
+		// SAFETY: stdin is always open, and ManuallyDrop prevents it from being closed.
+		let mut stdin = ManuallyDrop::new(unsafe { File::from_raw_fd(0) });
+		let mut input = Vec::new();
+		let mut byte = [0];
+
+		loop {
+			match stdin.read(&mut byte) {
+				Ok(0) => break,
+				Ok(_) => input.push(byte[0]),
+				Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
+				Err(error) => return Err(error),
+			}
+
+			if byte[0] == b'\n' {
+				break;
+			}
+		}
 
-		io::stdin()
-			.read_line(&mut input)
-			.map(|_| input.into())
+		Ok(input.into_boxed_slice().into())
 	}
 }
 
-- 
2.43.0


From 6d55f3f5a155eb8d19ca7ababfc79fe500a2d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 06/19] fix: supply literal input while the command runs, so
 that it may exceed a pipe's capacity

---
 src/runtime/command/exec/mod.rs | 101 +++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 28 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..dd3ea35 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -8,6 +8,7 @@ use std::{
 	io::{self, Write},
 	os::unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt},
 	process,
+	thread,
 };
 
 use crate::io::FileDescriptor;
@@ -34,7 +35,10 @@ pub struct ErrorStatus {
 impl ErrorStatus {
 	/// Wait a child process, and return the status.
 	fn wait_child(mut child: Child) -> Option<Self> {
-		let status = match child.process.wait() {
+		let status = child.process.wait();
+		let input = child.input.map_or(Ok(()), join_input);
+
+		let status = match status.and_then(|status| input.map(|()| status)) {
 			Ok(status) => status,
 			Err(error) => return Some(
 				Self {
@@ -71,6 +75,35 @@ impl ErrorStatus {
 }
 
 
+/// A thread supplying the input of a command.
+type InputWriter = thread::JoinHandle<io::Result<()>>;
+
+
+/// Supply the given input to a pipe, without requiring it to fit in the pipe.
+fn spawn_input(input: Box<OsStr>) -> io::Result<(os_pipe::PipeReader, InputWriter)> {
+	let (reader, mut writer) = os_pipe::pipe()?;
+
+	let input_writer = thread::Builder::new().spawn(
+		move || {
+			writer.write_all(input.as_bytes())?;
+			writer.write_all(b"\n")
+		}
+	)?;
+
+	Ok((reader, input_writer))
+}
+
+
+/// Wait for the input to be consumed. Commands are free to ignore the input.
+fn join_input(input: InputWriter) -> io::Result<()> {
+	match input.join() {
+		Err(error) => std::panic::resume_unwind(error),
+		Ok(Err(error)) if error.kind() == io::ErrorKind::BrokenPipe => Ok(()),
+		Ok(result) => result,
+	}
+}
+
+
 /// An argument may expand to zero or more literals.
 #[derive(Debug)]
 pub enum Argument {
@@ -210,7 +243,7 @@ impl Builtin {
 					let process = command.spawn()
 						.map_err(io_error)?;
 
-					Ok(ErrorStatus::wait_child(Child { process, pos }))
+					Ok(ErrorStatus::wait_child(Child { process, input: None, pos }))
 				} else {
 					let error = command.exec();
 					Err(io_error(error))
@@ -308,16 +341,18 @@ impl BasicCommand {
 			}
 		}
 
-		Self::spawn(&mut command, stdio, self.redirections, self.pos)
+		Self::spawn(command, stdio, self.redirections, self.pos)
 	}
 
 
 	fn spawn(
-		command: &mut process::Command,
+		mut command: process::Command,
 		mut stdio: Stdio,
 		redirections: Box<[Redirection]>,
 		pos: SourcePos,
 	) -> Result<Child, Error> {
+		let mut literal_input = None;
+
 		for redirection in redirections.into_vec() { // Use vec's owned iterator.
 			match redirection {
 				Redirection::Output { source, target } => {
@@ -342,40 +377,48 @@ impl BasicCommand {
 						),
 					};
 
-					let stdin: os_pipe::PipeReader =
-						if literal {
-							let (reader, mut writer) = os_pipe::pipe()
-								.map_err(|error| Error::io(error, pos.copy()))?;
-
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
+					if literal {
+						literal_input = Some(source.clone());
+					} else {
+						let file = File::open(source.as_ref())
+							.map_err(|error| Error::io(error, pos.copy()))?
+							.into_raw_fd();
 
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
-
-							reader
-						} else {
-							let file = File::open(source.as_ref())
-								.map_err(|error| Error::io(error, pos.copy()))?
-								.into_raw_fd();
-
-							// SAFETY: converting from a FD originated from a File is fine.
-							unsafe { os_pipe::PipeReader::from_raw_fd(file) }
-						};
-
-					stdio.stdin = stdin;
+						// SAFETY: converting from a FD originated from a File is fine.
+						stdio.stdin = unsafe { os_pipe::PipeReader::from_raw_fd(file) };
+						literal_input = None;
+					}
 				}
 			}
 		}
 
+		// The input may exceed the capacity of a pipe, in which case it can only be written
+		// while the command runs.
+		let input = match literal_input {
+			Some(input) => {
+				let (reader, input_writer) = spawn_input(input)
+					.map_err(|error| Error::io(error, pos.copy()))?;
+
+				stdio.stdin = reader;
+				Some(input_writer)
+			}
+			None => None,
+		};
+
 		command.stdin(stdio.stdin);
 		command.stdout(stdio.stdout);
 		command.stderr(stdio.stderr);
 
-		let process = command.spawn()
-			.map_err(|error| Error::io(error, pos.copy()))?;
+		let result = command.spawn();
+		drop(command); // Close our copies of the pipes.
 
-		Ok(Child { process, pos })
+		match result {
+			Ok(process) => Ok(Child { process, input, pos }),
+			Err(error) => {
+				input.map(join_input);
+				Err(Error::io(error, pos))
+			}
+		}
 	}
 
 
@@ -427,6 +470,8 @@ impl BasicCommand {
 #[derive(Debug)]
 pub struct Child {
 	process: process::Child,
+	/// The literal input, if any.
+	input: Option<InputWriter>,
 	pos: SourcePos,
 }
 
-- 
2.43.0


From d1bcbbf58381b870c89414c17472135e633ad507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:46 +0000
Subject: [PATCH 07/19] fix: wait for started commands and keep earlier errors
 when a command can't be started

---
 src/runtime/command/exec/mod.rs | 169 ++++++++++++++++++++------------
 1 file changed, 104 insertions(+), 65 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index dd3ea35..d599b89 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -33,6 +33,16 @@ pub struct ErrorStatus {
 
 
 impl ErrorStatus {
+	/// The status of a command that could not be executed.
+	fn io(error: io::Error, pos: SourcePos) -> Self {
+		Self {
+			description: error.to_string(),
+			status: IO_ERROR_STATUS,
+			pos,
+		}
+	}
+
+
 	/// Wait a child process, and return the status.
 	fn wait_child(mut child: Child) -> Option<Self> {
 		let status = child.process.wait();
@@ -40,13 +50,7 @@ impl ErrorStatus {
 
 		let status = match status.and_then(|status| input.map(|()| status)) {
 			Ok(status) => status,
-			Err(error) => return Some(
-				Self {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos: child.pos,
-				}
-			)
+			Err(error) => return Some(Self::io(error, child.pos)),
 		};
 
 		let code = status
@@ -514,7 +518,10 @@ impl Command {
 	) -> Result<CommandExec, Error> {
 		match self {
 			Command::Builtin { program, arguments, abort_on_error, pos } => {
-				let error = program.exec(arguments, pos)?;
+				let error = match program.exec(arguments, pos) {
+					Err(Error::Io { error, pos }) => Some(ErrorStatus::io(error, pos)),
+					result => result?,
+				};
 				let abort = abort_on_error && error.is_some();
 				Ok(
 					CommandExec {
@@ -525,61 +532,35 @@ impl Command {
 			}
 
 			Command::External { head, tail } => {
-				let mut last_stdout = stdout;
-				let mut last_stderr = stderr;
-
-				let mut tail_children = Vec::new();
-				for cmd in tail.into_vec().into_iter().rev() {
-					let child_abort_on_error = cmd.abort_on_error;
-
-					let (pipe_reader, pipe_writer) = os_pipe::pipe()
-						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
-
-					let child = cmd.exec(
-						Stdio {
-							stdin: pipe_reader,
-							stdout: last_stdout,
-							stderr: last_stderr,
-						}
-					)?;
-
-					last_stdout = pipe_writer;
-					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child.pos.copy()))?;
-
-					tail_children.push((child, child_abort_on_error));
-				}
-
-				let head_abort_on_error = head.abort_on_error;
-
-				let stdin = os_pipe::dup_stdin()
-					.map_err(|error| Error::io(error, head.pos.copy()))?;
-
-				let head_child = head.exec(
-					Stdio {
-						stdin,
-						stdout: last_stdout,
-						stderr: last_stderr,
-					}
-				)?;
+				let mut children = Vec::new();
+				let result = Self::spawn_pipeline(head, tail, stdout, stderr, &mut children);
 
 				let mut abort = false;
 				let mut errors = Vec::new();
+				let mut panic = None;
 
-				// Wait on head command.
-				if let Some(error) = ErrorStatus::wait_child(head_child) {
-					abort |= head_abort_on_error;
-					errors.push(error);
+				// The first command that couldn't be started, if any, precedes the started ones.
+				match result {
+					Ok(()) => (),
+					Err((Error::Io { error, pos }, abort_on_error)) => {
+						abort |= abort_on_error;
+						errors.push(ErrorStatus::io(error, pos));
+					}
+					Err((error, _)) => panic = Some(error),
 				}
 
-				// Wait on tail commands.
-				for (child, abort_on_error) in tail_children.into_iter().rev() {
+				// Wait on all started commands.
+				for (child, abort_on_error) in children.into_iter().rev() {
 					if let Some(error) = ErrorStatus::wait_child(child) {
 						abort |= abort_on_error;
 						errors.push(error);
 					}
 				}
 
+				if let Some(panic) = panic {
+					return Err(panic);
+				}
+
 				Ok(
 					CommandExec {
 						errors: errors.into(),
@@ -590,6 +571,64 @@ impl Command {
 		}
 	}
 
+	/// Start all commands of the pipeline, from last to first.
+	/// The children that have been started are stored even if starting the remaining ones
+	/// fails. All children and errors are paired with whether to abort on error.
+	fn spawn_pipeline(
+		head: BasicCommand,
+		tail: Box<[BasicCommand]>,
+		stdout: os_pipe::PipeWriter,
+		stderr: os_pipe::PipeWriter,
+		children: &mut Vec<(Child, bool)>,
+	) -> Result<(), (Error, bool)> {
+		let mut last_stdout = stdout;
+		let mut last_stderr = Some(stderr);
+
+		for cmd in tail.into_vec().into_iter().rev() {
+			let child_abort_on_error = cmd.abort_on_error;
+			let io_error = |error| (Error::io(error, cmd.pos.copy()), child_abort_on_error);
+
+			let (pipe_reader, pipe_writer) = os_pipe::pipe()
+				.map_err(io_error)?;
+
+			let stderr = last_stderr.take().map_or_else(os_pipe::dup_stderr, Ok)
+				.map_err(io_error)?;
+
+			let child = cmd.exec(
+				Stdio {
+					stdin: pipe_reader,
+					stdout: last_stdout,
+					stderr,
+				}
+			).map_err(|error| (error, child_abort_on_error))?;
+
+			last_stdout = pipe_writer;
+
+			children.push((child, child_abort_on_error));
+		}
+
+		let head_abort_on_error = head.abort_on_error;
+		let io_error = |error| (Error::io(error, head.pos.copy()), head_abort_on_error);
+
+		let stdin = os_pipe::dup_stdin()
+			.map_err(io_error)?;
+
+		let stderr = last_stderr.take().map_or_else(os_pipe::dup_stderr, Ok)
+			.map_err(io_error)?;
+
+		let head_child = head.exec(
+			Stdio {
+				stdin,
+				stdout: last_stdout,
+				stderr,
+			}
+		).map_err(|error| (error, head_abort_on_error))?;
+
+		children.push((head_child, head_abort_on_error));
+
+		Ok(())
+	}
+
 	pub fn pos(&self) -> SourcePos {
 		match self {
 			Command::Builtin { pos, .. } => pos.copy(),
@@ -613,29 +652,29 @@ impl Block {
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		match self._exec(stdout, stderr) {
-			Ok(status) => Ok(status),
+		let mut errors = Vec::new();
+
+		match self._exec(stdout, stderr, &mut errors) {
+			Ok(()) => Ok(errors.into()),
 			Err(Error::Panic(panic)) => Err(panic),
 			Err(Error::Io { error, pos }) => {
-				let error = ErrorStatus {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos,
-				};
-
-				Ok(Box::new([PipelineErrors::from(error)]))
+				errors.push(ErrorStatus::io(error, pos).into());
+				Ok(errors.into())
 			},
 		}
 	}
 
 
-	fn _exec<F, G>(self, mut stdout: F, mut stderr: G,) -> Result<Box<[PipelineErrors]>, Error>
+	fn _exec<F, G>(
+		self,
+		mut stdout: F,
+		mut stderr: G,
+		errors: &mut Vec<PipelineErrors>,
+	) -> Result<(), Error>
 	where
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		let mut errors = Vec::new();
-
 		let pos = self.head.pos();
 		let head = self.head.exec(
 			stdout()
@@ -649,7 +688,7 @@ impl Block {
 		}
 
 		if head.abort {
-			return Ok(errors.into())
+			return Ok(())
 		}
 
 		for command in self.tail.into_vec() { // Use vec's owned iterator.
@@ -670,6 +709,6 @@ impl Block {
 			}
 		}
 
-		Ok(errors.into())
+		Ok(())
 	}
 }
-- 
2.43.0


From 03261fd9f4e1aa84dedb6917dd0af81238c7df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:12 +0000
Subject: [PATCH 08/19] fix: report thread creation failures as panics and
 always close the capture pipes

---
 src/runtime/command/mod.rs | 65 ++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f630e89..82394cf 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -53,39 +53,56 @@ impl Runtime {
 				let (mut stderr_read, stderr_write) = os_pipe::pipe()
 					.map_err(|error| Panic::io(error, pos.copy()))?;
 
-				let stdout_reader = thread::spawn(move || {
-					let mut data = Vec::with_capacity(512);
-					stdout_read.read_to_end(&mut data)?;
-					Ok(data)
-				});
-
-				let stderr_reader = thread::spawn(move || {
-					let mut data = Vec::with_capacity(512);
-					stderr_read.read_to_end(&mut data)?;
-					Ok(data)
-				});
+				let stdout_reader = thread::Builder::new()
+					.spawn(move || {
+						let mut data = Vec::with_capacity(512);
+						stdout_read.read_to_end(&mut data)?;
+						Ok(data)
+					})
+					.map_err(|error| Panic::io(error, pos.copy()))?;
+
+				let stderr_reader = thread::Builder::new()
+					.spawn(move || {
+						let mut data = Vec::with_capacity(512);
+						stderr_read.read_to_end(&mut data)?;
+						Ok(data)
+					});
+
+				let stderr_reader = match stderr_reader {
+					Ok(reader) => reader,
+					Err(error) => {
+						drop(stdout_write);
+						let _ = stdout_reader.join();
+						return Err(Panic::io(error, pos));
+					}
+				};
 
 				let errors = command_block
 					.exec(
 						// We must drop all writers before attempting to read, otherwise we'll deadlock.
 						move || stdout_write.try_clone(),
 						move || stderr_write.try_clone(),
-					)
-					.map_err(Panic::from)?;
+					);
 
-				let mut result = errors.into_value(self.interner());
+				// Always wait for the readers, so that the pipes are closed even in case of panic.
+				let out = stdout_reader.join();
+				let err = stderr_reader.join();
+
+				let mut result = errors
+					.map_err(Panic::from)?
+					.into_value(self.interner());
 				let mut captures = {
-					let out = match stdout_reader.join() {
+					let out = match out {
 						Err(error) => std::panic::resume_unwind(error),
 						Ok(result) => result
-							.map_err(|error| Panic::io(error, pos.copy()))?
+							.map_err(|error: std::io::Error| Panic::io(error, pos.copy()))?
 							.into_boxed_slice(),
 					};
 
-					let err = match stderr_reader.join() {
+					let err = match err {
 						Err(error) => std::panic::resume_unwind(error),
 						Ok(result) => result
-							.map_err(|error| Panic::io(error, pos.copy()))?
+							.map_err(|error: std::io::Error| Panic::io(error, pos.copy()))?
 							.into_boxed_slice(),
 					};
 
@@ -123,12 +140,14 @@ impl Runtime {
 					pub static JOIN: Value = "join".into();
 				}
 
-				let join_handle = std::thread::spawn(
-					|| command_block.exec(
-						os_pipe::dup_stdout,
-						os_pipe::dup_stderr,
+				let join_handle = thread::Builder::new()
+					.spawn(
+						|| command_block.exec(
+							os_pipe::dup_stdout,
+							os_pipe::dup_stderr,
+						)
 					)
-				);
+					.map_err(|error| Panic::io(error, pos))?;
 
 				let join_handle = exec::Join
 					::new(join_handle)
-- 
2.43.0


From 0557fa111d109348607377164769ac1eb5c47282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:15 +0000
Subject: [PATCH 09/19] fix: keep broken pipes reported as errors after a
 failed exec

---
 src/runtime/command/exec/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index d599b89..ecc6cb1 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -6,7 +6,7 @@ use std::{
 	ffi::{OsStr, OsString},
 	fs::{File, OpenOptions},
 	io::{self, Write},
-	os::unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt},
+	os::{raw::c_int, unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt}},
 	process,
 	thread,
 };
@@ -250,6 +250,17 @@ impl Builtin {
 					Ok(ErrorStatus::wait_child(Child { process, input: None, pos }))
 				} else {
 					let error = command.exec();
+
+					// The failed exec has left SIGPIPE with the default action, restore it to what the
+					// Rust runtime sets up, so that broken pipes are reported as errors.
+					extern "C" {
+						fn signal(signum: c_int, handler: usize) -> usize;
+					}
+					const SIGPIPE: c_int = 13;
+					const SIG_IGN: usize = 1;
+					// SAFETY: ignoring a signal is always fine.
+					unsafe { signal(SIGPIPE, SIG_IGN) };
+
 					Err(io_error(error))
 				}
 			}
-- 
2.43.0


From deaa0760be2f5ffb3bf3e119170876fb537027d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 10/19] fix: an empty quoted argument is an argument

---
 src/syntax/parser/command.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/syntax/parser/command.rs b/src/syntax/parser/command.rs
index 10da9ef..778a96d 100644
--- a/src/syntax/parser/command.rs
+++ b/src/syntax/parser/command.rs
@@ -363,6 +363,13 @@ where
 		// Push the trailing literal, if any.
 		push_literal(&mut literal, &mut parts);
 
+		// An argument consisting only of empty quotes is an empty literal.
+		if parts.is_empty() {
+			parts.push(
+				ast::ArgPart::Unit(ast::ArgUnit::Literal(Default::default()))
+			);
+		}
+
 		ast::Argument {
 			parts: parts.into(),
 			pos
-- 
2.43.0


From 85d6da93a0b91427627c21e7c341624cbedee365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:11 +0000
Subject: [PATCH 11/19] fix: resolve imports relative to the script even after
 a directory change

---
 src/runtime/lib/import.rs | 19 +++++++++++--------
 src/runtime/mod.rs        |  5 ++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 59712de..6653b0a 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -1,6 +1,6 @@
 use std::{
 	io,
-	path::{Path, PathBuf},
+	path::Path,
 	ffi::OsStr,
 	os::unix::ffi::OsStrExt,
 };
@@ -9,9 +9,10 @@ use gc::{Finalize, Trace};
 
 use crate::{
 	fmt,
+	runtime::Runtime,
 	syntax,
 	semantic,
-	symbol::{self, Symbol}
+	symbol::Symbol
 };
 use super::{
 	CallContext,
@@ -33,7 +34,7 @@ impl Import {
 			::resolve_path(
 				module_path,
 				context.pos.path,
-				context.runtime.interner_mut()
+				context.runtime
 			)
 			.map_err(
 				|error| Panic::io(error, context.pos.copy())
@@ -53,21 +54,23 @@ impl Import {
 	fn resolve_path(
 		target_path: &Path,
 		current_path: Symbol,
-		interner: &mut symbol::Interner,
+		runtime: &mut Runtime,
 	) -> io::Result<Symbol> {
-		let mut path_buf = PathBuf::from(
+		// The working directory may have changed since the main script was loaded.
+		let mut path_buf = runtime.initial_dir.join(
 			OsStr::from_bytes(
-				interner
+				runtime
+					.interner()
 					.resolve(current_path)
 					.expect("failed to resolve symbol")
-			).to_owned()
+			)
 		);
 		path_buf.pop(); // Remove the file name.
 		path_buf.push(target_path);
 
 		let path = path_buf.canonicalize()?;
 
-		let path_symbol = interner.get_or_intern(
+		let path_symbol = runtime.interner_mut().get_or_intern(
 			path
 				.as_os_str()
 				.as_bytes()
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index f408084..3832ff1 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -12,7 +12,7 @@ pub mod value;
 #[cfg(test)]
 mod tests;
 
-use std::collections::HashMap;
+use std::{collections::HashMap, path::PathBuf};
 
 use crate::symbol::{self, Symbol};
 use super::semantic::program;
@@ -46,6 +46,8 @@ pub struct Runtime {
 	std: Value,
 	interner: symbol::Interner,
 	modules: HashMap<Symbol, Value>,
+	/// The initial working directory, to which the path of the main script is relative.
+	initial_dir: PathBuf,
 	/// Command line arguments.
 	args: Value,
 }
@@ -70,6 +72,7 @@ impl Runtime {
 			interner,
 			std: lib::new(),
 			modules: HashMap::new(),
+			initial_dir: std::env::current_dir().unwrap_or_default(),
 			args: args.into(),
 		}
 	}
-- 
2.43.0


From c32c0cf9db2749df7de172dd6bb73720ed3a4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:15 +0000
Subject: [PATCH 12/19] fix: a cyclic import panics instead of overflowing the
 native stack

---
 src/runtime/lib/import.rs | 8 +++++++-
 src/runtime/mod.rs        | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 6653b0a..03fa84d 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -42,8 +42,14 @@ impl Import {
 
 		match context.runtime.modules.get(&path) {
 			Some(module) => Ok(module.copy()), // Don't reload module if cached.
+			// Cyclic import.
+			None if context.runtime.loading.contains(&path) => Err(Panic::import_failed(path, context.pos)),
 			None => {
-				let module = Self::load(path, &mut context)?;
+				context.runtime.loading.push(path);
+				let result = Self::load(path, &mut context);
+				context.runtime.loading.pop();
+
+				let module = result?;
 				context.runtime.modules.insert(path, module.copy());
 				Ok(module)
 			}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 3832ff1..db5e246 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -46,6 +46,8 @@ pub struct Runtime {
 	std: Value,
 	interner: symbol::Interner,
 	modules: HashMap<Symbol, Value>,
+	/// Modules being loaded, used to detect cyclic imports.
+	loading: Vec<Symbol>,
 	/// The initial working directory, to which the path of the main script is relative.
 	initial_dir: PathBuf,
 	/// Command line arguments.
@@ -72,6 +74,7 @@ impl Runtime {
 			interner,
 			std: lib::new(),
 			modules: HashMap::new(),
+			loading: Vec::new(),
 			initial_dir: std::env::current_dir().unwrap_or_default(),
 			args: args.into(),
 		}
-- 
2.43.0


From 060577758106edae69a780d218198dbf7ef9883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:24 +0000
Subject: [PATCH 13/19] fix: keep the exit status when diagnostics can't be
 written to stderr

---
 src/main.rs               | 12 ++++++------
 src/runtime/lib/import.rs |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8081d44..a9ee649 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ mod term;
 #[cfg(test)]
 mod tests;
 
-use std::os::unix::ffi::OsStrExt;
+use std::{io::Write, os::unix::ffi::OsStrExt};
 
 use term::color;
 
@@ -44,7 +44,7 @@ fn main() -> ! {
 	let command = match args::parse(std::env::args_os()) {
 		Ok(command) => command,
 		Err(error) => {
-			eprint!("{}", error);
+			let _ = write!(std::io::stderr(), "{}", error);
 			std::process::exit(ExitStatus::InvalidArgs.into())
 		}
 	};
@@ -81,7 +81,7 @@ fn run(args: Args) -> ExitStatus {
 	let source = match source {
     Ok(source) => source,
     Err(error) => {
-			eprintln!(
+			let _ = writeln!(std::io::stderr(),
 				"{}",
 				fmt::Show(
 					Panic::io(error, SourcePos::file(path)),
@@ -97,7 +97,7 @@ fn run(args: Args) -> ExitStatus {
 	let has_syntax_errors = !syntactic_analysis.is_ok();
 
 	if has_syntax_errors {
-		eprint!("{}", fmt::Show(
+		let _ = write!(std::io::stderr(), "{}", fmt::Show(
 			syntactic_analysis.errors,
 			syntax::AnalysisDisplayContext {
 				max_errors: Some(20),
@@ -138,7 +138,7 @@ fn run(args: Args) -> ExitStatus {
 	let program = match semantic::Analyzer::analyze(syntactic_analysis.ast, &mut interner) {
 		Ok(program) => program,
 		Err(errors) => {
-			eprint!("{}", fmt::Show(
+			let _ = write!(std::io::stderr(), "{}", fmt::Show(
 				errors,
 				semantic::ErrorsDisplayContext {
 					max_errors: Some(20),
@@ -179,7 +179,7 @@ fn run(args: Args) -> ExitStatus {
 	match runtime.eval(program) {
     Ok(_) => ExitStatus::Success,
     Err(panic) => {
-			eprintln!("{}", fmt::Show(panic, runtime.interner()));
+			let _ = writeln!(std::io::stderr(), "{}", fmt::Show(panic, runtime.interner()));
 			ExitStatus::Panic
 		}
 	}
diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 03fa84d..9aaa12c 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -1,5 +1,5 @@
 use std::{
-	io,
+	io::{self, Write},
 	path::Path,
 	ffi::OsStr,
 	os::unix::ffi::OsStrExt,
@@ -104,7 +104,7 @@ impl Import {
 		let has_syntax_errors = !syntactic_analysis.is_ok();
 
 		if has_syntax_errors {
-			eprint!("{}", fmt::Show(
+			let _ = write!(io::stderr(), "{}", fmt::Show(
 				syntactic_analysis.errors,
 				syntax::AnalysisDisplayContext {
 					max_errors: Some(20),
@@ -121,7 +121,7 @@ impl Import {
 			)
 			.map_err(
 				|errors| {
-					eprint!("{}", fmt::Show(
+					let _ = write!(io::stderr(), "{}", fmt::Show(
 						errors,
 						semantic::ErrorsDisplayContext {
 							max_errors: Some(20),
-- 
2.43.0


From 8422427430b2407edd7054f6fdadf44e3310a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:46 +0000
Subject: [PATCH 14/19] fix: apply environment prefixes of exec, exec0 and
 spawn0

---
 src/runtime/command/exec/mod.rs | 41 +++++++++++++++++++++++----------
 src/runtime/command/mod.rs      |  5 +++-
 src/semantic/mod.rs             |  7 +++++-
 src/semantic/program/command.rs |  2 ++
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index ecc6cb1..b408d92 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -184,6 +184,27 @@ pub enum Redirection {
 }
 
 
+/// Set the environment variables given as prefix of a command.
+fn set_env(
+	command: &mut process::Command,
+	env: Box<[(Box<OsStr>, Argument)]>,
+	pos: SourcePos,
+) -> Result<(), Panic> {
+	for (key, value) in env.into_vec() { // Use vec's owned iterator.
+		let value = value.resolve(pos.copy())?;
+
+		match value.as_ref() {
+			[ value ] => command.env(key, value),
+			other => return Err(
+				Panic::invalid_args("env variable", other.len() as u32, pos)
+			),
+		};
+	}
+
+	Ok(())
+}
+
+
 /// Built-in commands.
 #[derive(Debug, Copy, Clone)]
 pub enum Builtin {
@@ -198,6 +219,7 @@ pub enum Builtin {
 impl Builtin {
 	pub fn exec(
 		self,
+		env: Box<[(Box<OsStr>, Argument)]>,
 		arguments: Box<[Argument]>,
 		pos: SourcePos,
 	) -> Result<Option<ErrorStatus>, Error> {
@@ -231,6 +253,8 @@ impl Builtin {
 
 				let mut command = process::Command::new(cmd);
 
+				set_env(&mut command, env, pos.copy())?;
+
 				if matches!(self, Self::Exec0 | Self::Spawn0) {
 					let arg0 = args
 						.next()
@@ -337,16 +361,7 @@ impl BasicCommand {
 			),
 		};
 
-		for (key, value) in self.env.into_vec() { // Use vec's owned iterator.
-			let value = value.resolve(pos.copy())?;
-
-			match value.as_ref() {
-				[ value ] => command.env(key, value),
-				other => return Err(
-					Panic::invalid_args("env variable", other.len() as u32, pos.copy()).into()
-				),
-			};
-		}
+		set_env(&mut command, self.env, pos.copy())?;
 
 		for argument in self.arguments.into_vec() {
 			let args = argument.resolve(pos.copy())?;
@@ -504,6 +519,8 @@ pub enum Command {
 	Builtin {
 		/// The program to be executed.
 		program: Builtin,
+		/// Key-value pairs of environment variables.
+		env: Box<[(Box<OsStr>, Argument)]>,
 		/// Arguments to the program. The arguments may expand to an arbitrary number of literals.
 		arguments: Box<[Argument]>,
 		/// Whether to abort the command block execution if the command fails.
@@ -528,8 +545,8 @@ impl Command {
 		stderr: os_pipe::PipeWriter,
 	) -> Result<CommandExec, Error> {
 		match self {
-			Command::Builtin { program, arguments, abort_on_error, pos } => {
-				let error = match program.exec(arguments, pos) {
+			Command::Builtin { program, env, arguments, abort_on_error, pos } => {
+				let error = match program.exec(env, arguments, pos) {
 					Err(Error::Io { error, pos }) => Some(ErrorStatus::io(error, pos)),
 					result => result?,
 				};
diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index 82394cf..fa015d1 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -187,7 +187,9 @@ impl Runtime {
 		command: &'static program::Command
 	) -> Result<exec::Command, Panic> {
 		match command {
-			program::Command::Builtin { program, arguments, abort_on_error, pos } => {
+			program::Command::Builtin { program, env, arguments, abort_on_error, pos } => {
+				let env = self.build_env_vars(env)?;
+
 				let mut args = Vec::new();
 				for argument in arguments.iter() {
 					let arguments = self
@@ -199,6 +201,7 @@ impl Runtime {
 				Ok(
 					exec::Command::Builtin {
 						program: program.into(),
+						env,
 						arguments: args.into(),
 						abort_on_error: *abort_on_error,
 						pos: pos.into(),
diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..4761daf 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -572,14 +572,19 @@ impl<'a> Analyzer<'a> {
 			}
 
 			Ok(builtin) => {
+				let env = self.analyze_env(command.head.env);
+
 				let arguments = self.analyze_items(
 					Self::analyze_argument,
 					command.head.arguments.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				let (env, arguments) = env.zip(arguments)?;
 
 				Some(
 					Command::Builtin {
 						program: builtin,
+						env,
 						arguments,
 						abort_on_error: command.head.abort_on_error,
 						pos: command.head.pos,
diff --git a/src/semantic/program/command.rs b/src/semantic/program/command.rs
index 83db273..903915c 100644
--- a/src/semantic/program/command.rs
+++ b/src/semantic/program/command.rs
@@ -133,6 +133,8 @@ pub struct BasicCommand {
 pub enum Command {
 	Builtin {
 		program: Builtin,
+		/// Key-value pairs of environment variables.
+		env: Box<[(ArgUnit, Argument)]>,
 		arguments: Box<[Argument]>,
 		abort_on_error: bool,
 		pos: SourcePos,
-- 
2.43.0


From 6cf980c2b9933b24f0d1dc8f271b25839eeb47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:59 +0000
Subject: [PATCH 15/19] fix: keep the statements before a top-level return, so
 that it is reported

---
 src/syntax/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..5496f07 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,14 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			// The block may have stopped at a return, in which case what follows is still part of
+			// the program.
+			if let ast::Block::Block(block) = self.parse_block() {
+				statements.extend(block.into_vec());
+			}
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +212,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
-- 
2.43.0


From f1c5b9702e1323977bd9f85c4d928bf8eadf97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:11 +0000
Subject: [PATCH 16/19] fix: report unsupported expansions as errors instead of
 crashing

---
 src/syntax/lexer/automata/argument.rs  |  8 ++++++++
 src/syntax/lexer/automata/expansion.rs | 12 ++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/syntax/lexer/automata/argument.rs b/src/syntax/lexer/automata/argument.rs
index 94df876..ec1f9b0 100644
--- a/src/syntax/lexer/automata/argument.rs
+++ b/src/syntax/lexer/automata/argument.rs
@@ -635,6 +635,10 @@ impl ExpansionContext for Argument {
 		Transition::rollback(checkpoint, Word::from(self))
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Self::is_word(value)
 	}
@@ -662,6 +666,10 @@ impl ExpansionContext for Word<Argument> {
 		Transition::rollback(checkpoint, self)
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Argument::is_word(value)
 	}
diff --git a/src/syntax/lexer/automata/expansion.rs b/src/syntax/lexer/automata/expansion.rs
index 14eed91..de9ce83 100644
--- a/src/syntax/lexer/automata/expansion.rs
+++ b/src/syntax/lexer/automata/expansion.rs
@@ -4,6 +4,7 @@ use super::{
 	ArgExpansion,
 	Cursor,
 	Checkpoint,
+	Error,
 	State,
 	Transition,
 };
@@ -20,6 +21,8 @@ pub(super) trait ExpansionContext {
 	/// The transition to make when no expansion could be parsed.
 	/// Yield and rollback to the given checkpoint.
 	fn rollback(self, checkpoint: Checkpoint) -> Transition;
+	/// The transition to make when the expansion is invalid.
+	fn error(self, error: Error) -> Transition;
 	/// Check if a character may be consumed inside expansions.
 	fn is_expansion_word(value: u8) -> bool;
 }
@@ -83,12 +86,9 @@ where
 				self.context.produce(ArgExpansion::Percent)
 			}
 
-			Some(b'[') => {
-				todo!() // char class.
-			}
-
-			Some(b'{') => {
-				todo!() // range, collection
+			// Char classes, ranges and collections are not supported yet.
+			Some(value @ (b'[' | b'{')) => {
+				self.context.error(Error::unexpected(value, cursor.pos()))
 			}
 
 			// Failed to parse expansion.
-- 
2.43.0


From 58931ae25b1b52c69ceafb0432e1228f3863c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:29 +0000
Subject: [PATCH 17/19] fix: report the unimplemented alias built-in as a
 failing command instead of crashing

---
 src/runtime/command/exec/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index b408d92..0fd3085 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -227,7 +227,9 @@ impl Builtin {
 		let mut args = Self::resolve_args(arguments, pos.copy())?;
 
 		match self {
-			Self::Alias => todo!(),
+			Self::Alias => Err(
+				io_error(io::Error::new(io::ErrorKind::Unsupported, "alias is not supported yet"))
+			),
 
 			Self::Cd => {
 				let dir = args
-- 
2.43.0


From 01c862b6e1ff60272eeb94973f88d4b49653768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 18/19] fix: refuse an empty name or one with = in an
 environment prefix

---
 src/runtime/command/exec/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 0fd3085..894974d 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -189,14 +189,20 @@ fn set_env(
 	command: &mut process::Command,
 	env: Box<[(Box<OsStr>, Argument)]>,
 	pos: SourcePos,
-) -> Result<(), Panic> {
+) -> Result<(), Error> {
 	for (key, value) in env.into_vec() { // Use vec's owned iterator.
+		// Names may be computed.
+		if key.is_empty() || key.as_bytes().contains(&b'=') {
+			let error = io::Error::new(io::ErrorKind::InvalidInput, "invalid environment variable name");
+			return Err(Error::io(error, pos));
+		}
+
 		let value = value.resolve(pos.copy())?;
 
 		match value.as_ref() {
 			[ value ] => command.env(key, value),
 			other => return Err(
-				Panic::invalid_args("env variable", other.len() as u32, pos)
+				Panic::invalid_args("env variable", other.len() as u32, pos).into()
 			),
 		};
 	}
-- 
2.43.0


From 8666abab4c8de343d02f1511bbea9466991f1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 19/19] fix: check the keys of each dict literal on their own

---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index 4761daf..8e7491b 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// Values may contain further dicts, which have keys of their own.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0

