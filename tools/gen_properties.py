#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
M='src/runtime/command/mod.rs'; E='src/runtime/command/exec/mod.rs'; R='src/runtime/mod.rs'
L='src/runtime/lib/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=state
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},
              'why_tests_cant':why,'anchors':a})

p('P01','Capture blocks return exactly the bytes their commands wrote',
  'A capture block evaluates to a value whose stdout string is byte-for-byte what its commands wrote to standard output, and whose stderr string is what the last command of each of its pipelines wrote to standard error, each in the order written, whatever the amounts (including none and far more than a pipe holds), chunk sizes, speeds and interleaving, also when commands fail or are killed. '
  'Captured bytes never also reach the script\'s own outputs, and standard error of the earlier commands of a pipeline goes to the script\'s standard error instead. '
  'The block always finishes once all writers are done, and it waits for every process that still holds the captured streams.',
  ['schedules','inputs','histories'],'every interleaving of the commands, the two reader threads and the main thread, every output size and chunking, every pipe capacity',
  'The result depends on how child writes, pipe capacity, reader threads and process exits interleave; a test samples one timing and small outputs.',
  [M,E],[('capture branch of eval_command_block: two pipes, two reader threads, join',M),('writers dropped before join so readers see end of file',M)],
  observe=['value returned by the capture block','bytes on hush stdout and stderr'])
p('P02','Pipelines deliver every byte once, in order, and always finish',
  'In a pipeline all stages run concurrently, and each stage reads from its standard input exactly the byte stream its predecessor wrote to its standard output, in order, with no loss, duplication or corruption, and then end-of-file as soon as the predecessor is gone. '
  'The first stage reads the script\'s standard input and the last one writes the block\'s standard output. '
  'A stage that writes after its reader has gone is stopped by a broken pipe, and for any volumes, chunk sizes and speeds the pipeline finishes with every stage waited for.',
  ['schedules','inputs','histories'],'every interleaving of the stages and of hush starting and waiting for them, any number of stages, any volume, any early exit of any stage',
  'Deadlocks and lost end-of-file need particular orders of start, exit and closing of pipe ends that real runs rarely hit.',
  [E],[('Command::exec starts stages last to first, chains pipes, waits head to tail',E),('parent copies of pipe ends dropped when the command value is dropped',E)],
  observe=['byte streams of the pipes between the stages','exit of each stage'])
p('P03','Command failures are reported completely and faithfully',
  'A command block evaluates to nil exactly when every command it ran ended with exit status 0; otherwise it is an error that describes every failed command once, in the order of the commands in the script, each with its true exit status (or 255 plus the signal number when killed by a signal) and the source position of that command. '
  'One failure gives that single error, several in one pipeline a pipeline error listing them, several failed pipelines a block error listing those, and the capture form carries the same report next to the captured output. '
  'The order in which commands happen to finish never changes the report.',
  ['schedules','inputs','histories'],'every exit status 0..255, every terminating signal, every pipeline and block shape, every completion order',
  'The combinations of shape, status and completion order are unbounded, and completion order is timing.',
  [E,'src/runtime/command/exec/error.rs',M],[('ErrorStatus::wait_child maps wait status',E),('IntoValue for PipelineErrors and for the list of them','src/runtime/command/exec/error.rs')],
  observe=['value of the command block'])
p('P04','Commands of a block run strictly in sequence; failure stops it unless marked',
  'Within a block a command is started only after every process of the previous command (all its pipeline stages) has ended. '
  'When a command not marked with the try operator fails (for a pipeline: any unmarked stage), no later command of the block is started; when only marked commands failed, execution goes on with the next command. '
  'Commands that were started are always waited for before the block yields its value, and the script continues only after that.',
  ['schedules','inputs','histories'],'every block shape, every assignment of try marks and outcomes, every completion order and speed',
  'A started-too-early command is visible only under a schedule in which the previous one is still running.',
  [E,'src/syntax/parser/command.rs'],[('Block::_exec loop and abort flag',E),('Command::exec waits for all children and accumulates abort',E),('parse_operators sets abort_on_error','src/syntax/parser/command.rs')],
  observe=['start and end of each process in the kernel history'])
p('P05','Async blocks run concurrently and join yields their result exactly once',
  'An asynchronous block returns at once with a handle while its commands run; several such blocks and the script itself make progress independently of each other. '
  'Joining waits for all commands of that block and yields the same value the block would have had synchronously, for that block only, whatever order the handles are joined in; a second join of the same handle panics without disturbing anything else. '
  'The block uses the argument values computed when it was started, and its commands and their outputs run exactly once whether or not it is joined before the script goes on.',
  ['schedules','histories'],'every interleaving of any number of async blocks, their processes and the main thread, every join order',
  'Concurrency between interpreter threads and child processes; tests observe one schedule.',
  [M,'src/runtime/command/exec/join.rs'],[('async branch of eval_command_block spawns a thread',M),('Join::call takes the handle once','src/runtime/command/exec/join.rs')],
  observe=['value of join','process start/exit history'])
p('P06','Output redirections reach exactly the named target, in order',
  'Output redirections apply left to right: `> file` creates or truncates the file at the time the command starts, `>> file` appends to what is there even with concurrent appenders, and redirecting to a descriptor number makes the stream go where that descriptor points at that moment. '
  'All bytes the command writes to a redirected stream end up in that target once and in order and nowhere else, and streams not redirected are unaffected. '
  'A target that cannot be opened means the command is not started and the block reports an error, leaving other files untouched; descriptors other than 1 and 2 are refused with a panic before the command starts.',
  ['inputs','histories','fault_sequences'],'every sequence of redirections on 1 and 2, any sizes, in single commands, pipelines, captures and async blocks, open failures at any of them',
  'Order of several redirections combined with concurrent writers and failing opens is unbounded; the suite executes no external commands with redirections.',
  [E],[('BasicCommand::spawn folds the redirections',E),('resolve_target opens or clones',E)],
  observe=['final file contents','bytes on the other streams','descriptors given to the command'])
p('P07','Input redirections deliver exactly the given input, of any size',
  'With `< file` the command\'s standard input is that file\'s content from its beginning, and with `<< text` it is exactly that text followed by a newline and then end-of-file, for text of any size and for any content. '
  'The command always gets to run and the script never hangs, even if the command reads slowly, reads only part, or never reads at all. '
  'The last input redirection wins over earlier ones and over a pipeline\'s input; a file that cannot be opened means the command is not started and the block reports an error.',
  ['schedules','inputs','fault_sequences'],'every text size from empty to many times the pipe capacity, every reader behaviour, every pipe capacity',
  'Whether writing the text blocks depends on pipe capacity and on when the reader consumes; small literals in tests never block.',
  [E],[('Redirection::Input branch of BasicCommand::spawn',E)],
  observe=['bytes read by the command from descriptor 0','termination'])
p('P08','Commands never inherit descriptors other than 0, 1 and 2',
  'Every command hush starts has open exactly its standard input, output and error; no other descriptor of hush (script or module files, pipe ends of the same or of concurrently running blocks, here-text pipes, redirection targets, directory handles) is ever inherited, under any interleaving. '
  'Hence end-of-file and broken-pipe conditions depend only on the processes that were given the stream. '
  'Children start with the default reaction to a broken pipe.',
  ['schedules','histories','configurations'],'every interleaving of concurrent capture, async and synchronous blocks, every redirection mix, with PATH overridden for the command or not',
  'A leaked descriptor only matters when another thread starts a process in the window in which it exists.',
  [E,M],[('all descriptors created close-on-exec through os_pipe and std',E),('process::Command::spawn',E)],
  observe=['descriptor table of each process at start'])
p('P09','Command blocks leave nothing behind in the interpreter',
  'Once a command block has produced its value, or raised a panic that the script caught, every process it started has been reaped and every descriptor opened for it is closed again, on success and on every failure path (failing commands, missing programs, failing redirections, resource exhaustion in the middle of a pipeline). '
  'So a script can run blocks indefinitely without exhausting descriptors or accumulating zombies. '
  'The same holds for file descriptors used by imports, globbing and script loading.',
  ['histories','fault_sequences','schedules'],'every history of blocks, every fault position in them',
  'Leaks on failure paths need a failure at a particular call, and are invisible in a short test.',
  [E,M,L+'import.rs'],[('ownership of pipe ends by Stdio and process::Command',E),('children waited in Command::exec',E)],
  observe=['descriptor table and child table of the hush process after each block'])
p('P10','System failures are reported, contained and survivable',
  'If the operating system refuses a pipe, descriptor duplication, process start, thread start, file open, read, write or wait, hush never crashes, hangs or pretends success: the affected block yields an error (status 127) or the operation panics, and an uncaught panic ends the script with exit status 127 and a message. '
  'Commands of the failed block that had already been started are waited for and failures already observed in the block are still reported. '
  'When the script handles the error or catches the panic, later blocks and library calls work normally once the system recovers.',
  ['fault_sequences','schedules','crash_points'],'a failure of any system call hush issues at any position, with any errno, under any schedule',
  'Each fault position is a different path; the suite injects no faults.',
  [E,M,'src/runtime/panic.rs'],[('Block::exec turns I/O errors into status 127',E),('Panic::io',"src/runtime/panic.rs"),('thread creation in capture and async blocks',M)],
  observe=['exit status of hush','value of the block','kernel history'])
p('P11','Arguments reach commands exactly as written',
  'Each word of a command becomes exactly one argument with exactly its bytes, whatever characters an interpolated value contains (spaces, quotes, wildcards, newlines, any non-NUL bytes, empty); only an interpolated array multiplies a word (one argument per element, none for a lone empty array) and only unquoted wildcards in the script text match file names. '
  'A wildcard word becomes the existing matching paths (those in readable directories and with valid UTF-8 names), each once, in sorted order, relative ones prefixed with "./", evaluated in the working directory in force when the command starts, and literal text next to the wildcard matches only itself. '
  'A word containing a NUL byte is refused rather than truncated.',
  ['inputs','histories','configurations'],'every byte string in every quoting form, every directory tree and enumeration order, directory changes between words',
  'Inputs are arbitrary byte strings and directory states; directory enumeration order is chosen by the file system.',
  ['src/runtime/command/arg.rs',M,E,'src/syntax/parser/command.rs'],[('Args push_literal, push_literals, push_pattern and escaping','src/runtime/command/arg.rs'),('Argument::resolve',E)],
  observe=['argument vector of each started process'])
p('P12','Environment changes have exactly the stated scope',
  'A variable exported by the script is seen with exactly that value by the script and by every command started afterwards, the last export wins, and all other inherited variables pass through unchanged. '
  'A `name=value` prefix affects exactly the command it precedes: not other stages of the pipeline, later commands, concurrent blocks or the script. '
  'An invalid name or value is refused with an error and changes nothing; reading an unset variable gives nil.',
  ['schedules','histories','inputs'],'every history of exports, prefixes and blocks including async blocks running meanwhile, arbitrary byte values',
  'Process-wide state shared by concurrent blocks; depends on schedules and histories.',
  [L+'env.rs',E,M],[('std.export / std.env',L+'env.rs'),('BasicCommand::exec sets per-command variables',E)],
  observe=['environment of each started process','values returned to the script'])
p('P13','The working directory follows cd exactly, and failures do not move it',
  'After a successful directory change (library function or built-in command) every command started later, every relative redirection and wildcard, and the reported current directory refer to that directory, until the next change; symbolic links and dot-dot resolve as the file system does. '
  'A failing change leaves the directory as it was and is reported as an error. '
  'The built-in inside a block takes effect for the commands after it in the same block.',
  ['histories','fault_sequences','schedules'],'every history of changes, failures, removals of directories and command starts',
  'Depends on the state of the file system and on failures at particular points of a history.',
  [L+'cd.rs',L+'cwd.rs',E],[('std.cd, std.cwd',L+'cd.rs'),('Builtin::Cd',E)],
  observe=['working directory of each started process','paths opened'])
p('P14','Script output is complete, in program order, and losses are reported',
  'Everything the script prints appears on its standard output exactly once, in program order, and ordered with respect to the output of the commands it runs before and after, however the script ends (normal end, exit with a status, panic, replacement by another program) and however short the individual writes are. '
  'If the output cannot be written (full disk, closed reader, I/O error) the script learns through a panic instead of the bytes silently disappearing. '
  'Error messages go to standard error, never to standard output.',
  ['histories','fault_sequences','schedules'],'every program interleaving prints and commands, every way to end, every write failing or being short at any point',
  'Buffering makes the result depend on where output is flushed relative to children and process end, and on faults at particular writes.',
  [L+'print.rs',L+'println.rs','src/main.rs'],[('std.print writes through the buffered standard output',L+'print.rs'),('process exit','src/main.rs')],
  observe=['byte stream of hush standard output with the writer of each byte'])
p('P15','std.read returns the input line by line without loss',
  'Successive reads return the lines of standard input, each exactly once, in order, complete with its line terminator when it has one, and then empty strings at end-of-input, however the input arrives in pieces and wherever reads are interrupted. '
  'A prompt is visible before the script waits for input. '
  'A command started between reads that reads standard input gets exactly the bytes following the last line returned; a failing read is reported as a panic and loses nothing already returned.',
  ['schedules','inputs','fault_sequences'],'every input, every chunking of it, every placement of reads and commands',
  'Depends on how input is split into pieces and on who consumes it; tests have no standard input.',
  [L+'read.rs'],[('std.read via the process-wide standard input',L+'read.rs')],
  observe=['values returned by std.read','bytes read by commands from the shared input'])
p('P16','A script runs only if wholly read and valid; the exit status tells how it ended',
  'Nothing of a script is executed if the script cannot be read completely or has a syntax or static error anywhere, or if only checking was requested, whether it comes from a file or from standard input in pieces. '
  'The exit status is 0 when the script ran to its end (or the check passed), 1 for invalid command line arguments, 2 for a syntax or static error, 127 for a panic or an unreadable script, and the given status for an explicit exit; a status outside 0..255 is refused with a panic. '
  'Script arguments are passed through unchanged.',
  ['inputs','fault_sequences','histories'],'every script, a read failure at any point of it, every way of ending, every argument list',
  'Read faults at arbitrary offsets and all ways of ending combine; tests load complete local files in process.',
  ['src/main.rs','src/syntax/source.rs','src/args.rs',L+'exit.rs'],[('run(): load, analyse, evaluate','src/main.rs'),('Source::from_reader reads to end','src/syntax/source.rs')],
  observe=['exit status','kernel history (no process started, no file opened for writing, no output)'])
p('P17','A module is evaluated once per file and failed imports leave no trace',
  'Importing the same file any number of times, under any spelling of its path (relative, absolute, through symbolic links, from different modules), evaluates it at most once successfully and gives every importer the same value; relative paths are resolved against the importing file. '
  'An import that fails (missing file, read error, static error, panic inside the module) raises a panic, records nothing, and after it is caught the importing script continues with all its variables intact and a later import of the same file evaluates it anew. '
  'Files are read completely before any of their code runs.',
  ['histories','fault_sequences','inputs'],'every graph and history of imports, a fault at any system call of any import',
  'Needs multi-file histories with failures in the middle; the suite has none.',
  [L+'import.rs',R],[('Import::import cache by canonical path',L+'import.rs'),('Runtime::eval sets up and tears down module variables',R)],
  observe=['order of side effects of modules','values seen by importers'])
p('P18','A caught panic leaves the rest of the script intact',
  'When a panic raised anywhere inside a caught function (user panic, type error, failing system call, failing command construction, failing import, at any call depth and inside loops) is caught, the catching script continues with every variable, captured variable, self reference and pending call exactly as if the function had returned at that point, keeping the side effects done before it. '
  'Catching yields an error describing the panic, and a function that does not panic yields its own value. '
  'Leaving a loop or function early (break, return) in the middle of a call, array or dict leaves nothing behind either. Nesting and repetition of catches have no cumulative effect.',
  ['fault_sequences','histories','programs'],'every program, a fault at every system call inside the caught region, any nesting and number of repetitions',
  'The interpreter state at the point of failure differs for each position; tests raise panics at one or two places.',
  [R,L+'catch.rs','src/runtime/mem.rs','src/runtime/value/function.rs'],[('Runtime::call and eval stack and argument bookkeeping',R),('std.catch',L+'catch.rs')],
  observe=['values printed by the script after the catch'])
p('P19','Sleeping lasts at least the requested time and delays nobody else',
  'A sleep returns only after at least the requested time has elapsed on the monotonic clock, even if it is interrupted repeatedly or the wall clock jumps, and it returns within a bounded delay once that time has passed. '
  'Processes and asynchronous blocks keep running while the script sleeps. '
  'A negative duration is refused without sleeping.',
  ['schedules','fault_sequences','inputs'],'every duration, every sequence of interruptions and clock jumps, every amount of concurrent work',
  'Interruptions and clock jumps cannot be produced on demand in a test, and real sleeps make tests slow and flaky.',
  [L+'sleep.rs'],[('std.sleep via thread sleep',L+'sleep.rs')],
  observe=['simulated time at the start and end of the sleep'])
p('P20','Results depend only on script and inputs, and seeded randomness repeats',
  'For a script whose commands are deterministic and that runs them synchronously, the output, the sequence of started commands and the exit status are the same for every schedule, process speed, pipe capacity, directory enumeration order and system entropy (dictionary iteration order and unseeded random numbers excepted). '
  'After seeding with a given number the sequence of random numbers is the same in every run, whatever entropy the system provides. '
  'Random integers lie within the requested inclusive bounds, of which every value can occur, random floats in [0,1), and an empty range is refused with a panic.',
  ['schedules','configurations','histories'],'every pair of runs of the same script that differ in schedule, timing, entropy, pipe capacity and enumeration order',
  'It is a statement about all pairs of executions.',
  [L+'rand.rs',M,E],[('thread-local ChaCha generator',L+'rand.rs'),('synchronous block execution',E)],
  observe=['complete observable history of both runs'])
p('P21','The exec family replaces or starts the program exactly as asked',
  'The exec built-ins replace hush by the named program with exactly the given arguments (and given argument zero for the 0 forms), the exported environment, the current directory and the script\'s own standard streams, so that the program\'s exit status becomes the script\'s; nothing of the script runs afterwards and output printed before is not lost. '
  'The spawn form starts it as a child, waits, and reports its status like any command. '
  'If the program cannot be started the block reports an error and the script continues unharmed, with later commands and broken pipes behaving as before.',
  ['inputs','histories','fault_sequences'],'every argument list, every preceding history of output, exports and directory changes, every start failure',
  'Replacing the process cannot be exercised inside the test harness process.',
  [E],[('Builtin::exec',E)],
  observe=['process image history of the hush process','exit status'])
# ---- pure properties: no schedule, clock, I/O, fault or second party for them to depend on
p('N01','Integer arithmetic is checked, float arithmetic follows IEEE 754',
  'Integer operations give the mathematically exact result or a panic (overflow, division by zero), never a wrapped value. Float operations follow IEEE 754.',
  ['inputs'],'every pair of operands','Unbounded operand space.',[R],[('binary operators in Runtime::eval_binary_op',R)])
p('N02','Lexical scoping and closures',
  'Every identifier denotes the innermost lexically enclosing declaration, and closures share captured variables by reference, in every program.',
  ['programs'],'every program','Unbounded program space.',['src/semantic/mod.rs','src/semantic/scope.rs',R],[('slot allocation and captures','src/semantic/scope.rs')])
p('N03','The front end terminates with diagnostics on any input',
  'For any byte string the lexer, parser and static analysis terminate with either a program or at least one error with a correct position.',
  ['inputs'],'every byte string','Unbounded input space.',['src/syntax/parser/mod.rs','src/syntax/lexer/mod.rs'],[('synchronising parser','src/syntax/parser/sync.rs')])
p('N04','Encoders and decoders are inverse to each other',
  'JSON, hex and base64 decoding inverts encoding for every representable value and rejects malformed input with an error.',
  ['inputs'],'every value','Unbounded value space.',[L+'json.rs',L+'hex.rs',L+'base64.rs'],[('json/hex/base64 functions',L+'json.rs')])
p('N05','Equality, ordering and hashing of values are consistent',
  'Equality is an equivalence, ordering is total and consistent with it, equal values are the same dictionary key, and sorting yields an ordered permutation.',
  ['inputs'],'all pairs and triples of values','Unbounded value space.',['src/runtime/value/mod.rs','src/runtime/value/float.rs',L+'sort.rs'],[('Eq/Ord/Hash for Value','src/runtime/value/mod.rs')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
