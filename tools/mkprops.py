import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
PR="src/Process.cxx"; MA="src/Main.cxx"; CO="src/Configuration.cxx"; UT="src/Utilities.cxx"; SO="src/Socket.cxx"
p("C01","A remote command's stdout and stderr are reproduced exactly",
 "For a remote command that ends normally, the bytes the client writes to its standard output and to its standard error are exactly the bytes the command wrote to its own standard output and standard error, each in order and complete. Nothing is lost, duplicated, altered or moved to the other stream, and nothing of k8psh's own is added, whatever the sizes, contents, write pattern, order of closing the streams, or speed of either end.",
 ["inputs","schedules"],"every sequence of writes/closes on the two streams (0 bytes to many MB, all byte values), every segmentation of the transport, and every relative speed of command, server, client and reader",
 "k8pshTest checks a handful of sub-20-byte outputs on one stream at a time; buffer boundaries, interleavings, partial transfers and output produced around process exit are never reached.",
 [PR,SO,UT],[("server pipe-to-socket forwarding loop",PR+": Process::run poll loop"),("framed receive buffer",PR+": BufferedReceiveSocket"),("client stream output",PR+": outputStdStreamData")],["client's stdout and stderr","bytes on the TCP connection"])
p("C02","The command's stdin is exactly the client's stdin, then end of file",
 "The bytes a remote command can read from its standard input are exactly the bytes supplied on the client's standard input, in order, followed by end of file after (and only after) the client's standard input has ended. A command that reads only part of its input, closes it early or ignores it still has its output and exit status delivered unchanged.",
 ["inputs","schedules"],"every stdin content and size (0 bytes to many MB), every chunking and pacing of writer and reader, and every point at which the command stops reading",
 "k8pshTest feeds 9 bytes from a file and a command that never reads; multi-buffer transfers, nonblocking pipe back-pressure, EOF timing and leftover input cannot be settled by samples.",
 [PR,SO,UT],[("client stdin forwarding",PR+": Process::runRemoteCommand poll loop"),("server pending-stdin buffer and deferred close",PR+": Process::run stdInData/closeStdIn"),("nonblocking pipe write",UT+": Pipe::write")],["bytes and EOF observed by the command on fd 0","client's outputs and exit status"])
p("C03","The client's exit status tells the truth about the command",
 "When the remote command exits normally with status N (0-255), the client exits with exactly N. When the command is killed by a signal, cannot be started, or cannot be given its working directory, the client exits with a nonzero status.",
 ["inputs","schedules"],"every exit code, every fatal signal, every way a start can fail, in every timing of exit relative to closing the streams, background children keeping the streams open, and remaining input",
 "k8pshTest observes exit codes 0-3 with one timing each; signals, failed starts and exit/close races are not exercised.",
 [PR],[("exit status collection and EXIT_CODE payload",PR+": Process::run waitpid / WIFEXITED"),("client exit on EXIT_CODE",PR+": Process::runRemoteCommand")],["client's exit status"])
p("C04","A broken or invalid connection is never reported as success",
 "If the connection to the server ends or is reset at any point before a complete exit status has been received, or the server sends something that is not valid at that point, the client exits with a nonzero status instead of hanging. Everything it has written to its outputs by then is a prefix of what the server sent for that stream.",
 ["crash_points","fault_sequences"],"every byte position at which the server-to-client stream can be cut (orderly or by reset), every segmentation, and every unknown message type",
 "No test ever breaks a connection; the cut can fall at any byte of any message.",
 [PR,SO],[("abort on close without exit code",PR+": Process::runRemoteCommand"),("short-read detection",PR+": BufferedReceiveSocket::readString")],["client's exit status and outputs against a scripted server"])
p("C05","Data is delivered promptly while the command is still running",
 "Everything written by the running command on stdout or stderr reaches the client's output, and everything given to the client's stdin reaches the command, without waiting for more data, for a newline, for end of file or for the command's exit. Likewise, when the command closes one of its output streams or the client's stdin ends, the other side sees end of file while the command keeps running; and when the command has ended and its output streams are closed, the client ends promptly, even while its own stdin stays open. When the command closes its stdin, the client stops taking input (and so does whoever writes it) as soon as more of it arrives.",
 ["schedules","inputs"],"every request/response dialogue between a user at the client and the command, with any message sizes on either stream, and any order of closes",
 "Tests only look at outputs after exit, so arbitrary buffering would go unnoticed.",
 [PR],[("flush after each received payload",PR+": outputStdStreamData"),("forwarding each pipe read as one message",PR+": Process::run")],["timed dialogue at client's stdio while the command is blocked"])
p("C06","Sessions always make progress and never spin while idle",
 "However large and simultaneous the traffic on stdin, stdout and stderr, and however slowly either end consumes one of the streams, the other streams keep flowing and the session runs to completion once the ends keep reading (no deadlock, no starvation), in time proportional to the volume, also when much of the input has to wait for the command. While nothing happens on any stream, neither the client nor the server consumes CPU continuously.",
 ["schedules","inputs"],"every combination of full-duplex bulk traffic, stalled or slow consumers on each stream, closed stdin, and idle phases",
 "Needs volumes beyond every kernel buffer and adversarial consumption orders; tests move a few bytes.",
 [PR],[("out-of-band buffering of stdin to avoid pipe-write deadlock",PR+": Process::run"),("bounded message batches",PR+": MAX_CONSECUTIVE_PAYLOADS"),("ignored descriptors once closed",PR+": pollSet[0].fd = -1")],["completion of the dialogue, CPU time from /proc, per-stream progress"])
p("C07","Losing the client terminates its command, and nothing else does",
 "When the client of a running command that still has a standard stream connected dies or drops its connection in any way (orderly close, reset, kill; idle, mid-transfer, or right after the request), or sends a terminate request or an invalid message, the command receives a termination signal promptly and the session ends. As long as its client stays connected and well-behaved, a command is never signalled, however long or quiet it is or however it uses its streams.",
 ["crash_points","schedules","fault_sequences"],"every moment of the session at which the client disappears, including between the request and the command's start, and during output or input transfer in either direction",
 "No test kills a client; the disappearance can coincide with any step of the session.",
 [PR],[("TERM on session failure",PR+": Process::run catch block and terminate path"),("signals blocked around fork",PR+": Process::run sigprocmask")],["signals recorded by the command, process table"])
p("C08","Sessions are isolated from each other and from the server",
 "Any number of concurrent sessions each see only their own arguments, environment, working directory, input, output and exit status. A session that fails, is malformed, hostile, stalled, disconnected or killed affects neither the other sessions nor the server's ability to accept new ones, nor any file the server has created.",
 ["schedules","histories","fault_sequences"],"every set of overlapping sessions, good and bad, in every order and number",
 "The test suite runs one well-formed session at a time.",
 [MA,PR],[("one forked process per session",MA+": mainServer accept loop"),("session failures contained in the child",MA+": catch (...) abort")],["per-session unique tokens, server liveness, created files"])
p("C09","Resources are conserved across sessions and not leaked to commands",
 "After any history of sessions has finished, a running server holds the same open file descriptors as before and has no leftover child or zombie processes. A command starts with only descriptors 0, 1 and 2 open (beyond any the server itself was started with), each connected to its own session, and with default handling and no blocking of the TERM, INT, PIPE and CHLD signals.",
 ["histories","configurations"],"every history of successful, failed and aborted sessions, foreground and background servers, and any set of descriptors closed when the server was started",
 "A leak only becomes visible after counting over many sessions; tests never look at descriptors or the process table.",
 [MA,PR,UT],[("closing sockets and pipe ends in each process",PR+": Process::run child branch"),("SIGCHLD ignored so sessions are reaped",MA+": mainServer"),("exit pipe closed in sessions",MA+": mainServer child branch")],["/proc/PID/fd and process table","descriptor and signal report made by the command"])
p("C10","Termination signals shut the server down cleanly at any moment",
 "Once a server with commands has created any file, a TERM or INT signal (or HUP while in the foreground) at any later moment makes it stop accepting connections, remove the client executables and PID file it created (executables stay when asked to be kept), and exit with status 0. It first waits for all accepted sessions to finish undisturbed (its files staying in place meanwhile), unless told not to wait, in which case it exits without waiting while those sessions still run to completion.",
 ["crash_points","schedules"],"every point of the server's life at which the signal arrives (each system call from creating the first file on), and any number of active sessions",
 "Tests never signal the server; the arrival point can be any instruction.",
 [MA],[("self-pipe closed by the signal handler",MA+": handleSignal / exitRequested"),("waiting for children",MA+": wait loop"),("cleanup lambda",MA+": cleanup")],["server exit status, directory contents, session outcomes"],None,None)
p("C11","Connection and time limits are honoured exactly",
 "A server limited to N connections accepts exactly N connections, whatever becomes of those sessions, and then shuts down cleanly after they finish; with no (negative) limit it keeps accepting. A server limited to T milliseconds keeps serving until T has elapsed, then stops accepting and shuts down cleanly, letting accepted sessions finish; with a negative timeout it never stops by itself.",
 ["configurations","histories"],"every N and T (including 0, negative and very large values), every combination of the two, and every mixture of good, failed and overlapping sessions",
 "One test uses N=4 with four sequential good sessions.",
 [MA],[("accept loop condition and poll timeout",MA+": mainServer")],["accepted/refused connections, exit time and status"])
p("C12","Exactly the right client executables exist, and each reaches its server",
 "A started server creates, in the chosen directory, one working client executable per configured command except (unless asked otherwise) its own commands, or none when disabled; running one runs that command on the server that offers it. It never removes or replaces an existing file unless told to overwrite or to disable client executables, and then only files named like commands; if it cannot create one it fails with a nonzero status. On exit (successful or not) it removes exactly the executables it created, unless asked to keep them or it has no commands to serve.",
 ["configurations","histories"],"every combination of configuration (servers, commands), options, and pre-existing files or directories at the target names",
 "The tests use one configuration and one set of options in one directory.",
 [MA],[("symlink creation loop",MA+": mainServer"),("cleanup lambda",MA+": mainServer")],["directory snapshots before, during and after"])
p("C13","Background mode detaches fully and its PID file is accurate",
 "In background mode the starting process exits with status 0 after the server is listening, and the server continues in its own session, detached from the caller's standard streams and current directory, serving requests as usual and ignoring HUP. Its PID file contains exactly its process id, is never written over an existing file (the server then gives up and leaves that file alone), and is removed when the server exits on its own or by a termination signal.",
 ["configurations","crash_points"],"every combination of PID file locations (relative, absolute, existing, impossible, none), directories, open streams and ways of ending",
 "The CI check only starts a daemon and kills it with KILL.",
 [MA],[("fork/setsid/chdir/dup2 sequence",MA+": daemonize block"),("O_EXCL PID file",MA)],["process attributes in /proc, PID file contents and lifetime"])
p("C14","Arguments arrive unchanged",
 "A command is started with exactly the configured argument list followed by the arguments given to the client, in order: none dropped, merged, split, re-quoted or interpreted, for any number of arguments and any bytes they can contain (including empty ones and ones that look like options). This holds both when invoked through a client executable and through the k8psh command with its own options.",
 ["inputs"],"every argument vector accepted by the operating system",
 "Tests pass a single one-letter argument.",
 [PR,MA],[("COMMAND_ARGUMENT messages",PR),("option parsing stops at the command name",MA+": mainClient")],["argv reported by the command"])
p("C15","The command's environment is exactly what the configuration prescribes",
 "A command's environment consists of exactly the variables declared for it (by its server section and itself), each once: a plain variable has the client's value or else its default; an optional (?) one the client's value, else its default, else the server's value, else it is absent; an inherited (=) one the configured value or else the server's value or absence, never the client's. When a variable is declared several times, or a default refers to other variables, the declarations take effect in order, and no undeclared variable of client or server is ever passed.",
 ["configurations","inputs"],"every list of declarations and every pair of client and server environments, with any byte values",
 "Tests check two variables in four fixed declarations.",
 [PR,CO],[("environment construction",PR+": Process::run"),("client sends only requested variables",PR+": runRemoteCommand")],["environ reported by the command"])
p("C16","The command runs in the corresponding working directory",
 "The command's working directory is the server's base directory joined with the client's current directory relative to the client's base directory, for any directory names and any equivalent spellings of the base directory (leaving out symbolic links). A client outside the base directory fails with a nonzero status and starts nothing, as does a directory the server cannot enter. A configured program with a relative path is the one found from this directory, and if that is a bare name that does not exist there, the one in the search path of the command's environment.",
 ["inputs","configurations"],"every base directory spelling and every current directory at, below, above, beside or textually similar to it",
 "The end-to-end test only runs in the base directory itself.",
 [MA,PR,UT,CO],[("relativizePath/normalizePath",UT),("chdir before exec",PR),("execv, then execvp",PR)],["cwd reported by the command; client's status"])
p("C17","Only complete, well-formed requests for this server's commands start anything",
 "A server starts a process only for a complete, well-formed request whose command name is configured for that very server, at most one process per connection, and what it starts is that command's configured program. Any other byte sequence, truncated at any point or sent in any segmentation, starts nothing, and the server is reachable only through the loopback address on the configured port.",
 ["inputs","crash_points"],"every byte stream a client can send, each prefix of a valid request, and any segmentation",
 "No test sends anything but what the regular client sends.",
 [PR,SO,MA],[("request parsing",PR+": Process::run"),("per-host command map",CO+": getCommands(hostname)"),("bind to 127.0.0.1",SO+": Socket::listen")],["process starts recorded by the configured program"])
p("C18","Configuration strings decode to the documented values",
 "Any value written in the documented unquoted, single-quoted or double-quoted notation, or any concatenation of these, decodes to exactly the bytes the documentation gives it (all escapes included). Environment references are expanded in unquoted and double-quoted text and never in single-quoted text.",
 ["inputs"],"every string, every way of quoting it, in every position of the file, and every environment",
 "ConfigurationTest decodes one mixed line.",
 [CO],[("parseString",CO)],["values returned by loading the configuration"])
p("C19","A configuration means what its documented structure says",
 "Loading a valid configuration yields exactly the documented settings, servers, ports (explicit, or sequential from the previous one starting at 1120), server options, commands, environment declarations and argument lists, a later definition of a command name winning for clients. Comments, blank lines, surrounding whitespace, line-ending style (LF or CRLF) and a missing final newline never change the result.",
 ["inputs"],"every valid configuration and every equivalent formatting of it",
 "ConfigurationTest loads one configuration in one formatting.",
 [CO],[("Configuration::load",CO)],["the loaded settings"])
p("C20","Malformed configurations are rejected as a whole",
 "A configuration with an unknown setting, an unterminated string, an invalid escape, a malformed or unterminated section header, a non-numeric timeout, an invalid or out-of-range port (explicit or sequential), or trailing text where a line must end is reported as an error naming the problem and nothing is started or created from it. Loading any byte sequence ends in either a result or such an error, never a crash or hang.",
 ["inputs"],"every malformed byte sequence, in particular each single defect injected at each place of an otherwise valid configuration",
 "ConfigurationTest tries ten strings.",
 [CO,MA],[("LOG_ERROR paths in the parser",CO)],["error reported by loading; exit status of client and server"])
p("C21","Environment references expand exactly as documented",
 "In an expanded string each reference ${NAME} is replaced by the variable's value (empty if undefined) and ${NAME:-default} by its value if defined and otherwise by the default text; already made definitions take precedence over the process environment. Everything that is not a complete reference is left unchanged, and replaced text is not expanded again.",
 ["inputs"],"every string and every environment",
 "ConfigurationTest covers three references.",
 [UT],[("substituteEnvironmentVariables",UT)],["the expanded string"])
p("C22","Path handling agrees with the file system's meaning of paths",
 "Normalizing a path yields an equivalent path (leaving out symbolic links) without empty, '.' or avoidable '..' components, and doing it again changes nothing. Relativizing a path against a parent yields the remainder exactly when the parent is an ancestor or equal component by component and is an error otherwise; the base name and parent directory of a path without trailing separators join back to an equivalent path.",
 ["inputs"],"every path string",
 "UtilitiesTest checks about twenty strings.",
 [UT],[("normalizePath, relativizePath, getBasename, getParentDirectory",UT)],["returned paths"])
p("C23","Installing yields a complete working executable or an error",
 "After a successful install the target is a byte-identical, executable copy of the program, whether the target is new, already exists (shorter, longer, not executable), or is on another file system; a target that did not exist can be executed by everybody the umask allows. If the copy cannot be completed for any reason, the install exits with a nonzero status.",
 ["fault_sequences","inputs"],"every kind of target and every failure or short transfer of any single read, write or open during the copy",
 "No test installs.",
 [MA],[("link or copy loop",MA+": mainClient --install")],["target file and exit status"])
p("C24","No input makes the program touch memory wrongly",
 "Whatever configuration, command line, environment, network input or stream data is given to the client or the server, it performs no out-of-bounds or use-after-free access and no undefined behaviour.",
 ["inputs","schedules"],"every input of every kind",
 "The tests run without sanitizers on a few inputs.",
 [CO,PR,UT,SO,MA],[("index-based parsing relying on terminators",CO),("receive/send buffers",PR)],["AddressSanitizer and UndefinedBehaviorSanitizer reports, valgrind"])
p("C25","The client waits for its server as long as configured, and no longer",
 "A client whose server is not yet listening keeps trying and succeeds, within a few seconds of the server's start, if that is within the configured connection timeout, however often it was refused before; a negative timeout means it never gives up. If no server appears it fails with a nonzero status not before the timeout (at least one attempt is made, even with timeout 0) and not long after it.",
 ["schedules","configurations"],"every timeout value (0, negative, default, huge) and every time at which the server appears",
 "The tests always start the server first.",
 [PR,SO],[("connect/back-off loop",PR+": runRemoteCommand")],["client status, connection attempts and virtual time"])
p("C26","Command line and configured server options combine as documented",
 "Every documented option works in all its spellings (short, long, separate or '=' value); options in the server's configuration section apply as if given before those on the command line, which win, and the --config and --name options win over their environment variables. An unknown option, or an option without its value, is an error with a nonzero status before anything is created, unless invalid arguments are to be ignored; a connection or time limit that is not a number is an error as well.",
 ["configurations","inputs"],"every sequence of options split between configuration and command line",
 "Tests use one fixed set of options.",
 [MA],[("parseOption and deferred arguments",MA)],["observable effects of each option"])
p("C27","Debug output appears only when requested and never changes the result",
 "Debug messages are produced exactly for the modules selected by the debug variable (a comma or semicolon separated, case-insensitive list of module names, or 'all'), and none when it is unset or names none. Selecting any modules on the server never changes what a client outputs or returns.",
 ["inputs","configurations"],"every value of the debug variable",
 "Tests enable it once and never check what is selected.",
 [UT],[("shouldLogDebug / listContainsCaseInsensitive",UT)],["debug lines emitted"])
p("C28","A port is served by one server at a time, and is free as soon as it has ended",
 "Starting a server whose port is already in use fails with a nonzero status and a message, leaves every file as it was (whatever its options) and does not disturb the running server; of any number of servers started at once for one port exactly one serves. Once a server has ended, in whatever way and with whatever sessions or commands of it still running, nothing accepts connections on its port, a new server can be started on it at once and serves all new clients, and surviving sessions of former servers finish undisturbed.",
 ["schedules","histories","crash_points"],"every owner of the port, every number and timing of competing servers, and every history of sessions and end of the former server",
 "The tests start one server per port, once.",
 [SO,MA],[("listening socket and its inheritance",SO+": listen; "+MA+": main loop"),("creation and removal of client executables",MA)],["listening sockets, exit statuses, directory contents and service of successive servers"])
p("C29","Trouble with the client's own streams is never passed off as success",
 "If the client cannot write the command's output to its stdout or stderr (full device, closed pipe, size limit, I/O error at any byte, or an error only reported on closing), or cannot read its stdin, it ends with a nonzero status (with a message, unless killed by the signal or the command has already closed its stderr), what it wrote is a prefix, and the command is terminated. A command never sees the end of its input before it is terminated when the input was cut short (the client failing, dying or vanishing). Unusual but working streams (nonblocking stdin, a broken stream that is not used, terminals, sockets, closed descriptors, endless input) are no trouble, and the server is never affected.",
 ["fault_sequences","inputs","crash_points"],"every failure of any read, write or close of the client's streams, at every byte",
 "The tests use working pipes only.",
 [PR],[("write and close of the outputs",PR+": outputStdStreamData"),("reading of stdin",PR+": runRemoteCommand"),("termination of the command",PR+": run")],["client status, its outputs, the command's input and signals"])
p("C30","Every failure is explained where the user looks for it, and success is silent",
 "Whenever the client or the server fails by itself (configuration missing, unreadable or invalid, unknown command, unrelated directory, unreachable server, invalid or incomplete option, failing install, port in use, client executable that cannot be created), it ends with a nonzero status, prints nothing on stdout and a message on stderr that contains the name or value at fault exactly as given, and leaves no files; without a usable stderr the status still tells. A command that cannot be started is named in a message on the client's stderr. What works produces no messages beyond warnings that name their subject (ignored arguments, undefined variables in the configuration, files that could not be removed), and help and version requests are answered on stdout with status 0.",
 ["inputs","configurations"],"every cause of failure, every name or value, every state of the standard streams",
 "The tests provoke no failures.",
 [MA,CO,PR,UT],[("error reporting",UT+": Logger"),("option and configuration errors",MA+", "+CO)],["exit status, stdout and stderr"])
p("C31","A running server goes on as started, whatever happens to its files afterwards",
 "Once started, in the foreground or background and with absolute or relative file names, a server keeps serving the commands, environment, directories and options it was started with, and nothing that was added later, while its configuration file, program file, client executables and PID file are edited, replaced, truncated, made unreadable or removed by others. On shutdown it still ends with status 0, removes what remains of the files it created and leaves other files alone.",
 ["histories","schedules"],"every sequence of changes to the server's files, before, during and between sessions",
 "The tests never change a file of a running server.",
 [MA,CO],[("configuration held in memory",MA+": mainServer"),("clean-up",MA+": cleanup")],["what commands are started with, exit status and remaining files"])
p("C32","Any volume of data is passed on in bounded memory, with back-pressure",
 "The client and the server need no more than a bounded amount of memory for a session whatever the volume of output passed on and however slow its reader, or of input (beyond the part of it that the command has not read yet), and the server's memory does not grow with the number of past sessions. When nobody takes the output of a command, the command is held up after a bounded amount of data until somebody does; a client whose server does not take its input is held up likewise.",
 ["schedules","inputs"],"every volume, piece size, pause pattern and number of sessions",
 "The tests pass a few kilobytes.",
 [PR,SO,MA],[("buffers of the relay loops",PR)],["peak memory of all processes, progress of the command's writes"])
p("C33","It makes no difference how, where and by what the programs are started",
 "In whatever circumstances a server (or client) is started - as the first process of a container or another adopter of orphans, with children of its own from before, with inherited ignored signals, further descriptors, message streams that cannot be written, from a directory that no longer exists, with any file mode mask, priority, environment or low resource limits, with a configuration that comes through a pipe - it serves, ends commands, waits for exactly its own sessions and shuts down with status 0 as usual, and commands start with the same descriptors and signal handling. Processes that commands leave behind, or that are otherwise none of its sessions, neither delay its shutdown nor are signalled by it, and do not remain as zombies of it.",
 ["configurations","histories","fault_sequences"],"every combination of circumstances, every history of sessions and way of stopping",
 "The tests start the programs from one build script.",
 [MA,PR],[("waiting for the sessions on shutdown",MA+": activeSessions"),("signal dispositions",MA+": mainServer; "+PR+": run")],["exit statuses, sessions, reports of commands, remaining files and processes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
