"""property: (workload and oracle, bounds, why beyond tests)"""
D = {
"C01": ("A real command writes random plans (sizes around 4K/8K/64K boundaries, adversarial bytes, closing streams in any order, from background children, several streams in parallel); what the client wrote is compared byte by byte with what the command wrote. Scripted servers send the same streams in arbitrary messages and segments to the real client; scripted clients read the real server. Sessions that are quiet, blocked or stalled for more than a minute run beside the others.", "Streams up to about 1 MB (quick), more in thorough, and one of 4.5 GB.", "Loss or reordering depends on buffer boundaries, segmentation, timing and close order."),
"C02": ("Random input, paced or at once, to commands that read everything, a part, nothing, close early or exit early; the command's record is compared and its EOF time must not precede the close of the client's stdin. Input that pauses, or is left unread, for more than a minute.", "Inputs up to several 100 KB (quick).", "Same: framing and timing."),
"C03": ("All exit codes and fatal signals, each after random behaviour; kills from outside; all ways a start can fail (missing, not executable, directory missing or forbidden, ...). Commands that go on for more than a minute after closing some or all of their streams, commands stopped and continued.", "Exhaustive in codes and signals, sampled in behaviours.", "The status crosses two processes and a socket; it got lost depending on unread stdin."),
"C04": ("A scripted server's stream is cut at every byte (short streams) or at random and boundary bytes, by shutdown, close or reset; every unknown or client-only message type; serving processes are killed. The client must end nonzero and have written a prefix.", "Cuts exhaustive for short streams.", "Crash points of the peer."),
"C05": ("The driver takes the next step only after it has seen the effect of the previous one; withheld data shows as a stall.", "A stall is judged by the watchdog, twice; the median round trip is bounded at 150 ms (far above normal, below any polling period that would matter). A client whose stdin stays open must end within 6 s of its command (normally 0.25 s), or again be late when the case is repeated.", "'Without waiting for more' is a statement about every moment of a dialogue."),
"C06": ("Simultaneous bulk transfers with slow, late or absent consumers must finish; never-ending floods on one stream while the others must get through; processor ticks of idle client, session and server in every combination of open, closed and ended streams, and of a session in which hundreds of megabytes of input wait for the command.", "Up to about 300 MB per run.", "Deadlock and starvation need saturation in particular directions."),
"C07": ("Commands trap and record every signal. Every way of losing the client at every moment; healthy sessions with other clients dying around them must never record one, also not in sessions of more than a minute.", "Promptness by watchdog.", "Each combination of way and moment takes another path in the code (end of file, reset, EPIPE, before the start)."),
"C08": ("Parallel sessions with unique everything, checked individually, among 13 kinds of hostile ones; the server's files are compared. A session must be served at once among 150 silent connections, and the server must survive more connections than its user may have processes.", "Up to 8 servers at once, tens of concurrent sessions each.", "Interference needs concurrency and failure at once."),
"C09": ("Descriptors (number and object) and children of the server before/after histories; each command reports its own descriptors and signal state. Servers are started with closed standard streams, inherited descriptors, in background.", "Histories of tens of sessions.", "Leaks show in histories only."),
"C10": ("The server is run once per system call it makes after the first file was created, and gets the signal right before that call (the sweep ends at its own exit); directory and status are then compared. With sessions, without waiting, kept executables, background; plus real-time signals on the shipped builds, signals during a storm of connections, and sessions of more than a minute to be waited for.", "Every position of one scenario per mode, random times otherwise; up to 300 sessions to be waited for.", "The window between two system calls is exactly what tests cannot hit."),
"C11": ("More clients than the limit, in parallel and of all kinds; accepted connections counted at the system call (which sometimes fails first); time limits in virtual time up to months, and in real time with sessions across the limit (up to more than a minute) and with connections coming in all the time.", "Limits 0-9, 300 and 66000; unlimited up to 66000 connections; timeouts by sampling, including the extremes of the type.", "Counting must be right for every history of failing sessions; long timeouts cannot be waited for."),
"C12": ("Random configurations, options and existing files; the directory is compared with a model during and after the server's life; each executable is run and identified by the report of its server.", "1-4 servers; up to 1500 executables.", "Combinations of options, names and obstacles."),
"C13": ("A background server is observed through its life (streams, directory, session, PID file), with obstacles and write faults at the PID file and a HUP before every system call.", "Sampled options.", "Timing windows and faults."),
"C14": ("Arguments of adversarial bytes through stubs, `k8psh` with its own options, scripted peers; the program reports what it received.", "Up to 140000 arguments or 120 kB in one.", "Every byte string is allowed."),
"C15": ("Random declarations and environments, plus all pairs of declarations of one name with all presences; the reported environment is compared with the model.", "Pairs exhaustive, longer sequences sampled; up to 3000 variables and values of 120 kB.", "Precedence bugs need combinations of several declarations and presences."),
"C16": ("Random trees, base directories and spellings; the command reports path and inode. Clients outside must be refused and nothing started. Programs of the same name lie in the command's directory, beside it and in several directories of the search path; each reports which one it is.", "Names without NUL, any other byte.", "String-prefix mistakes need particular names (`/base` and `/base2`, symbolic links, '/')."),
"C17": ("Every prefix of requests, malformed classes, damaged sequences against a protocol model; every configured program records its starts; listening sockets and executed programs are observed from the kernel.", "Prefixes exhaustive for sampled requests.", "'Nothing else starts anything' is a statement about all byte sequences."),
"C18": ("A value is generated first and encoded in random notations; the decoder must give it back - as setting, host name, option, command name, default and argument; also end to end.", "Single bytes, escapes and pairs of significant bytes exhaustive; values of up to 30000 pieces and 1 MB.", "Infinite language."),
"C19": ("A structured model is rendered in random layouts; the loaded result must equal the model.", "Documented syntax only; up to 70000 of each kind of element, and elements of 70000 bytes.", "Infinite language; metamorphic relations between layouts."),
"C20": ("One defect (17 kinds) at a random place of a valid configuration must be rejected with an error (and the same text without it accepted); arbitrary bytes must give a result or an error under sanitizers; real programs start and create nothing.", "Sampled places.", "All positions of defects."),
"C21": ("An independent expander against the real one.", "Strings up to 5 (7 thorough) significant characters and fragment sequences exhaustive; up to 65537 references.", "Infinite language."),
"C22": ("Independent reading of paths, laws, and inodes in a real tree.", "Component sequences up to 5 exhaustive; paths of up to 70000 components.", "Infinite language."),
"C23": ("All kinds of targets, file systems and faults at each call position; after status 0 the target is compared and executed.", "First and last call positions of each kind.", "Faults."),
"C24": ("Sanitizers watch parsers, sessions, command lines and hostile peers, including coverage-guided fuzzing of the configuration; valgrind watches uninitialised data.", "See evidence for counts.", "Inputs."),
"C25": ("Attempts, refusals and waiting are recorded in virtual time against the configured timeout.", "Timeouts 0 to 10^6 ms, extremes and negative.", "Long timeouts and large numbers of refusals."),
"C26": ("Random options in random spellings in the configuration and on the command line; the effects are compared with a last-one-wins model.", "Sampled combinations.", "Combinations of spellings, places and duplicates."),
"C27": ("Short lists exhaustive against a matcher; the same client runs against servers with different selections must have equal results; logs only contain selected modules.", "Lists up to 6 characters exhaustive.", "Debugging must not change any result."),
"C28": ("(1) A second server with every creating or removing option against a port owned by an idle, busy, background or stopping server or by another program; directories are compared by inode, time and content. (2) Four to seven servers started at once. (3) Up to four generations of servers on one port, ending by signals, KILL, limits or without waiting, after sessions that ended cleanly, were reset, garbage, killed, orphaned or still run.", "48 + 18 + 48 runs (quick).", "Needs competing servers and left-over connections of a predecessor."),
"C29": ("strace injects errors into the client's reads, writes and closes of its streams; /dev/full, closed pipes, size limits and killed clients supply others; the command records its input, its end and its signals. Odd but working streams (nonblocking, terminals, sockets, closed descriptors, endless) must work.", "Error numbers of a list, sampled positions.", "Only faults at particular calls show it."),
"C30": ("39 causes of failure, each with ordinary, long, multi-byte and format-like names, with stderr open, full or closed; commands that cannot be started for 7 reasons; everything that works with at most a warning.", "All causes in every run; names sampled.", "Tests provoke no failures, and messages must survive any name."),
"C31": ("A copy of the program serves in a directory of its own while its configuration, program, executables and PID file are changed in seven ways; a session spans all changes, and new clients check environment, directory and status after each; a command configured later must not run.", "72 servers, 140 changes (quick).", "Histories of changes."),
"C32": ("Endless output to a reader that stops: the bytes written by the command must come to a halt, and the peak memory of every client and server process must stay within 12 MB of its start; large volumes echoed through a command; a server that reads nothing; hundreds of sessions of one server.", "About 1 GB in quick, 20 GB in thorough, and one session of 4.5 GB (20 GB).", "Volume."),
"C33": ("A launcher puts itself into the circumstances (subreaper, earlier children, ignored signals, descriptors, mask, removed directory, limits, pid namespace, broken stdout or stderr) and becomes the server; normal, failing and killed sessions and commands that leave processes behind follow, and the server is stopped (signal or connection limit) while a session is unfinished. Results, reports of the commands, zombies, waiting, exit status, files, and the survival of all unrelated processes are checked.", "Every circumstance in the foreground and in the background and combinations, 61 server lives in quick, 8 times as many in thorough.", "Circumstances no test creates."),
}
