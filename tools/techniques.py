"""property: (deciding technique, level, note)"""
X = "Held on the executions observed (counts in the evidence file); "
T = {
 "C01": ("byte-exact offline comparison of recorded streams under randomized schedules, short transfers and scripted peers", "exploration", X + "trusts the kernel's pipes/loopback TCP and the probe program."),
 "C02": ("byte-exact comparison and end-of-file order monitor on the command's recorded stdin under randomized pacing and framing", "exploration", X + "EOF order is decided by comparing monotonic timestamps taken before closing the client's stdin and at the command's EOF."),
 "C03": ("status oracle over all exit codes, fatal signals and failed starts under varied command behaviour", "exploration", "All 256 codes and all fatal signals are run, in sampled (not all) behaviours and timings."),
 "C04": ("fault injection: scripted server cutting the stream at every byte; prefix/never-success monitor on the client", "fault_enumeration", "Cut positions are exhaustive for short streams and sampled for long ones."),
 "C05": ("causal ping-pong monitor: every next step of either end is only taken once the previous data arrived, so withheld data shows as a stall", "exploration", X + "a stall is judged by a generous watchdog and only reported if it repeats."),
 "C06": ("progress monitor under saturated, stalled and asymmetric streams; CPU-time monitor of idle sessions", "exploration", X + "idle CPU is measured in jiffies over about a second, with a threshold far above noise and far below spinning."),
 "C07": ("signal-event monitor on trapping commands under every way of losing the client, and on long undisturbed sessions", "exploration", X + "promptness is judged by a generous watchdog."),
 "C08": ("concurrent-session monitor with hostile neighbours: per-session oracles plus liveness probes and a file snapshot of the server", "exploration", X + "interleavings are those the scheduler and injected delays produced."),
 "C09": ("conservation monitor: descriptors and children of the server before/after histories of sessions; self-report of every started command", "exploration", X + "descriptor identity is read from /proc."),
 "C10": ("fault injection: signals delivered at chosen system calls (preloaded shim) and random times; cleanup/exit-status monitor", "fault_enumeration", "Signal positions cover the system calls of the start-up and session phases of one process (deterministically), random times otherwise."),
 "C11": ("counting monitor of accepted connections; virtual time (preloaded shim) for timeouts, real time for session survival", "exploration", X + "the virtual clock replaces clock_gettime and poll time-outs only."),
 "C12": ("model-based comparison of the directory before, during and after server lives; every executable is run and its server identified", "exploration", X + "the model is a direct transcription of the documented options."),
 "C13": ("state monitor of the background process (/proc, PID file, streams) through its life, including faults and fault timings", "exploration", X + "the daemon is observed through /proc and by adopting it as a subreaper."),
 "C14": ("end-to-end argv oracle: the started program reports the exact bytes it received", "exploration", X + "arguments are random and adversarial bytes; total size is limited by the kernel."),
 "C15": ("end-to-end environment oracle: the started program's environment is compared with an executable model of the documentation", "exploration", X + "the model covers the declarations without nested references (their meaning is not documented)."),
 "C16": ("end-to-end directory oracle (inode and path) over random directory trees and base spellings; nothing-started monitor for outside directories", "exploration", X + "bases reached through symbolic links are outside the property's domain."),
 "C17": ("protocol fuzzing and truncation with a process-start monitor (start log of the configured programs and system-call log)", "exploration", X + "prefixes of sampled requests are exhaustive."),
 "C18": ("differential oracle: real decoder against an encoder that knows the value, and end to end through a started command", "exploration", X + "single bytes and all escapes are exhaustive; combinations are random."),
 "C19": ("differential oracle: structured model rendered with random layout, loaded by the real parser; metamorphic layout relations", "exploration", X + "the model covers the documented syntax only."),
 "C20": ("fault injection into valid configurations (one defect each) with an error oracle, random-byte totality monitor under sanitizers, nothing-created monitor on the real binary", "exploration", X + "mutation classes are those listed in the property."),
 "C21": ("differential oracle against an independent reference expander, bounded-exhaustive strings plus random ones", "exploration", "Exhaustive over short strings of the significant characters, random beyond."),
 "C22": ("algebraic-law monitors and a kernel oracle (inode comparison in a real directory tree) over bounded-exhaustive and random paths", "exploration", "Exhaustive over short component sequences, random beyond."),
 "C23": ("state oracle on the installed file under every kind of target and injected read/write/open faults", "fault_enumeration", X + "every faulted call position is enumerated for the first calls and the last ones."),
 "C24": ("AddressSanitizer and UndefinedBehaviorSanitizer under fuzzing of configuration, command line, environment, protocol and streams", "exploration", X + "sanitizers only see executed code; allocator limits bound absurd lengths."),
 "C25": ("virtual-time monitor (preloaded shim): connect attempts, refusals and waits are recorded against the configured timeout", "exploration", X + "plus a few real-time runs."),
 "C26": ("model-based comparison of every option spelling and combination with its observable effect", "exploration", X + "combinations are sampled."),
 "C27": ("differential oracle on shouldLogDebug against a reference matcher; log monitor and metamorphic comparison of sessions with and without debugging", "exploration", X + "module names are those of the sources."),
 "C28": ("monitor of listening sockets, directory contents and service while servers compete for a port and succeed each other after every kind of end", "exploration", X + "owners, ends and histories are sampled; timing of races is left to the kernel."),
 "C29": ("system-call fault injection (strace) and failing devices, pipes and limits under the client's streams, with an oracle on status, prefix, the command's input and its termination", "fault_enumeration", "Errors are injected at sampled call indices and all error numbers of a list; bytes of failure are boundary values and random ones."),
 "C30": ("enumeration of the causes of failure with ordinary and hostile names; monitor of status, stdout, stderr and files", "exploration", X + "message wording is not judged, only that it names the value at fault."),
 "C31": ("monitor of what commands are started with and of the files left behind, while the server's files are changed in random order", "exploration", X + "changes happen between and during sessions, not inside single system calls."),
 "C32": ("peak-memory and progress monitors (VmHWM, bytes written by the command) on large volumes with stopping readers", "exploration", X + "limit of 12 MB growth per process; input that a command leaves unread is exempt (the protocol has no flow control for it)."),
 "C33": ("servers launched in unusual circumstances (pid namespace, subreaper, inherited children, signals and descriptors, unwritable streams), with monitors on sessions, processes, files and exit statuses", "exploration", X + "the pid namespace is replaced by a subreaper where namespaces cannot be created (counted as no_namespaces)."),
}
