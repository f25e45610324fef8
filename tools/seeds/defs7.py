# Set 7
seed("C16-search-path-only", "C16", [("Process.cxx", """				// First, try the working directory (this provides compatibility across different platforms), then try the search path
				(void)execv(argv[0], (char * const *)argv.data());
""", "")],
"a configured program without any slash in its name that lies in the command's directory",
"it is only looked for in the search path: another program of that name is run, or none",
r'''
p = port()
os.mkdir(DIR + "/path")
write("work/tool", "#!/bin/sh\necho here\n", 0o755)
write("path/tool", "#!/bin/sh\necho elsewhere\n", 0o755)
conf(["cmd =PATH='%s/path:/usr/bin:/bin' tool" % DIR, "other =PATH=/usr/bin:/bin tool"], p)
server(p)
for c in ("cmd", "other"):
    rc, out, err = run(c)
    if rc != 0 or out != b"here\n":
        bad("%s: %r %r %r" % (c, rc, out, err))
''')

seed("C03-stopped-looks-ended", "C03", [("Process.cxx", "waitpid(process, &exitStatus, WNOHANG) > 0 && (WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus))", "waitpid(process, &exitStatus, WNOHANG | WUNTRACED) > 0")],
"a command that is stopped for a while (as by job control) and continued later",
"the stop is taken for its end: the rest of its input is dropped, and its status is never sent",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
c = client("cmd", ["-c", 'echo $$ > "$0/pid"; until [ -e "$0/go" ]; do sleep 0.1; done; cat; exit 7', DIR], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
if not wait(lambda: os.path.exists(DIR + "/pid") and open(DIR + "/pid").read().endswith("\n")):
    bad("not started")
pid = int(open(DIR + "/pid").read())
os.kill(pid, signal.SIGSTOP)
time.sleep(1)
os.kill(pid, signal.SIGCONT)
write("go", "")
try:
    out, err = c.communicate(b"input\n", timeout=60)
except subprocess.TimeoutExpired:
    bad("the client does not end")
if c.returncode != 7 or out != b"input\n":
    bad("%r %r %r" % (c.returncode, out, err))
''')

seed("C14-argument-limit", "C14", [("Process.cxx", """				arguments.push_back(receiveSocket.readString(payloadValue));
""", """				if (arguments.size() < 65535)
					arguments.push_back(receiveSocket.readString(payloadValue));
				else
					(void)receiveSocket.readString(payloadValue); // More would not fit into the command line
""")],
"a command line of more than 65535 arguments",
"the arguments beyond are dropped silently",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
rc, out, err = run("cmd", ["-c", 'echo $#', "sh"] + ["a"] * 70000)
if rc != 0 or out != b"70000\n":
    bad("%r %r %r" % (rc, out, err))
''')

seed("C11-limit-narrowed", "C11", [("Main.cxx", "long long maxConnections = 0;", "int maxConnections = 0;")],
"a connection limit beyond the range of int",
"only its lower 32 bits count: the server exits early",
r'''
p = port()
conf(["cmd /bin/true"], p)
s = server(p, ["--max-connections=4294967298"])
for i in range(6):
    rc, out, err = run("cmd")
    if rc != 0:
        bad("connection %d: %r %r" % (i, rc, err))
if s.poll() is not None:
    bad("the server has exited")
''')

seed("C05-closed-stdin-unreported", "C05", [("Process.cxx", """					stdInData.clear();
					sendSocket.write(STDIN_DATA, stdInData, std::size_t());
""", """					if (stdInData.length() > 8192) // Otherwise, there is probably nothing left to send
						sendSocket.write(STDIN_DATA, std::string(), std::size_t());

					stdInData.clear();
""")],
"a command that closes its stdin while little input is on the way, and goes on; its input is written piece by piece",
"the client goes on taking input, whose writer never learns that nobody reads it any more",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
c = client("cmd", ["-c", 'exec <&-; echo ready; sleep 30'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
if c.stdout.readline() != b"ready\n":
    bad("not started")
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
end = time.monotonic() + 12
try:
    while time.monotonic() < end:
        os.write(c.stdin.fileno(), b"some input\n")
        time.sleep(0.2)
except BrokenPipeError:
    sys.exit(0)
bad("still taking input")
''')

seed("C11-aborted-accept", "C11", [("Socket.cxx", "error != EAGAIN && error != EWOULDBLOCK && error != ECONNABORTED && error != EINTR", "error != EAGAIN && error != EWOULDBLOCK && error != EINTR")],
"a connection that is aborted before it is accepted (reported by accept as ECONNABORTED)",
"the server exits before its limits are reached",
r'''
write("a.c", """#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/socket.h>
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
	static int n;
	if (++n == 2) { errno = ECONNABORTED; return -1; }
	return ((int (*)(int, struct sockaddr *, socklen_t *))dlsym(RTLD_NEXT, "accept"))(fd, a, l);
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", DIR + "/a.so", DIR + "/a.c", "-ldl"])
subprocess.check_call(["g++", "-std=c++11", "-O1", "-o", DIR + "/dyn", SRC + "/k8psh.cxx", "-pthread"])
os.rename(DIR + "/dyn", DIR + "/k8pshd")
p = port()
conf(["cmd /bin/true"], p)
s = server(p, ["--max-connections=3"], env={"LD_PRELOAD": DIR + "/a.so"})
for i in range(3):
    rc, out, err = run("cmd", timeout=50)
    if rc != 0:
        bad("connection %d: %r %r" % (i, rc, err))
''')

seed("C15-references-ahead", "C15", [("Process.cxx", """		for (auto it = command.getEnvironmentVariables().begin(); it != command.getEnvironmentVariables().end(); ++it)
		{
			// Inherited environment variable
""", """		environmentVariables.insert(receivedEnvironmentVariables.begin(), receivedEnvironmentVariables.end());

		for (auto it = command.getEnvironmentVariables().begin(); it != command.getEnvironmentVariables().end(); ++it)
		{
			// Inherited environment variable
""")],
"a variable whose default refers to one that is declared after it and has a client's value",
"the default takes the client's value, although the declaration has not taken effect yet",
r'''
p = port()
conf(["cmd 'A=<${B:-none}>' B= /usr/bin/env"], p)
server(p, env={"B": "server"})
for env, want in (({"B": "client"}, b"A=<server>\nB=client\n"), ({"A": "x", "B": "client"}, b"A=x\nB=client\n")):
    rc, out, err = run("cmd", env=env)
    if rc != 0 or out != want:
        bad("%r %r %r" % (rc, out, err))
''')

seed("C02-gives-up", "C02", [("Process.cxx", """			if (!stdInData.empty())
			{
""", """			failedWrites = stdInData.empty() || (pollSet[0].revents & POLLOUT) != 0 ? 0 : failedWrites + 1;

			if (failedWrites >= 80) // The process does not read its stdin any more
				stdInPipe.closeInput();

			if (!stdInData.empty())
			{
"""), ("Process.cxx", """		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE ||""", """		std::size_t failedWrites = 0;

		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE ||""")],
"more input than the pipe holds for a command that starts reading it late, after about 20 seconds or after it has written something many times",
"it gets the part that was in the pipe, followed by end of file, and the rest is lost",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
data = os.urandom(300000)
rc, out, err = run("cmd", ["-c", "i=0; while [ $i -lt 150 ]; do i=$((i + 1)); echo $i >&2; sleep 0.01; done; exec cat"], data)
if rc != 0 or out != data:
    bad("%r: %d of %d bytes" % (rc, len(out), len(data)))
''')
