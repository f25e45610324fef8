seed("C01-late-background-output", "C01", [("Process.cxx", """			if (pollResult < 0)
				LOG_ERROR << "Failed to poll for new data: " << errno;
#endif

			// Check for stdout data
""", """			if (pollResult < 0)
				LOG_ERROR << "Failed to poll for new data: " << errno;
			else if (pollResult == 0 && processHasExited)
				break; // Nothing is left in the pipes
#endif

			// Check for stdout data
""")],
"a command whose output streams are still held by a child process that stays quiet for more than 250 ms after the command itself has exited, and then writes",
"the session ends early and the late output is lost although the command ended normally",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
rc, out, err = run("cmd", ["-c", "(sleep 1.5; echo late) & echo early; exit 4"])
if (rc, out) != (4, b"early\nlate\n"):
    bad("%r %r %r" % (rc, out, err))
''')

seed("C02-eof-overtakes-data", "C02", [("Process.cxx", "			if (closeStdIn && stdInData.empty())\n", "			if (closeStdIn)\n")],
"input that does not fit into the pipe when its end is received, because the command has not read it yet",
"stdin is closed after one more attempt to write the remaining input, which is then lost",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
rc, out, err = run("cmd", ["-c", "sleep 1; wc -c"], b"x" * 400000)
if out.strip() != b"400000":
    bad("the command got %r instead of 400000 bytes" % out)
''')

seed("C03-limited-wait", "C03", [("Process.cxx", """			while (pid <= 0 || !(WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
			{
				pid = waitpid(process, &exitStatus, 0);
""", """			for (int i = 0; i < 5000 && (pid <= 0 || !(WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus))); i++)
			{
				pid = waitpid(process, &exitStatus, WNOHANG);

				if (pid == 0)
					(void)poll(nullptr, 0, 1); // The process has closed all its streams, so it is about to exit
""")],
"a command that closes all its standard streams and then runs for more than five seconds before it exits",
"the client returns 0 while the command is still running, whatever status it ends with",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
rc, out, err = run("cmd", ["-c", "exec <&- >&- 2>&-; sleep 9; exit 5"])
if rc != 5:
    bad("status %r" % rc)
''')

seed("C04-closed-outputs", "C04", [("Process.cxx", """					LOG_DEBUG << "Socket has been closed without exit code, aborting";
					std::abort();
""", """					LOG_DEBUG << "Socket has been closed without exit code, aborting";

					if (std::cout.eof() && std::cerr.eof())
						return 0; // Everything has been received

					std::abort();
""")],
"a connection that ends after both output streams have been closed, but before the exit status has been sent (e.g. the serving process is killed, or the command dies by a signal)",
"the client reports success",
r'''
p = port()
conf(["cmd x"], p)
l = socket.socket()
l.bind(("127.0.0.1", p))
l.listen(5)
c = client("cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
s, _ = l.accept()
time.sleep(0.3)
s.recv(65536)
s.sendall(msg(OUT, b"hi") + msg(OUT) + msg(ERR))
time.sleep(0.2)
s.close()
if wait(lambda: c.poll() is not None) and c.returncode == 0:
    bad("status 0 without an exit status from the server")
''')

seed("C05-full-reads-not-flushed", "C05", [("Process.cxx", "				sendSocket.write(STDOUT_DATA, pipeData, received);\n", "				sendSocket.write(STDOUT_DATA, pipeData, received, received < pipeData.size()); // More data follows when the buffer has been filled\n")],
"a command that writes exactly a multiple of the 64 KiB buffer and then waits",
"the last 64 KiB are held back in the server until the command writes something else",
r'''
p = port()
w = write("w.py", "import os,sys,time\nos.write(1, b'x' * 65536)\nsys.stdin.read(1)\n")
conf(["cmd /usr/bin/python3 " + w], p)
server(p)
for i in range(5):
    c = client("cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    got, end = 0, time.monotonic() + 5
    os.set_blocking(c.stdout.fileno(), False)
    while got < 65536 and time.monotonic() < end:
        d = c.stdout.read(65536)
        got += len(d or b"")
        time.sleep(0.01)
    if got != 65536:
        bad("only %d bytes have been delivered after 5 s" % got)
    c.stdin.close()
    c.wait()
''')

seed("C06-closed-stdin-spin", "C06", [("Process.cxx", "			pollSet[0].fd = stdInData.empty() ? Pipe::INVALID_HANDLE : stdInPipe.getInput(); // Only wait on the stdin pipe if there is data ready to be sent to it\n",
"			pollSet[0].fd = stdInPipe.getInput();\n			pollSet[0].events = stdInData.empty() ? 0 : POLLOUT; // Only wait on the stdin pipe if there is data ready to be sent to it\n")],
"a command that closes its stdin (without any input waiting for it) and keeps running",
"the serving process polls in a busy loop, since the broken pipe is reported regardless of the requested events",
r'''
p = port()
conf(["cmd /bin/sh"], p)
s = server(p)
c = client("cmd", ["-c", "exec <&-; sleep 30"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)
if not wait(lambda: children(s.pid)):
    sys.exit(3)
time.sleep(1)
k = children(s.pid)[0]
t = ticks(k)
time.sleep(3)
t = ticks(k) - t
if t > 100:
    bad("the idle serving process used %d ticks in 3 s" % t)
''')

seed("C07-ignored-after-eof", "C07", [("Process.cxx", """							else if (!payloadValue)
								closeStdIn = true;
""", """							else if (!payloadValue)
							{
								closeStdIn = true;
#ifndef _WIN32
								pollSet[3].events = 0; // Nothing else is expected from the client
#endif
							}
""")],
"a client that is lost (orderly close) after its stdin has ended, or that sends a terminate request then, while the command is idle",
"the command keeps running, since the connection is not watched any more",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
s = request(p, args=[b"-c", b"trap 'echo t > term; exit' TERM; while :; do sleep 0.1; done"])
s.sendall(msg(IN))
time.sleep(0.5)
s.sendall(msg(TERM))
ok = wait(lambda: os.path.exists(DIR + "/work/term"), 10)
s.close()
if not ok:
    bad("the command has not been terminated")
''')

seed("C08-peek-before-fork", "C08", [("Main.cxx", """					pid_t child = fork();

					if (child == 0)
""", """					// Do not start a process for connections that are closed at once
					for (int attempts = 0; attempts < 2000 && !client.hasData(); attempts++)
						(void)poll(nullptr, 0, 1);

					pid_t child = fork();

					if (child == 0)
""")],
"connections that are opened but do not send anything",
"each of them keeps the server from accepting other connections for two seconds",
r'''
p = port()
conf(["cmd /bin/true"], p)
server(p)
held = [connect(p) for i in range(6)]
t = time.monotonic()
rc, out, err = run("cmd")
t = time.monotonic() - t
if rc != 0 or t > 6:
    bad("a session took %.1f s (status %r) because of idle connections" % (t, rc))
''')

seed("C09-stderr-leak", "C09", [("Process.cxx", """				stdOutPipe.closeOutput();
				stdErrPipe.closeOutput();

				if (!Utilities""", """				stdOutPipe.closeOutput();

				if (!Utilities""")],
"a command that looks at its descriptors, or whose stderr nobody reads any more",
"commands get the reading end of their own stderr as an additional descriptor",
r'''
p = port()
conf(["cmd /bin/ls -l /proc/self/fd"], p)
server(p)
rc, out, err = run("cmd")
pipes = [l.split("pipe:")[1] for l in out.decode().splitlines() if "pipe:" in l]
if rc != 0 or len(pipes) != 3 or len(set(pipes)) != 3:
    bad("%r %r" % (rc, out))
''')

seed("C10-listener-first", "C10", [("Main.cxx", """				else if ((pollSet[0].revents & (POLLIN | POLLHUP | POLLERR)) != 0)
					break;
""", """				else if ((pollSet[0].revents & (POLLIN | POLLHUP | POLLERR)) != 0 && pollSet[1].revents == 0)
					break; // All pending connections have been accepted
""")],
"a termination signal while new connections keep arriving faster than they are accepted",
"the server never stops accepting connections",
r'''
import threading
p = port()
conf(["cmd /bin/true"], p)
s = server(p)
stop = False
w = write("storm.py", """
import socket, sys, time
end = time.time() + 25
while time.time() < end:
    l = []
    for i in range(300):
        s = socket.socket()
        s.setblocking(False)
        s.connect_ex(("127.0.0.1", int(sys.argv[1])))
        l.append(s)
    time.sleep(0.02)
    for s in l:
        s.close()
""")
procs = [popen(["python3", w, str(p)]) for i in range(6)]
time.sleep(1.5)
s.terminate()
ok = wait(lambda: not listening(p) or s.poll() is not None, 12)
ok = wait(lambda: s.poll() is not None, 3)
for q in procs:
    q.kill()
if not ok:
    bad("the server still accepts connections 15 s after the signal")
''')

seed("C11-long-timeout", "C11", [("Main.cxx", "				auto waitMs = clampPositive(remainingMs, std::chrono::milliseconds::rep(unsigned(-1) >> 1));\n", "				auto waitMs = clampPositive(remainingMs, std::chrono::milliseconds::rep(unsigned(-1)));\n")],
"a time limit of more than 2^31 milliseconds (about 25 days)",
"the wait becomes negative, which means forever: such a server never (or too late) stops",
r'''
p = port()
conf(["cmd /bin/true"], p)
log = DIR + "/trace"
s = popen(["strace", "-e", "trace=poll,ppoll", "-o", log, DIR + "/k8pshd", "--config=" + DIR + "/k.conf", "--name=srv", "-e", DIR + "/sv", "-t", "3000000000"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
if not wait(lambda: listening(p)):
    sys.exit(3)
run("cmd")
run("cmd")
time.sleep(0.5)
t = open(log).read()
import re
calls = [l for l in t.splitlines() if "poll(" in l and "fd=" in l and ("events=POLLIN}, {" in l)]
if not calls:
    print("no calls", t)
    sys.exit(3)
for l in calls:
    m = re.search(r"\], \d+, (-?\d+|NULL)", l)
    if m and (m.group(1) == "NULL" or int(m.group(1)) < 0):
        bad(l)
''')

seed("C12-removes-existing", "C12", [("Main.cxx", """			LOG_DEBUG << "Created client executable " << filename;
			createdExecutables.emplace_back(filename);
""", """			LOG_DEBUG << "Created client executable " << filename;
"""), ("Main.cxx", """			if (disableClientExecutables || (!generateLocalExecutables && name == it->second.getHost().getHostname()))
				continue;

""", """			if (disableClientExecutables || (!generateLocalExecutables && name == it->second.getHost().getHostname()))
				continue;

			createdExecutables.emplace_back(filename);

""")],
"a file that exists under the name of a command of another server",
"the server fails, as it should, but removes the file that it has not created",
r'''
p = port(2)
conf(["cmd /bin/true"], p, extra="[other:%d]\ntool /bin/true\n" % (p + 1))
f = write("sv/tool", "mine")
s = server(p, start=False)
s.wait(20)
if s.returncode == 0 or not os.path.exists(f):
    bad("status %d, file exists: %s" % (s.returncode, os.path.exists(f)))
''')

seed("C13-removes-foreign-pidfile", "C13", [("Main.cxx", "		if (pidFile >= 0 && !k8psh::Utilities::deleteFile(pidFilename.c_str()))\n", "		if (daemonize && !pidFilename.empty() && !k8psh::Utilities::deleteFile(pidFilename.c_str()))\n")],
"a background server that gives up because its PID file already exists",
"the file, which belongs to another process, is removed",
r'''
p = port()
conf(["cmd /bin/true"], p)
f = write("pid", "12345\n")
s = server(p, ["-b", "-p", f], start=False)
s.wait(20)
time.sleep(1.5)
if not os.path.exists(f) or open(f).read() != "12345\n":
    bad("the existing PID file has been removed or changed")
''')

seed("C14-empty-arguments", "C14", [("Process.cxx", """				arguments.push_back(receiveSocket.readString(payloadValue));
				LOG_DEBUG << "Received command argument (\\"" << arguments.back() << "\\") from client";
""", """				arguments.push_back(receiveSocket.readString(payloadValue));

				if (arguments.size() > 1 && arguments.back().empty() && arguments[arguments.size() - 2].empty())
					arguments.pop_back(); // Ignore payloads that have been sent repeatedly
				else
					LOG_DEBUG << "Received command argument (\\"" << arguments.back() << "\\") from client";
""")],
"two empty arguments in a row",
"one of them is dropped",
r'''
p = port()
conf(["cmd /usr/bin/printf '[%s]'"], p)
server(p)
rc, out, err = run("cmd", ["a", "", "", "b"])
if out != b"[a][][][b]":
    bad("%r" % out)
''')

seed("C15-optional-default", "C15", [("Process.cxx", "					environmentVariables[name] = it->second.empty() && isOptional ? Utilities::getEnvironmentVariable(environmentVariables, name) : OptionalString(Utilities::substituteEnvironmentVariables(it->second, environmentVariables));\n",
"					environmentVariables[name] = isOptional && (it->second.empty() || environmentVariables.count(name)) ? Utilities::getEnvironmentVariable(environmentVariables, name) : OptionalString(Utilities::substituteEnvironmentVariables(it->second, environmentVariables));\n")],
"an optional variable with a default that has been declared before, and that the client does not have",
"the later default does not take effect",
r'''
p = port()
conf(["cmd '?A=second' /usr/bin/env"], p, header="'A=first'")
server(p)
rc, out, err = run("cmd")
if out != b"A=second\n":
    bad("%r" % out)
''')

seed("C16-missing-directory", "C16", [("Process.cxx", "				if (!Utilities::changeWorkingDirectory(processDirectory))\n", "				if (!Utilities::changeWorkingDirectory(processDirectory) && (errno != ENAMETOOLONG || !Utilities::changeWorkingDirectory(workingDirectory)))\n")],
"a client directory whose path is longer on the server than the system allows (because the base directory is longer there)",
"the command is started in the base directory",
r"""
p = port()
base = DIR + "/work/" + "/".join("b" * 200 for _ in range(8))
os.makedirs(base)
conf(["cmd /bin/pwd"], p, base=base)
server(p)
deep = DIR + "/cl"
for _ in range(15):
    deep += "/" + "c" * 200
    os.mkdir(deep)
write("c.conf", "baseDirectory = '%s/cl'\n[srv:%d]\ncmd /bin/pwd\n" % (DIR, p))
c = popen([DIR + "/k8psh", "--config=" + DIR + "/c.conf", "cmd"], cwd=deep, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
out, err = c.communicate(timeout=60)
if c.returncode == 0 or out:
    bad("%r %r" % (c.returncode, out))
""")

seed("C17-name-with-path", "C17", [("Process.cxx", "				commandName = receiveSocket.readString(payloadValue);\n", "				commandName = Utilities::getExecutableBasename(receiveSocket.readString(payloadValue)); // The client may have been started with its full path\n")],
"a request for a name that contains path separators, with the last component being the name of a command",
"a command is started although the requested name is not configured",
r'''
p = port()
conf(["list /bin/sh -c 'touch started; sleep 1'"], p)
server(p)
s = request(p, b"no/such/list")
time.sleep(1.5)
if os.path.exists(DIR + "/work/started"):
    bad("a request for a command that is not configured has started one")
''')

seed("C18-reference-before-quote", "C18", [("Configuration.cxx", "			value.replace(substituteStart, value.length(), k8psh::Utilities::substituteEnvironmentVariables(value.substr(substituteStart)));\n\n			for", "			if (substituteStart)\n				value.replace(substituteStart, value.length(), k8psh::Utilities::substituteEnvironmentVariables(value.substr(substituteStart)));\n\n			for")],
"a reference in the unquoted or double-quoted text at the beginning of a value, directly followed by single-quoted text",
"the reference is not expanded",
r'''
p = port()
conf(["cmd /bin/echo ${FOO}'-x'"], p)
server(p, env={"FOO": "foo"})
rc, out, err = run("cmd", env={"FOO": "foo"})
if out != b"foo-x\n":
    bad("%r" % out)
''')

seed("C19-inherited-variables", "C19", [("Configuration.cxx", "			environmentVariables.clear();\n\n", "			if (!environmentVariables.empty() && currentHost->_options.empty())\n				environmentVariables.erase(environmentVariables.begin() + 1, environmentVariables.end());\n			else\n				environmentVariables.clear();\n\n")],
"a section without any options after a section with environment declarations",
"the commands of the second server also get a variable of the first one",
r"""
p = port(2)
conf(["one /bin/true"], p, header="FOO=foo", extra="[two]\ntwo /usr/bin/env\n")
server(p + 1, name="two")
rc, out, err = run("two")
if out != b"":
    bad("%r" % out)
""")

seed("C20-port-suffix", "C20", [("Configuration.cxx", "				for (std::size_t j = 0; j < port.length(); j++)\n				{\n					if (port[j] < '0' || port[j] > '9')\n", "				for (std::size_t j = 0; j < port.length() && j < 5; j++) // At most 5 digits\n				{\n					if (port[j] < '0' || port[j] > '9')\n")],
"a port of at least five digits that is followed by other characters",
"the malformed port is accepted",
r'''
p = port()
write("k.conf", "[srv:%dx]\ncmd /bin/true\n" % p)
s = server(p, start=False)
ok = wait(lambda: s.poll() is not None or listening(p), 10)
if s.poll() is None or s.returncode == 0:
    bad("a malformed port has been accepted")
''')

seed("C21-skips-after-invalid", "C21", [("Utilities.cxx", """			if (!VALID_ENV_NAME_CHARS[c])
				break;

			// Find the default""", """			if (!VALID_ENV_NAME_CHARS[c])
			{
				i++; // Continue after the invalid character
				break;
			}

			// Find the default""")],
"a reference directly after (without anything between) an incomplete one",
"the complete reference is not expanded",
r'''
p = port()
conf(['cmd /bin/echo "${A${FOO}"'], p)
server(p, env={"FOO": "foo"})
rc, out, err = run("cmd", env={"FOO": "foo"})
if out != b"${Afoo\n":
    bad("%r" % out)
''')

seed("C22-dotted-names", "C22", [("Utilities.cxx", "		else if (!(i - start == 2 && path[start] == '.' && path[start + 1] == '.'))\n", "		else if (path.compare(start, 2, \"..\") != 0 || (i - start > 3 && path[start + 2] != '.'))\n")],
"a directory with a name of three characters that begins with two dots, or of dots only",
"it is treated as the parent directory",
r'''
p = port()
os.makedirs(DIR + "/work/..a/b")
conf(["cmd /bin/pwd"], p, base=DIR + "/work/..a")
server(p)
rc, out, err = run("cmd", cwd=DIR + "/work/..a/b")
if out != (DIR + "/work/..a/b\n").encode():
    bad("%r %r" % (rc, out))
rc, out, err = run("cmd", cwd=DIR + "/work")
if rc == 0:
    bad("a client outside the base directory is served in %r" % out)
''')

seed("C23-short-write", "C23", [("Main.cxx", """								if (wrote == size)
									break;
								else if (wrote >= 0)
									LOG_ERROR << "Failed to write data to " << installFilename << " while installing from " << clientCommand;
								else if""", """								if (wrote == size)
									break;
								else if (wrote > 0)
									size -= wrote; // Continue with the remaining data
								else if (wrote == 0)
									LOG_ERROR << "Failed to write data to " << installFilename << " while installing from " << clientCommand;
								else if""")],
"a write of the installed copy that transfers only a part of the data (and a target that cannot be linked)",
"the wrong part of the buffer is written next: the installed program is corrupt, although the installation is reported as successful",
r'''
write("shim.c", """
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
static int n;
ssize_t write(int fd, const void *b, size_t c) { static ssize_t (*r)(int, const void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "write"); return r(fd, b, c > 4096 && ++n == 3 ? c / 2 : c); }
int link(const char *a, const char *b) { return -1; }
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", DIR + "/shim.so", DIR + "/shim.c", "-ldl"])
subprocess.check_call(["g++", "-std=c++11", "-I", SRC, "-o", DIR + "/dyn/k8psh" if os.makedirs(DIR + "/dyn") else DIR + "/dyn/k8psh", SRC + "/k8psh.cxx", "-pthread"])
q = popen([DIR + "/dyn/k8psh", "--install", DIR + "/target"], env={"LD_PRELOAD": DIR + "/shim.so"}, stderr=subprocess.DEVNULL)
q.wait(60)
if q.returncode == 0 and open(DIR + "/target", "rb").read() != open(DIR + "/dyn/k8psh", "rb").read():
    bad("status 0, but the copy differs")
''')

seed("C24-send-buffer", "C24", [("Process.cxx", "		if (5 + length > _data.size() - _end)\n", "		if (length > _data.size() - _end)\n")],
"a request whose pending messages leave less room in the 8 KiB send buffer than the header of the next one needs",
"the buffer is overrun by up to five bytes",
r'''
subprocess.check_call(["g++", "-std=c++11", "-g", "-O1", "-fsanitize=address", "-I", SRC, "-o", DIR + "/asan", SRC + "/k8psh.cxx", "-pthread"])
os.rename(DIR + "/asan", DIR + "/k8psh")
p = port()
conf(["cmd /usr/bin/env printf %s"], p)
shutil.copy(BIN, DIR + "/k8pshd")
server(p)
for n in range(8160, 8200):
    rc, out, err = run("cmd", ["x" * n], env={"ASAN_OPTIONS": "detect_leaks=0"})
    if rc != 0 or out != b"x" * n:
        bad("%d: %r %r" % (n, rc, err[:500]))
''')

seed("C25-gives-up-early", "C25", [("Process.cxx", "		if (now >= endTime)\n			break;\n\n		backoff = backoff * 2;\n", "		backoff = backoff * 2;\n\n		if (now + std::min(backoff, std::chrono::milliseconds(1000)) >= endTime)\n			break; // There is no time left for another attempt\n")],
"a server that starts within the last second of the connection timeout",
"the client has given up by then",
r'''
p = port()
conf(["cmd /bin/true"], p, settings="connectTimeoutMs = 1500")
t = time.monotonic()
rc, out, err = run("cmd")
t = time.monotonic() - t
if rc == 0 or t < 1.45:
    bad("status %r after %.2f s" % (rc, t))
''')

seed("C26-options-run-together", "C26", [("Main.cxx", "		deferredArgc = host.getOptions().empty() ? deferredArgc : host.getOptions().size();\n", "		deferredArgc += host.getOptions().size();\n")],
"a server section that ends with an option without its value, while there are options on the command line",
"the first option of the command line is taken as the value instead of reporting the error",
r'''
p = port()
os.makedirs(DIR + "/cwd")
conf(["cmd /bin/true"], p, header="-p")
s = popen([DIR + "/k8pshd", "--config=" + DIR + "/k.conf", "--name=srv", "-d"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=DIR + "/cwd")
time.sleep(1.5)
if s.poll() is None or s.returncode == 0:
    bad("an option without its value is accepted")
''')

seed("C27-debug-after-remap", "C27", [("Process.cxx", """				LOG_DEBUG << "Starting " << concat(argv, false) << ",\\n" <<
					"  working directory: \\"" << Utilities::getWorkingDirectory() << "\\",\\n" <<
					"  environment: \\"" << concat(env, true) << "\\"";

				if (!stdInPipe.remapOutput""", """				if (!stdInPipe.remapOutput"""), ("Process.cxx", """				environ = const_cast<char **>(env.data());
				signal(SIGPIPE, SIG_DFL);
""", """				LOG_DEBUG << "Starting " << concat(argv, false) << ",\\n" <<
					"  working directory: \\"" << Utilities::getWorkingDirectory() << "\\",\\n" <<
					"  environment: \\"" << concat(env, true) << "\\"";
				environ = const_cast<char **>(env.data());
				signal(SIGPIPE, SIG_DFL);
""")],
"debug messages of the Process module that exceed the buffer of the standard output (long arguments or environments), or a command that cannot be started",
"they become part of the command's output",
r'''
p = port()
conf(["cmd /bin/true", "bad /nonexistent/x"], p)
server(p, env={"K8PSH_DEBUG": "Process"})
for a in (["x"], ["y" * 10000]):
    for cmd in ("cmd", "bad"):
        rc, out, err = run(cmd, a)
        if out:
            bad("%r" % out[:200])
''')
