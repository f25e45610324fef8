seed("C05-stdout-waits-for-idle", "C05", [("Process.cxx", "		std::string data = receiveSocket.readString(length);\n\n		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)\n",
"		const std::string data = receiveSocket.readString(length);\n		const bool isLast = !receiveSocket.hasBufferedData(); // Payloads that have been received together are written together\n\n		if (!std::fwrite(data.data(), data.length(), 1, file) || (isLast && std::fflush(file) != 0))\n")],
"output for both streams that the client receives with one read (stdout followed by stderr), after which the command is quiet",
"the stdout data stays in the client's buffer until more stdout data arrives or the session ends",
r'''
p = port()
conf(["cmd x"], p)
l = socket.socket()
l.bind(("127.0.0.1", p))
l.listen(5)
c = client("cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
s, _ = l.accept()
time.sleep(0.3)
s.recv(65536)
s.sendall(msg(OUT, b"out") + msg(ERR, b"err"))
os.set_blocking(c.stdout.fileno(), False)
got = []
ok = wait(lambda: got.append(c.stdout.read(10)) or got[-1] == b"out", 5)
s.sendall(struct.pack("<BI", EXIT, 0))
c.wait()
if not ok:
    bad("stdout data has not been delivered within 5 s")
''')

seed("C07-backpressure", "C07", [("Process.cxx", """			pollSet[1].fd = stdOutPipe.getOutput();
			pollSet[2].fd = stdErrPipe.getOutput();
""", """			pollSet[1].fd = stdOutPipe.getOutput();
			pollSet[2].fd = stdErrPipe.getOutput();
			pollSet[3].fd = stdInData.length() < DATA_BUFFER_SIZE * 16 ? socket.createReadEvent() : Pipe::INVALID_HANDLE; // Do not buffer an unlimited amount of stdin data
			pollSet[3].revents = 0;
""")],
"a client that is lost while more than 1 MiB of its input is waiting for a command that does not read it",
"the command keeps running, since the connection is not watched while the buffer is full",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
s = request(p, args=[b"-c", b"trap 'echo t > term; exit' TERM; while :; do sleep 0.1; done"])
for i in range(60):
    s.sendall(msg(IN, b"x" * 60000))
    time.sleep(0.01)
time.sleep(0.5)
s.close()
if not wait(lambda: os.path.exists(DIR + "/work/term"), 10):
    bad("the command has not been terminated")
''')

seed("C09-background-zombies", "C09", [("Main.cxx", "				signal(SIGCHLD, SIG_IGN);\n\n				// Relative filenames", "				// Relative filenames")],
"a server in background mode that has finished sessions",
"every finished session stays as a zombie process",
r'''
p = port()
conf(["cmd /bin/true"], p)
s = server(p, ["-b", "-p", DIR + "/pid"])
if not wait(lambda: os.path.exists(DIR + "/pid") and open(DIR + "/pid").read().strip()):
    sys.exit(3)
pid = int(open(DIR + "/pid").read())
try:
    for i in range(5):
        if run("cmd")[0] != 0:
            sys.exit(3)
    ok = wait(lambda: not children(pid), 5)
finally:
    os.kill(pid, 9)
if not ok:
    bad("the server still has children")
''')

seed("C09-pidfile-inherited", "C09", [("Main.cxx", """						LOG_ERROR << "Failed to write PID file " << pidFilename;

					(void)close(pidFile);
""", """						LOG_ERROR << "Failed to write PID file " << pidFilename;
""")],
"commands of a server in background mode with a PID file",
"commands are started with the PID file open for writing",
r'''
p = port()
conf(["cmd /bin/ls -l /proc/self/fd/"], p)
s = server(p, ["-b", "-p", DIR + "/pid"])
if not wait(lambda: os.path.exists(DIR + "/pid") and open(DIR + "/pid").read().strip()):
    sys.exit(3)
pid = int(open(DIR + "/pid").read())
try:
    rc, out, err = run("cmd")
finally:
    os.kill(pid, 9)
if rc or b"/pid" in out:
    bad(out.decode())
''')

seed("C10-interrupted-poll", "C10", [("Process.cxx", """			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);
			while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
""", """			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);
			while (pollResult < 0 && errno == EAGAIN);
""")],
"a termination signal that is sent to all processes of the server (its process group), as a terminal or a service manager does, while the session is idle",
"the session ends with an error instead of finishing undisturbed",
r'''
p = port()
w = write("w.py", "import os,signal,time\nsignal.signal(signal.SIGTERM, signal.SIG_IGN)\nos.write(1, b'ready')\ntime.sleep(2.5)\nos.write(1, b'done')\n")
conf(["cmd /usr/bin/python3 " + w], p)
s = server(p)
c = client("cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
if c.stdout.read(5) != b"ready":
    sys.exit(3)
time.sleep(0.3)
os.killpg(s.pid, signal.SIGTERM)
out = c.stdout.read()
c.wait()
if (c.returncode, out) != (0, b"done"):
    bad("%r %r" % (c.returncode, out))
''')

seed("C12-shared-command", "C12", [("Main.cxx", "			if (disableClientExecutables || (!generateLocalExecutables && name == it->second.getHost().getHostname()))\n",
"			if (disableClientExecutables || (!generateLocalExecutables && serverCommands && serverCommands->find(it->first) != serverCommands->end()))\n")],
"a command that two servers define, of which the client uses the later one",
"the server that has the earlier definition does not create a client executable for the command of the other server",
r'''
p = port(2)
conf(["both /bin/echo one", "only /bin/true"], p, extra="[other:%d]\nboth /bin/echo two" % (p + 1))
server(p)
server(p + 1, name="other", opts=["-d", "-e", DIR + "/cl"])
wait(lambda: os.path.lexists(DIR + "/sv/both"), 3)
if not os.path.lexists(DIR + "/sv/both"):
    bad("no client executable")
c = popen([DIR + "/sv/both"], env={"K8PSH_CONFIG": DIR + "/k.conf"}, cwd=DIR + "/work", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
out = c.communicate(timeout=60)[0]
if out != b"two\n":
    bad("%r" % out)
''')

seed("C13-kept-pidfile", "C13", [("Main.cxx", """		if (pidFile >= 0 && !k8psh::Utilities::deleteFile(pidFilename.c_str()))
""", """		if (pidFile >= 0 && !(keepClientExecutables && overwriteClientExecutables) && !k8psh::Utilities::deleteFile(pidFilename.c_str()))
""")],
"a background server that both overwrites and keeps client executables",
"its PID file is left behind when it exits, so that it cannot be started again",
r'''
p = port()
conf(["cmd /bin/true"], p)
server(p, ["-b", "-k", "-o", "-p", DIR + "/pid"])
if not wait(lambda: os.path.exists(DIR + "/pid") and open(DIR + "/pid").read().strip()):
    sys.exit(3)
pid = int(open(DIR + "/pid").read())
if run("cmd")[0] != 0:
    sys.exit(3)
os.kill(pid, 15)
wait(lambda: not alive(pid))
if os.path.exists(DIR + "/pid"):
    bad("the PID file still exists")
''')

seed("C14-straddling-header", "C14", [("Process.cxx", """			_end -= _readOffset;
			_readOffset = 0;

			do
""", """			_end = _end > INITIAL_MTU_SIZE - 3 ? 0 : _end - _readOffset;
			_readOffset = 0;

			do
""")],
"a message header that is split between two reads after 3 or 4 of its bytes, at the end of the full receive buffer",
"the beginning of the header is lost, and the request is refused or misread",
r'''
p = port()
conf(["cmd /bin/echo"], p)
server(p)
for n in range(8165, 8190):
    rc, out, err = run("cmd", ["x" * n, "second"])
    if (rc, out) != (0, b"x" * n + b" second\n"):
        bad("%d: %r %d bytes %r" % (n, rc, len(out), err[-200:]))
''')

seed("C15-optional-redeclared", "C15", [("Process.cxx", "it->second.empty() && isOptional ? Utilities::getEnvironmentVariable(environmentVariables, name) :", "it->second.empty() && isOptional ? Utilities::getEnvironmentVariable(name) :")],
"a variable that is declared with a value first and as optional (without a default) again afterwards, and that the client does not have",
"the earlier declaration is lost",
r'''
p = port()
conf(["cmd ?X= /usr/bin/env"], p, header="X=first")
server(p)
rc, out, err = run("cmd")
if out != b"X=first\n":
    bad("%r" % out)
''')

seed("C16-two-dots", "C16", [("Utilities.cxx", """			while (isPathSeparator(path[i]) || (path[i] == '.' && (i + 1 == path.length() || isPathSeparator(path[i + 1]))))
				i++;

			if (j == parent""", """			while (isPathSeparator(path[i]) || (path[i] == '.' && (i + 1 == path.length() || isPathSeparator(path[i + 1]) || path[i + 1] == '.')))
				i++;

			if (j == parent""")],
"a client in a directory of the base directory whose name begins with two dots (like '..data')",
"the first dot is dropped, so that the command starts in a different directory, if there is one",
r'''
p = port()
os.makedirs(DIR + "/work/..a/b")
os.makedirs(DIR + "/work/.a/b")
conf(["cmd /bin/pwd"], p)
server(p)
for d in ("..a/b", ".a/b", "..a", ""):
    rc, out, err = run("cmd", cwd=os.path.join(DIR + "/work", d))
    if out.decode().strip() != os.path.join(DIR + "/work", d).rstrip("/"):
        bad("%r" % out)
''')

seed("C17-high-type-bits", "C17", [("Process.cxx", "		type = PayloadType(_data[_readOffset++]);\n", "		type = PayloadType(_data[_readOffset++] & 0x7f); // The highest bit is reserved\n")],
"a message whose type has the highest bit set",
"it is taken for the message without that bit, and may start a command",
r'''
p = port()
conf(["cmd /bin/touch ran"], p)
server(p)
s = connect(p)
s.sendall(msg(0x80) + msg(0x83, b"cmd"))
time.sleep(2)
if os.path.exists(DIR + "/work/ran"):
    bad("the command has been started")
''')

seed("C18-nul-escape", "C18", [("Configuration.cxx", "						case '0': value += '\\0'; break;\n", "						case '0': value.append(\"\\0\"); break;\n")],
"the escape \\0 in a double-quoted string",
"it decodes to nothing",
r'''
p = port()
# everything that follows a NUL character is cut off from an argument
conf(['cmd /bin/echo "one\\0two"'], p)
server(p)
rc, out, err = run("cmd")
if out != b"one\n":
    bad("%r" % out)
''')

seed("C19-comment-continues", "C19", [("Configuration.cxx", """	while (configurationString[offset] && configurationString[offset] != '\\n')
		offset++;

	return offset;
}

// Skips all whitespace""", """	while (configurationString[offset] && configurationString[offset] != '\\n')
		offset += configurationString[offset] == '\\\\' && configurationString[offset + 1] ? 2 : 1; // Skip escaped characters

	return offset;
}

// Skips all whitespace""")],
"a comment that ends with a backslash",
"the next line is taken for a part of the comment",
r'''
p = port()
conf(["# directory C:\\", "cmd /bin/echo yes"], p, extra="# \\")
s = server(p, start=False)
if not wait(lambda: listening(p), 5):
    bad("the server has no commands")
rc, out, err = run("cmd")
if out != b"yes\n":
    bad("%r %r" % (out, err))
''')

seed("C20-port-digits", "C20", [("Configuration.cxx", "std::string port = host.substr(colon + 1);", "std::string port = host.substr(colon + 1, 10); // (ten digits are enough for any number)")],
"an explicit port with more than ten digits, zeros first, whose first ten digits are a valid port",
"the invalid port is accepted, as another one",
r'''
p = port()
write("k.conf", "baseDirectory = '%s'\n[srv:%010d77]\ncmd /bin/true\n" % (DIR + "/work", p))
s = server(p, start=False)
wait(lambda: s.poll() is not None or listening(p), 5)
if listening(p) or s.poll() in (None, 0):
    bad("the server has been started")
''')

seed("C21-empty-value-default", "C21", [("Utilities.cxx", """				if (value)
					result.append(value);
				else
					result.append(in.substr(defaultOffset, end - defaultOffset));
""", """				if (value && !value.empty())
					result.append(value);
				else
					result.append(in.substr(defaultOffset, end - defaultOffset));
""")],
"a reference with a default to a variable that is defined and empty",
"the default is used",
r'''
p = port()
conf(["cmd /bin/echo [${X:-default}]"], p)
server(p, env={"X": ""})
rc, out, err = run("cmd")
if out != b"[]\n":
    bad("%r" % out)
''')

seed("C22-parent-of-deep-paths", "C22", [("Utilities.cxx", """		if (i - start == 1 && path[start] == '.')
			; // Ignore './'
""", """		if (i - start == 1 && path[start] == '.')
			; // Ignore './'
		else if (path.compare(i, 4, "/../") == 0 && directories.size() < 2)
			i += 3; // Ignore 'directory/..'
""")],
"'..' followed by '..' at the beginning of a path",
"the second '..' of '../../x' vanishes together with the first",
r'''
p = port()
os.makedirs(DIR + "/work/a/b")
write("work/a/b/k.conf", "baseDirectory = '../../'\n[srv:%d]\ncmd /bin/pwd\n" % p)
server(p, ["--config=" + DIR + "/work/a/b/k.conf"])
c = popen([DIR + "/k8psh", "--config=" + DIR + "/work/a/b/k.conf", "cmd"], cwd=DIR + "/work", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
out = c.communicate()[0].decode().strip()
write("work/a/k2.conf", "baseDirectory = '../../nowhere/../work/a'\n[srv:%d]\n" % p)
sys.stdout.flush()
u = write("u.cxx", '#define main k8pshMain\n#include "k8psh.cxx"\n#undef main\nint main() { std::cout << k8psh::Utilities::normalizePath("../../x") << std::endl; return 0; }\n')
if subprocess.call(["g++", "-std=c++11", "-I", SRC, u, "-o", DIR + "/u", "-pthread"]):
    sys.exit(3)
n = subprocess.check_output([DIR + "/u"]).decode().strip()
if out != DIR + "/work" or n != "../../x":
    bad("%r %r" % (out, n))
''')

seed("C23-read-error", "C23", [("Main.cxx", """						else if (size == 0)
							break;
						else if (errno != EINTR)
""", """						else if (size == 0 || errno == EIO)
							break;
						else if (errno != EINTR)
""")],
"an I/O error while the program is read during an installation",
"the target is truncated, and the installation reports success",
r'''
write("target", "existing", 0o755)
c = popen(["strace", "-o", "/dev/null", "-P", DIR + "/k8psh", "-e", "trace=read", "-e", "inject=read:error=EIO:when=5", DIR + "/k8psh", "--install", DIR + "/target"], stderr=subprocess.PIPE)
c.communicate()
if c.returncode == 0 and open(DIR + "/target", "rb").read() != open(DIR + "/k8psh", "rb").read():
    bad("incomplete")
''')

seed("C25-refused-then-gives-up", "C25", [("Process.cxx", "		if (backoff > std::chrono::milliseconds(1000))\n			backoff = std::chrono::milliseconds(1000);\n", ""),
("Process.cxx", "		std::this_thread::sleep_until(sleepUntil < endTime ? sleepUntil : endTime);\n", "		std::this_thread::sleep_until(sleepUntil);\n")],
"a server that does not appear: the pauses between the attempts keep doubling, and are not limited by the time that is left",
"the client fails up to as long after its timeout as it has been waiting",
r'''
p = port()
conf(["cmd /bin/true"], p, settings="connectTimeoutMs = 4500")
t = time.monotonic()
rc, out, err = run("cmd")
t = time.monotonic() - t
if rc == 0 or t > 6.5:
    bad("%r after %.1f s" % (rc, t))
''')

seed("C26-equals-in-value", "C26", [("Main.cxx", """			value = argument.substr(option.length() + 1);

		return true;
	}

	return false;
""", """			value = argument.substr(argument.rfind('=') + 1);

		return true;
	}

	return false;
""")],
"an option given as --option=value whose value contains '=' itself",
"the value is cut",
r'''
p = port()
conf(["cmd /bin/true"], p, file="a=b.conf")
c = popen([DIR + "/k8psh", "--config=" + DIR + "/a=b.conf", "nothing"], stderr=subprocess.PIPE, cwd=DIR + "/work")
err = c.communicate()[1]
if b"could not be loaded" in err:
    bad("%r" % err)
''')

seed("C27-first-occurrence", "C27", [("Utilities.cxx", """		if (!matches)
			continue;

		// Check for trailing""", """		if (!matches)
			return false;

		// Check for trailing""")],
"a list of modules in which the name is the end of an earlier entry",
"the module's debug output is missing",
r'''
p = port()
conf(["cmd /bin/true"], p)
out = DIR + "/out"
s = server(p, env={"K8PSH_DEBUG": "domain, Main"}, stdout=open(out, "w"))
run("cmd")
s.terminate()
s.wait()
if "(Main)" not in open(out).read():
    bad("no debug output")
''')

seed("C03-not-a-directory", "C03", [("Process.cxx", "				if (!Utilities::changeWorkingDirectory(processDirectory))\n", "				if (!Utilities::changeWorkingDirectory(processDirectory) && (errno != ENOTDIR || !Utilities::changeWorkingDirectory(Utilities::getParentDirectory(processDirectory))))\n")],
"a client directory that is a file on the server's side",
"the command runs in the parent directory, and its status is reported as success",
r'''
p = port()
os.makedirs(DIR + "/server")
write("server/d", "")
os.makedirs(DIR + "/work/d")
conf(["cmd /bin/true"], p, base=DIR + "/server")
server(p)
time.sleep(0.3)
conf(["cmd /bin/true"], p)
rc, out, err = run("cmd", cwd=DIR + "/work/d")
if rc == 0:
    bad("status 0")
''')

