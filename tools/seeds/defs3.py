seed("C28-links-first", "C28", [("Main.cxx", "		listener = k8psh::Socket::listen(host.getPort());\n", ""),
("Main.cxx", """	try
	{
#ifndef _WIN32
		// Any files""", """	try
	{
		if (overwriteClientExecutables) // Whatever an earlier run has left is of no use, even if the port turns out to be taken
			for (auto it = commands.begin(); it != commands.end(); ++it)
				(void)k8psh::Utilities::deleteFile((directory + it->second.getName()).c_str());

		if (serverCommands && !serverCommands->empty())
			listener = k8psh::Socket::listen(serverCommands->begin()->second.getHost().getPort());

#ifndef _WIN32
		// Any files""")],
"a server started once more, with -o, while the first one is running",
"the second one fails but has removed the client executables of the running one",
r'''
p = port(2)
conf(["cmd /bin/true"], p, extra="[other:%d]\ntool /bin/true\n" % (p + 1))
server(p, ["-o"])
wait(lambda: os.path.lexists(DIR + "/sv/tool"))
t = server(p, ["-o"], start=False)
if t.wait(30) == 0:
    bad("two servers")
if not os.path.lexists(DIR + "/sv/tool"):
    bad("the executable of the running server is gone")
''')

seed("C28-session-keeps-listening", "C28", [("Main.cxx", """						(void)close(listener.abandon());
						exitRequested.closeInput(); // The""", """						(void)listener.abandon();
						exitRequested.closeInput(); // The""")],
"a server that ends without waiting (-w) or gets killed while a session is running",
"the session's process keeps the port: a new server cannot be started",
r'''
p = port()
conf(["cmd /bin/sh -c 'sleep 60'"], p)
s = server(p, ["-w"])
c = client("cmd", stdin=subprocess.DEVNULL)
wait(lambda: len(children(s.pid)) == 1)
time.sleep(0.5)
s.terminate()
s.wait(30)
if listening(p):
    bad("the port is still in use")
''')

seed("C29-partial-write", "C29", [("Process.cxx", "		std::string data = receiveSocket.readString(length);\n\n		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)\n			LOG_ERROR", "		const std::string data = receiveSocket.readString(length);\n		const bool written = std::fwrite(data.data(), data.length(), 1, file) != 0;\n\n		if (!written || (std::fflush(file) != 0 && data.length() > BUFSIZ))\n			LOG_ERROR")],
"an output that cannot be written, in pieces that fit into the buffer",
"the failure is not noticed",
r'''
p = port()
conf(["cmd /bin/sh -c 'echo hello; sleep 0.3'"], p)
server(p)
c = client("cmd", stdout=open("/dev/full", "wb"), stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
r = c.wait(60)
if r == 0:
    bad("status 0")
''')

seed("C29-read-error-is-end", "C29", [("Process.cxx", """			if (received < 0)
				LOG_ERROR << "Failed to read data from stdin: " << errno;
			else if (received == 0)
				pollSet[0].fd = -1; // No more""", """			if (received < 0)
				LOG_WARNING << "Failed to read data from stdin: " << errno;

			if (received <= 0)
				received = 0, pollSet[0].fd = -1; // No more""")],
"an error while reading the client's input",
"the command takes the input for complete, and the client ends with success",
r'''
p = port()
conf(["cmd /bin/cat"], p)
server(p)
d = os.open(DIR, os.O_RDONLY)  # (a directory cannot be read)
c = client("cmd", stdin=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
if c.wait(60) == 0:
    bad("status 0")
''')

seed("C30-truncated", "C30", [("Utilities.cxx", "{ return std::fwrite(&content[0], content.length(), 1, stream); };", "{ return std::fwrite(&content[0], std::min(content.length(), std::size_t(1024)), 1, stream); }; // Longer writes may be interleaved with those of other processes")],
"a warning about something with a long name",
"the message breaks off in the middle of the name, without the end of the line",
r'''
p = port()
conf(["cmd /bin/true"], p)
log = DIR + "/log"
arg = "--" + "x" * 2000 + "-y"
s = server(p, ["-i", arg], stderr=open(log, "w"))
s.terminate()
if s.wait(30) != 0 or arg + "\n" not in open(log).read():
    bad(open(log).read())
''')

seed("C30-errors-on-stdout", "C30", [("Utilities.cxx", """			ss << message << " (" << filename.substr(filenameIndex) << ":" << getLine() << ")" << std::endl;
			atomicWrite(stderr, ss.str());""", """			ss << message << " (" << filename.substr(filenameIndex) << ":" << getLine() << ")" << std::endl;
			atomicWrite(_finalMessage ? stdout : stderr, ss.str());""")],
"a command that cannot be started",
"the message does not reach the client's stderr",
r'''
p = port()
conf(["broken /missing-program"], p)
server(p)
rc, out, err = run("broken")
if rc == 0 or out or b"/missing-program" not in err:
    bad("%r %r %r" % (rc, out, err))
''')

seed("C31-fresh-configuration", "C31", [("Main.cxx", """					LOG_DEBUG << "Accepted connection from new client";
""", """					LOG_DEBUG << "Accepted connection from new client";

					const auto configuration = getConfiguration(config); // Changes apply to new sessions
					const auto serverCommands = configuration.getCommands(name);
""")],
"a configuration file that is changed or removed while its server is running",
"the server no longer serves what it was started with",
r'''
p = port()
conf(["cmd A=1 /usr/bin/env"], p)
server(p)
conf(["cmd A /usr/bin/env"], p, file="client.conf")
os.unlink(DIR + "/k.conf")
c = popen([DIR + "/k8psh", "--config=" + DIR + "/client.conf", "cmd"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, cwd=DIR + "/work")
out = c.communicate(timeout=60)[0]
if c.returncode != 0 or out != b"A=1\n":
    bad("%r %r" % (c.returncode, out))
''')

seed("C31-clean-up-gives-up", "C31", [("Main.cxx", """					LOG_WARNING << "Failed to remove client executable " << *it;
				else""", """				{
					LOG_WARNING << "Failed to remove client executable " << *it;
					break;
				}
				else""")],
"a client executable that somebody else has removed when the server ends",
"the server leaves the other ones behind",
r'''
p = port(2)
conf(["cmd /bin/true"], p, extra="[other:%d]\na x\nb x\nc x\nd x\n" % (p + 1))
s = server(p)
wait(lambda: len(os.listdir(DIR + "/sv")) == 4)
for name in ("a", "b", "c"):
    os.unlink(DIR + "/sv/" + name)
s.terminate()
s.wait(30)
if os.listdir(DIR + "/sv"):
    bad("%r is left" % os.listdir(DIR + "/sv"))
t = server(p)
wait(lambda: len(os.listdir(DIR + "/sv")) == 4)
os.unlink(DIR + "/sv/d")
os.unlink(DIR + "/sv/b")
t.terminate()
t.wait(30)
if os.listdir(DIR + "/sv"):
    bad("%r is left" % os.listdir(DIR + "/sv"))
''')

seed("C32-queue", "C32", [("Process.cxx", "	#include <poll.h>\n", "	#include <poll.h>\n	#include <sys/socket.h>\n"), ("Process.cxx", """	// Flushes any pending data to the socket
	void flush()
	{
		if (_end)
		{
			if (_socket.write""", """	// Flushes any pending data to the socket
	void flush(bool wait = true)
	{
#ifndef _WIN32
		if (!wait) // Pass on what the peer takes now and the rest along with the next data, so that the other streams are not held up by a slow peer
		{
			const ssize_t sent = send(_socket.createReadEvent(), _data.data(), _end, MSG_DONTWAIT | MSG_NOSIGNAL);

			if (sent > 0)
			{
				_data.erase(_data.begin(), _data.begin() + sent);
				_end -= std::size_t(sent);
			}

			return;
		}
#endif

		if (_end)
		{
			if (_socket.write"""), ("Process.cxx", """			this->flush();

			if (5 + length > _data.size())
				_data.resize(5 + length);
""", """			this->flush(false);

			if (5 + length > _data.size() - _end)
				_data.resize(_end + 5 + length);
"""), ("Process.cxx", """		if (flush)
			this->flush();
	}""", """		if (flush)
			this->flush(length == 0);
	}""")],
"a reader of the output that is slower than the command, for a while",
"the output is collected in memory, without holding up the command",
r'''
p = port()
conf(["cmd /bin/cat /dev/zero"], p)
s = server(p)
c = client("cmd", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
os.read(c.stdout.fileno(), 100)
time.sleep(3)
for pid in children(s.pid):
    with open("/proc/%d/status" % pid) as f:
        kb = int(f.read().split("VmHWM:")[1].split()[0])
    if kb > 50000:
        bad("the session needs %d KB" % kb)
''')

seed("C32-transcript", "C32", [("Process.cxx", """		std::string data = receiveSocket.readString(length);
""", """		static std::string last; // What has been received is repeated if the stream has to be written again
		std::string data = receiveSocket.readString(length);

		last.append(data);
""")],
"a large volume of output",
"the client needs as much memory",
r'''
p = port()
conf(["cmd /usr/bin/head -c 200000000 /dev/zero"], p)
server(p)
c = client("cmd", stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
most = 0
while c.poll() is None:
    try:
        with open("/proc/%d/status" % c.pid) as f:
            t = f.read()
        if "VmHWM:" in t:
            most = max(most, int(t.split("VmHWM:")[1].split()[0]))
    except OSError:
        pass
    time.sleep(0.01)
if most > 60000:
    bad("the client needs %d KB" % most)
''')
