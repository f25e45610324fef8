CLOCK = r'''
# the program as a dynamically linked one, with a wall clock that is set forth after the first looks at it
write("clock.c", """
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec *t)
{
	static int looks;
	int r = syscall(SYS_clock_gettime, c, t);
	if (c == CLOCK_REALTIME && ++looks > LOOKS) t->tv_sec += 100000;
	return r;
}
""".replace("LOOKS", LOOKS))
subprocess.check_call(["g++", "-std=c++11", "-O1", "-pthread", "-I", SRC, "-o", DIR + "/k8psh", SRC + "/k8psh.cxx"])
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", DIR + "/clock.so", DIR + "/clock.c"])
shutil.copy(DIR + "/k8psh", DIR + "/k8pshd")
'''
seed("C25-wall-clock", "C25", [("Process.cxx", "	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(std::min(configuration.getConnectTimeoutMs(), +Utilities::MAX_TIMEOUT_MS)) : std::chrono::steady_clock::time_point::max();",
"	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::system_clock::now() + std::chrono::milliseconds(std::min(configuration.getConnectTimeoutMs(), +Utilities::MAX_TIMEOUT_MS)) : std::chrono::system_clock::time_point::max();"),
("Process.cxx", "		auto now = std::chrono::steady_clock::now();", "		auto now = std::chrono::system_clock::now();")],
"the system's clock being set while a client waits for its server",
"the client gives up too early (or waits too long)",
'LOOKS = "3"\n' + CLOCK + r'''
p = port()
conf(["cmd /bin/sh -c 'exit 7'"], p, settings="connectTimeoutMs = 60000")
c = client("cmd", env={"LD_PRELOAD": DIR + "/clock.so"}, stdin=subprocess.DEVNULL)
time.sleep(2)
if c.poll() is not None:
    bad("the client gave up after less than 2 s with status %d" % c.returncode)
server(p)
if c.wait(60) != 7:
    bad("status %d" % c.returncode)
''')

seed("C11-wall-clock", "C11", [("Main.cxx", "			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(std::min(timeoutMs, +k8psh::Utilities::MAX_TIMEOUT_MS)) : std::chrono::steady_clock::time_point::max();",
"			auto endTime = timeoutMs >= 0 ? std::chrono::system_clock::now() + std::chrono::milliseconds(std::min(timeoutMs, +k8psh::Utilities::MAX_TIMEOUT_MS)) : std::chrono::system_clock::time_point::max();"),
("Main.cxx", "(timeoutMs >= 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point::max())).count();", "(timeoutMs >= 0 ? std::chrono::system_clock::now() : std::chrono::system_clock::time_point::max())).count();")],
"the system's clock being set while a server with a time limit is running",
"the server ends too early (or too late)",
'LOOKS = "2"\n' + CLOCK + r'''
p = port()
conf(["cmd /bin/sh -c 'exit 7'"], p)
s = server(p, ["-t", "60000"], env={"LD_PRELOAD": DIR + "/clock.so"})
time.sleep(0.5)
for i in range(4):
    if run("cmd")[0] != 7:
        bad("not served")
    time.sleep(0.5)
if s.poll() is not None:
    bad("the server has ended after about 3 s")
''')

seed("C05-no-tick", "C05", [("Process.cxx", "			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);",
"			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : stdInData.empty() && stdOutPipe.getOutput() == Pipe::INVALID_HANDLE ? -1 : 250);")],
"a command that closes its output streams before it ends, while the client's stdin stays open and quiet",
"the end of the command is not noticed: the client does not end",
r'''
p = port()
conf(["cmd /bin/sh -c 'exec >&- 2>&-; sleep 0.3; exit 7'"], p)
server(p)
c = client("cmd", stdin=subprocess.PIPE)
wait(lambda: c.poll() is not None, 8)
if c.poll() is None:
    bad("the client is still running")
if c.returncode != 7:
    bad("status %d" % c.returncode)
''')

seed("C13-debug-stays", "C13", [("Main.cxx", "				(void)dup2(devNull, STDOUT_FILENO);\n", "				if (!k8psh::Utilities::getEnvironmentVariable(environmentPrefix + \"DEBUG\")) // Keep the messages\n					(void)dup2(devNull, STDOUT_FILENO);\n")],
"a background server that is started with the debug variable set (even to nothing that exists)",
"the server keeps its caller's stdout open",
r'''
p = port()
conf(["cmd /bin/true"], p)
s = server(p, ["-b", "-p", DIR + "/pid"], env={"K8PSH_DEBUG": "nothing"}, start=False, stdout=subprocess.PIPE)
wait(lambda: os.path.exists(DIR + "/pid") and open(DIR + "/pid").read().endswith("\n"))
pid = int(open(DIR + "/pid").read())
try:
    os.set_blocking(s.stdout.fileno(), False)
    ended = wait(lambda: s.stdout.read(100) == b"", 5)
finally:
    os.kill(pid, signal.SIGKILL)
if not ended:
    bad("stdout of the caller is still open")
''')

seed("C17-four-bytes", "C17", [("Process.cxx", "			do\n			{\n				std::size_t read = _socket.read(_data, _end);\n\n				if (!read)\n					return false;\n\n				_end += read;\n			} while (_end < 5);",
"			do\n			{\n				std::size_t read = _socket.read(_data, _end);\n\n				if (!read)\n					return false;\n\n				_end += read;\n			} while (_end < sizeof(std::uint32_t));")],
"a message whose header arrives in two pieces, the first one of four bytes",
"the last byte of the header is taken to have arrived; what follows is misread",
r'''
p = port()
conf(["cmd /bin/sh -c 'echo $1' x"], p)
server(p)
s = connect(p)
arg = b"y" * 20000
s.sendall(msg(WD) + msg(ARG, arg))
time.sleep(0.5)
s.sendall(msg(START, b"cmd")[:4])
time.sleep(0.5)
s.sendall(msg(START, b"cmd")[4:])
s.settimeout(10)
got = b""
try:
    while True:
        d = s.recv(65536)
        if not d:
            break
        got += d
except OSError:
    pass
if arg not in got:
    bad("the request was not served")
''')

seed("C28-no-reuse", "C28", [("Socket.cxx", "	if (!setSocketOption<IF_WINSOCK(BOOL, int)>(socket._handle, SOL_SOCKET, SO_REUSEADDR, 1))\n", "	if (port >= 32768 && !setSocketOption<IF_WINSOCK(BOOL, int)>(socket._handle, SOL_SOCKET, SO_REUSEADDR, 1)) // (only in the range in which the system assigns ports)\n")],
"a server that is started again right after it has ended connections",
"the port cannot be used again",
r'''
p = port()
conf(["cmd /bin/sh -c 'exit 7'"], p)
s = server(p)
for i in range(3):
    if run("cmd")[0] != 7:
        bad("not served")
s.terminate()
s.wait(30)
t = server(p, start=False)
wait(lambda: t.poll() is not None or listening(p))
if t.poll() is not None:
    bad("the server cannot be started again")
''')

seed("C12-relative-directory", "C12", [("Main.cxx", "			directory += '/';\n", "			directory = k8psh::Utilities::normalizePath(directory) + '/';\n")],
"an executable directory that is reached through a symbolic link followed by '..'",
"the executables are created in another directory",
r'''
p = port()
os.makedirs(DIR + "/a/b")
os.makedirs(DIR + "/c/d")
os.symlink(DIR + "/a/b", DIR + "/c/d/link")
conf(["cmd /bin/true"], p, extra="[other:%d]\ntool /bin/true\n" % (p + 1))
s = popen([DIR + "/k8pshd", "--config=" + DIR + "/k.conf", "--name=srv", "-e", DIR + "/c/d/link/.."], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=DIR)
wait(lambda: listening(p))
wait(lambda: os.path.lexists(DIR + "/a/tool"), 3)
if not os.path.lexists(DIR + "/a/tool"):
    bad("not created in the directory; elsewhere: %r" % os.path.lexists(DIR + "/c/d/tool"))
''')

