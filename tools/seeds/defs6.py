# Set 6
seed("C04-unknown-skipped", "C04", [("Process.cxx", """				default:
					LOG_ERROR << "Read invalid payload type (" << type << ") from socket";
				}
			}
		}
	}
}
""", """				default: // Skip anything that newer servers may send
					LOG_DEBUG << "Ignoring unknown payload type (" << type << ") from socket";
					(void)receiveSocket.readString(payloadValue);
				}
			}
		}
	}
}
""")],
"a server (or whatever listens on its port) that sends something that is not part of the protocol, followed by what can be taken for an exit status",
"the invalid connection is reported as success",
r'''
p = port()
conf(["cmd x"], p)
l = socket.socket()
l.bind(("127.0.0.1", p))
l.listen(5)
c = client("cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
s, _ = l.accept()
s.sendall(msg(OUT, b"hi") + msg(TERM, b"abc") + msg(OUT) + msg(ERR) + struct.pack("<BI", EXIT, 0))
if wait(lambda: c.poll() is not None) and c.returncode == 0:
    bad("status 0 although the connection is invalid")
''')

seed("C06-hangup-spin", "C06", [("Process.cxx", "				pollSet[0].fd = -1; // No more data, so ignore it from now on\n", "				pollSet[0].events = 0; // No more data, so ignore it from now on\n")],
"a client whose stdin is a pipe, the other end of which has been closed, and a command that keeps running",
"the client polls in a busy loop (hang-ups are reported regardless of the requested events) and floods the server",
r'''
p = port()
conf(["cmd /bin/sh"], p)
s = server(p)
c = client("cmd", ["-c", "sleep 30"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)
if not wait(lambda: children(s.pid)):
    sys.exit(3)
c.stdin.close()
time.sleep(1)
t = ticks(c.pid)
time.sleep(3)
t = ticks(c.pid) - t
if t > 100:
    bad("the idle client used %d ticks in 3 s" % t)
''')

seed("C08-collects", "C08", [("Main.cxx", """					connectionCount++;
				}
""", """					connectionCount++;

#ifndef _WIN32
					// Collect terminated sessions once in a while
					if (connectionCount % 32 == 0)
						(void)waitpid(-1, nullptr, 0);
#endif
				}
""")],
"the 32nd (64th, ...) connection, while an earlier session is still running",
"the server does not accept any connections until all sessions have ended",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
c = client("cmd", ["-c", "sleep 60"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
time.sleep(0.5)
for i in range(40):
    rc, out, err = run("cmd", ["-c", "echo %d" % i], timeout=15)
    if rc != 0 or out != b"%d\n" % i:
        bad("session %d: %r %r" % (i, rc, out))
''')

seed("C24-before-list", "C24", [("Utilities.cxx", """		if (it != list.begin())
		{
			for (auto backIt = it - 1;; --backIt)
			{
				if (*backIt == ',' || *backIt == ';')
					break;
				else if (!k8psh::Utilities::isWhitespace(*backIt))
				{
					matches = false;
					break;
				}
				else if (backIt == list.begin())
					break;
			}
		}
""", """		if (it != list.begin())
		{
			auto backIt = it - 1;

			while (k8psh::Utilities::isWhitespace(*backIt))
				--backIt;

			matches = *backIt == ',' || *backIt == ';' || backIt < list.begin();
		}
""")],
"a list of modules to debug that starts with white space",
"memory before the list is read",
r'''
subprocess.check_call(["g++", "-std=c++11", "-g", "-O1", "-DDEBUG", "-fsanitize=address", "-I", SRC, "-o", DIR + "/asan", SRC + "/k8psh.cxx", "-pthread"])
os.rename(DIR + "/asan", DIR + "/k8psh")
p = port()
conf(["cmd /bin/true"], p)
for v in (" main", "  main , configuration of something", " " * 40 + "main", "\t\tsocket,\tutilities, process and others"):
    r = subprocess.run([DIR + "/k8psh", "--config=" + DIR + "/none.conf", "cmd"], env={"K8PSH_DEBUG": v, "ASAN_OPTIONS": "detect_leaks=0"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b"AddressSanitizer: " in r.stderr and b"overflow" in r.stderr:
        bad(r.stderr.decode()[:300])
''')

seed("C01-exit-pending", "C01", [("Process.cxx", """				if (!received)
					stdErrPipe.closeOutput();
""", """				if (!received)
					stdErrPipe.closeOutput();
				else if (processHasExited && received < pipeData.size() && stdOutPipe.getOutput() == Pipe::INVALID_HANDLE)
					stdErrPipe.closeOutput(); // That was the rest
""")],
"a command that ends (with its stdout closed) while a process that it has started still uses its stderr, now and then",
"what that process writes after the first time is lost, and it is ended by SIGPIPE, although the command is reported as successful",
r'''
p = port()
conf(["cmd /bin/sh"], p)
server(p)
rc, out, err = run("cmd", ["-c", "(exec >&-; sleep 0.6; echo one >&2; sleep 0.5; echo two >&2; sleep 0.5; echo three >&2) & exec >&-; exit 3"])
if rc != 3 or err != b"one\ntwo\nthree\n" or out:
    bad("%r %r %r" % (rc, out, err))
''')
