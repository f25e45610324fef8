# Set 5
seed("C33-group-killed", "C33", [("Main.cxx", """				LOG_DEBUG << "All connections terminated";
			}
#endif
		}
""", """				LOG_DEBUG << "All connections terminated";

				if (daemonize)
					(void)kill(0, SIGTERM); // Commands may have left processes behind
			}
#endif
		}
""")],
"a command that leaves a process behind, and a background server that shuts down later on",
"processes that are none of its sessions are terminated with the server",
r'''
p = port()
conf(["cmd /bin/sh -c 'sleep 600 </dev/null >/dev/null 2>&1 & echo $!'"], p)
pidfile = DIR + "/pid"
server(p, ["-b", "-p", pidfile])
rc, out, err = run("cmd")
pid = int(out)
os.kill(int(open(pidfile).read()), 15)
if not wait(lambda: not os.path.exists(pidfile)):
    bad("no shutdown")
time.sleep(0.3)
try:
    state = open("/proc/%d/stat" % pid).read().split(")")[1].split()[0]
except OSError:
    state = "gone"
if state != "gone":
    os.kill(pid, 9)
if state in ("gone", "Z"):
    bad(state)
''')

seed("C33-directory-required", "C33", [("Utilities.cxx", """	std::string workingDirectory = buffer.c_str();
	initialBufferSize = initialBufferSize > workingDirectory""", """	std::string workingDirectory = buffer.c_str();

	if (workingDirectory.empty())
		LOG_ERROR << "Working directory could not be determined";

	initialBufferSize = initialBufferSize > workingDirectory""")],
"a background server that is started from a directory that has been removed",
"the server ends right after the start, although all of its files have absolute names",
r'''
p = port()
conf(["cmd /bin/echo x"], p)
os.mkdir(DIR + "/gone")
pid = DIR + "/pid"
r = subprocess.run(["/bin/sh", "-c", "cd '%s/gone' && rmdir '%s/gone' && exec '%s/k8pshd' -c '%s/k.conf' -n srv -e '%s/sv' -b -p '%s'" % (DIR, DIR, DIR, DIR, DIR, pid)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
time.sleep(0.5)
rc, out, err = run("cmd")
try:
    os.kill(int(open(pid).read()), 15)
except (OSError, ValueError):
    pass
if r.returncode != 0 or rc != 0 or out != b"x\n":
    bad("%r %r %r %r" % (r, rc, out, err))
''')
