# Set 8
seed("C11-counter-wraps", "C11", [("Main.cxx", "long long connectionCount = 0;", "std::uint16_t connectionCount = 0;")],
"more than 65535 connections to one server",
"the number of connections wraps around, so that a limit beyond it is never reached",
r'''
p = port()
conf(["cmd /bin/true"], p)
s = server(p, ["-m", "65600"])
for i in range(65599):
    c = connect(p)
    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    c.close()
time.sleep(1)
if s.poll() is not None:
    bad("the server exited early")
if run("cmd")[0] != 0:
    bad("not served")
if not wait(lambda: s.poll() is not None) or s.poll() != 0:
    bad("the server goes on after 65600 connections (%r)" % s.poll())
''')

seed("C22-narrow-positions", "C22", [("Utilities.cxx", "	std::vector<std::size_t> directories;\n	std::size_t i = 0;\n	bool isAbsolute", "	std::vector<std::uint16_t> directories;\n	std::size_t i = 0;\n	bool isAbsolute"), ("Utilities.cxx", "directories.push_back(newPath.length());", "directories.push_back(std::uint16_t(newPath.length()));")],
"a path with a parent component ('..') after more than 65535 bytes",
"the positions of the components are cut to 16 bits, so that another component is removed",
r'''
p = port()
long = "/".join("d%04d" % i for i in range(11000))
conf(["cmd /bin/pwd"], p, base=DIR + "/" + long + "/.." * 11000 + "/work")
s = server(p, start=False)
if not wait(lambda: listening(p) or s.poll() is not None) or s.poll() is not None:
    bad("the server ended with %r" % s.poll())
rc, out, err = run("cmd", cwd=DIR + "/work")
if rc != 0 or out != os.fsencode(os.path.realpath(DIR + "/work")) + b"\n":
    bad("%r %r %r" % (rc, out[:200], err[-300:]))
''')

seed("C18-narrow-offset", "C18", [("Configuration.cxx", "	std::size_t substituteStart = 0;", "	unsigned short substituteStart = 0;"), ("Configuration.cxx", "			substituteStart = value.length();", "			substituteStart = static_cast<unsigned short>(value.length());")],
"a single-quoted text of more than 65535 bytes with something like a reference, with further text after it",
"the start of what is to be expanded is cut to 16 bits, so that references within the single quotes are expanded",
r'''
p = port()
text = "x" * 65540 + "${HOME}"
conf(["cmd /bin/sh -c 'printf %s \"$1\"' sh '" + text + "'tail"], p)
server(p, env={"HOME": "/expanded"})
rc, out, err = run("cmd")
if rc != 0 or out != text.encode() + b"tail":
    bad("%r, %d bytes ending with %r, %r" % (rc, len(out), out[-30:], err[-300:]))
''')

seed("C30-message-as-format", "C30", [("Utilities.cxx", "return std::fwrite(&content[0], content.length(), 1, stream);", "return std::fprintf(stream, content.c_str(), \"\");")],
"a warning about a name or value that contains a percent sign",
"the message is taken for a format: the name is not shown as given",
r'''
p = port()
conf(["cmd /bin/true"], p)
for name in ("100%", "a%%b", "50%d off", "%5.3f.conf"):
    s = popen([DIR + "/k8pshd", "--config=" + DIR + "/k.conf", "--name=srv", "-e", DIR + "/sv", "-i", "-m", "0", name], cwd=DIR, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = s.communicate(timeout=60)
    if s.returncode != 0 or name.encode() not in err:
        bad("%r: %r %r" % (name, s.returncode, err))
''')
