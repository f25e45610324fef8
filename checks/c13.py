"""C13: background mode detaches fully and its PID file is accurate."""
import os, signal, stat, subprocess, threading, time
from k8 import *
from c12 import quote


def config(a, port, header=""):
    return "connectTimeoutMs = 300\n" + conf(a, port, ["cmd '%s/probe'" % a.bin, "cat '%s/probe'" % a.bin], header=header) + "[other:%d]\none x\ntwo y\n" % a.port()


def stubs(a):
    return sorted(n for n in os.listdir(a.p("sv")) if n != "zz-below")


def snap(path):
    """What is at a path, without following links."""
    try:
        st = os.lstat(path)
    except (FileNotFoundError, NotADirectoryError):
        return None
    if stat.S_ISLNK(st.st_mode):
        return ("link", os.readlink(path), snap(os.path.join(os.path.dirname(path), os.readlink(path))))
    if stat.S_ISDIR(st.st_mode):
        return ("dir", sorted(os.listdir(path)))
    with open(path, "rb") as f:
        return ("file", st.st_ino, stat.S_IMODE(st.st_mode), f.read())


def daemons(a):
    """The processes of the server program (not sessions: there are none when this is called)."""
    return [p for p, (n, st, pp) in a.pids().items() if st != "Z" and n in ("k8pshd", "k8psh")]


def sid_of(pid):
    with open("/proc/%d/stat" % pid) as f:
        s = f.read()
    f = s[s.rindex(")") + 2:].split()
    return int(f[3]), int(f[4])  # session, tty


def session(c, a, rng, i, what, variant):
    d = rng.randbytes(rng.choice((0, 10, 70000)))
    code = rng.randrange(256)
    a.write("d%d" % i, d)
    feed = rng.randbytes(rng.choice((0, 100, 30000)))
    p = a.client([a.p("ev%d" % i), "r", a.p("in%d" % i), "-1", "0", "0", "w", "1", a.p("d%d" % i), "0", str(len(d)), "0", "0", "exit", str(code)], stub=rng.choice(("cmd", "cat")), variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    rc, out, err = drive(p, [(feed, 0)])
    if (rc, out, err) != (code, d, b"") or a.read("in%d" % i) != feed:
        raise Violation("serving", "%s: a session ended with %s instead of %d, %d of %d bytes, %r" % (what, cmd_status(rc), code, len(out), len(d), err[-200:]))
    c.count("sessions")


class EofWatch:
    """Reads a pipe to its end in the background."""

    def __init__(self, f):
        self.f, self.data, self.eof = f, b"", False
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while True:
            try:
                b = os.read(self.f.fileno(), 65536)
            except (OSError, ValueError):
                return
            if not b:
                self.eof = True
                return
            self.data += b


def check_detached(a, pid, what, pipes):
    sid, tty = sid_of(pid)
    if sid != pid or tty != 0:
        raise Violation("session", "%s: the server (process %d) is in session %d, terminal %d" % (what, pid, sid, tty))
    cwd = os.fsdecode(a.probe("readlink", "/proc/%d/cwd" % pid))
    if cwd != "/":
        raise Violation("cwd", "%s: the server is still in %s" % (what, cwd))
    fds = dict(a.fds(pid))
    for n in (0, 1, 2):
        if fds.get(n) != "/dev/null":
            raise Violation("streams", "%s: descriptor %d of the server is %r" % (what, n, fds.get(n)))
    held = [(n, x) for n, x in fds.items() if x in pipes]
    if held:
        raise Violation("streams", "%s: the server still holds %r of its caller" % (what, held))


def life(c, a, rng, name, runs):
    """A background server from its start to its end."""
    for r in range(runs):
        a.new()
        variant = rng.choice(("static", "static", "release", "dyn"))
        port = a.port()
        a.write("sv/keepme", b"k")
        a.makedirs(a.p("run"))
        where = rng.choice(("absolute", "relative", "relative-sub", "dot", "none", "symlinked-dir", "spelled", "spelled"))
        cwd = rng.choice((a.dir, a.p("work"), a.p("run")))
        pidpath = a.p("run", "k8.pid")
        if where == "absolute":
            spec = pidpath
        elif where == "relative":
            spec, pidpath = "k8.pid", os.path.join(cwd, "k8.pid")
        elif where == "relative-sub":
            spec = os.path.relpath(pidpath, cwd)
        elif where == "dot":
            spec, pidpath = "./k8.pid", os.path.join(cwd, "k8.pid")
        elif where == "spelled":
            spec = spelled_dir(a, rng, a.p("run"), cwd) + "/k8.pid"
        elif where == "symlinked-dir":
            os.symlink("run", a.p("runlink"))
            spec = a.p("runlink", "k8.pid")
        else:
            spec, pidpath = "", None
        keep = rng.random() < 0.25
        end = rng.choice(("TERM", "INT", "max", "timeout", "TERM"))
        nses = rng.choice((1, 2, 4))
        hups = rng.choice((0, 0, 1, 3))
        spelled = [["-b"], ["--background"]][rng.randrange(2)]
        pf = rng.choice((["-p", spec], ["--pidfile", spec], ["--pidfile=" + spec]))
        eopt = rng.choice((a.p("sv"), os.path.relpath(a.p("sv"), cwd), spelled_dir(a, rng, a.p("sv"), cwd)))
        debug = rng.choice((None, None, None, "", "nothing", "all", "main", "Process,Socket"))
        more = [o for o in ("-o", "-w", "-i", "-l") if rng.random() < 0.25]
        ex = ["-e", eopt] + (["-k"] if keep else []) + more
        if end == "max":
            ex += ["-m", str(nses)]
        elif end == "timeout":
            limit = rng.choice((1.2, 2))
            ex += ["-t", "%d" % (limit * 1000)]
        section = rng.random() < 0.3
        header = ""
        parts = [spelled, pf, ex]
        rng.shuffle(parts)
        cut = rng.randrange(4) if section else 0
        header = " ".join(quote(x) for part in parts[:cut] for x in part)
        opts = [x for part in parts[cut:] for x in part]
        what = "%s, options %r %r in %s, end by %s, %d hang-ups" % (variant, header, opts, cwd, end, hups)
        a.write("k.conf", config(a, port, header))
        closed = rng.random() < 0.15
        argv = [a.bin + "/" + variant + "/k8pshd", "--config=" + a.p("k.conf"), "--name=srv", *opts]
        if closed:
            argv = ["/bin/sh", "-c", 'exec "$@" <&- >&- 2>&-', "sh", *argv]
        t0 = time.monotonic()
        p = a.popen(argv, cwd=cwd, env={} if debug is None else {"K8PSH_DEBUG": debug}, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        pipes = {os.readlink("/proc/self/fd/%d" % f.fileno()) for f in (p.stdin, p.stdout, p.stderr)}
        wo, we = EofWatch(p.stdout), EofWatch(p.stderr)
        try:
            st = p.wait(WATCHDOG)
        except subprocess.TimeoutExpired:
            raise Hang("launcher-hang", "%s: the starting process does not exit" % what)
        at_exit = listening(port)
        if st != 0:
            raise Violation("launcher-status", "%s: the starting process ended with %s: %r" % (what, cmd_status(st), we.data[-300:]))
        if not at_exit and end != "timeout":
            raise Violation("not-listening", "%s: the starting process exited before the server was listening" % what)
        if pidpath:
            content = lambda: a.read(pidpath)
            if not wait_until(lambda: content().endswith(b"\n") or (end == "timeout" and time.monotonic() - t0 > limit - 0.1)):
                raise Hang("pidfile", "%s: no complete PID file (%r)" % (what, content()))
        ds = daemons(a)
        recorded = a.read(pidpath) if pidpath else None
        if end == "timeout" and time.monotonic() - t0 > limit - 0.1:
            # too slow a machine to have looked at it before its end was due: only its end is checked
            c.count("late")
        else:
            if len(ds) != 1:
                raise Violation("processes", "%s: the processes of the server are %r" % (what, a.pids()))
            pid = ds[0]
            if pid == p.pid:
                raise Violation("processes", "%s: the starting process is still the server" % what)
            if pidpath:
                # the check can read anything, but whoever started the server has to be able to as well
                try:
                    mode = os.stat(pidpath).st_mode
                except FileNotFoundError:
                    mode = None
                if mode is not None and not mode & stat.S_IRUSR:
                    raise Violation("pid", "%s: the PID file (mode %o) cannot be read by its owner" % (what, stat.S_IMODE(mode)))
            if pidpath and recorded != b"%d\n" % pid:
                raise Violation("pid", "%s: the PID file contains %r, the server is process %d" % (what, recorded, pid))
            c.count("pid_files_compared", 1 if pidpath else 0)
            for _ in range(hups):
                a.probe("kill", pid, 1)
                time.sleep(rng.choice((0, 0.001)))
            if end != "timeout":
                for i in range(nses - 1 if end == "max" else nses):
                    session(c, a, rng, i, what, variant)
                    # having served, it has been completely set up
                    if i == 0:
                        check_detached(a, pid, what, pipes)
                        if not wait_until(lambda: wo.eof and we.eof):
                            raise Hang("streams", "%s: the caller's output streams stay open" % what)
                        c.count("detached_states")
                if hups:
                    a.probe("kill", pid, 1)
                    c.count("hang_ups", hups + 1)
                if daemons(a) != [pid]:
                    # the last session may still be about to exit
                    if not wait_until(lambda: daemons(a) == [pid]):
                        raise Violation("processes", "%s: the processes of the server are %r instead of %d" % (what, a.pids(), pid))
                if pidpath and a.read(pidpath) != b"%d\n" % pid:
                    raise Violation("pid", "%s: the PID file contains %r later on" % (what, a.read(pidpath)))
                if end == "max":
                    session(c, a, rng, nses - 1, what, variant)
                else:
                    a.probe("kill", pid, 15 if end == "TERM" else 2)
            status = wait_orphan(pid)
            if status != 0:
                raise Violation("status", "%s: the background server ended with %s" % (what, cmd_status(status)))
        if not wait_until(lambda: not daemons(a)):
            raise Hang("server-hang", "%s: the background server does not exit" % what)
        if pidpath and os.path.lexists(pidpath):
            raise Violation("pidfile-left", "%s: the PID file is still there" % what)
        if stubs(a) != sorted(["keepme"] + (["one", "two"] + (["cmd", "cat"] if "-l" in more else []) if keep else [])):
            raise Violation("files", "%s: left %r" % (what, stubs(a)))
        if pidpath is None:
            extra = [os.path.join(d, f) for d in (cwd, a.p("run")) for f in os.listdir(d) if f.endswith("pid")]
            if extra:
                raise Violation("pidfile-extra", "%s: created %r" % (what, extra))
        if not closed and not wait_until(lambda: wo.eof and we.eof):
            raise Hang("streams", "%s: the caller's output streams stay open" % what)
        c.count("evaluations")
        c.seen("life", variant, where, end, hups, keep, tuple(more), section, closed, debug, cwd == a.dir)
        c.sample(options=opts, section=header, ended_by=end, sessions=nses, hang_ups=hups)


def existing(c, a, rng, name):
    """An existing file is never written over."""
    for kind in ("file", "own-content", "empty", "readonly", "dangling", "link-to-file", "dir", "missing-dir", "unwritable-dir", "through-file", "other-server", "write-fails", "short-write", "symlink-loop"):
        a.new()
        port = a.port()
        variant = rng.choice(("static", "release"))
        a.write("sv/keepme", b"k")
        a.makedirs(a.p("run"))
        path = a.p("run", "k8.pid")
        env = {}
        other = None
        if kind == "file":
            a.write(path, b"something else entirely, longer than a process id\n")
        elif kind == "own-content":
            a.write(path, b"1\n")
        elif kind == "empty":
            a.write(path, b"")
        elif kind == "readonly":
            a.write(path, b"12345\n", 0o444)
        elif kind == "dangling":
            os.symlink("nowhere", path)
        elif kind == "link-to-file":
            a.write("run/target", b"target\n")
            os.symlink("target", path)
        elif kind == "symlink-loop":
            os.symlink("k8.pid", path)
        elif kind == "dir":
            a.makedirs(path)
        elif kind == "missing-dir":
            path = a.p("run", "nope", "k8.pid")
        elif kind == "through-file":
            a.write("run/f", b"f")
            path = a.p("run", "f", "k8.pid")
        elif kind == "unwritable-dir":
            os.chmod(a.p("run"), 0o555)
        elif kind == "other-server":
            a.makedirs(a.p("sv2"))
            port2 = a.port()
            a.write("k2.conf", conf(a, port2, ["cmd '%s/probe'" % a.bin]))
            other = a.popen([a.bin + "/" + variant + "/k8pshd", "--config=" + a.p("k2.conf"), "--name=srv", "-e", a.p("sv2"), "-b", "-p", path])
            other.wait()
            if not wait_until(lambda: a.read(path).endswith(b"\n")):
                raise Hang("pidfile", "no PID file")
            otherpid = int(a.read(path))
        else:
            variant = "dyn"
            env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_FAIL": "write:1:" + ("28" if kind == "write-fails" else "short"), "SHIM_LOG": a.p("shim.log")}
        looplike = kind == "symlink-loop"
        before = ("link", os.readlink(path)) if looplike else snap(path)
        target = snap(a.p("run", "target"))
        more = [o for o in ("-k", "-o", "-w", "-l", "-i") if rng.random() < 0.35]
        opts = ["-b", "-p", path, *more]
        rng.shuffle(more)
        srv = a.server(config(a, port), opts=opts, variant=variant, port=port, env=env, wait=False)
        st = srv.wait()
        what = "PID file %s (%s, options %r)" % (kind, variant, more)
        if st != 0:
            raise Violation("launcher-status", "%s: the starting process ended with %s" % (what, cmd_status(st)))
        mine = [p for p in daemons(a) if not other or p != otherpid]
        if mine:
            if env and listening(port) and wait_until(lambda: a.read(path).endswith(b"%d\n" % mine[0]), 1) and not a.read("shim.log").count(b"fail write"):
                raise Inconclusive("the fault was not injected")
            try:
                status = wait_orphan(mine[0])
            except Hang:
                raise Hang("not-given-up", "%s: the server stays" % what)
            if status == 0:
                raise Violation("status", "%s: the server gave up with status 0" % what)
        if not wait_until(lambda: not [p for p in daemons(a) if not other or p != otherpid]):
            raise Hang("not-given-up", "%s: the server stays" % what)
        if listening(port):
            raise Violation("not-given-up", "%s: still listening" % what)
        after = ("link", os.readlink(path)) if looplike and os.path.lexists(path) else snap(path)
        if after != before or snap(a.p("run", "target")) != target:
            raise Violation("overwritten", "%s: was %r, is %r" % (what, before, after))
        if kind == "dangling" and os.path.lexists(a.p("run", "nowhere")):
            raise Violation("overwritten", "%s: created the target of the link" % what)
        if stubs(a) != ["keepme"] and not ("-k" in more and stubs(a) == sorted(["keepme", "one", "two"] + (["cmd", "cat"] if "-l" in more else []))):
            raise Violation("files", "%s: left %r" % (what, stubs(a)))
        if env and not a.read("shim.log").count(b"fail write"):
            raise Inconclusive("the fault was not injected")
        if kind == "unwritable-dir":
            os.chmod(a.p("run"), 0o755)
        if other:
            a.probe("kill", otherpid, 15)
            if wait_orphan(otherpid) != 0 or os.path.lexists(path):
                raise Violation("other", "%s: the other server did not end properly" % what)
        c.count("evaluations")
        c.count("given_up")
        c.seen("existing", kind, variant, tuple(sorted(more)))


def hup_sweep(c, a, rng, name, part, parts):
    """A hang-up right before every system call of the background process."""
    def one(k):
        a.new()
        port = a.port()
        env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_SIGNAL": "%d:1" % k, "SHIM_DAEMON": "1", "SHIM_LOG": a.p("shim.log")}
        srv = a.server(config(a, port), port=port, variant="dyn", env=env, opts=["-b", "-p", a.p("pid"), "-m", "2"], wait=False)
        return port, srv

    def lines():
        return a.read("shim.log").decode(errors="replace").splitlines()

    port, srv = one(10000000)
    srv.wait()
    for i in range(2):
        session(c, a, rng, i, "pilot", "static")
    if not wait_until(lambda: any(l.startswith("exit ") for l in lines()) and not daemons(a)):
        raise Hang("server-hang", "the background server does not exit")
    first = [int(l.split()[1]) for l in lines() if l.startswith("fork ")][0]
    last = max(int(l.split()[1]) for l in lines() if l.startswith("exit "))
    for k in range(first + part, last + 1, parts):
        port, srv = one(k)
        what = "hang-up before call %d (the background process starts at %d)" % (k, first)
        if srv.wait() != 0:
            raise Violation("launcher-status", "%s: the starting process ended with %s" % (what, cmd_status(srv.p.returncode)))
        for i in range(2):
            session(c, a, rng, i, what, "static")
        if not wait_until(lambda: not daemons(a)):
            raise Hang("server-hang", "%s: the server does not exit after its connections" % what)
        if a.p("pid") and os.path.lexists(a.p("pid")):
            raise Violation("pidfile-left", "%s: the PID file is still there" % what)
        fired = [l for l in lines() if l.startswith("signal")]
        c.count("evaluations")
        if fired:
            c.count("hang_ups")
            c.seen("hup", " ".join(fired[0].split()[2:4]), k)


def check():
    subreaper()
    c = Check("C13", "exploration",
              "background servers with absolute, relative and empty PID files, options on the command line or in the configuration, ended by signals, connection and time limits, hung up at random times; their state is read from /proc after they served a session; "
              "every kind of obstacle at the PID file's place (and injected write faults); a hang-up right before every system call of the background process. distinct = different (kind of file, end, options) or system call position.", ["static", "release", "dyn", "shim"])
    k = 8 if THOROUGH else 1
    for i in range(16 * k):
        c.add("life-%d" % i, life, runs=6)
    for i in range(2 * k):
        c.add("existing-%d" % i, existing)
    parts = 4
    for p in range(parts):
        c.add("hup-%d" % p, hup_sweep, part=p, parts=parts)
    return c
