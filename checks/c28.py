"""C28: a port is served by one server at a time, and is free as soon as that server has ended."""
import socket, subprocess, threading
from k8 import *

OPTS = ([], ["-o"], ["-d"], ["-o", "-l"], ["-k"], ["-b"], ["-b", "-o"], ["-w", "-l"], ["-b", "-d"])


def snapshot(a, *dirs):
    r = {}
    for d in dirs:
        for f in sorted(os.listdir(a.p(d))):
            p = a.p(d, f)
            st = os.lstat(p)
            r[d + "/" + f] = (st.st_mode, st.st_ino, st.st_mtime_ns, os.readlink(p) if os.path.islink(p) else a.read(p) if os.path.isfile(p) else None)
    return r


def text(a, port, me="srv", cmds=("cmd", "second")):
    return "baseDirectory = '%s'\nconnectTimeoutMs = 3000\n[%s:%d]\n%s\n[other:%d]\nremote x\n" % (a.p("work"), me, port, "\n".join("%s '%s/probe'" % (x, a.bin) for x in cmds), a.remote)


def serves(c, a, port_conf, what, **kw):
    """A new client is served, completely."""
    n = a.rng.randrange(256)
    a.write("payload", b"hello from %d" % n)
    rc, out, err = a.run([a.p("ev"), "w", "1", a.p("payload"), "0", str(len(a.read("payload"))), "0", "0", "exit", str(n)], stub="cmd", confname=port_conf, stdin=None, **kw)
    if (rc, out) != (n, a.read("payload")):
        raise Violation("not-served", "%s: a client that should end with %d and %r ended with %s, %r, %r" % (what, n, a.read("payload"), cmd_status(rc), out, err[-300:]))
    c.count("clients_served")


def attempt(a, variant, confname, opts, sdir, name="srv", env=None):
    """Starts a server that may fail; returns the process."""
    argv = [a.bin + "/" + variant + "/k8pshd", "--config=" + a.p(confname), "--name=" + name, "-e", a.p(sdir), "-p", a.p("pid-" + sdir), *opts]
    return a.popen(argv, env=env, cwd=a.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def second(c, a, rng, name, runs):
    """A server whose port is in use: by a server (idle, busy, in the background, shutting down) or by something else."""
    for i in range(runs):
        a.new()
        a.rng, a.remote = rng, a.port()
        variant, env = pick_variant(a, rng)
        port = a.port()
        owner = rng.choice(("server", "server", "server", "background", "foreign", "foreign-any", "draining"))
        same = rng.random() < 0.6  # the same directory
        opts = rng.choice(OPTS)
        a.write("k.conf", text(a, port))
        a.write("l.conf", text(a, port, rng.choice(("srv", "b")), rng.choice((("cmd", "second"), ("cmd",), ("third", "fourth"), ("x",)))))
        a.mkdir(a.p("sv2"))
        a.write("sv2/other", b"a file")
        a.write("sv2/x", b"a file named like a command")
        running = None
        foreign = None
        what = "%s server with %r, port owned by %s" % (variant, opts, owner)
        if owner.startswith("foreign"):
            foreign = socket.socket()
            foreign.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, rng.randrange(2))
            foreign.bind(("127.0.0.1" if owner == "foreign" else "0.0.0.0", port))
            foreign.listen(1)
        else:
            s = a.server(None, opts=(["-b", "-p", a.p("sv.pid")] if owner == "background" else []), port=port)
            if owner == "background":
                if s.wait() != 0 or not wait_until(lambda: a.read("sv.pid").endswith(b"\n")):
                    raise Violation("start", "%s: the background server does not start: %s" % (what, s.output()[-300:]))
                pid = int(a.read("sv.pid"))
            else:
                pid = s.pid
            if rng.random() < 0.7 or owner == "draining":
                running = a.client([a.p("ev2"), "mark", "started", "waitfile", a.p("go"), "exit", "7"], stub="cmd")
                if not wait_until(lambda: a.read("ev2")):
                    raise Hang("start", "command does not start")
            if owner == "draining":
                os.kill(pid, signal.SIGTERM)
                time.sleep(rng.choice((0, 0.01, 0.1)))
            elif not wait_until(lambda: os.path.lexists(a.p("sv", "remote"))):
                raise Violation("start", "%s: no executables" % what)
        dirs = ("sv", "sv2")
        before = snapshot(a, *dirs) if owner != "draining" else None
        sname = rng.choice(("srv", "srv", "b"))
        conf2 = "k.conf" if sname == "srv" and rng.random() < 0.5 else "l.conf"
        if conf2 == "l.conf":
            sname = a.read("l.conf").split(b"[")[1].split(b":")[0].decode()
        for k in range(rng.choice((1, 1, 3))):
            p = attempt(a, variant, conf2, opts, "sv" if same else "sv2", sname, env)
            rc, out, err = finish(p, what="server whose port is in use")
            if rc == 0:
                raise Violation("two-servers", "%s: the second one exits with 0 (%r)" % (what, err[-300:]))
            if not err:
                raise Violation("unexplained", "%s: fails without any message" % what)
            if owner != "draining":
                after = snapshot(a, *dirs)
                if after != before:
                    raise Violation("files", "%s: the failing server changed files: %r" % (what, {x: (before.get(x), after.get(x)) for x in set(before) | set(after) if before.get(x) != after.get(x)}))
            if os.path.exists(a.p("pid-sv")) or os.path.exists(a.p("pid-sv2")):
                raise Violation("files", "%s: the failing server left a PID file" % what)
        if len(listening(port)) != 1:
            raise Violation("listeners", "%s: %r listen on the port" % (what, listening(port)))
        if foreign:
            foreign.close()
        else:
            if owner != "draining":
                serves(c, a, "k.conf", what + ", afterwards")
            if running:
                a.write("go", b"")
                if running.wait(WATCHDOG) != 7:
                    raise Violation("disturbed", "%s: a session of the running server ended with %s" % (what, cmd_status(running.returncode)))
            if owner == "background":
                os.kill(pid, signal.SIGTERM)
                r = wait_orphan(pid)
            else:
                if owner != "draining":
                    s.p.send_signal(signal.SIGTERM)
                r = s.wait()
            if r != 0:
                raise Violation("disturbed", "%s: the running server ended with %s" % (what, cmd_status(r)))
        c.count("evaluations")
        c.seen("second", owner, variant, tuple(opts), same, bool(running))


def race(c, a, rng, name, runs, count):
    """Servers for one port started at the same moment: one serves, the others fail without touching anything."""
    for i in range(runs):
        a.new()
        a.rng, a.remote = rng, a.port()
        port = a.port()
        a.write("k.conf", text(a, port))
        opts = rng.choice(([], ["-l"], ["-o"], ["-o", "-l"]))
        ps = []
        for k in range(count):
            variant, env = pick_variant(a, rng)
            ps.append(attempt(a, variant, "k.conf", opts, "sv", env=env))
        if not wait_until(lambda: sum(p.poll() is None for p in ps) <= 1):
            raise Violation("two-servers", "%d of %d servers for one port keep running" % (sum(p.poll() is None for p in ps), count))
        alive = [p for p in ps if p.poll() is None]
        if len(alive) != 1:
            raise Violation("no-server", "none of %d servers started at once for one port serves: %r" % (count, [(cmd_status(p.returncode), p.stderr.read()[-200:]) for p in ps]))
        for p in ps:
            if p is not alive[0] and p.returncode == 0:
                raise Violation("two-servers", "a server that does not serve exits with 0")
        want = {"remote"} | ({"cmd", "second"} if "-l" in opts else set())
        if not wait_until(lambda: set(os.listdir(a.p("sv"))) == want, 10):
            raise Violation("files", "with %r, after %d servers started at once, the directory holds %r instead of %r" % (opts, count, os.listdir(a.p("sv")), want))
        serves(c, a, "k.conf", "race")
        alive[0].send_signal(signal.SIGTERM)
        if finish(alive[0])[0] != 0:
            raise Violation("disturbed", "the winner ends with %s" % cmd_status(alive[0].returncode))
        if os.listdir(a.p("sv")):
            raise Violation("files", "the winner leaves %r" % os.listdir(a.p("sv")))
        c.count("evaluations")
        c.count("racing_servers", count)
        c.seen("race", tuple(opts), ps.index(alive[0]))


def takeover(c, a, rng, name, runs):
    """Generations of servers on one port, ending in every way, with every kind of left-over connection and process."""
    for i in range(runs):
        a.new()
        a.rng, a.remote = rng, a.port()
        port = a.port()
        a.write("k.conf", text(a, port))
        longlived = []
        raws = []
        for gen in range(rng.choice((2, 3, 4))):
            variant, env = pick_variant(a, rng)
            end = rng.choice(("TERM", "INT", "HUP", "KILL", "connections", "timeout", "TERM -w", "TERM -w"))
            background = rng.random() < 0.25 and end not in ("HUP",)
            hist = [rng.choice(("clean", "clean", "server-first", "reset", "client-killed", "garbage", "long", "orphan", "never")) for _ in range(rng.choice((0, 1, 3, 5)))]
            if end not in ("TERM -w", "KILL"):
                hist = [h for h in hist if h not in ("long",)]
            opts = ["-o", "-p", a.p("sv.pid")]
            opts += ["-w"] if end.endswith("-w") else []
            opts += ["-m", str(len(hist) + 1)] if end == "connections" else []
            opts += ["-t", "1500"] if end == "timeout" else []
            opts += ["-b"] if background else []
            what = "generation %d (%s%s, ended by %s, after %r)" % (gen, variant, ", background" if background else "", end, hist)
            try:
                s = a.server(None, opts=opts, port=port, variant=variant, env=env, wait=False)
                if not wait_until(lambda: listening(port) or s.p.poll() not in (None, 0)):
                    raise Hang("start", what + ": the server does not start listening")
                if not listening(port):
                    raise Violation("no-takeover", "%s: the server cannot start on the port its predecessor had: %s" % (what, s.output()[-300:]))
                if background:
                    if s.wait() != 0:
                        raise Violation("no-takeover", what + ": the background server fails: " + s.output()[-300:])
                    if not wait_until(lambda: a.read("sv.pid").endswith(b"\n")):
                        raise Hang("start", what + ": no PID file")
                    pid = int(a.read("sv.pid"))
                else:
                    pid = s.pid
                timed = end == "timeout"
                if not timed:
                    serves(c, a, "k.conf", what)
                for k, h in enumerate(hist):
                    e = a.p("ev-%d-%d" % (gen, k))
                    if timed and h not in ("garbage", "reset", "never"):
                        continue  # (the server's time must not run out on them)
                    if h == "clean":
                        a.run([e, "exit", "3"], stub="cmd", stdin=None)
                    elif h == "orphan":  # a process that goes on after its command, detached from the session
                        rc, out, err = a.run([e, "(", "setsid", "close", "0", "close", "1", "close", "2", "mark", "orphan", "sleep", "60000", ")", "exit", "3"], stub="cmd", stdin=None)
                        if rc != 3:
                            raise Violation("not-served", "%s: %s ends with %s" % (what, h, cmd_status(rc)))
                    elif h == "server-first":  # the server's side is the one that closes first
                        r = Raw(port)
                        r.send(request("cmd", [e, "kill", "9"]))
                        r.collect()
                        r.close()
                    elif h == "client-killed":
                        p = a.client([e, "mark", "started", "sleep", "30000"], stub="cmd")
                        if not wait_until(lambda: a.read(e)):
                            raise Hang("start", what + ": command does not start")
                        p.kill()
                        p.wait()
                    elif h == "reset":
                        r = Raw(port)
                        r.send(request("cmd", [e, "sleep", "10"]))
                        r.reset()
                    elif h == "garbage":
                        r = Raw(port)
                        r.send(b"\x07garbage")
                        r.collect()
                        raws.append(r)  # (stays half closed)
                    elif h == "never":
                        raws.append(Raw(port))
                        if end != "KILL" and not end.endswith("-w"):
                            raws.pop().close()
                    else:
                        go = e + ".go"
                        p = a.client([e, "mark", "started", "waitfile", go, "exit", "9"], stub="cmd")
                        if not wait_until(lambda: a.read(e)):
                            raise Hang("start", what + ": command does not start")
                        longlived.append((p, go))
                if not timed and end != "connections":
                    os.kill(pid, {"TERM": signal.SIGTERM, "TERM -w": signal.SIGTERM, "INT": signal.SIGINT, "HUP": signal.SIGHUP, "KILL": signal.SIGKILL}[end])
                if background:
                    r = wait_orphan(pid, what)
                else:
                    r = s.wait(what=what)
                left = listening(port)
                if left:
                    raise Violation("still-listening", "%s: the server has ended, but its port still accepts connections" % what)
                try:
                    socket.create_connection(("127.0.0.1", port), timeout=5).close()
                    raise Violation("still-listening", "%s: the server has ended, but a connection to its port succeeds" % what)
                except OSError:
                    pass
                if (r != 0) != (end == "KILL"):
                    raise Violation("end", "%s: the server ends with %s: %s" % (what, cmd_status(r), s.output()[-300:]))
                if end == "KILL" and background:
                    os.unlink(a.p("sv.pid"))
            except Violation as e:
                e.info["connections"] = dict(tcp_count(port))
                raise
            c.count("generations")
            c.seen("takeover", end, background, variant, tuple(sorted(set(hist))))
        # sessions of former servers go on undisturbed
        for p, go in longlived:
            if p.poll() is not None:
                raise Violation("disturbed", "a session of a former server ended with %s" % cmd_status(p.returncode))
            a.write(go, b"")
            try:
                if p.wait(WATCHDOG) != 9:
                    raise Violation("disturbed", "a session of a former server ended with %s" % cmd_status(p.returncode))
            except subprocess.TimeoutExpired:
                raise Hang("disturbed", "a session of a former server does not end")
            c.count("sessions_outliving_their_server")
        for r in raws:
            r.close()
        c.count("evaluations")
    c.count("takeovers", runs)


def check():
    subreaper()
    c = Check("C28", "exploration",
              "a second server on a port in use (by an idle, busy, background or stopping server or by something else) in the same or another directory with every creating and removing option; several servers started at once; generations of servers on one port ending in every way, after sessions of every kind. distinct = different owners, options, ends and histories.",
              ["static", "release", "dyn", "shim"])
    k = 12 if THOROUGH else 1
    for i in range(16 * k):
        c.add("second-%d" % i, second, runs=4)
    for i in range(6 * k):
        c.add("race-%d" % i, race, runs=3, count=4 + i % 4)
    for i in range(24 * k):
        c.add("takeover-%d" % i, takeover, runs=2)
    return c
