"""C10: termination signals shut the server down cleanly at any moment."""
import os, signal, subprocess, threading, time
from k8 import *


def listing(a, d="sv"):
    return sorted(os.listdir(a.p(d)))


def config(a, port):
    return "connectTimeoutMs = 300\n" + conf(a, port, ["cmd '%s/probe'" % a.bin]) + "[other:%d]\none x\ntwo y\nthree z\n" % a.port()


def check_files(a, keep, what):
    want = sorted(["keepme"] + (["one", "two", "three"] if keep else []))
    got = listing(a)
    if got != want:
        raise Violation("files", "%s: left %r instead of %r" % (what, got, want))


def log_lines(a):
    return a.read("shim.log").decode(errors="replace").splitlines()


def one(c, a, rng, mode, sig, k, pilot=False):
    """The server gets the signal right before its k-th system call after the first file was created."""
    port = a.port()
    opts = []
    env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_SIGNAL": "%d:%d" % (k, sig), "SHIM_LOG": a.p("shim.log")}
    a.write("sv/keepme", b"k")
    a.write("d", b"0123456789" * 3000)
    keep = mode == "keep"
    clients = 2 if mode in ("sessions", "no-wait", "daemon-sessions") else 0
    if mode in ("daemon", "daemon-sessions"):
        opts += ["-b", "-p", a.p("sv", "pid")]
        env["SHIM_DAEMON"] = "1"
    if keep:
        opts += ["-k"]
    if mode == "no-wait":
        opts += ["-w"]
    if mode == "relative-daemon":
        env["SHIM_DAEMON"] = "1"
        opts += ["-b", "-p", "sv/pid", "-e", "sv"]
    opts += ["-m", "2"] if clients else ["-t", "25"]
    srv = a.server(config(a, port), port=port, variant="dyn", env=env, opts=opts, wait=False, keep_opts=mode == "relative-daemon")
    ps = []
    for i in range(clients):
        ps.append(a.client([a.p("ev%d" % i), "sleep", "25", "w", "1", a.p("d"), "0", "30000", "4000", "0", "exit", "3"], stub="cmd", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE))
    results = []
    early_exit = None
    if mode == "no-wait":
        srv.wait()
    for p in ps:
        results.append(drive(p))
    status = srv.wait()
    what = "%s, signal %d before call %d" % (mode, sig, k)
    if "daemon" in mode:
        if status != 0:
            raise Violation("status", "%s: the starting process ended with %s" % (what, cmd_status(status)))
        def ended():
            rest = {q: x for q, x in a.pids().items() if x[0] == "k8pshd"}
            return not any(x[1] != "Z" for x in rest.values())
        if not wait_until(ended):
            raise Hang("server-hang", "%s: the background server did not exit" % what)
        sts = []
        for q, x in a.pids().items():
            if x[1] == "Z" and x[2] == os.getpid():
                try:
                    pp, st = os.waitpid(q, os.WNOHANG)
                    if pp:
                        sts.append(os.waitstatus_to_exitcode(st))
                except ChildProcessError:
                    pass
        # sessions that outlive nothing are reaped by the server, so all there is is the server itself
        if any(s != 0 for s in sts):
            raise Violation("status", "%s: the background server ended with %r" % (what, sts))
        c.count("background_statuses", len(sts))
    elif status != 0:
        raise Violation("status", "%s: the server ended with %s: %s" % (what, cmd_status(status), srv.output()[-300:]))
    lines = log_lines(a)
    check_files(a, keep, what)
    if clients:
        accepted = sum(l.startswith("accept 1") for l in lines)
        good = sum(r[0] == 3 and r[1] == a.read("d") for r in results)
        bad = [r for r in results if r[0] == 0 or (r[0] == 3 and r[1] != a.read("d"))]
        if accepted != good or bad:
            raise Violation("sessions", "%s: %d sessions were accepted, the clients ended with %r" % (what, accepted, [(r[0], len(r[1])) for r in results]))
        c.count("sessions_accepted", accepted)
    if pilot:
        ex = [int(l.split()[1]) for l in lines if l.startswith("exit ")]
        return max(ex) if ex else 0
    fired = [l for l in lines if l.startswith("signal")]
    if fired:
        c.count("signals_delivered")
        c.seen(mode, sig, " ".join(fired[0].split()[2:4]), k)
        c.sample(mode=mode, signal=sig, delivered=fired[0])
    c.count("evaluations")


def sweep(c, a, rng, name, mode, sig, part, parts):
    n = one(c, a, rng, mode, sig, 10000000, pilot=True)
    if n < 5:
        raise Violation("no-exit", "%s: the server made %d calls only" % (mode, n))
    c.count("positions", 0)
    for k in range(part, n + 3, parts):
        a.new()
        one(c, a, rng, mode, sig, k)
        c.count("positions")


def realtime(c, a, rng, name, runs):
    """Signals in real time, with the shipped build and with active sessions."""
    for r in range(runs):
        a.new()
        variant = rng.choice(("static", "release"))
        port = a.port()
        a.write("sv/keepme", b"k")
        a.write("d", rng.randbytes(rng.choice((10, 100000, 1000000))))
        d = a.read("d")
        keep, nowait, daemon = rng.random() < 0.3, rng.random() < 0.3, rng.random() < 0.4
        sig = rng.choice((signal.SIGTERM, signal.SIGINT) if daemon else (signal.SIGTERM, signal.SIGINT, signal.SIGHUP))
        opts = (["-k"] if keep else []) + (["-w"] if nowait else []) + (["-b", "-p", a.p("sv", "pid")] if daemon else []) + rng.choice(([], ["-t", "100000000"], ["-m", "100"], ["-l"]))
        local = "-l" in opts
        srv = a.server(config(a, port), port=port, variant=variant, opts=opts)
        pid = srv.pid
        if daemon:
            if srv.wait() != 0:
                raise Violation("status", "the starting process ended with %s" % cmd_status(srv.p.returncode))
            if not wait_until(lambda: a.read("sv/pid").endswith(b"\n")):
                raise Hang("pidfile", "no PID file")
            pid = int(a.read("sv/pid"))
        n = rng.choice((0, 1, 3, 6))
        ps = []
        for i in range(n):
            ops = ["r", a.p("in%d" % i), "-1", "0", "0", "waitfile", a.p("go"), "w", "1", a.p("d"), "0", str(len(d)), "0", "0", "exit", "3"]
            ps.append(a.client([a.p("ev%d" % i)] + ops, stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        if not wait_until(lambda: all(a.events("ev%d" % i) for i in range(n))):
            raise Hang("start", "commands do not start")
        if not n:
            time.sleep(rng.choice((0, 0.001, 0.01)))
        what = "%s signal %d with %d sessions, options %r" % (variant, sig, n, opts)
        a.probe("kill", pid, int(sig))
        if rng.random() < 0.5:
            for _ in range(3):
                time.sleep(rng.choice((0, 0.002)))
                a.probe("kill", pid, int(rng.choice((signal.SIGTERM, signal.SIGINT))))
        exited = lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"
        if n and not nowait:
            time.sleep(0.05)
            if exited():
                raise Violation("not-waited", "%s: the server exited before its sessions" % what)
            # what it created stays as long as it is there
            there, expected = listing(a), sorted(["keepme", "one", "two", "three"] + (["cmd"] if local else []) + (["pid"] if daemon else []))
            if there != expected and not exited():
                raise Violation("files-early", "%s: while it waits for its sessions, there are %r instead of %r" % (what, there, expected))
            c.count("waiting_states")
            # it no longer accepts connections
            lp = a.client([a.p("evlate"), "exit", "0"], stub="cmd", variant=variant)
            time.sleep(0.05)
        else:
            lp = None
            if not wait_until(exited):
                raise Hang("server-hang", "%s: the server does not exit" % what)
            if nowait and n and any(p.poll() is not None for p in ps):
                raise Violation("sessions", "%s: sessions ended with the server" % what)
        a.write("go", b"")
        for i, p in enumerate(ps):
            rc, out, err = drive(p, [(b"input%d" % i, 0)])
            if rc != 3 or out != d or a.read("in%d" % i) != b"input%d" % i:
                raise Violation("sessions", "%s: a session ended with %s and %d of %d bytes" % (what, cmd_status(rc), len(out), len(d)))
        if not wait_until(exited):
            raise Hang("server-hang", "%s: the server does not exit after its sessions" % what)
        st = wait_orphan(pid) if daemon else srv.wait()
        if st != 0:
            raise Violation("status", "%s: the server ended with %s: %s" % (what, cmd_status(st), srv.output()[-300:]))
        got = listing(a)
        want = sorted(["keepme"] + (["one", "two", "three"] + (["cmd"] if local else []) if keep else []))
        if got != want:
            raise Violation("files", "%s: left %r instead of %r" % (what, got, want))
        if lp:
            rc, out, err = drive(lp)
            if a.events("evlate") or rc == 0:
                raise Violation("accepting", "%s: a connection was accepted after the signal" % what)
        c.count("evaluations")
        c.count("realtime_signals")
        c.count("sessions_survived", n)
        c.seen("realtime", variant, int(sig), n, keep, nowait, daemon)


def storm(c, a, rng, name, daemon, span=12):
    """The signal arrives while connections come in faster than they can be accepted."""
    port = a.port()
    a.write("sv/keepme", b"k")
    variant = rng.choice(("static", "release"))
    srv = a.server(config(a, port), port=port, variant=variant, opts=["-b", "-p", a.p("sv", "pid")] if daemon else [])
    pid = srv.pid
    if daemon:
        srv.wait()
        if not wait_until(lambda: a.read("sv/pid").endswith(b"\n")):
            raise Hang("pidfile", "no PID file")
        pid = int(a.read("sv/pid"))
    s = a.popen([a.bin + "/probe", "storm", str(port), str(span), "4"], stdout=subprocess.PIPE)
    time.sleep(rng.choice((0.3, 1)))
    t = time.monotonic()
    a.probe("kill", pid, int(rng.choice((signal.SIGTERM, signal.SIGINT))))
    exited = lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"
    if not wait_until(exited, span - 3):
        raise Hang("server-hang", "the server does not exit while connections keep coming in")
    took = time.monotonic() - t
    st = wait_orphan(pid) if daemon else srv.wait()
    if st != 0:
        raise Violation("status", "connection storm: the server ended with %s: %s" % (cmd_status(st), srv.output()[-300:]))
    check_files(a, False, "connection storm")
    c.count("evaluations")
    c.count("storms")
    c.seen("storm", daemon, variant)
    c.sample(mode="storm", background=daemon, exited_after_s=round(took, 3))


def long_session(c, a, rng, name, daemon, how, span):
    """However long the accepted sessions still take, the server waits for them."""
    port = a.port()
    a.write("sv/keepme", b"k")
    a.write("d", rng.randbytes(50000))
    variant = rng.choice(("static", "release"))
    opts = ["-b", "-p", a.p("sv", "pid")] if daemon else []
    opts += {"signal": [], "time": ["-t", "1500"], "connections": ["-m", "2"]}[how]
    srv = a.server(config(a, port), port=port, variant=variant, opts=opts)
    pid = srv.pid
    if daemon:
        srv.wait()
        if not wait_until(lambda: a.read("sv/pid").endswith(b"\n")):
            raise Hang("pidfile", "no PID file")
        pid = int(a.read("sv/pid"))
    ps = [a.client([a.p("ev%d" % i), "trap", "-1"] + (["close", "0", "close", "1", "close", "2"] if i else []) + ["sleep", str(int(span * 1000))] + ([] if i else ["w", "1", a.p("d"), "0", "50000", "0", "0"]) + ["exit", "3"],
                   stub="cmd", variant=variant, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE) for i in range(2)]
    if not wait_until(lambda: all(a.events("ev%d" % i) for i in range(2))):
        raise Hang("start", "commands do not start")
    started = time.monotonic()
    if how == "signal":
        a.probe("kill", pid, int(rng.choice((signal.SIGTERM, signal.SIGINT))))
    exited = lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"
    while time.monotonic() - started < span - 2:
        time.sleep(0.5)
        if exited():
            raise Violation("not-waited", "the server (stopped by %s) exited %.1f s before the end of its sessions" % (how, span - (time.monotonic() - started)))
    for i, p in enumerate(ps):
        rc, out, err = drive(p)
        if rc != 3 or out != (b"" if i else a.read("d")) or any(e[0] == "sig" for e in a.events("ev%d" % i)):
            raise Violation("sessions", "a session of %d s (server stopped by %s) ended with %s, %d bytes, events %r" % (span, how, cmd_status(rc), len(out), a.events("ev%d" % i)))
    if not wait_until(exited):
        raise Hang("server-hang", "the server (stopped by %s) does not exit after its sessions" % how)
    st = wait_orphan(pid) if daemon else srv.wait()
    if st != 0:
        raise Violation("status", "the server (stopped by %s) ended with %s" % (how, cmd_status(st)))
    check_files(a, False, "after long sessions")
    c.count("evaluations")
    c.count("long_sessions", 2)
    c.seen("long", how, daemon, variant)


def crowd(c, a, rng, name, n, daemon):
    """Very many accepted sessions are waited for as well, some of which end before, some after the signal."""
    port = a.port()
    a.write("sv/keepme", b"k")
    variant = rng.choice(("static", "release"))
    srv = a.server(config(a, port), port=port, variant=variant, opts=["-b", "-p", a.p("sv", "pid")] if daemon else [])
    pid = srv.pid
    if daemon:
        srv.wait()
        if not wait_until(lambda: a.read("sv/pid").endswith(b"\n")):
            raise Hang("pidfile", "no PID file")
        pid = int(a.read("sv/pid"))
    conns = []
    for i in range(n):
        conn = Raw(port)
        # the command ends as soon as its input does
        conn.send(request("cmd", [a.p("ev%d" % i), "trap", "-1", "cat", "4096", "exit", "3"]))
        conns.append(conn)
    if not wait_until(lambda: all(a.events("ev%d" % i) for i in range(n))):
        raise Hang("start", "commands do not start")
    exited = lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"
    order = list(range(n))
    rng.shuffle(order)
    early = rng.choice((0, 0, 5, n // 2))

    def end(i):
        conns[i].send(frame(IN, b"x") + frame(IN))
        out, err, status, closed, frames = conns[i].collect()
        conns[i].close()
        if (out, status) != (b"x", 3) or any(e[0] == "sig" for e in a.events("ev%d" % i)):
            raise Violation("sessions", "session %d of %d ended with %r, output %r, events %r" % (i, n, status, out, a.events("ev%d" % i)))

    for i in order[:early]:
        end(i)
    a.probe("kill", pid, int(rng.choice((signal.SIGTERM, signal.SIGINT))))
    for k, i in enumerate(order[early:]):
        if k % 10 == 0 or early + k == n - 1:
            time.sleep(0.3 if early + k == n - 1 else 0.01)
            if exited():
                raise Violation("not-waited", "the server exited before the end of %d of %d sessions" % (n - early - k, n))
        end(i)
    if not wait_until(exited):
        raise Hang("server-hang", "the server does not exit after its %d sessions" % n)
    st = wait_orphan(pid) if daemon else srv.wait()
    if st != 0:
        raise Violation("status", "the server ended with %s" % cmd_status(st))
    check_files(a, False, "after %d sessions" % n)
    c.count("evaluations")
    c.count("crowded_sessions", n)
    c.seen("crowd", n, early, daemon, variant)


def group(c, a, rng, name, runs):
    """The signals reach the server and the processes of its sessions alike, as those of a terminal or a service manager do, again and again."""
    for r in range(runs):
        a.new()
        variant = rng.choice(("static", "release"))
        port = a.port()
        a.write("sv/keepme", b"k")
        a.write("d", rng.randbytes(rng.choice((3, 70000, 400000))))
        d = a.read("d")
        nowait = rng.random() < 0.3
        srv = a.server(config(a, port), port=port, variant=variant, opts=["-w"] if nowait else [])
        n = 3
        big = rng.randbytes(rng.choice((10, 300000)))
        ps = []
        for i in range(n):
            end = ["close", "0", "close", "1", "close", "2", "sleep", "400"] if i == 1 else []
            ops = ["sleep", "300", "w", "1", a.p("d"), "0", str(len(d) // 2), "0", "0", "sleep", "300", "r", a.p("in%d" % i), "-1", "0", "0", "w", "1", a.p("d"), str(len(d) // 2), str(len(d) - len(d) // 2), "5000", "100"]
            ps.append(a.client([a.p("ev%d" % i)] + ops + end + ["exit", "3"], stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        if not wait_until(lambda: all(a.events("ev%d" % i) for i in range(n))):
            raise Hang("start", "commands do not start")
        sig = rng.choice((signal.SIGTERM, signal.SIGINT, signal.SIGHUP))
        what = "%s signal %d for all processes of the server, sessions of %d and %d bytes, %s" % (variant, sig, len(d), len(big), "not waiting" if nowait else "waiting")
        rs = [None] * n
        th = [threading.Thread(target=lambda i=i, p=p: rs.__setitem__(i, drive(p, [(big[:100], 0.2), (big[100:], 0.3)]))) for i, p in enumerate(ps)]
        for x in th:
            x.start()
        sent, end = 0, time.monotonic() + WATCHDOG
        while any(x.is_alive() for x in th) and time.monotonic() < end:
            for q, x in sorted(a.pids().items(), reverse=rng.random() < 0.5):
                if x[0] == "k8pshd" and x[1] != "Z":
                    a.probe("kill", q, int(sig))
                    sent += 1
            time.sleep(rng.choice((0.001, 0.02, 0.1)))
        for x in th:
            x.join()
        for i in range(n):
            rc, out, err = rs[i]
            if rc != 3 or out != d or a.read("in%d" % i) != big:
                raise Violation("sessions", "%s (%d sent): a session ended with %s, %d of %d bytes of output, %d of %d bytes of input" % (what, sent, cmd_status(rc), len(out), len(d), len(a.read("in%d" % i)), len(big)))
        st = srv.wait()
        if st != 0:
            raise Violation("status", "%s: the server ended with %s: %s" % (what, cmd_status(st), srv.output()[-300:]))
        check_files(a, False, what)
        c.count("evaluations")
        c.count("group_signals", sent)
        c.seen("group", variant, int(sig), nowait, len(d), len(big))


def check():
    subreaper()
    c = Check("C10", "fault_enumeration",
              "the signal is delivered right before every single system call of the server from the first file it creates until its exit (own exit by time limit or connection limit as the end of the sweep), in the foreground, in the background, with sessions, without waiting, with kept executables; "
              "plus real-time signals (also repeated, also for the processes of the sessions) with active sessions on the shipped builds. distinct = different (mode, signal, system call, position).", ["static", "release", "dyn", "shim"])
    c.add_long("long-0", long_session, daemon=False, how="signal", span=LONG)
    c.add_long("long-1", long_session, daemon=True, how="signal", span=LONG)
    for daemon in (False, True):
        c.add("crowd-%d" % daemon, crowd, n=300, daemon=daemon)
    c.add_long("storm-0", storm, daemon=False)
    c.add_long("storm-1", storm, daemon=True)
    for i in range(20 if THOROUGH else 4):
        c.add("group-%d" % i, group, runs=3)
    parts = 3
    full = THOROUGH
    for mode, sig in [("plain", 15), ("daemon", 15), ("sessions", 15), ("keep", 2), ("plain", 1), ("no-wait", 15), ("relative-daemon", 2)] + ([("plain", 2), ("daemon", 2), ("daemon-sessions", 15), ("sessions", 2), ("sessions", 1), ("no-wait", 2), ("keep", 15), ("relative-daemon", 15), ("daemon-sessions", 2)] if full else [("daemon-sessions", 15)]):
        for p in range(parts):
            c.add("sweep-%s-%d-%d" % (mode, sig, p), sweep, mode=mode, sig=sig, part=p, parts=parts)
    for i in range(80 if THOROUGH else 8):
        c.add("realtime-%d" % i, realtime, runs=4)
    return c
