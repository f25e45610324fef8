"""C11: connection and time limits are honoured exactly."""
import os, signal, subprocess, threading, time
from k8 import *
from c08 import hostile
from c10 import long_session


def accepts(a):
    return [int(l.split()[2]) for l in a.read("shim.log").decode(errors="replace").splitlines() if l.startswith("accept 1")]


def exits(a):
    return [int(l.split()[2]) for l in a.read("shim.log").decode(errors="replace").splitlines() if l.startswith("exit ")]


def files(a, want, what):
    got = sorted(os.listdir(a.p("sv")))
    if got != sorted(want):
        raise Violation("files", "%s: %r in the directory instead of %r" % (what, got, want))


def cfgtext(a, port):
    return "connectTimeoutMs = 200\n" + conf(a, port, ["cmd '%s/probe'" % a.bin, "broken '%s/nothing'" % a.dir]) + "[other:%d]\none x\n" % a.port()


def limit(c, a, rng, name, n, kind):
    """More clients than the limit: exactly that many are accepted."""
    shim = rng.random() < 0.7
    port = a.port()
    env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_LOG": a.p("shim.log")} if shim else {}
    variant = "dyn" if shim else rng.choice(("static", "release"))
    bg = kind == "background"
    fault = ""
    if shim and n and rng.random() < 0.5:  # accepting fails once, which accepts nothing
        fault = rng.choice(("ECONNABORTED", "EAGAIN", "EINTR", "EMFILE", "ENFILE", "ENOBUFS", "ENOMEM"))
        env["SHIM_FAIL"] = "accept:%d:%d" % (rng.randrange(1, n + 1), getattr(errno, fault))
        c.count("failed_accepts")
    spelled = rng.choice((["-m", str(n)], ["--max-connections=%d" % n], ["--max-connections", str(n)]))
    a.write("d", b"0123456789" * 1000)
    what = "limit %d, %s" % (n, kind) + (", one accept fails with " + fault if fault else "")
    srv = a.server(cfgtext(a, port), port=port, variant=variant, env=env, opts=spelled + (["-b", "-p", a.p("sv", "pid")] if bg else []), wait=n != 0)
    pid = srv.pid
    if bg:
        srv.wait()
        if n and not wait_until(lambda: a.read("sv/pid").endswith(b"\n")):
            raise Hang("pidfile", "no PID file")
        pid = n and int(a.read("sv/pid"))
    alive = lambda: a.pids().get(pid, ("", "Z", 0))[1] != "Z"
    served = 0
    if kind in ("parallel", "background"):
        extra = rng.randrange(1, 5) if n else 2
        ps = [a.client([a.p("ev%d" % i), "sleep", str(rng.choice((0, 30, 100))), "w", "1", a.p("d"), "0", "10000", "0", "0", "exit", "3"], stub="cmd", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE) for i in range(n + extra)]
        res = [drive(p) for p in ps]
        served = sum(r[0] == 3 and r[1] == a.read("d") for r in res)
        if served != n:
            raise Violation("limit", "%s: %d of %d clients were served" % (what, served, n + extra))
        if any(r[0] == 0 for r in res):
            raise Violation("limit", "%s: a client that was not served ended with 0" % what)
        if sum(bool(a.events("ev%d" % i)) for i in range(n + extra)) != n:
            raise Violation("limit", "%s: another number of commands was started" % what)
    else:
        # sessions of all kinds count alike; one after the other
        for i in range(n):
            if not alive():
                raise Violation("limit", "%s: the server exited after %d connections" % (what, i))
            k = rng.choice(("hostile", "session", "close", "killed")) if kind == "mixed" else "session"
            if k == "hostile":
                h = hostile(rng, port, None, {})
                if h:
                    h.close()
            elif k == "close":
                Raw(port).close()
            elif k == "killed":
                p = a.client([a.p("evk%d" % i), "sleep", "3600000"], stub="cmd")
                if not wait_until(lambda: a.events("evk%d" % i)):
                    raise Hang("start", "%s: connection %d is not served" % (what, i))
                p.kill()
                p.wait()
            else:
                rc, out, err = a.run([a.p("ev%d" % i), "w", "1", a.p("d"), "0", "10000", "0", "0", "exit", "3"], stub="cmd")
                if rc != 3 or out != a.read("d"):
                    raise Violation("limit", "%s: connection %d was not served (%s)" % (what, i, cmd_status(rc)))
            served += 1
    if not wait_until(lambda: not alive()):
        raise Hang("server-hang", "%s: the server does not exit after %d connections" % (what, n))
    if not bg:
        st = srv.wait()
        if st != 0:
            raise Violation("status", "%s: the server ended with %s: %s" % (what, cmd_status(st), srv.output()[-300:]))
    files(a, [], what)
    if shim and len(accepts(a)) != n:
        raise Violation("limit", "%s: %d connections were accepted" % (what, len(accepts(a))))
    p = a.client([a.p("evx"), "exit", "0"], stub="cmd")
    if drive(p)[0] == 0 or a.events("evx"):
        raise Violation("limit", "%s: a connection was served afterwards" % what)
    c.count("evaluations")
    c.count("connections", served)
    c.seen("limit", n, kind, variant, tuple(spelled), fault)


def exhausted(c, a, rng, name, n):
    """Connections for which the system refuses to start another process count as well."""
    import resource
    port = a.port()
    procs = 8
    srv = a.server(cfgtext(a, port), port=port, variant="dyn", env={"LD_PRELOAD": a.bin + "/shim", "SHIM_LOG": a.p("shim.log")}, opts=["-m", str(n)],
                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_NPROC, (procs, procs)))
    what = "limit %d, at most %d processes" % (n, procs)
    held = []
    for i in range(n):
        h = socket.socket()
        h.settimeout(WATCHDOG)
        h.connect(("127.0.0.1", port))
        held.append(h)
    if not wait_until(lambda: len(accepts(a)) >= n):
        raise Hang("accepting", "%s: %d connections were accepted" % (what, len(accepts(a))))
    extra = socket.socket()
    extra.setblocking(False)
    extra.connect_ex(("127.0.0.1", port))
    time.sleep(0.2)
    for h in held + [extra]:
        h.close()
    st = srv.wait()
    if st != 0:
        raise Violation("status", "%s: the server ended with %s: %s" % (what, cmd_status(st), srv.output()[-300:]))
    if len(accepts(a)) != n:
        raise Violation("limit", "%s: %d connections were accepted" % (what, len(accepts(a))))
    files(a, [], what)
    c.count("evaluations")
    c.count("refused_forks", srv.output().count("fork"))
    c.seen("exhausted", n)


def unlimited(c, a, rng, name, value, count):
    """A negative limit is no limit, and one that is out of reach neither."""
    port = a.port()
    srv = a.server(cfgtext(a, port), port=port, variant=rng.choice(("static", "release")), opts=rng.choice((["-m", value], ["--max-connections=" + value])) if value else [])
    for i in range(count):
        if i % 5 == 4:
            hostile_ = hostile(rng, port, None, {})
            if hostile_:
                hostile_.close()
            continue
        rc, out, err = a.run([a.p("ev"), "exit", "5"], stub="cmd")
        if rc != 5:
            raise Violation("unlimited", "limit %s: connection %d ended with %s" % (value, i, cmd_status(rc)))
    if not srv.alive():
        raise Violation("unlimited", "limit %s: the server exited" % value)
    c.count("evaluations")
    c.count("connections", count)
    c.seen("unlimited", value)


def large(c, a, rng, name, n, value):
    """Limits (or none) beyond 8 and 16 bits: all connections but the last two are dropped at once."""
    port = a.port()
    srv = a.server(cfgtext(a, port), port=port, opts=["-m", str(value)])
    what = "limit %d" % value
    end = time.monotonic() + 240
    for i in range(n - 2):
        if time.monotonic() > end:  # (the machine is too slow for so many)
            c.count("large_given_up")
            return
        try:
            h = Raw(port)
            h.reset()
        except OSError as e:
            raise Violation("limit", "%s: connection %d: %s" % (what, i, e))
        if i % 1000 == 999 and not srv.alive():
            raise Violation("limit", "%s: the server exited after at most %d connections" % (what, i + 1))
    for i in range(2):
        if i == 1:
            time.sleep(0.2)
            if not srv.alive():
                raise Violation("limit", "%s: the server exited after %d connections" % (what, n - 1))
        rc, out, err = a.run([a.p("ev%d" % i), "exit", "3"], stub="cmd")
        if rc != 3:
            raise Violation("limit", "%s: connection %d was not served (%s)" % (what, n - 1 + i, cmd_status(rc)))
    if value >= 0:
        st = srv.wait()
        if st != 0:
            raise Violation("status", "%s: the server ended with %s: %s" % (what, cmd_status(st), srv.output()[-300:]))
        files(a, [], what)
    else:
        rc, out, err = a.run([a.p("ev"), "exit", "5"], stub="cmd")
        if rc != 5 or not srv.alive():
            raise Violation("unlimited", "%s: not served after %d connections (%s)" % (what, n, cmd_status(rc)))
    c.count("evaluations")
    c.count("dropped_connections", n - 2)
    c.seen("large", value, n)


def realtime(c, a, rng, name, t):
    """Real time: served until then, not longer, with sessions that last longer."""
    variant, env = rng.choice((("static", {}), ("release", {}), ("dyn", {"LD_PRELOAD": a.bin + "/shim", "SHIM_JUMP": str(rng.randrange(1 << 30))})))
    port = a.port()
    bg = rng.random() < 0.3
    a.write("d", rng.randbytes(50000))
    t0 = time.monotonic()
    srv = a.server(cfgtext(a, port), port=port, variant=variant, env=env, opts=rng.choice((["-t", str(t)], ["--timeout=%d" % t])) + (["-b", "-p", a.p("sv", "pid")] if bg else []), wait=False)
    ready = wait_until(lambda: listening(port) or not srv.alive(), step=0.0005)
    pid = srv.pid
    if bg:
        srv.wait()
        if not wait_until(lambda: a.read("sv/pid").endswith(b"\n") or not listening(port)):
            raise Hang("pidfile", "no PID file")
        pid = int(a.read("sv/pid") or 0)
    what = "limit of %d ms%s" % (t, ", background" if bg else "")
    long_ = a.client([a.p("evl"), "r", a.p("in"), "-1", "0", "0", "sleep", str(t + 300), "w", "1", a.p("d"), "0", "50000", "0", "0", "exit", "3"], stub="cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE) if t >= 300 else None
    n = 0
    last = 0
    exited = lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"
    while t >= 300:
        s = time.monotonic() - t0
        if s > t / 1000 - 0.1:
            break
        rc, out, err = a.run([a.p("ev"), "exit", "5"], stub="cmd")
        e = time.monotonic() - t0
        if e < t / 1000 - 0.001 and rc != 5:
            raise Violation("early", "%s: a client that was there %d to %d ms after the start ended with %s" % (what, s * 1000, e * 1000, cmd_status(rc)))
        n += 1
        time.sleep(t / 1000 / 12)
    if long_:
        rc, out, err = drive(long_, [(b"x", 0)])
        if rc != 3 or out != a.read("d"):
            raise Violation("sessions", "%s: a session lasting longer ended with %s and %d bytes" % (what, cmd_status(rc), len(out)))
    if not wait_until(exited, step=0.0005):
        raise Hang("server-hang", "%s: the server does not exit" % what)
    el = time.monotonic() - t0
    if el < t / 1000 - 0.002:
        raise Violation("early", "%s: the server exited after %d ms" % (what, el * 1000))
    if not bg and srv.wait() != 0:
        raise Violation("status", "%s: the server ended with %s" % (what, cmd_status(srv.wait())))
    files(a, [], what)
    c.count("evaluations")
    c.count("realtime_sessions", n)
    c.seen("realtime", t, variant, bg)


def virtual(c, a, rng, name, t):
    """Virtual time: any duration, exact to the millisecond (waiting takes no time; the clock the server sees jumps ahead)."""
    port = a.port()
    env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_LOG": a.p("shim.log"), "SHIM_WARP": "60", "SHIM_FAR": str(t), **({"SHIM_JUMP": str(rng.randrange(1 << 30))} if rng.random() < 0.5 else {})}
    srv = a.server(cfgtext(a, port), port=port, variant="dyn", env=env, opts=["-t", str(t)], wait=False)
    n = 0
    for i in range(rng.choice((0, 1, 2))):
        p = a.client([a.p("ev"), "exit", "5"], stub="cmd", confname="k.conf")
        drive(p)
        n += 1
    st = srv.wait()
    if st != 0:
        raise Violation("status", "limit of %d ms: the server ended with %s" % (t, cmd_status(st)))
    e = exits(a)
    if len(e) != 1:
        raise HarnessError("no exit time: %r" % a.read("shim.log"))
    if e[0] < t - 1:
        raise Violation("early", "limit of %d ms: the server stopped after %d ms of its time" % (t, e[0]))
    if e[0] > t + 5000:
        raise Violation("late", "limit of %d ms: the server stopped after %d ms of its time" % (t, e[0]))
    files(a, [], "limit of %d ms" % t)
    c.count("evaluations")
    c.count("virtual_ms", t)
    c.seen("virtual", t)


def never(c, a, rng, name, t):
    """Limits that cannot be reached: negative ones, and those beyond any uptime."""
    port = a.port()
    env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_LOG": a.p("shim.log"), "SHIM_WARP": "1"} if t is None or t < 0 else {}
    srv = a.server(cfgtext(a, port), port=port, variant="dyn", env=env, opts=["-t", str(t)] if t is not None else [])
    for i in range(4):
        time.sleep(0.03)
        rc, out, err = a.run([a.p("ev"), "exit", "5"], stub="cmd")
        if rc != 5 or not srv.alive():
            raise Violation("unlimited", "time limit %s: the server is gone (client %s)" % (t, cmd_status(rc)))
    if srv.stop() != 0:
        raise Violation("status", "the server ended with %s" % cmd_status(srv.p.returncode))
    c.count("evaluations")
    c.seen("never", t)


def storm(c, a, rng, name, t, span=12):
    """The time is up while connections come in faster than they can be accepted."""
    port = a.port()
    variant = rng.choice(("static", "release"))
    srv = a.server(cfgtext(a, port), port=port, variant=variant, opts=["-t", str(t)], wait=t > 0)
    a.popen([a.bin + "/probe", "storm", str(port), str(span), "4"], stdout=subprocess.PIPE)
    st = srv.wait(span - 3, "server with connections coming in all the time and a limit of %d ms" % t)
    if st != 0:
        raise Violation("status", "connection storm: the server ended with %s: %s" % (cmd_status(st), srv.output()[-300:]))
    files(a, [], "connection storm")
    c.count("evaluations")
    c.count("storms")
    c.seen("storm", t, variant)


def check():
    subreaper()
    c = Check("C11", "exploration",
              "connection limits 0-9 with more clients than that in parallel, and with sessions of all kinds (hostile, closed at once, killed) counted one by one, the accepted connections counted at the system call; negative limits; "
              "time limits in real time with sessions shortly before and beyond the limit, and up to 49 days and more in virtual time, exact on the server's own clock. distinct = different (limit, kind, build).", ["static", "release", "dyn", "shim"], workers=6)
    for t in (0, 700, 2000):
        c.add_long("storm-%d" % t, storm, t=t)
    for n, value in ((66000, 66000), (66000, -1), (300, 300)):
        c.add_long("large-%d" % value, large, n=n, value=value)
    for i, n in enumerate((12, 20) * (4 if THOROUGH else 1)):
        c.add("exhausted-%d" % i, exhausted, n=n)
    for how in ("time", "connections"):
        for daemon in (False, True):
            c.add_long("long-%s-%d" % (how, daemon), long_session, daemon=daemon, how=how, span=LONG)
    k = 8 if THOROUGH else 1
    for r in range(k):
        for n in (0, 1, 2, 3, 5, 9):
            for kind in ("parallel", "mixed", "background", "plain") if n < 9 else ("parallel", "mixed"):
                c.add("limit-%d-%s-%d" % (n, kind, r), limit, n=n, kind=kind)
        for v in (None, "-1", "-2", "-1000000", "65536", "2147483648", "4294967297", "8589934592", "9223372036854775807", "-4294967294", "-9223372036854775808"):
            c.add("unlimited-%s-%d" % (v, r), unlimited, value=v, count=25)
        for t in (0, 1, 50, 400, 800) + ((1500, 3000) if THOROUGH else ()):
            c.add("realtime-%d-%d" % (t, r), realtime, t=t)
        for t in (0, 1, 999, 1000, 60000, 3600001, 86400000, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 12345, 10 ** 10, 31 * 10 ** 9):
            c.add("virtual-%d-%d" % (t, r), virtual, t=t)
        for t in (None, -1, -5, -2 ** 40, 10 ** 15, 2 ** 63 - 1, -2 ** 63):
            c.add("never-%s-%d" % (t, r), never, t=t)
    return c
