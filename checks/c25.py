"""C25: the client waits for its server as long as configured, and no longer."""
import os
from k8 import *

SLACK = 3000  # milliseconds of virtual time after the timeout (the longest pause between attempts is a second)


def setup(a, port, timeout):
    text = conf(a, port, ["cmd '%s/probe' '%s' exit 5" % (a.bin, a.p("ev"))])
    a.write("k.conf", ("" if timeout is None else "connectTimeoutMs = %d\n" % timeout) + text)


def log(a):
    attempts, end = [], None
    for l in a.read("shim.log").decode().splitlines():
        w = l.split()
        if w[0] == "connect":
            attempts.append((int(w[1]), int(w[2])))
        elif w[0] == "exit" and end is None:
            end = int(w[2])
    return attempts, end


def warped(a, at, timeout, few_fds=False, warp=1):
    """A client in virtual time; connections are possible from the virtual time 'at'."""
    env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_WARP": str(warp), "SHIM_LOG": a.p("shim.log"), "SHIM_CONNECT_AT": str(at)}
    env["K8PSH_CONFIG"] = a.p("k.conf")
    argv = a.client_argv([], "dyn", stub="cmd")
    if few_fds:
        argv = ["/bin/sh", "-c", "ulimit -n 40; LD_PRELOAD=%s exec \"$@\"" % env.pop("LD_PRELOAD"), "sh"] + argv
    a.write("shim.log", b"")
    os.chmod(a.p("shim.log"), 0o666)
    rc, out, err = finish(a.popen(argv, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    return rc, err, log(a)


def no_server(c, a, rng, name, timeouts):
    port = a.port()
    for t in timeouts:
        setup(a, port, t)
        rc, err, (attempts, end) = warped(a, -1, t, rng.random() < 0.5)
        limit = 30000 if t is None else t
        what = "timeout %r: %d attempts until %r, end at %r" % (t, len(attempts), attempts[-1:], end)
        if rc == 0:
            raise Violation("success", "%s: the client exits with 0 without a server" % what)
        if not attempts:
            raise Violation("no-attempt", "%s: no attempt was made" % what)
        if end is None:
            raise Violation("crash", "%s: the client ended with %s: %r" % (what, cmd_status(rc), err[-300:]))
        if end < limit - 1:
            raise Violation("too-early", "%s: the client gave up too early" % what)
        if end > limit + SLACK:
            raise Violation("too-late", "%s: the client gave up too late" % what)
        c.count("evaluations")
        c.count("attempts_observed", len(attempts))
        c.seen("none", t, len(attempts))
        c.sample(timeout=t, attempts=len(attempts), ended=end)


def late_server(c, a, rng, name, pairs):
    port = a.port()
    setup(a, port, 1000)
    srv = a.server(None, port=port)
    for at, t in pairs:
        setup(a, port, t)
        rc, err, (attempts, end) = warped(a, at, t, rng.random() < 0.5)
        what = "timeout %r, server from %d ms on: %d attempts until %r" % (t, at, len(attempts), attempts[-1:])
        if rc != 5:
            raise Violation("not-served", "%s: the client ended with %s: %r" % (what, cmd_status(rc), err[-300:]))
        if not attempts or not attempts[-1][0]:
            raise Violation("not-served", "%s: no successful attempt" % what)
        if attempts[-1][1] > at + SLACK:
            raise Violation("late", "%s: the client waited for too long before it tried again" % what)
        c.count("evaluations")
        c.count("attempts_observed", len(attempts))
        c.count("late_servers_reached")
        c.seen("late", at, t)
    srv.stop()


def real_time(c, a, rng, name, runs):
    """Without virtual time, with the shipped builds."""
    for i in range(runs):
        a.new()
        port = a.port()
        k = rng.choice(("none", "late", "late-negative", "now", "restart"))
        v, env = rng.choice((("static", {}), ("release", {}), ("dyn", {"LD_PRELOAD": a.bin + "/shim", "SHIM_JUMP": str(rng.randrange(1 << 30))})))
        t = {"none": rng.choice((0, 1, 50, 300, 1100, 1700)), "late": 30000, "late-negative": rng.choice((-1, -30000)), "now": rng.choice((0, 1)), "restart": 30000}[k]
        setup(a, port, t)
        if k in ("now", "restart"):
            srv = a.server(None, port=port, variant=v)
            if k == "restart":
                if a.run([], stub="cmd", variant=v)[0] != 5:
                    raise Violation("not-served", "before a restart")
                srv.stop()
        start = time.monotonic()
        p = a.client([], stub="cmd", variant=v, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if k in ("late", "late-negative", "restart"):
            time.sleep(rng.choice((0.02, 0.1, 0.6, 1.5)))
            if p.poll() is not None:
                raise Violation("gave-up", "timeout %d: the client gave up after %.3f s with %s" % (t, time.monotonic() - start, cmd_status(p.returncode)))
            a.server(None, port=port, variant=v)
        rc, out, err = finish(p, None, what="client with timeout %d (%s)" % (t, k))
        took = (time.monotonic() - start) * 1000
        if k == "none":
            if rc == 0:
                raise Violation("success", "the client exits with 0 without a server")
            if took < t - 2:
                raise Violation("too-early", "timeout %d: the client gave up after %.1f ms" % (t, took))
            if took > t + 10000:
                raise Hang("too-late", "timeout %d: the client gave up after %.1f ms" % (t, took))
        elif rc != 5:
            raise Violation("not-served", "timeout %d, %s server: the client ended with %s after %.1f ms: %r" % (t, k, cmd_status(rc), took, err[-300:]))
        c.count("evaluations")
        c.count("real_time_" + k)
        c.seen("real", k, t, v)


def ephemeral(c, a, rng, name, runs, attempts):
    """Ports without a listener that the system also gives to connecting sockets."""
    for i in range(runs):
        with open("/proc/sys/net/ipv4/ip_local_port_range") as f:
            lo, hi = map(int, f.read().split())
        for _ in range(200):
            port = rng.randrange(lo, hi) // 2 * 2
            s = socket.socket()
            try:
                s.bind(("127.0.0.1", port))
                break
            except OSError:
                continue
            finally:
                s.close()
        t = attempts * 1000
        setup(a, port, t)
        env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_WARP": "1", "SHIM_LOG": a.p("shim.log"), "K8PSH_CONFIG": a.p("k.conf")}
        a.write("shim.log", b"")
        os.chmod(a.p("shim.log"), 0o666)
        rc, out, err = finish(a.popen(a.client_argv([], "dyn", stub="cmd"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE), timeout=100)
        attempted, end = log(a)
        if rc == 0:
            raise Violation("success", "port %d: the client exits with 0 without a server" % port)
        if end is not None and end < t - 1:
            if listening(port):
                raise Inconclusive("something else listens on port %d" % port)
            raise Violation("too-early", "port %d, timeout %d: the client gave up at %d ms: %r" % (port, t, end, err[-300:]))
        if end is None or end > t + SLACK:
            raise Violation("too-late", "port %d, timeout %d: the client gave up at %r ms" % (port, t, end))
        c.count("evaluations")
        c.count("attempts_on_ephemeral_ports", attempts)
        c.seen("ephemeral", port)


def check():
    c = Check("C25", "exploration",
              "clients in virtual time (sleeping is skipped, every connection attempt and the end are recorded) without a server, and with one from a chosen moment on, for timeouts from 0 to 10^6 ms, the default, huge and negative ones, also with few file descriptors; real attempts on ports of the ephemeral range; and in real time with late, restarted and missing servers. distinct = different timeouts, moments and numbers of attempts.",
              ["static", "release", "dyn", "shim"])
    k = 15 if THOROUGH else 1
    r = c.rng("values")
    timeouts = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 100, 999, 1000, 1001, 2000, 5000, 29999, 60000, 300000, 1000000, None] + [r.randrange(0, 3000) for _ in range(20 * k)] + [r.randrange(3000, 200000) for _ in range(8 * k)]
    r.shuffle(timeouts)
    for i in range(8 * k):
        c.add("none-%d" % i, no_server, timeouts=timeouts[i::8 * k])
    pairs = [(0, 0), (0, 1), (0, None), (29000, None), (29990, None), (500000, -1), (900000, -5), (40000, 2**31 - 1), (40000, 2**31), (40000, 2**32), (70000, 2**32 + 5), (40000, 2**63 - 1), (40000, 9223372036854), (40000, 9223372036855), (40000, 10**16), (40000, -2**63), (1000000, -2**31)]
    for _ in range(40 * k):
        t = r.choice((r.randrange(10, 3000), r.randrange(3000, 100000), r.randrange(10, 300)))
        pairs.append((r.choice((t - 5, t - r.randrange(5, 10), r.randrange(0, t - 4))), t))
    r.shuffle(pairs)
    for i in range(8 * k):
        c.add("late-%d" % i, late_server, pairs=pairs[i::8 * k])
    for i in range(8 * k):
        c.add("real-%d" % i, real_time, runs=5)
    for i in range(3 * k):
        c.add("ephemeral-%d" % i, ephemeral, runs=1, attempts=16000)
    return c
