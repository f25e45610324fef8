"""C06: sessions always make progress and never spin while idle."""
import os, subprocess, threading, time
from k8 import *


def duplex(c, a, rng, name, runs, cap):
    """Large traffic in all directions at once."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        n = rng.randrange(cap // 10, cap)
        d = data(rng, n)
        reply = data(rng, rng.randrange(cap // 10, cap))
        a.write("reply", reply)
        mode = rng.choice(("cat", "write-first", "both", "three", "never-read", "late-read"))
        w = lambda fd: ["w", fd, a.p("reply"), 0, len(reply), rng.choice((0, 4096, 70000)), 0]
        got = "in%d" % r
        rd = ["r", a.p(got), -1, rng.choice((0, 4096)), 0]
        exp, want_in = {1: reply, 2: b""}, d
        if mode == "cat":
            args, exp, want_in = ["cat", rng.choice((0, 5000))], {1: d, 2: b""}, None
        elif mode == "write-first":
            args, exp = w(1) + w(2) + rd, {1: reply, 2: reply}
        elif mode == "both":
            args = ["("] + w(1) + [")"] + rd + ["wait"]
        elif mode == "three":
            args, exp = ["("] + w(1) + [")", "("] + w(2) + [")"] + rd + ["wait"], {1: reply, 2: reply}
        elif mode == "late-read":  # stdin has filled everything before it is read
            args = ["waitfile", a.p("go%d" % r)] + rd + w(1)
        else:
            args, want_in = w(1), None
        args += ["exit", 2]
        cenv = env and shim_env(a, rng)
        p = a.client([a.p("ev")] + [str(x) for x in args], stub="cmd", variant=variant, env=cenv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        slow = rng.choice((None, (65536, 0.003, 100), (1000, 0.002, 200)))
        slow2 = rng.choice((None, (4096, 0.003, 100)))
        noise = [(rng.choice((0.05, 0.3)), lambda: a.write("go%d" % r, b""))] if mode == "late-read" else None
        rc, out, err = drive(p, [(d, 0)], slow, slow2, noise=noise, shaky=(a, rng) if rng.random() < 0.3 else None)
        if out != exp[1]:
            raise Violation("stdout", "%s: %s" % (mode, describe_diff("stdout", exp[1], out)))
        if err != exp[2]:
            raise Violation("stderr", "%s: %s" % (mode, describe_diff("stderr", exp[2], err)))
        if want_in is not None and a.read(got) != want_in:
            raise Violation("stdin", "%s: %s" % (mode, describe_diff("stdin", want_in, a.read(got))))
        if rc != 2:
            raise Violation("status", "%s: client ended with %s instead of exit 2" % (mode, cmd_status(rc)))
        c.count("evaluations")
        c.count("mode_" + mode)
        c.count("bytes_transferred", n + len(out) + len(err))
        c.seen("duplex", mode, variant, n, len(reply))
        c.sample(case=name, mode=mode, build=variant, stdin=n, stdout=len(out), stderr=len(err))


def starvation(c, a, rng, name, way):
    """One stream carries a never-ending flow; all the others have to arrive all the same."""
    variant = rng.choice(("static", "release", "dyn"))
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant)
    token = rng.randbytes(rng.choice((1, 100, 9000)))
    a.write("tok", token)
    stop = threading.Event()
    got = {1: 0, 2: b"", "t": b""}
    if way in ("stdout", "stderr"):
        fl, other = (1, 2) if way == "stdout" else (2, 1)
        args = ["(", "flood", fl, rng.choice((100, 4096, 65536)), ")", "r", a.p("in"), len(token), 0, 0, "mark", "input", "w", other, a.p("tok"), 0, len(token), 0, 0, "waitfile", a.p("go")]
    else:  # a never-ending stdin, which something consumes
        fl, other = 0, rng.choice((1, 2))
        args = ["(", "r", "/dev/null", -1, 0, 0, ")", "sleep", 100, "w", other, a.p("tok"), 0, len(token), 0, 0, "waitfile", a.p("go")]
    p = a.client([a.p("ev")] + [str(x) for x in args], stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    fds = {1: p.stdout, 2: p.stderr}
    token_seen = threading.Event()

    def drain(k):
        buf = b""
        while not stop.is_set():
            d = os.read(fds[k].fileno(), 1 << 16)
            if not d:
                break
            if k == other:
                buf += d
                if len(buf) >= len(token):
                    got["t"] = buf
                    token_seen.set()
            else:
                got[1] += len(d)

    def feed():
        try:
            if fl == 0:
                for _ in range(3000):  # 190 MB at most
                    if stop.is_set():
                        break
                    os.write(p.stdin.fileno(), b"z" * 65536)
                    got[1] += 65536
            else:
                time.sleep(0.05)
                os.write(p.stdin.fileno(), token)
        except OSError:
            pass
    ts = [threading.Thread(target=drain, args=(k,), daemon=True) for k in (1, 2)] + [threading.Thread(target=feed, daemon=True)]
    for t in ts:
        t.start()
    ok = token_seen.wait(WATCHDOG)
    flow = got[1]
    stop.set()
    if p.poll() is not None:
        raise Violation("ended", "client ended with %s during a continuous flow" % cmd_status(p.returncode))
    if not ok:
        raise Hang("starved", "%s flows (%d bytes so far), and stream %d or the input gets nothing through" % (way, flow, other))
    if got["t"] != token:
        raise Violation("data", "wrong data on stream %d" % other)
    if fl and a.read("in") != token:
        raise Violation("data", "wrong input")
    p.kill()
    c.count("evaluations")
    c.count("flood_bytes", flow)
    c.seen("starvation", way, variant, len(token))


def cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return int(s[11]) + int(s[12])
    except OSError:
        return None


IDLE = ["plain", "stdin-ended", "stdin-devnull", "close0", "close1", "close2", "close12", "close012", "close0-ended", "exited-child", "unread-stdin", "close1-ended", "close2-unread", "after-data", "consumer-stalled", "close02", "close0-data", "close01-data", "unread-file", "unread-piped-ended"]


def idle(c, a, rng, name, state, span):
    """Nothing happens in a session that is in some state: nobody uses the processor."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, variant=variant)
    a.write("d", b"d" * 400000)
    args = []
    if state.startswith("close"):
        args += [x for f in state.split("-")[0][5:] for x in ("close", f)]
    if state == "after-data":
        args += ["r", a.p("in"), 100000, 0, 0, "w", 1, a.p("d"), 0, 100000, 0, 0]
    if state == "consumer-stalled":
        args += ["(", "w", 1, a.p("d"), 0, 400000, 0, 0, ")"]
    tail = ["mark", "ready", "waitfile", a.p("go"), "exit", 5]
    if state == "exited-child":
        args += ["(", *tail, ")", "exit", 5]
    else:
        args += tail
    stdin = subprocess.DEVNULL if state == "stdin-devnull" else subprocess.PIPE
    if state == "unread-file":
        stdin = open(a.p("d"), "rb")
    p = a.client([a.p("ev")] + [str(x) for x in args], stub="cmd", variant=variant, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    th = None
    if state == "unread-file":
        stdin.close()
    if state == "unread-piped-ended":
        def feed():
            try:
                for _ in range(30):
                    os.write(p.stdin.fileno(), b"u" * 10000)
            except OSError:
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        th.join(WATCHDOG)
    if state in ("unread-stdin", "close2-unread", "after-data", "close0-data", "close01-data"):
        def feed():
            try:
                if state.endswith("unread"):
                    os.write(p.stdin.fileno(), b"u" * 300000)
                elif "data" in state and state != "after-data":
                    time.sleep(0.2)
                    for _ in range(5):
                        os.write(p.stdin.fileno(), b"u" * 1000)
                        time.sleep(0.02)
                else:
                    os.write(p.stdin.fileno(), b"u" * (300000 if state == "unread-stdin" else 100000))
            except OSError:
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
    if state == "after-data":
        n = 0
        while n < 100000:
            d = readsome(p.stdout.fileno(), 65536)
            if not d:
                raise Violation("ended", "the output ends after %d bytes in state %s" % (n, state))
            n += len(d)
    if "ended" in state:
        p.stdin.close()
    if not wait_until(lambda: any(e[0] == "ready" for e in a.events()) or p.poll() is not None):
        raise Hang("start", "command does not get ready")
    if p.poll() is not None:
        raise Violation("ended", "client ended with %s in state %s" % (cmd_status(p.returncode), state))
    time.sleep(0.4)
    sessions = [pid for pid, (n, st, pp) in a.pids().items() if pp == srv.pid]
    pids = [("server", srv.pid), ("client", p.pid)] + [("session", s) for s in sessions]
    before = [cpu(pid) for _, pid in pids]
    time.sleep(span)
    after = [cpu(pid) for _, pid in pids]
    if p.poll() is not None:
        raise Violation("ended", "client ended with %s in state %s" % (cmd_status(p.returncode), state))
    limit = span * os.sysconf("SC_CLK_TCK") * 0.3
    for (what, pid), x, y in zip(pids, before, after):
        if x is not None and y is not None and y - x > limit:
            raise Hang("spin", "%s used %d of %d ticks while idle in state %s" % (what, y - x, span * os.sysconf("SC_CLK_TCK"), state))
        c.count("processes_watched")
        if x is not None and y is not None:
            c.count("ticks_used", y - x)
    a.write("go", b"")
    rc, out, err = drive(p, [] if p.stdin and not p.stdin.closed else None) if p.stdin and not p.stdin.closed else drive_noin(p)
    if rc != 5:
        raise Violation("status", "client ended with %s after idling in state %s" % (cmd_status(rc), state))
    c.count("evaluations")
    c.seen("idle", state, variant)


def drive_noin(p):
    p.stdin = None
    return drive(p)


def pending(c, a, rng, name, mb):
    """Much input has to wait: passing it on then takes time in proportion to it (not to its square)."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, variant=variant)
    block = rng.randbytes(1 << 20)
    p = a.client([a.p("ev"), "sleep", "2500", "r", "/dev/null", "-1", "0", "0", "mark", "read", "exit", "9"], stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    most = {}
    t = threading.Thread(target=feed_blocks, args=(p, block, mb), daemon=True)
    t.start()
    end = time.monotonic() + 2 * WATCHDOG
    while p.poll() is None:
        for pid, (n, st, pp) in a.pids().items():
            if n != "probe":
                most[pid] = max(most.get(pid, 0), cpu(pid) or 0)
        used = max(most.values(), default=0) / os.sysconf("SC_CLK_TCK")
        if used > 10:
            raise Violation("time", "%d MB of input that have to wait for 2.5 seconds: a process has already used %.1f s of processor time" % (mb, used))
        if time.monotonic() > end:
            raise Hang("no-progress", "%d MB of input that have to wait for 2.5 seconds: no end after %d s" % (mb, 2 * WATCHDOG))
        time.sleep(0.1)
    t.join()
    if p.returncode != 9:
        raise Violation("status", "%d MB of input: ended with %s: %r" % (mb, cmd_status(p.returncode), p.stderr.read()[-300:]))
    c.count("evaluations")
    c.count("megabytes_pending", mb)
    c.seen("pending", variant)


def feed_blocks(p, block, n):
    try:
        for _ in range(n):
            p.stdin.write(block)
        p.stdin.close()
    except OSError:
        pass


def idle_server(c, a, rng, name, opts, conf_opts):
    """Servers without sessions, and clients waiting for a server."""
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, opts=opts)
    other = a.port()
    a.write("w.conf", "connectTimeoutMs = -1\n" + plain_conf(a, other))
    p = a.client(["x"], stub="cmd", confname="w.conf")
    for rc in range(3):  # sessions before
        st, out, err = a.run([a.p("ev"), "exit", "0"], stub="cmd")
        if st:
            raise Violation("status", "client ended with %s" % cmd_status(st))
    time.sleep(0.2)
    t0 = cpu(srv.pid), cpu(p.pid)
    time.sleep(1)
    t1 = cpu(srv.pid), cpu(p.pid)
    for what, x, y in zip(("server", "waiting client"), t0, t1):
        if x is None or y is None:
            raise Violation("ended", "%s ended" % what)
        if y - x > 30:
            raise Hang("spin", "%s used %d of 100 ticks while idle" % (what, y - x))
    c.count("evaluations")
    c.seen("idle-server", tuple(opts))


def check():
    c = Check("C06", "exploration",
              "simultaneous bulk transfers in all directions with slow, late or absent consumers, run to completion; never-ending flows on one stream while the other streams have to get through; "
              "processor time of client, session and server measured in every combination of open/closed/ended/unread streams. distinct = different (scenario, build, sizes).", ["static", "release", "dyn", "shim"])
    k = 8 if THOROUGH else 1
    c.add("pending-0", pending, mb=300)
    for i, s in enumerate(IDLE * (2 if THOROUGH else 1)):
        c.add("idle-%s-%d" % (s, i), idle, state=s, span=2 if THOROUGH else 1)
    for o in ([], ["-t", "100000"], ["-m", "100"]):
        c.add("idle-server-%s" % "".join(o), idle_server, opts=o, conf_opts="")
    for i in range(3 * k):
        for w in ("stdout", "stderr", "stdin"):
            c.add("starvation-%s-%d" % (w, i), starvation, way=w)
    for i in range(14 * k):
        c.add("duplex-%d" % i, duplex, runs=3, cap=4000000 if THOROUGH else 1500000)
    return c
