"""C01: a remote command's stdout and stderr are reproduced exactly."""
import os, subprocess, threading, time
from k8 import *
from c32 import through


def compare(c, a, rc, out, err, exp, want_rc, sig, tail_err=b""):
    if out != exp[1]:
        raise Violation("stdout", describe_diff("stdout", exp[1], out))
    if err != exp[2] + tail_err:
        raise Violation("stderr", describe_diff("stderr", exp[2] + tail_err, err))
    if rc != want_rc:
        raise Violation("status", "outputs complete but client ended with %s instead of exit %d" % (cmd_status(rc), want_rc))
    c.count("evaluations")
    c.count("bytes_compared", len(out) + len(err))
    c.seen(*sig, len(out), len(err))


def session(c, a, rng, name, runs, cap):
    """Real server, real client, random writers and readers."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        data_, ops, exp = write_plan(rng, cap)
        a.write("d", data_)
        args = []
        mode = rng.choice(("plain", "plain", "close", "background", "late", "parallel"))
        code = rng.choice((0, 0, 1, 7, 255))
        split = [o for o in ops]
        if mode == "parallel":  # both streams written at the same time by two processes
            args += ["("] + ops_args([o for o in split if o[0] == 1], a.p("d")) + [")", "("] + ops_args([o for o in split if o[0] == 2], a.p("d")) + [")", "wait"]
        elif mode == "background":  # a background child goes on writing after the command itself has exited
            one = ops_args(split, a.p("d"))
            gap = lambda: ["sleep", str(rng.choice((0, 0, 1, 5, 20, 20, 120, 300, 700)))]
            args += ["("] + [x for i in range(0, len(one), 7) for x in gap() + one[i:i + 7]] + [")"]
        elif mode == "close":  # streams are closed in some order, with the command living on
            args += ops_args([o for o in split if o[0] == 1], a.p("d"))
            if rng.random() < 0.7:
                args += ["close", "1"]
            args += ops_args([o for o in split if o[0] == 2], a.p("d"))
            args += ["close", "2"] + (["close", "1"] if rng.random() < 0.5 else []) + ["sleep", str(rng.choice((0, 5, 30)))]
        elif mode == "late":
            args += ["sleep", str(rng.choice((1, 10, 40)))] + ops_args(split, a.p("d"))
        else:
            args += ops_args(split, a.p("d"))
        if rng.random() < 0.2:
            args = ["close", "0"] + args
        args += ["exit", str(code)]
        sink = rng.choice(("pipe", "pipe", "file", "slow"))
        v2 = variant if variant == "dyn" else rng.choice(("static", "release"))
        cenv = env and shim_env(a, rng)
        stdin = rng.choice((subprocess.DEVNULL, subprocess.PIPE))
        feed = [(rng.randbytes(rng.choice((0, 10, 70000))), 0)]
        shaky = (a, rng) if rng.random() < 0.3 else None
        c.count("sessions_with_stopped_processes", bool(shaky))
        if sink == "file":
            with open(a.p("o"), "wb") as fo, open(a.p("e"), "wb") as fe:
                p = a.client([a.p("ev")] + args, stub="cmd", variant=v2, env=cenv, stdin=stdin, stdout=fo, stderr=fe)
                rc, _, _ = drive(p, feed, shaky=shaky)
            out, err = a.read("o"), a.read("e")
        else:
            p = a.client([a.p("ev")] + args, stub="cmd", variant=v2, env=cenv, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            plan = lambda: (rng.choice((100, 4096, 65536)), rng.choice((0.0002, 0.003)), 60) if sink == "slow" else None
            rc, out, err = drive(p, feed, plan(), plan(), shaky=shaky)
        compare(c, a, rc, out, err, exp, code, ("session", mode, sink, variant))
        c.count("sessions_" + mode)
        c.sample(case=name, mode=mode, sink=sink, build=variant, writes=[(o[0], o[2], o[3]) for o in ops][:6], status=rc)


def segments(rng, n):
    """Positions at which a byte stream is cut into segments."""
    k = rng.random()
    if k < 0.2:
        return []
    if k < 0.4:
        return sorted(rng.randrange(1, n) for _ in range(min(n - 1, rng.randrange(1, 12)))) if n > 1 else []
    if k < 0.6:
        step = rng.choice((8192, 8191, 8193, 4096, 1448, 8187, 8197))
        return list(range(step, n, step))[:400]
    if k < 0.8:
        lo = rng.randrange(0, max(1, n - 30))
        return list(range(lo + 1, min(n, lo + 30)))  # one byte at a time somewhere
    step = rng.randrange(1, 700)
    return list(range(step, n, step))[:300]


def fake(c, a, rng, name, runs):
    """Real client against a scripted server: any framing and any segmentation of the connection."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    try:
        for r in range(runs):
            exp = {1: b"", 2: b""}
            stream = b""
            closed = set()
            nframes = rng.choice((1, 2, 3, 6, 20, 60))
            for _ in range(nframes):
                fd = rng.choice((1, 2))
                if fd in closed:
                    continue
                if rng.random() < 0.04:
                    stream += frame(OUT if fd == 1 else ERR)
                    closed.add(fd)
                    continue
                # lengths that put the next header at and around the end of an 8192 byte buffer
                n = rng.choice((size(rng, 60000), max(1, (8192 - (len(stream) + 5) % 8192) + rng.randrange(-6, 7)), rng.randrange(1, 40))) or 1
                d = data(rng, n)
                stream += frame(OUT if fd == 1 else ERR, d)
                exp[fd] += d
                if rng.random() < 0.02:
                    stream += frame(IN)
            code = rng.choice((0, 3, 255))
            stream += b"".join(frame(t) for t in (OUT, ERR) if (1 if t == OUT else 2) not in closed and rng.random() < 0.7)
            stream += frame(EXIT, code)
            stdin = rng.choice((subprocess.DEVNULL, subprocess.PIPE))
            p = a.client([a.p("ev")], stub="cmd", variant=variant, env=env, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            conn = fs.accept()
            fs.request(conn)
            cuts = segments(rng, len(stream))

            def send():
                try:
                    conn.send(stream, cuts, rng.choice((0, 0.0003)) if len(cuts) > 100 else 0.001)
                except OSError:
                    pass
            t = threading.Thread(target=send, daemon=True)
            t.start()
            rc, out, err = drive(p, [(b"in", 0)])
            conn.close()
            t.join()
            compare(c, a, rc, out, err, exp, code, ("fake", variant, len(cuts)))
            c.count("scripted_server_streams")
            c.count("segments", len(cuts) + 1)
    finally:
        fs.close()


def raw(c, a, rng, name, runs, cap):
    """Real server against a scripted client that reads at its own pace."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        d, ops, exp = write_plan(rng, cap)
        a.write("d", d)
        conn = Raw(port)
        conn.send(request("cmd", [a.p("ev")] + ops_args(ops, a.p("d")) + ["exit", "9"]))
        if rng.random() < 0.5:
            time.sleep(rng.choice((0.01, 0.05)))
        out, err, status, closed, n = conn.collect()
        conn.close()
        if status is None:
            raise Violation("status", "connection ended without exit status")
        if closed.count(OUT) > 1 or closed.count(ERR) > 1:
            raise Violation("close", "stream closed more than once: %r" % closed)
        compare(c, a, status, out, err, exp, 9, ("raw", variant))
        c.count("server_messages", n)


def waits(c, a, rng, name, kind, span):
    """Sessions that are quiet, or blocked, for a long time."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    ms = str(int(span * 1000))
    d = data(rng, 3000000)
    a.write("d", d)
    w = lambda fd, off, n: ["w", str(fd), a.p("d"), str(off), str(n), "0", "0"]
    exp = {1: b"", 2: b""}

    def plan(*ops):
        args, off = [], 0
        for o in ops:
            if isinstance(o, tuple):
                args += w(o[0], off, o[1])
                exp[o[0]] += d[off:off + o[1]]
                off += o[1]
            else:
                args += o.split(" ")
        return args
    slow = None
    stdin = subprocess.DEVNULL if kind == "no-stdin" else subprocess.PIPE
    if kind in ("before", "no-stdin"):
        args = plan("sleep " + ms, (1, 20000), (2, 3000))
    elif kind == "between":
        args = plan((1, 20000), (2, 3000), "sleep " + ms, (2, 20000), (1, 30000))
    elif kind == "background":  # the command exits at once, its child goes on writing at growing intervals
        ops, t = ["("], 0.01
        while t < span * 0.38:
            ops += ["sleep %d" % (t * 1000), (rng.choice((1, 2)), rng.choice((1, 9000)))]
            t *= 1.6
        args = plan(*ops, (1, 1), (2, 1), ")")
    elif kind == "background-once":
        args = plan("(", "sleep " + ms, (1, 20000), (2, 20000), ")")
    elif kind == "one-closed":
        args = plan("close 1", "close 0", "sleep " + ms, (2, 30000))
    elif kind == "unread":
        args, slow = plan((1, 2000000)), 1
    elif kind == "unread-one":
        args, slow = plan("(", (2, 2000000), ")", "(", (1, 100), "sleep " + ms, (1, 100), ")", "wait"), 2
    args += ["exit", "9"]
    a.server(plain_conf(a, port), port=port, variant=variant)
    p = a.client([a.p("ev")] + args, stub="cmd", variant=variant, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lazy = (65536, span, 2)
    rc, out, err = drive(p, [(b"x", 0)], lazy if slow == 1 else None, lazy if slow == 2 else None, timeout=WATCHDOG + 3 * span)
    compare(c, a, rc, out, err, exp, 9, ("waits", kind, variant))
    c.count("sessions_waiting_%d_seconds" % span)


def stalls(c, a, rng, name, span):
    """A connection that stalls anywhere in a message for a long time."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    try:
        ps = []
        d = data(rng, 60000)
        for where in ("before", "header", "payload", "end", "exit"):
            stream = frame(OUT, d[:30000]) + frame(ERR, d[30000:]) + frame(OUT) + frame(ERR) + frame(EXIT, 4)
            cut = {"before": 0, "header": 3, "payload": 15000, "end": 30005, "exit": len(stream) - 2}[where]
            p = a.client([a.p("ev")], stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            conn = fs.accept()
            fs.request(conn)
            conn.send(stream[:cut])
            t = threading.Thread(target=lambda conn=conn, rest=stream[cut:]: (time.sleep(span), conn.send(rest)), daemon=True)
            t.start()
            res = []
            u = threading.Thread(target=lambda p=p, res=res: res.append(drive(p, [(b"", 0)], timeout=WATCHDOG + span)), daemon=True)
            u.start()
            ps.append((where, u, res, conn))
        for where, u, res, conn in ps:
            u.join()
            if not res:
                raise Hang("hang", "client of a stalled server did not finish")
            rc, out, err = res[0]
            compare(c, a, rc, out, err, {1: d[:30000], 2: d[30000:]}, 4, ("stalls", where, variant))
            conn.close()
    finally:
        fs.close()


def check():
    c = Check("C01", "exploration",
              "random sequences of writes/closes by a real command (sizes around 4K/8K/64K buffer boundaries, adversarial contents, background writers, parallel streams) through the real server and client, "
              "scripted servers with arbitrary framing and segmentation against the real client, scripted clients against the real server; builds: shipped, release, and one with injected short transfers and delays. "
              "distinct = different (path, mode, build, output lengths).", ["static", "release", "dyn", "shim"])
    for kind in ("before", "between", "background", "background-once", "no-stdin", "one-closed", "unread", "unread-one"):
        c.add_long("waits-" + kind, waits, kind=kind, span=LONG)
    c.add_long("huge", through, volume=(9000 if THOROUGH else 4500) << 20)  # (beyond 32 bits)
    c.add_long("stalls", stalls, span=LONG)
    k = 12 if THOROUGH else 1
    for i in range(28 * k):
        c.add("session-%d" % i, session, runs=5, cap=8000000 if THOROUGH and i % 5 == 0 else 400000)
    for i in range(16 * k):
        c.add("fake-%d" % i, fake, runs=10)
    for i in range(8 * k):
        c.add("raw-%d" % i, raw, runs=6, cap=300000)
    return c
