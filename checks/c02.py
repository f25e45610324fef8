"""C02: the command's stdin is exactly the client's stdin, then end of file."""
import os, subprocess, threading, time
from k8 import *
from c01 import segments


def us():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000


def plan_feed(rng, d):
    """Splits the data into chunks with pauses."""
    if not d:
        return []
    k = rng.random()
    if k < 0.3:
        return [(d, 0)]
    cuts = sorted(set(rng.randrange(0, len(d)) for _ in range(rng.choice((1, 2, 5, 20)))) | {0}) + [len(d)]
    delay = rng.choice((0, 0, 0.001, 0.01))
    return [(d[x:y], delay) for x, y in zip(cuts, cuts[1:])]


def session(c, a, rng, name, runs, cap):
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        n = 0 if rng.random() < 0.08 else size(rng, cap)
        if rng.random() < 0.3:
            n = rng.randrange(100000, cap)
        d = data(rng, n)
        mode = rng.choice(("all", "all", "all", "partial", "close", "ignore", "cat", "exitearly"))
        kind = rng.choice(("pipe", "pipe", "file"))
        ev, got = "ev%d" % r, "in%d" % r
        reply = data(rng, size(rng, 100000))
        a.write("reply", reply)
        code = rng.choice((0, 5, 255))
        w = lambda fd: ["w", str(fd), a.p("reply"), "0", str(len(reply)), str(rng.choice((0, 5000))), "0"]
        exp = {1: reply, 2: b""}
        chunk, delay = str(rng.choice((0, 1 + rng.randrange(100, 9000), 4096, 65536))), str(rng.choice((0, 0, 0, 50, 1000)) if n < 100000 else 0)
        if mode == "all":
            args = ["r", a.p(got), "-1", chunk, delay] + w(1)
        elif mode == "partial":
            k = rng.randrange(0, n + 1)
            args = ["r", a.p(got), str(k), "0", "0"] + w(1) + (["sleep", str(rng.choice((5, 50)))] if rng.random() < 0.5 else [])
        elif mode == "close":
            k = rng.randrange(0, n + 1)
            args = ["r", a.p(got), str(k), "0", "0", "close", "0", "sleep", str(rng.choice((0, 20)))] + w(2)
            exp = {1: b"", 2: reply}
        elif mode == "cat":
            args, exp = ["cat", chunk], {1: d, 2: b""}
        elif mode == "ignore":
            args = ["sleep", str(rng.choice((0, 10, 60)))] + w(1)
        else:
            args, exp = [], {1: b"", 2: b""}
        args += ["exit", str(code)]
        cenv = env and shim_env(a, rng)
        closed_at = [None]
        shaky = (a, rng) if rng.random() < 0.3 else None
        c.count("sessions_with_stopped_processes", bool(shaky))
        feed = plan_feed(rng, d)
        holdopen = kind == "pipe" and mode == "all" and rng.random() < 0.4
        if holdopen:
            feed.append((b"", rng.choice((0.02, 0.1))))  # stdin stays open for a while without data
        if kind == "file":
            a.write("stdin", d)
            with open(a.p("stdin"), "rb") as f:
                p = a.client([a.p(ev)] + args, stub="cmd", variant=variant, env=cenv, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                rc, out, err = drive(p, shaky=shaky)
        else:
            p = a.client([a.p(ev)] + args, stub="cmd", variant=variant, env=cenv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

            class Feed(list):
                def __iter__(self):
                    for x in feed:
                        yield x
                    closed_at[0] = us()
            rc, out, err = drive(p, Feed(), shaky=shaky)
        if out != exp[1]:
            raise Violation("stdout", "%s: %s" % (mode, describe_diff("stdout", exp[1], out)))
        if err != exp[2]:
            raise Violation("stderr", "%s: %s" % (mode, describe_diff("stderr", exp[2], err)))
        if rc != code:
            raise Violation("status", "%s: client ended with %s instead of exit %d (stdin of %d bytes)" % (mode, cmd_status(rc), code, n))
        if mode in ("all", "partial", "close"):
            want = d if mode == "all" else d[:k]
            g = a.read(got)
            if g != want:
                raise Violation("stdin", "%s: %s" % (mode, describe_diff("stdin", want, g)))
            e = [x for x in a.events(ev) if x[0] == "read"]
            if len(e) != 1:
                raise Violation("stdin", "no single read event: %r" % e)
            if mode == "all" and (e[0][2] != 1 or (closed_at[0] and e[0][4] < closed_at[0])):
                raise Violation("eof", "end of file %s" % ("missing" if e[0][2] != 1 else "before the client's stdin ended"))
            c.count("bytes_checked", len(g))
        c.count("evaluations")
        c.count("mode_" + mode)
        c.seen("session", mode, kind, variant, n)
        c.sample(case=name, mode=mode, stdin_bytes=n, kind=kind, build=variant, chunks=len(feed), status=rc)


def raw(c, a, rng, name, runs):
    """Scripted client: any framing and segmentation of stdin data."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        mode = rng.choice(("all", "all", "partial"))
        ev, got = "ev%d" % r, "in%d" % r
        pieces = [data(rng, rng.choice((1, 5, size(rng, 150000), 8187, 8192, 8179 + rng.randrange(12)))) for _ in range(rng.choice((0, 1, 2, 5, 30)))]
        pieces = [x for x in pieces if x]
        d = b"".join(pieces)
        k = rng.randrange(0, len(d) + 1)
        args = ["r", a.p(got), "-1" if mode == "all" else str(k), "0", "0", "exit", "6"]
        stream = request("cmd", [a.p(ev)] + args) + b"".join(frame(IN, x) for x in pieces) + frame(IN)
        conn = Raw(port)
        cuts = segments(rng, len(stream))

        def send():
            try:
                conn.send(stream, cuts, 0.0003)
            except OSError:
                pass
        t = threading.Thread(target=send, daemon=True)
        t.start()
        out, err, status, closed, n = conn.collect()
        conn.close()
        t.join()
        want = d if mode == "all" else d[:k]
        g = a.read(got)
        if g != want:
            raise Violation("stdin", "raw %s: %s" % (mode, describe_diff("stdin", want, g)))
        e = [x for x in a.events(ev) if x[0] == "read"]
        if mode == "all" and (len(e) != 1 or e[0][2] != 1):
            raise Violation("eof", "end of file missing: %r" % e)
        if status != 6 or out or err:
            raise Violation("status", "raw: status %r instead of 6, output %r %r" % (status, out[:50], err[:50]))
        if closed.count(IN) > 1 or closed.count(OUT) > 1 or closed.count(ERR) > 1:
            raise Violation("close", "stream closed more than once: %r" % closed)
        c.count("evaluations")
        c.count("raw_messages", len(pieces))
        c.seen("raw", mode, variant, len(d), len(cuts))


def fake(c, a, rng, name, runs):
    """Scripted server: what the real client sends for its stdin is exactly its stdin, then one end of file, and nothing after being told that stdin is closed matters."""
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    variant, env = pick_variant(a, rng)
    try:
        for r in range(runs):
            d = data(rng, size(rng, 500000))
            p = a.client(["x"], stub="cmd", variant=variant, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            conn = fs.accept()
            res = {}

            def serve():
                fs.request(conn)
                got, eofs = b"", 0
                pace = rng.choice((0, 0, 0.001))
                while True:
                    f = conn.frame()
                    if f is None:
                        res["bad"] = "client closed the connection"
                        return
                    if f[0] != IN:
                        res["bad"] = "unexpected message %d" % f[0]
                        return
                    if not f[1]:
                        break
                    got += f[1]
                    if pace:
                        time.sleep(pace)
                res["got"] = got
                conn.s.settimeout(0.02)
                try:
                    more = conn.frame()
                    res["bad"] = "message after end of file: %r" % (more,)
                except Hang:
                    pass
                conn.s.settimeout(WATCHDOG)
                try:
                    conn.send(frame(OUT, b"done") + frame(EXIT, 4))
                except OSError:
                    pass
            t = threading.Thread(target=serve, daemon=True)
            t.start()
            rc, out, err = drive(p, plan_feed(rng, d))
            t.join(WATCHDOG)
            conn.close()
            if "bad" in res:
                raise Violation("client-stdin", res["bad"])
            if res.get("got") != d:
                raise Violation("client-stdin", describe_diff("sent stdin", d, res.get("got", b"")))
            if rc != 4 or out != b"done" or err:
                raise Violation("status", "client ended with %s, %r %r" % (cmd_status(rc), out, err))
            c.count("evaluations")
            c.seen("fake", variant, len(d))
    finally:
        fs.close()


def waits(c, a, rng, name, kind, span):
    """Input that pauses, or is not read, for a long time."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant)
    ms = str(int(span * 1000))
    d = data(rng, 3000000 if kind in ("unread", "unread-closed-outputs") else 30000, "random")
    half = len(d) // 3
    read = ["r", a.p("in"), "-1", "0", "0"]
    feed = [(d, 0)]
    args = {"pause": read, "late-start": read, "hold": read, "raw": read, "unread": ["sleep", ms] + read, "unread-small": ["sleep", ms] + read,
            "unread-closed-outputs": ["close", "1", "close", "2", "sleep", ms] + read, "file": ["sleep", ms] + read}[kind] + ["exit", "6"]
    if kind == "pause":
        feed = [(d[:half], span), (d[half:], 0)]
    elif kind == "late-start":
        feed = [(b"", span), (d, 0)]
    elif kind == "hold":
        feed = [(d, span)]
    if kind == "raw":  # the request and a message of input stall in the middle
        stream = request("cmd", [a.p("ev")] + args) + frame(IN, d) + frame(IN)
        conn = Raw(port, timeout=WATCHDOG + span)
        at = rng.randrange(1, len(stream) - len(d) - 20)
        conn.send(stream[:at])
        time.sleep(span / 2)
        conn.send(stream[at:len(stream) - 500])
        time.sleep(span / 2)
        conn.send(stream[len(stream) - 500:])
        out, err, rc, closed, n = conn.collect()
        conn.close()
        early = None
    else:
        ended = [None]

        class Feed(list):
            def __iter__(self):
                yield from feed
                ended[0] = us()
        if kind == "file":
            a.write("stdin", d)
            with open(a.p("stdin"), "rb") as f:
                p = a.client([a.p("ev")] + args, stub="cmd", variant=variant, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            rc, out, err = drive(p, timeout=WATCHDOG + 2 * span)
        else:
            p = a.client([a.p("ev")] + args, stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            rc, out, err = drive(p, Feed(), timeout=WATCHDOG + 2 * span)
        early = ended[0]
    e = [x for x in a.events() if x[0] == "read"]
    if a.read("in") != d:
        raise Violation("stdin", "%s for %d s: %s" % (kind, span, describe_diff("stdin", d, a.read("in"))))
    if len(e) != 1 or e[0][2] != 1 or (early and e[0][4] < early):
        raise Violation("eof", "%s for %d s: end of file missing or too early" % (kind, span))
    if rc != 6 or out or err:
        raise Violation("status", "%s for %d s: ended with %r, %r %r" % (kind, span, rc, out[:100], err[:300]))
    c.count("evaluations")
    c.count("sessions_waiting_%d_seconds" % span)
    c.seen("waits", kind, variant)


def bulk(c, a, rng, name, n):
    """A volume of input that no buffer is made for, which the command starts to read only after a while."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant)
    d = rng.randbytes(1 << 20) * (n >> 20) + rng.randbytes(rng.randrange(1 << 20))
    how = rng.choice(("pipe", "file")) if n >> 20 != 20 else "message"
    argv = [a.p("ev"), "sleep", "3000", "r", a.p("in"), "-1", "0", "0", "exit", "6"]
    if how == "message":  # in a single one
        conn = Raw(port, timeout=2 * WATCHDOG)
        conn.send(request("cmd", argv) + frame(IN, d) + frame(IN))
        out, err, rc, closed, _ = conn.collect()
        conn.close()
    elif how == "file":
        a.write("stdin", d)
        with open(a.p("stdin"), "rb") as f:
            p = a.client(argv, stub="cmd", variant=variant, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = drive(p, timeout=3 * WATCHDOG)
    else:
        p = a.client(argv, stub="cmd", variant=variant, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = drive(p, [(d, 0)], timeout=3 * WATCHDOG)
    got = a.read("in")
    if got != d:
        raise Violation("stdin", "%d bytes of input that are read late: %s" % (len(d), describe_diff("stdin", d, got)))
    if rc != 6 or out or err:
        raise Violation("status", "%d bytes of input that are read late: ended with %r, %r %r" % (len(d), rc, out[:100], err[:300]))
    c.count("evaluations")
    c.count("bytes_checked", len(got))
    c.seen("bulk", how, variant, n)


def check():
    c = Check("C02", "exploration",
              "stdin of random size and content (boundaries of 4K/8K/64K buffers up to several 100K), fed from files or in paced chunks, to commands that read all, part, none, close it or exit early; "
              "the bytes and end of file the command observed are compared with what was fed. Scripted clients add arbitrary framing and segmentation, scripted servers check what the client sends. distinct = different (path, mode, build, size).",
              ["static", "release", "dyn", "shim"])
    for kind in ("pause", "late-start", "hold", "raw", "unread", "unread-small", "unread-closed-outputs", "file"):
        c.add_long("waits-" + kind, waits, kind=kind, span=LONG)
    k = 12 if THOROUGH else 1
    for n in (20, 72) + ((140,) if THOROUGH else ()):
        c.add("bulk-%d" % n, bulk, n=n << 20)
    for i in range(28 * k):
        c.add("session-%d" % i, session, runs=6, cap=6000000 if THOROUGH and i % 5 == 0 else 500000)
    for i in range(12 * k):
        c.add("raw-%d" % i, raw, runs=8)
    for i in range(10 * k):
        c.add("fake-%d" % i, fake, runs=5)
    return c
