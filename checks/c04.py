"""C04: a broken or invalid connection is never reported as success."""
import os, signal, subprocess, threading, time
from k8 import *
from c01 import segments


def build_stream(rng, small):
    """A complete server-to-client stream: (bytes, [(end offset, stream, bytes)], exit code)"""
    s, parts = b"", []
    closed = set()
    for _ in range(rng.choice((0, 1, 2, 4)) if small else rng.choice((2, 5, 12))):
        t = rng.choice((OUT, ERR))
        if t in closed:
            continue
        k = rng.random()
        if k < 0.1:
            s += frame(t)
            closed.add(t)
        elif k < 0.15:
            s += frame(IN)
        else:
            d = data(rng, rng.randrange(1, 12) if small else max(1, size(rng, 20000)))
            s += frame(t, d)
            parts.append((t, d))
    return s + frame(EXIT, 0), parts


def expected(parts):
    return b"".join(d for t, d in parts if t == OUT), b"".join(d for t, d in parts if t == ERR)


def run_one(c, a, rng, fs, stream, cuts, end, variant, env):
    """The client gets the stream (cut at cuts), and then the connection ends."""
    p = a.client(["x"], stub="cmd", variant=variant, env=env, stdin=rng.choice((subprocess.DEVNULL, subprocess.PIPE)), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    conn = fs.accept()
    when = rng.random()
    hold = [None]
    if end != "before-request" and when < 0.9:
        fs.request(conn)

    def serve():
        try:
            conn.send(stream, cuts, 0.001)
            if end == "reset":
                if rng.random() < 0.5:
                    time.sleep(0.01)
                conn.reset()
            elif end == "fin":
                conn.s.shutdown(1)
            elif end == "close":
                conn.s.close()
        except OSError:
            pass
    t = threading.Thread(target=serve, daemon=True)
    t.start()
    if p.stdin:
        feed = [(b"i" * rng.choice((0, 5, 3000)), 0)]
    rc, out, err = drive(p, feed if p.stdin else None)
    t.join(WATCHDOG)
    conn.close()
    return rc, out, err


def check_result(c, rc, out, err, parts, what, complete=False):
    eo, ee = expected(parts)
    if not complete and rc == 0:
        raise Violation("success", "client exited with 0 although %s" % what)
    if complete and rc != 0:
        raise Violation("status", "client ended with %s although the stream was complete" % cmd_status(rc))
    if not eo.startswith(out) or (complete and eo != out):
        raise Violation("prefix", "%s: stdout is not a prefix of what was sent: %s" % (what, describe_diff("stdout", eo, out)))
    # the client may add its own error message to stderr after what it has received
    n = first_diff(ee, err)
    if n < len(ee) and n < len(err) and not err[n:].startswith(b"[") and b"terminate called" not in err[n:n + 80]:
        raise Violation("prefix", "%s: stderr is not a prefix of what was sent: %s" % (what, describe_diff("stderr", ee, err)))
    c.count("evaluations")


def cuts_exhaustive(c, a, rng, name, end):
    """Every cut position of a short stream."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    try:
        stream, parts = build_stream(rng, True)
        for k in range(len(stream)):
            what = "the connection ended (%s) after %d of %d bytes" % (end, k, len(stream))
            rc, out, err = run_one(c, a, rng, fs, stream[:k], segments(rng, k), end, variant, env)
            check_result(c, rc, out, err, parts, what)
            c.seen("cut", end, name, k)
            c.count("cut_" + end)
        rc, out, err = run_one(c, a, rng, fs, stream, segments(rng, len(stream)), "fin", variant, env)
        check_result(c, rc, out, err, parts, "complete", complete=True)
        c.sample(case=name, stream=stream[:60].hex(), cut_positions=len(stream), end=end, build=variant)
    finally:
        fs.close()


def cuts_random(c, a, rng, name, runs):
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    try:
        for _ in range(runs):
            stream, parts = build_stream(rng, False)
            bounds = [0]
            k = rng.choice((rng.randrange(0, len(stream)), len(stream) - rng.randrange(1, 6), min(len(stream) - 1, 8192 * rng.randrange(1, 4) + rng.randrange(-6, 7))))
            end = rng.choice(("fin", "close", "reset"))
            rc, out, err = run_one(c, a, rng, fs, stream[:k], segments(rng, k), end, variant, env)
            check_result(c, rc, out, err, parts, "the connection ended (%s) after %d of %d bytes" % (end, k, len(stream)))
            c.seen("random", end, k, len(stream))
    finally:
        fs.close()


def invalid(c, a, rng, name, types):
    """Unknown message types, and messages that only clients send, followed by a regular end."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    try:
        for t in types:
            stream, parts = build_stream(rng, True)
            pre, tail = stream[:-5], stream[-5:]
            if t == "closed":
                st, bad = rng.choice(((OUT, b"late"), (ERR, b"late")))
                parts = [x for x in parts if x[0] != st or True]
                if frame(st) not in pre:
                    pre += frame(st)
                badmsg = frame(st, b"late")
            else:
                badmsg = bytes([t]) + rng.choice((b"\0\0\0\0", b"\1\0\0\0x", b"\0\1\0\0"))
            keep = rng.random() < 0.5
            rc, out, err = run_one(c, a, rng, fs, pre + badmsg + (tail if keep else b""), segments(rng, len(pre) + len(badmsg)), "keep" if keep else "fin", variant, env)
            check_result(c, rc, out, err, parts, "the server sent an invalid message (%s)" % t)
            c.seen("invalid", t, keep)
            c.count("invalid_messages")
    finally:
        fs.close()


def session_killed(c, a, rng, name, runs):
    """The serving process of a real server is killed at some moment of a session."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    d = rng.randbytes(3000000)
    a.write("d", d)
    for r in range(runs):
        n = rng.choice((0, 10, 100000, 3000000))
        a.write("ev", b"")
        after = rng.choice(("start", "mid"))
        p = a.client([a.p("ev"), "w", "1", a.p("d"), "0", str(n), "0", "0", "mark", "written", "sleep", "60000"], stub="cmd", variant=variant, env=env,
                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        before = {}

        def act():
            if after == "start":
                wait_until(lambda: a.events())
            else:
                wait_until(lambda: any(e[0] == "written" for e in a.events()))
            time.sleep(rng.choice((0, 0.002, 0.02)))
            for pid, (comm, st, pp) in a.pids().items():
                if pp == srv.pid:
                    a.probe("kill", pid, 9)
        rc, out, err = drive(p, [(b"x", 0)], noise=[(0, act)])
        check_result(c, rc, out, err, [(OUT, d[:n])], "the serving process was killed")
        c.count("sessions_killed")
        c.seen("killed", after, n, variant)
        for pid, (comm, st, pp) in a.pids().items():
            if comm == "probe":
                a.probe("kill", pid, 9)


def check():
    c = Check("C04", "fault_enumeration",
              "scripted server streams cut at every byte position (short streams, exhaustively) and at random and buffer-boundary positions (long ones), ended by shutdown, close or reset, with random segmentation; "
              "every unknown or client-only message type; serving processes killed during real sessions. distinct = different (stream, cut position, way of ending).",
              ["static", "release", "dyn", "shim"])
    k = 10 if THOROUGH else 1
    rng = c.rng("plan")
    for i in range(6 * k):
        for end in ("fin", "reset", "close"):
            c.add("cuts-%s-%d" % (end, i), cuts_exhaustive, end=end)
    for i in range(8 * k):
        c.add("random-%d" % i, cuts_random, runs=15)
    types = [0, 1, 2, 3, 7, "closed", "closed"] + list(range(9, 256))
    rng.shuffle(types)
    if not THOROUGH:
        types = [0, 1, 2, 3, 7, 9, 255, 128, 0x18, "closed", "closed", "closed"] + [t for t in types if isinstance(t, int) and t > 9][:36]
    for i in range(0, len(types), 8):
        c.add("invalid-%d" % i, invalid, types=types[i:i + 8])
    for i in range(4 * k):
        c.add("killed-%d" % i, session_killed, runs=4)
    return c
