"""C17: only complete, well-formed requests for this server's commands start anything."""
import os, re, subprocess
from k8 import *


def cfg(a, servers):
    """servers: {name: (port, [commands])}; every command of every server has a program (an event file) of its own."""
    t = "baseDirectory = '%s'\n" % a.p("work")
    for n, (port, cmds) in servers.items():
        t += "[%s:%d]\n" % (n, port)
        for c in cmds:
            t += "'%s' '%s/probe' '%s' exit 7\n" % (c.replace("'", "''"), a.bin, a.p("ev-%s-%d" % (n, cmds.index(c))))
    return t


class Starts:
    """Counts the starts of every configured program since the last look."""

    def __init__(self, a, servers):
        self.a = a
        self.files = {(n, c): "ev-%s-%d" % (n, i) for n, (p, cmds) in servers.items() for i, c in enumerate(cmds)}
        self.done = collections.Counter()

    def new(self):
        r = collections.Counter()
        for k, f in self.files.items():
            n = sum(1 for e in self.a.events(f) if e[0] == "start")
            if n - self.done[k]:
                r[k] = n - self.done[k]
            self.done[k] = n
        return dict(r)


def settle(a, keep):
    """Waits until only the servers are left."""
    if not wait_until(lambda: not {p for p, (n, s, pp) in a.pids().items() if s != "Z"} - keep):
        raise Hang("processes", "processes remain after all connections have ended: %r" % (a.pids(),))


def end(conn, how):
    if how == "reset":
        conn.reset()
    elif how == "half":
        try:
            conn.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        t = conn.s.gettimeout()
        conn.s.settimeout(0.2)
        try:
            while conn.s.recv(4096):
                pass
        except OSError:
            pass
        conn.s.settimeout(t)
        conn.close()
    else:
        conn.close()


def linger(conn, seconds):
    """Keeps a connection open until the server closes it or the time is over (a command that has been started wrongly needs the time to record it)."""
    stop = time.monotonic() + seconds
    try:
        while time.monotonic() < stop:
            conn.s.settimeout(max(0.001, stop - time.monotonic()))
            if not conn.s.recv(4096):
                return
    except OSError:
        pass
    finally:
        conn.s.settimeout(WATCHDOG)


def some_bytes(rng, most=40):
    return bytes(b or 1 for b in rng.randbytes(rng.randrange(0, most)))


def valid(rng, cmd, wd=b""):
    msgs = [frame(WD, wd)] + [frame(ARG, some_bytes(rng)) for _ in range(rng.choice((0, 1, 1, 3)))] + [frame(ENV, rng.choice((b"A=b", b"B", b"", b"=", b"=x", b"A==", some_bytes(rng)))) for _ in range(rng.choice((0, 1, 2)))]
    rng.shuffle(msgs)
    return b"".join(msgs) + frame(START, cmd)


def shot(port, data, rng, how, delay=0.0):
    """One connection with these bytes, cut randomly, ended in the given way."""
    conn = Raw(port)
    try:
        cuts = sorted(rng.sample(range(len(data) + 1), min(len(data), rng.choice((0, 0, 1, 3))))) if data else []
        conn.send(data, cuts, delay)
    except OSError:
        pass
    linger(conn, 0.04)
    end(conn, how)


def prefixes(c, a, rng, name, requests):
    port = a.port()
    servers = {"srv": (port, ["cmd", "cmdx"])}
    srv = a.server(cfg(a, servers), port=port, variant=rng.choice(("static", "release")))
    st = Starts(a, servers)
    for _ in range(requests):
        cmd = rng.choice((b"cmd", b"cmdx"))
        req = valid(rng, cmd)
        if len(req) > 160:
            req = request(cmd, [b"x"])
        conns = []
        # every proper prefix, held open together, then ended in different ways
        for n in range(len(req)):
            conn = Raw(port)
            if n:
                conn.send(req[:n], [n // 2] if rng.random() < 0.3 else ())
            conns.append((n, conn))
            if len(conns) == 40 or n == len(req) - 1:
                time.sleep(0.02)
                s = st.new()
                if s:
                    raise Violation("incomplete", "an incomplete request (one of the first %d to %d of %d bytes of %r) started %r" % (conns[0][0], n, len(req), req, s))
                for m, k in conns:
                    end(k, rng.choice(("close", "reset", "close")))
                conns = []
            c.count("prefixes")
            c.count("evaluations")
        settle(a, {srv.pid})
        s = st.new()
        if s:
            raise Violation("incomplete", "an incomplete request (a prefix of %r) started %r" % (req, s))
        # the complete request, in pieces
        conn = Raw(port)
        pieces = rng.choice(([], range(1, len(req)), sorted(rng.sample(range(1, len(req)), 4))))
        conn.send(req + frame(IN), pieces, rng.choice((0, 0.0005)))
        rc = conn.collect()[2]
        conn.close()
        settle(a, {srv.pid})
        s = st.new()
        if s != {("srv", cmd.decode()): 1} or rc != 7:
            raise Violation("complete", "the complete request %r (in %d pieces) started %r, status %r" % (req, len(pieces) + 1, s, rc))
        c.count("evaluations")
        c.seen("prefixes", req)
    if not srv.alive():
        raise Violation("server", "the server has ended")


def bad_request(rng, cmds, others):
    """(what, bytes) of something that is not a well-formed request for one of the commands."""
    k = rng.randrange(14)
    good = rng.choice(cmds)
    wd = frame(WD)
    tail = rng.choice((b"", frame(IN), frame(IN, b"data"), frame(START, good), wd + frame(START, good)))
    if k == 0:
        t = rng.choice((4, 5, 6, 7, 8, 9, 10, 127, 128, 131, 255, 0x13, 0x83))
        return "message type %d before the start" % t, wd + frame(t, rng.choice((b"", b"x", good))) + frame(START, good)
    if k == 1:
        return "start as type %d" % 131, wd + frame(rng.choice((131, 0x43, 0x13, 0x83, 7, 4)), good)
    if k in (2, 3):
        n = rng.choice((good + b"x", good[:-1], good.upper(), good + b"\0", good + b" ", b" " + good, b"./" + good, b"/" + good, good + b"\n", b"\0", b"", good + b"\0x", good * 2, b"srv", b"srv/" + good, b"[srv]", b"baseDirectory", b"sh", b"/bin/sh", b"touch", good + b"=", b"?" + good, b"*", b"." * 5000, good.replace(b"c", b"C", 1)))
        if n in cmds:
            n += b"!"
        return "command %r" % n[:50], wd + frame(START, n) + tail
    if k == 4 and others:
        n = rng.choice(others)
        return "another server's command %r" % n, wd + frame(START, n) + tail
    if k == 5:
        n = rng.choice((len(good) + 1, len(good) + 5, 1000, 1 << 16, 1 << 24))
        return "a start claiming %d bytes" % n, wd + struct.pack("<BI", START, n) + good
    if k == 6:
        n = rng.choice((6, 100, 1 << 20))
        return "a message claiming %d bytes" % n, struct.pack("<BI", rng.choice((WD, ENV, ARG)), n + len(good) + 5) + frame(START, good)
    if k == 7:
        return "a big-endian length", wd + struct.pack(">BI", START, len(good)) + good
    if k == 8:
        n = len(good)
        return "a short start", wd + struct.pack("<BI", START, n - 1) + good
    if k == 9:
        return "text", rng.choice((b"GET /%s HTTP/1.0\r\n\r\n" % good, good + b"\n", b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", b"SSH-2.0-x\r\n", b"\n" * 100, b"\xff" * 100, b"\x04" * 100, b"\x08" * 5))
    if k == 10:
        # misaligned by some bytes
        n = rng.randrange(1, 5)
        return "%d bytes missing in front" % n, (frame(WD, b"") + frame(START, good))[n:]
    if k == 11:
        return "a terminate request first", frame(TERM) + wd + frame(START, good)
    if k == 12:
        return "input first", frame(IN, b"abc") + wd + frame(START, good)
    return "a failing start first", wd + frame(START, good + b"?") + wd + frame(START, good)


def malformed(c, a, rng, name, shots):
    p = [a.port() for _ in range(3)]
    mine, other = ["cmd", "only one", "c"], ["cmd", "foreign", "foreign2", "cmd2"]
    servers = {"first": (p[0], other), "srv": (p[1], mine), "last": (p[2], ["cmd", "final"])}
    srv = a.server(cfg(a, servers), port=p[1], variant=rng.choice(("static", "release")), opts=rng.choice(([], ["-l", "-e", a.p("sv")])))
    st = Starts(a, servers)
    cmds = [x.encode() for x in mine]
    others = [b"foreign", b"foreign2", b"cmd2", b"final"]
    batch = []
    for i in range(shots):
        what, data = bad_request(rng, cmds, others)
        batch.append(what)
        shot(p[1], data, rng, rng.choice(("close", "reset", "half", "half")), rng.choice((0, 0, 0.001)))
        c.count("evaluations")
        c.count("malformed_requests")
        c.seen("malformed", what.split(" %")[0], data)
        if len(batch) == 25 or i == shots - 1:
            settle(a, {srv.pid})
            s = st.new()
            if s:
                raise Violation("malformed", "requests that are not well-formed started %r; they were: %s" % (s, "; ".join(batch)))
            batch = []
    if not srv.alive():
        raise Violation("server", "the server has ended")


def model(data, cmds):
    """What a server makes of these bytes: (command started or None, working directory, bytes after the request)."""
    i, wd = 0, None
    while len(data) - i >= 5:
        t, n = data[i], struct.unpack("<I", data[i + 1:i + 5])[0]
        if t > START or len(data) - i - 5 < n:
            return None, wd, b""
        d = data[i + 5:i + 5 + n]
        i += 5 + n
        if t == WD:
            wd = d
        if t == START:
            return (d if d in cmds else None), wd, data[i:]
    return None, wd, b""


def fuzz(c, a, rng, name, shots):
    """Random sequences of messages, damaged now and then; a model of the protocol says what may be started."""
    port = a.port()
    servers = {"srv": (port, ["cmd", "two", "x" * 300])}
    cmds = [x.encode() for x in servers["srv"][1]]
    srv = a.server(cfg(a, servers), port=port, variant=rng.choice(("static", "release")))
    st = Starts(a, servers)
    a.makedirs(a.p("work/sub/dir"))
    for i in range(shots):
        msgs = []
        for _ in range(rng.choice((1, 2, 3, 5, 12))):
            t = rng.choice((WD, WD, WD, ENV, ARG, START, START, START, rng.choice((IN, TERM, EXIT, rng.randrange(256))))) if rng.random() < 0.7 else rng.choice((WD, START))
            d = rng.choice(cmds) if t == START and rng.random() < 0.8 else rng.choice((b"", b"sub", b"sub/dir", b".")) if t == WD else b"A=1" if t == ENV else some_bytes(rng)
            msgs.append(frame(t, d))
        if rng.random() < 0.5:
            msgs = [valid(rng, rng.choice(cmds), rng.choice((b"", b"sub", b"sub/dir", b".")))] + msgs[:rng.choice((0, 0, 1))]
        data = b"".join(msgs)
        if rng.random() < 0.4:
            data = bytearray(data)
            for _ in range(rng.choice((1, 1, 2))):
                k = rng.randrange(3)
                pos = rng.randrange(len(data)) if data else 0
                if k == 0 and data:
                    data[pos] = rng.choice((rng.randrange(256), data[pos] ^ (1 << rng.randrange(8)), 0, 255))
                elif k == 1 and data:
                    del data[pos:pos + rng.choice((1, 1, 5))]
                else:
                    data[pos:pos] = rng.randbytes(rng.choice((1, 1, 5)))
            data = bytes(data)
        expect, wd, rest = model(data, cmds)
        conn = Raw(port)
        try:
            conn.send(data, sorted(rng.sample(range(len(data) + 1), min(len(data), rng.choice((0, 0, 2))))))
        except OSError:
            pass
        # (the exit of a command is only noticed at once if its input ends)
        sure = expect is not None and not rest and wd in (b"", b"sub", b"sub/dir", b".")
        if sure:
            conn.send(frame(IN))
            rc = conn.collect()[2]
            if rc != 7:
                raise Violation("complete", "the request %r ended with status %r" % (data, rc))
        else:
            linger(conn, 0.04)
        end(conn, "half")
        settle(a, {srv.pid})
        s = st.new()
        if sure and not s:
            raise Violation("complete", "the request %r started nothing" % data)
        # (a request may be followed by something that terminates the command before it starts, and only starts in a directory that exists)
        if s and (expect is None or s != {("srv", expect.decode()): 1}):
            raise Violation("fuzz", "%r started %r instead of %r" % (data, s, expect))
        c.count("evaluations")
        c.count("fuzzed_connections")
        c.count("fuzzed_starts", len(s))
        c.seen("fuzz", data)
    if not srv.alive():
        raise Violation("server", "the server has ended")


def several(c, a, rng, name, runs):
    """More than one request in one connection: nothing but the first is started."""
    port = a.port()
    servers = {"srv": (port, ["cmd", "two"])}
    srv = a.server(cfg(a, servers).replace("exit 7", "sleep 30 exit 7"), port=port, variant=rng.choice(("static", "release")))
    st = Starts(a, servers)
    for _ in range(runs):
        first = rng.choice((b"cmd", b"two"))
        more = b"".join(rng.choice((frame(START, b"cmd"), frame(START, b"two"), request("two"), request("cmd", [b"x"]), frame(ARG, b"x"))) for _ in range(rng.randrange(1, 6)))
        conn = Raw(port)
        conn.send(request(first))
        wait_until(lambda: a.events(st.files[("srv", first.decode())])[st.done[("srv", first.decode())]:], 0.05) if rng.random() < 0.5 else None
        try:
            conn.send(more)
        except OSError:
            pass
        linger(conn, 0.04)
        end(conn, rng.choice(("half", "close")))
        settle(a, {srv.pid})
        s = st.new()
        if s not in ({}, {("srv", first.decode()): 1}):
            raise Violation("several", "a connection with several requests (the first for %r) started %r" % (first, s))
        c.count("evaluations")
        c.count("repeated_requests")
        c.seen("several", first, more)


def whose(c, a, rng, name, rounds):
    """Several servers with the same and different commands: each starts its own programs only."""
    for r in range(rounds):
        a.new()
        pool = ["cmd", "two", "three", "Cmd", "cmd ", "srv0", "four"]
        n = rng.choice((2, 3, 4))
        servers = {"srv%d" % i: (a.port(), rng.sample(pool, rng.randrange(1, 5))) for i in range(n)}
        text = cfg(a, servers)
        procs = {}
        for s, (port, cmds) in servers.items():
            procs[s] = a.server(text, name=s, port=port, variant=rng.choice(("static", "release")), opts=["-e", a.p("sv"), "-o", "-k"])
        st = Starts(a, servers)
        keep = {x.pid for x in procs.values()}
        asked = list(pool)
        rng.shuffle(asked)
        for s, (port, cmds) in servers.items():
            for q in asked:
                conn = Raw(port)
                conn.send(request(q) + frame(IN))
                rc = conn.collect()[2]
                conn.close()
                settle(a, keep)
                got = st.new()
                want = {(s, q): 1} if q in cmds else {}
                if got != want or (rc == 7) != bool(want):
                    raise Violation("whose", "asking %s (with %r) for %r started %r, status %r" % (s, cmds, q, got, rc))
                c.count("evaluations")
                c.count("requests_to_servers_with_other_commands")
                c.seen("whose", s, tuple(cmds), q)
        ports(a, c, {p for p, _ in servers.values()})


def ports(a, c, want):
    """All sockets the user's processes accept connections or datagrams on."""
    for f in ("tcp", "tcp6", "udp", "udp6"):
        with open("/proc/net/" + f) as fh:
            next(fh)
            for line in fh:
                x = line.split()
                if int(x[7]) != a.uid or (f.startswith("tcp") and x[3] != "0A"):
                    continue
                addr, port = x[1].rsplit(":", 1)
                if f != "tcp" or addr != "0100007F" or int(port, 16) not in want:
                    raise Violation("listening", "a server can be reached on %s %s port %d" % (f, addr, int(port, 16)))
                c.count("listening_sockets")
    for p in want:
        if listening(p) != ["0100007F"]:
            raise Violation("listening", "port %d is served on %r" % (p, listening(p)))
        for addr in ("127.0.0.2", "127.1.0.1", "::1"):
            s = socket.socket(socket.AF_INET6 if ":" in addr else socket.AF_INET)
            s.settimeout(2)
            try:
                s.connect((addr, p))
            except OSError:
                c.count("other_addresses_refused")
            else:
                raise Violation("listening", "port %d accepts connections to %s" % (p, addr))
            finally:
                s.close()


def addresses(c, a, rng, name, runs):
    for _ in range(runs):
        a.new()
        how = rng.choice(("explicit", "sequential", "background", "options"))
        port = a.port(3)
        text = "baseDirectory = '%s'\n[zero:%d]\nnothing '%s/probe'\n" % (a.p("work"), port, a.bin)
        want = port
        if how == "sequential":
            text += "[one]\none '%s/probe'\n" % a.bin
            want = port + 2
        elif how != "explicit":
            want = port + 1
        text += "[srv%s]%s\ncmd '%s/probe' '%s' exit 7\n" % ("" if how == "sequential" else ":%d" % (want if how != "explicit" else port + 2), " -w" if how == "options" else "", a.bin, a.p("ev"))
        if how == "explicit":
            want = port + 2
        srv = a.server(text, port=want, variant=rng.choice(("static", "release")), opts=["-b", "-p", ""] if how == "background" else [])
        if how == "background":
            srv.wait()
        ports(a, c, {want})
        conn = Raw(want)
        conn.send(request("cmd") + frame(IN))
        # a session does not add anything to listen on either
        ports(a, c, {want})
        if conn.collect()[2] != 7:
            raise Violation("complete", "a complete request is not served")
        conn.close()
        c.count("evaluations")
        c.seen("addresses", how, want)


def traced(c, a, rng, name, shots):
    """All programs executed by a server and its descendants, from its system calls."""
    port = a.port()
    servers = {"srv": (port, ["cmd", "two"])}
    a.write("k.conf", cfg(a, servers))
    log = a.p("trace")
    p = a.popen(["strace", "-f", "-qq", "-v", "-s", "4096", "-e", "trace=execve,execveat,bind,listen", "-e", "signal=none", "-o", log, a.bin + "/static/k8pshd", "--config=" + a.p("k.conf"), "--name=srv", "-e", a.p("sv")], cwd=a.dir)
    if not wait_until(lambda: listening(port) or p.poll() is not None) or p.poll() is not None:
        raise Inconclusive("cannot trace the server")
    keep = set(a.pids())
    good = 0
    for i in range(shots):
        if rng.random() < 0.3:
            conn = Raw(port)
            conn.send(valid(rng, rng.choice((b"cmd", b"two"))) + frame(IN))
            rc = conn.collect()[2]
            conn.close()
            if rc != 7:
                raise Violation("complete", "a complete request is not served (%r)" % rc)
            good += 1
        else:
            what, data = bad_request(rng, [b"cmd", b"two"], [])
            shot(port, data, rng, "half")
            c.seen("traced", what)
        c.count("evaluations")
    settle(a, keep)
    lines = a.read(log).decode(errors="replace").splitlines()
    execs = [l for l in lines if "execve" in l and "<... " not in l]
    probes = [l for l in execs if '"%s/probe", ["%s/probe", "%s/ev-srv-' % (a.bin, a.bin, a.dir) in l]
    binds = [l for l in lines if re.search(r"\bbind\(", l)]
    if len(execs) != 1 + good or len(probes) != good:
        raise Violation("executed", "%d requests for commands led to: %s" % (good, " | ".join(l[:200] for l in execs if l not in probes) or "%d starts" % len(probes)))
    if len(binds) != 1 or "htons(%d)" % port not in binds[0] or 'inet_addr("127.0.0.1")' not in binds[0]:
        raise Violation("listening", "the server binds to %r" % binds)
    c.count("traced_executions", len(execs))


def check():
    c = Check("C17", "exploration",
              "every prefix of sampled requests (held open, closed, reset), 14 classes of malformed requests, random and damaged message sequences against a model of the protocol, several requests in one connection, servers with overlapping command names, listening sockets of the server's user, "
              "and the executed programs in a system-call trace. Every configured program records its starts in a file of its own. distinct = different byte sequences sent.", ["static", "release"])
    k = 10 if THOROUGH else 1
    for i in range(6 * k):
        c.add("prefixes-%d" % i, prefixes, requests=6)
    for i in range(6 * k):
        c.add("malformed-%d" % i, malformed, shots=100)
    for i in range(8 * k):
        c.add("fuzz-%d" % i, fuzz, shots=70)
    for i in range(4 * k):
        c.add("several-%d" % i, several, runs=25)
    for i in range(4 * k):
        c.add("whose-%d" % i, whose, rounds=3)
    for i in range(4 * k):
        c.add("addresses-%d" % i, addresses, runs=5)
    for i in range(3 * k):
        c.add("traced-%d" % i, traced, shots=40)
    return c
