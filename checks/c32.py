"""C32: any volume of data is passed on in bounded memory, and a reader that stops stops the writer."""
import select, subprocess, threading
from k8 import *

MB = 1 << 20
LIMIT = 12 * MB  # beyond what the process needed when its session began


def hwm(pid):
    """The most memory the process has used so far (without the pages of its files)."""
    try:
        with open("/proc/%d/status" % pid) as f:
            d = dict(l.split(":", 1) for l in f if ":" in l)
        return int(d["VmHWM"].split()[0]) * 1024
    except (OSError, KeyError):
        return None


class Memory:
    """Watches all processes of client and server."""

    def __init__(self, a, what):
        self.a, self.what, self.first, self.max = a, what, {}, {}

    def look(self):
        for pid, (n, st, pp) in self.a.pids().items():
            if st == "Z" or n == "probe":
                continue
            m = hwm(pid)
            if m is None:
                continue
            self.first.setdefault((pid, n), m)
            self.max[(pid, n)] = m
            grown = m - self.first[(pid, n)]
            if grown > LIMIT:
                raise Violation("memory", "%s: %s needs %d MB more than in the beginning" % (self.what, n, grown // MB))

    def grown(self):
        return max(self.max[k] - self.first[k] for k in self.max)


def start(a, rng, ops, **kw):
    variant = rng.choice(("static", "release", "dyn"))
    port = a.port()
    s = a.server(plain_conf(a, port), opts=["-d"], port=port, variant=variant)
    p = a.client([a.p("ev"), "mark", "started", *ops], stub="cmd", variant=variant, **kw)
    return variant, s, p


def output(c, a, rng, name, fd, volume, pauses):
    """A command that writes without end; the reader takes its time, and stops now and then."""
    a.new()
    chunk = rng.choice((100, 4096, 65536))
    volume = volume // 10 if chunk == 100 else volume
    variant, s, p = start(a, rng, ["flood", str(fd), str(chunk)], **({"stdout": subprocess.PIPE} if fd == 1 else {"stderr": subprocess.PIPE}))
    what = "%s, endless output on %d in pieces of %d" % (variant, fd, chunk)
    m = Memory(a, what)
    f = (p.stdout if fd == 1 else p.stderr).fileno()
    if not wait_until(lambda: a.read("ev")):
        raise Hang("start", "command does not start")
    got = 0
    stops = sorted(rng.randrange(volume) for _ in range(pauses))
    while got < volume:
        if not select.select([f], [], [], WATCHDOG)[0]:
            raise Hang("stuck", "%s: nothing comes any more after %d bytes" % (what, got))
        d = os.read(f, MB)
        if not d:
            raise Violation("end", "%s: the output ends after %d bytes" % (what, got))
        if got // (8 * MB) != (got + len(d)) // (8 * MB) or got < MB:
            m.look()
        got += len(d)
        if stops and got > stops[0]:
            stops.pop(0)
            # the command must come to a halt: nothing takes its output
            command = a.events()[0][3]

            def written():
                return int(a.probe("show", "/proc/%d/io" % command).split(b"wchar:")[1].split()[0])

            last, t0, t = written(), time.monotonic(), time.monotonic()
            while time.monotonic() - t < 0.4:  # (halted for that long)
                time.sleep(0.05)
                m.look()
                if written() != last:
                    last, t = written(), time.monotonic()
                if last - got > 64 * MB or time.monotonic() - t0 > WATCHDOG:
                    raise Violation("back-pressure", "%s: the command has written %d MB more than has been read, and goes on" % (what, (last - got) // MB))
            c.count("halts")
    m.look()
    p.kill()
    p.wait()
    if s.stop() != 0:
        raise Violation("server", what + ": the server fails")
    c.count("evaluations")
    c.count("megabytes", got // MB)
    c.seen("output", fd, chunk, variant, m.grown() // MB)


def through(c, a, rng, name, volume):
    """Input that the command passes on at once."""
    a.new()
    chunk = rng.choice((4096, 65536))
    variant, s, p = start(a, rng, ["cat", str(chunk)], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    what = "%s, %d MB through a command" % (variant, volume // MB)
    m = Memory(a, what)
    block = data(rng, MB)
    twice = memoryview(block + block)
    if not wait_until(lambda: a.read("ev")):
        raise Hang("start", "command does not start")
    ahead = threading.Semaphore(3)  # (what the command has not read yet is kept in memory: only a few blocks are on their way)
    stop, fed, complete, end = [], [], [], time.monotonic() + 300

    def feed():
        try:
            for k in range(volume // MB):
                ahead.acquire()
                if stop:
                    return
                if time.monotonic() > end:  # (the machine is too slow for all of it)
                    break
                fed.append(k)
                p.stdin.write(block)
                p.stdin.flush()
            complete.append(1)
            p.stdin.close()
        except OSError:
            pass

    t = threading.Thread(target=feed, daemon=True)
    t.start()
    got = 0
    try:
        while True:
            if not select.select([p.stdout], [], [], WATCHDOG)[0]:
                raise Hang("stuck", "%s: nothing comes any more after %d bytes" % (what, got))
            d = os.read(p.stdout.fileno(), MB)
            if not d:
                break
            o = got % MB
            if twice[o:o + len(d)] != d:
                raise Violation("data", "%s: wrong data after %d bytes" % (what, got))
            for _ in range((got + len(d)) // MB - got // MB):
                ahead.release()
            if got // (8 * MB) != (got + len(d)) // (8 * MB) or got < MB:
                m.look()
            got += len(d)
    finally:
        stop.append(1)
        ahead.release()
        if not complete or got != len(fed) * MB:
            p.kill()  # (the feeder may be blocked)
        t.join()
    if not complete or got != len(fed) * MB or p.wait(WATCHDOG) != 0:
        raise Violation("data", "%s: %d bytes, status %s" % (what, got, cmd_status(p.returncode)))
    if s.stop() != 0:
        raise Violation("server", what + ": the server fails")
    c.count("evaluations")
    c.count("megabytes", got // MB)
    c.seen("through", chunk, variant, m.grown() // MB)


def peer(c, a, rng, name, seconds):
    """A server that takes nothing: the client must not collect its input."""
    a.new()
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    f = FakeServer(port)
    zero = open("/dev/zero", "rb")
    p = a.client(["x"], stub="cmd", stdin=zero)
    zero.close()
    what = "server that does not read"
    r = f.accept()
    m = Memory(a, what)
    t = time.monotonic()
    while time.monotonic() - t < seconds:
        m.look()
        time.sleep(0.02)
    if p.poll() is not None:
        raise Violation("end", "%s: the client ends with %s" % (what, cmd_status(p.returncode)))
    f.close()
    r.close() if hasattr(r, "close") else None
    p.kill()
    p.wait()
    c.count("evaluations")
    c.seen("peer", m.grown() // MB)


def many(c, a, rng, name, sessions):
    """What sessions need is given back: a server after many of them, and the one that serves them."""
    a.new()
    variant = rng.choice(("static", "release", "dyn"))
    port = a.port()
    s = a.server(plain_conf(a, port), opts=["-d"], port=port, variant=variant)
    a.write("payload", data(rng, 100000))
    m = Memory(a, "%s server after many sessions" % variant)
    for k in range(sessions):
        r = Raw(port)
        kind = rng.randrange(4)
        if kind == 0:
            r.send(request("cmd", [a.p("ev"), "exit", "0"], env=["A=" + "x" * 1000] * 5) + frame(IN))
            r.collect()
        elif kind == 1:
            r.send(os.urandom(3000))
        elif kind == 2:
            r.send(request("cmd", ["x" * 1000] * 30) + frame(IN))
            r.collect()
        r.close()
        m.a = a
        if k % 20 == 0:
            x = hwm(s.pid)
            m.first.setdefault("server", x)
            if x - m.first["server"] > 2 * MB:
                raise Violation("memory", "%s: %d KB more after %d sessions" % (m.what, (x - m.first["server"]) >> 10, k))
    if s.stop() != 0:
        raise Violation("server", "the server fails")
    c.count("evaluations")
    c.count("sessions", sessions)
    c.seen("many", variant)


def check():
    subreaper()
    c = Check("C32", "exploration",
              "commands that write without end to readers that stop now and then, large volumes through a command, servers that do not read, and many sessions of one server, with the peak memory of all processes and the progress of the command observed. distinct = different streams, piece sizes, variants and growths in MB.",
              ["static", "release", "dyn"])
    c.add_long("through-huge", through, volume=(20000 if THOROUGH else 4500) * MB)  # (beyond 32 bits)
    k = 12 if THOROUGH else 1
    v = (1500 if THOROUGH else 150) * MB
    for i in range(3 * k):
        for fd in (1, 2):
            c.add("output-%d-%d" % (fd, i), output, fd=fd, volume=v, pauses=3)
    for i in range(4 * k):
        c.add("through-%d" % i, through, volume=v // 2)
    for i in range(2 * k):
        c.add("peer-%d" % i, peer, seconds=2)
    for i in range(3 * k):
        c.add("many-%d" % i, many, sessions=200 * (5 if THOROUGH else 1))
    return c
