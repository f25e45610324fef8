"""C05: data is delivered promptly while the command is still running."""
import os, select, statistics, subprocess, time
from k8 import *


class Pump:
    """The test's ends of a client's standard streams, without any buffering or waiting for more than is asked."""

    def __init__(self, p):
        self.p = p
        self.got = {1: b"", 2: b""}
        self.fd = {1: p.stdout.fileno(), 2: p.stderr.fileno()}
        self.eof = {1: False, 2: False}

    def pump(self, timeout):
        r, _, _ = select.select([f for k, f in self.fd.items() if not self.eof[k]], [], [], timeout)
        for k, f in self.fd.items():
            if f in r:
                d = os.read(f, 1 << 16)
                self.got[k] += d
                if not d:
                    self.eof[k] = True

    def until(self, pred, what):
        end = time.monotonic() + WATCHDOG
        while True:
            ended = self.p.poll() is not None and all(self.eof.values())  # looked at before the condition
            if pred():
                return
            if time.monotonic() > end:
                raise Hang("not-delivered", "%s does not arrive while the command is running (stdout %d bytes, stderr %d bytes so far)" % (what, len(self.got[1]), len(self.got[2])))
            if ended:
                raise Violation("ended", "client ended with %s while waiting for %s" % (cmd_status(self.p.returncode), what))
            if all(self.eof.values()):
                time.sleep(0.001)
            else:
                self.pump(0.02)

    def send(self, d):
        v = memoryview(d)
        while len(v):
            _, w, _ = select.select([], [self.p.stdin], [], 0.02)
            if w:
                v = v[os.write(self.p.stdin.fileno(), v[:4096]):]
            else:
                self.pump(0)


def start(a, args, variant, env, **kw):
    return a.client([a.p("ev")] + [str(x) for x in args], stub="cmd", variant=variant, env=env, stdin=kw.pop("stdin", subprocess.PIPE), stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def end(a, p, pump, gate, code):
    a.write(gate, b"")
    pump.until(lambda: p.poll() is not None and all(pump.eof.values()), "the end of the session")
    if p.returncode != code:
        raise Violation("status", "client ended with %s instead of exit %d" % (cmd_status(p.returncode), code))


def dialogue(c, a, rng, name, rounds):
    """Requests and replies: each reply is sent only after the request has arrived, each request after the reply."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    fd = rng.choice((1, 2))
    p = start(a, ["lines", rounds, fd, "waitfile", a.p("gate"), "exit", "4"], variant, env)
    pump = Pump(p)
    lat = []
    exp = b""
    for i in range(rounds):
        m = bytes(rng.choice(b"abc\0\r\xff") for _ in range(rng.choice((0, 1, 10, 100, 4095, 8190, 9000)))) + b"\n"
        exp += m
        t = time.monotonic()
        if rng.random() < 0.5 and len(m) > 1:  # in two parts
            k = rng.randrange(1, len(m))
            pump.send(m[:k])
            pump.send(m[k:])
        else:
            pump.send(m)
        pump.until(lambda: len(pump.got[fd]) >= len(exp), "reply %d of %d (%d bytes)" % (i + 1, rounds, len(m)))
        lat.append(time.monotonic() - t)
        c.count("round_trips")
    if pump.got[fd] != exp:
        raise Violation("data", describe_diff("reply", exp, pump.got[fd]))
    med = statistics.median(lat)
    if not env and med > 0.15:
        raise Hang("latency", "half of %d round trips took more than %d ms" % (rounds, med * 1000))
    end(a, p, pump, "gate", 4)
    c.count("evaluations", rounds)
    c.seen("dialogue", variant, fd, rounds, len(exp))
    c.sample(case=name, rounds=rounds, stream=fd, build=variant, median_us=int(med * 1e6))


def output(c, a, rng, name, runs):
    """The command writes, closes streams, and then waits until the test has seen the effect of everything so far."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        d = data(rng, 400000)
        a.write("d", d)
        steps, args, closed = [], [], set()
        exp = {1: b"", 2: b""}
        off = 0
        if rng.random() < 0.3:
            args += ["close", 0]
        for i in range(rng.randrange(2, 7)):
            k = rng.random()
            fd = rng.choice([f for f in (1, 2) if f not in closed])
            if k < 0.25 and not closed:
                args += ["close", fd]
                closed.add(fd)
            else:
                n = rng.choice((1, 2, 5, 8187, 8192, 65536, rng.randrange(1, 30000)))
                args += ["w", fd, a.p("d"), off, n, rng.choice((0, 0, 1 + n // 7)), 0]
                exp[fd] += d[off:off + n]
                off += n
            g = "gate%d.%d" % (r, i)
            args += ["waitfile", a.p(g)]
            steps.append((g, dict(exp), set(closed)))
        last = "gate%d.end" % r
        both = rng.random() < 0.3
        if both:
            args += [x for f in (1, 2) if f not in closed for x in ("close", f)]
            steps.append((None, dict(exp), {1, 2}))
        args += ["waitfile", a.p(last), "exit", 6]
        kind = rng.choice((subprocess.PIPE, subprocess.DEVNULL))
        p = start(a, args, variant, env, stdin=kind)
        pump = Pump(p)
        for g, want, cl in steps:
            pump.until(lambda: all(len(pump.got[k]) >= len(want[k]) for k in (1, 2)), "output written before %s" % g)
            pump.until(lambda: all(pump.eof[k] for k in cl), "the end of file of streams %s" % sorted(cl))
            for k in (1, 2):
                if pump.got[k] != want[k]:
                    raise Violation("data", describe_diff("stream %d" % k, want[k], pump.got[k]))
                if pump.eof[k] and k not in cl:
                    raise Violation("early-eof", "end of file on stream %d before the command has closed it" % k)
            if g:
                a.write(g, b"")
            c.count("steps_observed")
        if kind == subprocess.PIPE and rng.random() < 0.5:
            p.stdin.close()
        end(a, p, pump, last, 6)
        c.count("evaluations")
        c.seen("output", variant, len(steps), tuple(sorted(closed)), off)


def input_(c, a, rng, name, runs):
    """Partial input arrives before there is more, and the end of the input while the command lives on."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        got, ev = "in%d" % r, a.p("ev")
        a.write("ev", b"")
        sizes = [rng.choice((1, 2, 7, 4096, 8187, 65535, 65536, rng.randrange(1, 50000))) for _ in range(rng.randrange(1, 6))]
        end_seen = rng.random() < 0.7
        args = ["close", 2] if rng.random() < 0.2 else []
        args += ["close", 1] if rng.random() < 0.2 else []
        args += ["r", a.p(got), -1 if end_seen else sum(sizes), 0, 0, "mark", "eof", "waitfile", a.p("gate%d" % r), "exit", 3]
        p = start(a, args, variant, env)
        pump = Pump(p)
        total = b""
        for n in sizes:
            d = data(rng, n)
            total += d
            pump.send(d)
            pump.until(lambda: (os.path.exists(a.p(got)) and os.path.getsize(a.p(got)) >= len(total)), "input of %d bytes" % n)
            if a.read(got) != total:
                raise Violation("data", describe_diff("stdin", total, a.read(got)))
            c.count("input_steps")
        if end_seen:
            if any(e[0] == "eof" for e in a.events()):
                raise Violation("early-eof", "end of file before the client's stdin has ended")
            p.stdin.close()
            pump.until(lambda: any(e[0] == "eof" for e in a.events()), "the end of the input")
            if p.poll() is not None:
                raise Violation("ended", "client ended with its input")
        end(a, p, pump, "gate%d" % r, 3)
        c.count("evaluations")
        c.seen("input", variant, tuple(sizes), end_seen)


def client_only(c, a, rng, name, runs):
    """Real client, scripted server: stdin is passed on at once, output is written at once, also if the rest of the message stream is missing."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.write("k.conf", plain_conf(a, port))
    fs = FakeServer(port)
    try:
        for r in range(runs):
            p = start(a, [], variant, env)
            conn = fs.accept()
            fs.request(conn)
            pump = Pump(p)
            exp = {1: b"", 2: b""}
            for i in range(rng.randrange(1, 8)):
                if rng.random() < 0.5:
                    d = data(rng, rng.choice((1, 3, 500, 8192, 70000)))
                    pump.send(d)
                    got = b""
                    while len(got) < len(d):
                        f = conn.frame()
                        if f is None or f[0] != IN or not f[1]:
                            raise Violation("client-message", "client sent %r instead of its input" % (f and f[0],))
                        got += f[1]
                    if got != d:
                        raise Violation("data", describe_diff("stdin", d, got))
                else:
                    fd = rng.choice((1, 2))
                    d = data(rng, rng.choice((1, 3, 500, 8187, 8192, 70000)))
                    exp[fd] += d
                    part = rng.choice((b"", frame(OUT, b"later")[:rng.randrange(1, 5)])) if i == 5 else b""
                    conn.send(frame(OUT if fd == 1 else ERR, d) + part)
                    pump.until(lambda: len(pump.got[fd]) >= len(exp[fd]), "output of %d bytes" % len(d))
                    if pump.got != exp:
                        raise Violation("data", describe_diff("stream %d" % fd, exp[fd], pump.got[fd]))
                    if part:
                        break
                c.count("client_steps")
            conn.close()
            p.kill()
            p.wait()
            c.count("evaluations")
            c.seen("client", variant, len(exp[1]), len(exp[2]))
    finally:
        fs.close()


def exits(c, a, rng, name, runs):
    """The end of the command ends the client soon, whatever its stdin does."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", rng.randbytes(100000))
    for r in range(runs):
        ops = rng.choice((["close", "1", "close", "2", "sleep", rng.choice((0, 50, 400))], ["close", "0", "close", "2", "close", "1", "sleep", rng.choice((1, 300))], ["close", "2", "sleep", 20], ["w", "1", a.p("d"), 0, 100000, 0, 0], [],
                          ["(", "close", "0", "close", "1", "close", "2", "sleep", 60000, ")"], ["r", a.p("in"), 3, 0, 0, "close", "2", "close", "1"]))
        code = rng.randrange(1, 256)
        a.write("ev", b"")
        kill = rng.random() < 0.35
        if kill:
            code = rng.choice((2, 6, 9, 13, 15))
        p = start(a, [*ops, "kill" if kill else "exit", code], variant, env and shim_env(a, rng))
        pump = Pump(p)
        if "r" in ops or rng.random() < 0.3:
            pump.send(b"abc")
        pump.until(lambda: p.poll() is not None and all(pump.eof.values()), "the end of the session after that of its command")
        t = time.monotonic_ns() // 1000
        if kill and p.returncode == 0:
            raise Violation("status", "client ended with 0, but its command was killed by signal %d" % code)
        if not kill and p.returncode != code:
            raise Violation("status", "client ended with %s instead of exit %d" % (cmd_status(p.returncode), code))
        e = [x for x in a.events() if x[0] == ("kill" if kill else "exit")]
        late = (t - e[0][4]) / 1e6 if e else 0
        if late > 6:  # (it takes up to 0.25 s; on a loaded machine it is tried again)
            raise Hang("late-exit", "the client ended %.1f s after its command (%r, with its stdin open)" % (late, ops))
        c.count("exits")
        c.count("evaluations")
        c.seen("exits", variant, tuple(map(str, ops[:6:2])), round(late, 1))


def refused(c, a, rng, name, runs):
    """A command that closes its stdin: as soon as more input arrives, whoever supplies it finds out."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    for r in range(runs):
        first = rng.choice((0, 0, 3, 5000))
        ops = (["r", a.p("in"), first, 0, 0] if first else []) + ["close", "0", "mark", "closed", "waitfile", a.p("go%d" % r), "exit", 7]
        a.write("ev", b"")
        p = start(a, ops, variant, env and shim_env(a, rng))
        fd = p.stdin.fileno()
        os.set_blocking(fd, False)
        if first:
            os.write(fd, b"f" * first)
        if not wait_until(lambda: any(e[0] == "closed" for e in a.events())):
            raise Hang("start", "the command does not get to closing its stdin")
        step, sent, broken = rng.choice((1, 1, 100, 3000, 20000)), 0, False
        end_ = time.monotonic() + WATCHDOG
        while not broken and time.monotonic() < end_:
            try:
                sent += os.write(fd, b"x" * step)
            except BlockingIOError:
                pass
            except BrokenPipeError:
                broken = True
            time.sleep(0.01)
        if not broken:
            raise Hang("input-taken", "the command has closed its stdin, but the client still takes input (%d bytes in steps of %d)" % (sent, step))
        if p.poll() is not None:
            raise Violation("ended", "client ended with %s when its command closed stdin" % cmd_status(p.returncode))
        a.write("go%d" % r, b"")
        p.stdin.close()
        p.stdin = None
        rc, out, err = drive(p)
        if rc != 7 or out or err:
            raise Violation("status", "client ended with %s instead of exit 7, %r %r" % (cmd_status(rc), out, err))
        c.count("evaluations")
        c.count("refused_inputs")
        c.seen("refused", variant, first, step)


def check():
    c = Check("C05", "exploration",
              "the test proceeds only after it has seen the effect of what happened so far (causal steps, no time limits except a watchdog): request/reply dialogues over stdin and either output stream, random writes and closes "
              "each followed by a gate, partial inputs and end of input while the command lives on; median round trip below 150 ms. distinct = different (scenario, build, step sizes).", ["static", "release", "dyn", "shim"])
    k = 12 if THOROUGH else 1
    for i in range(10 * k):
        c.add("dialogue-%d" % i, dialogue, rounds=30)
    for i in range(16 * k):
        c.add("output-%d" % i, output, runs=5)
    for i in range(12 * k):
        c.add("input-%d" % i, input_, runs=5)
    for i in range(8 * k):
        c.add("client-%d" % i, client_only, runs=5)
    for i in range(10 * k):
        c.add("exits-%d" % i, exits, runs=6)
    for i in range(4 * k):
        c.add("refused-%d" % i, refused, runs=4)
    return c
