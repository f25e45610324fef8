"""C29: trouble with the client's own streams is never passed off as success."""
import pty, socket, struct, subprocess, termios, tty
from k8 import *

ERRORS = ("EIO", "ENOSPC", "EDQUOT", "EFBIG", "EPERM")


def close_all(fds):
    for fd in fds:
        try:
            os.close(fd)
        except OSError:
            pass


def traced(a, path, spec):
    """Prefix that makes system calls on a path fail."""
    a.write("trace.log", b"")
    return ["strace", "-f", "-qq", "-P", path, "-e", "trace=read,readv,write,writev,pwrite64,close", "-e", "inject=" + spec, "-e", "signal=none", "-o", a.p("trace.log")]


def injected(a):
    return a.read("trace.log").count(b"(INJECTED)")


def terminated(a, what, ev="ev"):
    """The command has to learn that nobody wants its result any more."""
    def pred():
        e = a.events(ev)
        # (PIPE: its output was lost while it was writing; and it may not have been able to note anything yet)
        return any(x[0] == "sig" and x[1] in (13, 15) for x in e) or (not any(x[0] == "trapped" for x in e) and a.pids().get(e[0][3], ("", "Z", 0))[1] == "Z")

    if not wait_until(pred):
        raise Hang("not-terminated", "%s: the command was not terminated: %r" % (what, a.events(ev)))


def setup(a, rng):
    variant, env = pick_variant(a, rng)
    port = a.port()
    s = a.server(plain_conf(a, port), opts=["-d"], port=port, variant=variant, env=env)
    return s, port


def healthy(c, a, s, what):
    if not s.alive():
        raise Violation("server", what + ": the server has ended")
    if a.run([a.p("ev-h"), "exit", "3"], stub="cmd", stdin=None)[0] != 3:
        raise Violation("server", what + ": the server does not serve the next client")


def output(c, a, rng, name, runs):
    """One of the client's output streams cannot be written, from some byte on."""
    s, port = setup(a, rng)
    for i in range(runs):
        t = rng.choice((1, 1, 2))
        kind = rng.choice(("full", "full", "pipe", "pipe", "late-pipe", "limit", "limit", "inject", "inject", "close", "close", "pty", "partial"))
        ignored = rng.random() < 0.5
        n = {"late-pipe": rng.randrange(1 << 20, 3 << 20), "limit": rng.choice((1, 100, 70000, rng.randrange(1, 300000)))}.get(kind, rng.choice((1, 5, 8192, 70000, rng.randrange(1, 200000))))
        other = rng.choice((0, 0, 10, 9000))
        running = rng.random() < 0.5
        expected = data(rng, n)
        a.write("d", expected)
        a.write("d2", b"o" * other)
        ev = "ev-%d" % i
        ops = [a.p(ev), "trap", "0"] if running else [a.p(ev)]
        w = ["w", str(t), a.p("d"), "0", str(n), str(rng.choice((0, 0, 4096, 50000))), "0"]
        o = ["w", str(3 - t), a.p("d2"), "0", str(other), "0", "0"]
        ops += (o + w if rng.random() < 0.5 else w + o)
        if rng.random() < 0.3:
            ops += ["close", str(t)]
        ops += ["mark", "done"] + (["sleep", "100000", "exit", "0"] if running else ["exit", "0"])
        prefix, fds, certain = [], [], True
        target = None
        argv = a.client_argv(ops, stub="cmd")
        if kind == "full":
            target = os.open("/dev/full", os.O_WRONLY)
        elif kind in ("pipe", "late-pipe"):
            r, target = os.pipe()
            if kind == "pipe":
                os.close(r)
            else:
                fds.append(r)
            prefix = ["env", "--ignore-signal=PIPE"] if ignored else []
        elif kind == "limit":
            a.write("out", b"")
            target = os.open(a.p("out"), os.O_WRONLY)
            cap = rng.choice((n - 1, n, 0, rng.randrange(0, n + 1), n + 1))
            prefix = (["env", "--ignore-signal=XFSZ"] if ignored else []) + ["prlimit", "--core=0", "--fsize=%d" % cap]
            certain = cap < n
        elif kind in ("inject", "close", "partial"):
            a.write("out", b"")
            target = os.open(a.p("out"), os.O_WRONLY)
            when = rng.choice(("1", "1+", "2", "3", str(rng.randrange(1, 9))))
            spec = "close:error=%s:when=1" % rng.choice(ERRORS[:3]) if kind == "close" else "write,writev:error=EINTR:when=%s" % when if kind == "partial" else "write,writev:error=%s:when=%s" % (rng.choice(ERRORS), when)
            if kind == "partial":  # an interrupted system call may be reported or repeated
                spec = spec.replace("+", "")
            prefix = traced(a, a.p("out"), spec)
            certain = None
        elif kind == "pty":
            m, target = pty.openpty()
            tty.setraw(target)
            os.close(m)
        fds.append(target)
        e = {"K8PSH_CONFIG": a.p("k.conf")}
        what = "%s of the client: %s%s, %d bytes, %s" % ("stdout" if t == 1 else "stderr", kind, " (signal ignored)" if ignored else "", n, "command goes on" if running else "command ends")
        os.set_blocking(target, True)
        std = {"stdout": subprocess.PIPE, "stderr": subprocess.PIPE}
        std["stdout" if t == 1 else "stderr"] = target
        p = a.popen(prefix + argv, env=e, stdin=subprocess.DEVNULL, **std)
        got = b""
        if kind == "late-pipe":
            k = rng.choice((1, 100, 65536, 200000))
            os.close(fds.pop())
            r = fds.pop()
            while len(got) < k:
                d = readsome(r, k - len(got))
                if not d:
                    break
                got += d
            time.sleep(rng.choice((0, 0, 0.05)))
            os.close(r)
        if running and certain is False:
            if not wait_until(lambda: any(x[0] == "done" for x in a.events(ev)) or p.poll() is not None):
                raise Hang("hang", what + ": the command does not get on")
            time.sleep(0.05)
            a.probe("kill", a.events(ev)[0][3], 15)
        if running and certain is None:
            # the fault may not occur before the command's end: wait for either
            def over():
                return p.poll() is not None or (any(x[0] == "done" for x in a.events(ev)) and (kind == "partial" or not injected(a)))
            wait_until(over)
            time.sleep(0.05)
            if p.poll() is None and (kind == "partial" or not injected(a)):  # (after an interruption, the client may well have gone on)
                for x in a.events(ev)[:1]:
                    a.probe("kill", x[3], 15)
        try:
            rest = p.communicate(timeout=WATCHDOG)
        except subprocess.TimeoutExpired:
            raise Hang("hang", what + ": the client does not end")
        finally:
            close_all(fds)
        rc = p.returncode
        if certain is None:
            hit = injected(a) > 0
        else:
            hit = certain
        if kind in ("limit", "inject", "close", "partial"):
            got = a.read("out")
        own = rest[1] if t == 1 else None  # what the client itself has to say
        if hit and kind != "partial":
            if rc == 0:
                raise Violation("success", "%s: the client exits with 0 although only %d of %d bytes were written" % (what, len(got), n))
            # (a command that has ended, or closed its stderr, may have had the client's closed by then)
            if running and kind != "close" and t == 1 and rc != -signal.SIGPIPE and rc != -signal.SIGXFSZ and not own.lstrip(b"o"):
                raise Violation("silent", "%s: the client ends with %s without any message" % (what, cmd_status(rc)))
            if running:
                terminated(a, what, ev)
            c.count("faults_" + kind)
        elif hit and rc != 0:
            c.count("interruptions_reported")
        else:
            if rc != 0 and not (running and certain is None):
                raise Violation("spurious", "%s: nothing went wrong, but the client ends with %s: %r" % (what, cmd_status(rc), rest))
            if rc == 0 and kind in ("limit", "inject", "partial") and got != expected:
                raise Violation("lost", what + ": " + describe_diff("output", expected, got))
            if rc == 0 and len(rest[0 if t == 2 else 1] or b"") != other:
                raise Violation("lost", "%s: %d of %d bytes of the other stream" % (what, len(rest[0 if t == 2 else 1]), other))
            c.count("without_fault")
        if t == 1 and not expected.startswith(got):
            raise Violation("not-a-prefix", what + ": " + describe_diff("output", expected, got))
        if t == 2 and not (expected.startswith(got) or got.startswith(expected) or got[:first_diff(got, expected)] + b"[20" == got[:first_diff(got, expected) + 3] or not hit):
            # (the client's own messages may follow, once writing works again)
            raise Violation("not-a-prefix", what + ": " + describe_diff("output", expected, got))
        c.count("evaluations")
        c.seen("output", t, kind, ignored, running, hit, min(n, 9) if n < 10 else n // 10000)
    healthy(c, a, s, "after all")


def input_(c, a, rng, name, runs):
    """The client's input cannot be read, from some byte on: the command must not take what it got for everything."""
    s, port = setup(a, rng)
    for i in range(runs):
        kind = rng.choice(("directory", "write-only", "mem", "inject", "inject", "inject", "reset", "reset"))
        n = rng.choice((0, 1, 100, 65535, 65536, 200000, rng.randrange(1, 300000)))
        expected = data(rng, n)
        reads = rng.random() < 0.7
        trap = "-1" if reads else "0"
        ev = "ev-%d" % i
        got_name = "in-%d" % i
        ops = [a.p(ev), "trap", trap, *(["r", a.p(got_name), "-1", str(rng.choice((0, 100, 4096))) if n < 5000 else "0", "0"] if reads else ["sleep", "100000"]), "mark", "end", "exit", "0"]
        argv, prefix = a.client_argv(ops, stub="cmd"), []
        peer = None
        certain = True
        if kind == "directory":
            fd = os.open(a.p("work"), os.O_RDONLY)
        elif kind == "write-only":
            a.write("in", expected)
            fd = os.open(a.p("in"), os.O_WRONLY)
        elif kind == "mem":
            fd = os.open("/proc/self/mem", os.O_RDONLY)
        elif kind == "inject":
            a.write("in", expected)
            fd = os.open(a.p("in"), os.O_RDONLY)
            prefix = traced(a, a.p("in"), "read,readv:error=%s:when=%d" % (rng.choice(("EIO", "EIO", "ESTALE", "EISDIR")), rng.choice((1, 1, 2, 3, 4))))
            certain = None
        else:
            l = socket.socket()
            l.bind(("127.0.0.1", 0))
            l.listen(1)
            mine = socket.create_connection(l.getsockname())
            peer, _ = l.accept()
            l.close()
            fd = mine.detach()
        what = "client whose stdin is %s (%d bytes), command %s" % (kind, n, "reads it" if reads else "ignores it")
        p = a.popen(prefix + argv, env={"K8PSH_CONFIG": a.p("k.conf")}, stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.close(fd)
        if peer:
            peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            peer.settimeout(WATCHDOG)
            try:
                peer.sendall(expected)
            except OSError:
                pass
            if reads and rng.random() < 0.7:
                # the reset comes when everything has arrived
                wait_until(lambda: len(a.read(got_name)) == n and a.events(ev))
            else:
                wait_until(lambda: a.events(ev))
            peer.close()
        if certain is None and not reads:
            wait_until(lambda: p.poll() is not None or a.events(ev))
            time.sleep(0.1)
            if p.poll() is None:
                a.probe("kill", a.events(ev)[0][3], 15)
        try:
            out, err = p.communicate(timeout=WATCHDOG)
        except subprocess.TimeoutExpired:
            raise Hang("hang", what + ": the client does not end")
        rc = p.returncode
        if certain is None:
            certain = injected(a) > 0
        # the command is told before it can see an end of its input
        if certain:
            if rc == 0:
                raise Violation("success", what + ": the client exits with 0")
            if not err:
                raise Violation("silent", "%s: the client ends with %s without any message" % (what, cmd_status(rc)))
            if wait_until(lambda: a.events(ev), 0.5 if kind != "reset" else None):  # (it may not even have been started)
                terminated(a, what, ev)
                names = [(x[0], x[1]) for x in a.events(ev)]
                ends = [k for k, x in enumerate(names) if x[0] in ("read", "end")]
                if ends and ("sig", 15) not in names[:ends[0]]:
                    raise Violation("taken-for-complete", "%s: the command saw the end of its input before it was terminated: %r" % (what, names))
                c.count("terminated_before_end_of_input")
            c.count("faults_" + kind)
        elif reads:
            if rc != 0 or a.read(got_name) != expected:
                raise Violation("spurious", "%s: without a fault the client ends with %s, and %d bytes were read" % (what, cmd_status(rc), len(a.read(got_name))))
        if reads and not expected.startswith(a.read(got_name)):
            raise Violation("not-a-prefix", what + ": " + describe_diff("input", expected, a.read(got_name)))
        c.count("evaluations")
        c.seen("input", kind, reads, certain, n)
    healthy(c, a, s, "after all")


def feed(f, d):
    try:
        f.write(d)
        f.flush()
    except OSError:
        pass


def drain(s):
    try:
        while s.recv(1 << 16):
            pass
    except OSError:
        pass


def vanish(c, a, rng, name, runs):
    """The connection breaks in the middle of the input, while output is on its way: the command is terminated before it can see an end of its input."""
    s, port = setup(a, rng)
    for i in range(runs):
        ev = "ev-%d" % i
        floods = rng.choice((0, 1, 2, 2))
        how = rng.choice(("reset", "close", "kill", "kill", "half", "garbage"))
        real = how == "kill"
        ops = [a.p(ev), "trap", "-1"]
        for k in range(floods):
            ops += ["(", "flood", str(1 + k), str(rng.choice((1, 100, 4096, 65536))), ")"]
        ops += ["r", a.p("in"), "-1", "0", "0", "mark", "end"]
        part = data(rng, rng.choice((0, 1, 5000, 100000)))
        if real:
            p = a.client(ops, stub="cmd", stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            threading.Thread(target=feed, args=(p.stdin, part), daemon=True).start()
        else:
            r = Raw(port)
            r.send(request("cmd", ops) + (frame(IN, part) if part else b""))
        if not wait_until(lambda: a.events(ev)):
            raise Hang("start", "command does not start")
        time.sleep(rng.choice((0, 0.001, 0.01, 0.03)))
        if real:
            p.kill()
        elif how == "reset":
            r.reset()
        elif how == "close":
            r.close()
        elif how == "half":
            r.s.shutdown(socket.SHUT_WR)
        else:
            try:
                r.send(b"\xff1234")
            except OSError:
                pass
        if how in ("half", "garbage"):  # (a server whose output is not taken cannot notice anything)
            threading.Thread(target=drain, args=(r.s,), daemon=True).start()
        if not wait_until(lambda: any(x[0] == "end" for x in a.events(ev))):
            raise Hang("not-terminated", "after %s, the command does not see the end of its input" % how)
        me = a.events(ev)[0][3]
        names = [(x[0], x[1]) for x in a.events(ev) if x[3] == me and x[0] in ("sig", "read", "end")]
        if ("sig", 15) not in names or names.index(("sig", 15)) > [x[0] for x in names].index("read"):
            raise Violation("taken-for-complete", "connection ended by %s, %d streams flooded: the command saw the end of its input before it was terminated: %r" % (how, floods, names))
        if not real:
            r.close()
        for x in {x[3] for x in a.events(ev)} | {q for q, (n, st, pp) in a.pids().items() if n == "probe"}:
            a.probe("kill", x, 9)
        c.count("evaluations")
        c.count("terminated_before_end_of_input")
        c.seen("vanish", how, floods, len(part))
    healthy(c, a, s, "after all")


def unusual(c, a, rng, name, runs):
    """Streams that are unusual, but work (or are not used): no trouble."""
    s, port = setup(a, rng)
    for i in range(runs):
        kind = rng.choice(("unused-full", "unused-pipe", "nonblocking-in", "nonblocking-in", "closed-out", "pty-out", "socket", "same", "rdwr", "full-in", "nonblocking-out"))
        n = rng.choice((1, 5000, 70000, rng.randrange(1, 150000)))
        expected = data(rng, n, "random" if kind == "pty-out" else None)
        a.write("d", expected)
        status = rng.choice((0, 0, 7))
        ev = a.p("ev-%d" % i)
        std = dict(stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        prefix = []
        write1 = ["w", "1", a.p("d"), "0", str(n), "0", "0"]
        what = "%s, %d bytes" % (kind, n)
        if kind in ("unused-full", "unused-pipe"):
            t = rng.choice((1, 2))
            if kind == "unused-full":
                fd = os.open("/dev/full", os.O_WRONLY)
            else:
                r, fd = os.pipe()
                os.close(r)
            std["stdout" if t == 1 else "stderr"] = fd
            p = a.popen(a.client_argv([ev, "w", str(3 - t), a.p("d"), "0", str(n), "0", "0", "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            os.close(fd)
            o = p.communicate(timeout=WATCHDOG)[2 - t]
            if (p.returncode, o) != (status, expected):
                raise Violation("spurious", "%s: the stream that is not used cannot be written, and the client ends with %s instead of %d, %d bytes" % (what, cmd_status(p.returncode), status, len(o)))
        elif kind == "nonblocking-in":
            r, w = os.pipe()
            os.set_blocking(r, False)
            std["stdin"] = r
            p = a.popen(a.client_argv([ev, "cat", "0", "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            f = os.fdopen(w, "wb", 0)

            class P:  # (drive feeds through p.stdin)
                pass
            q = P()
            q.stdin, q.stdout, q.stderr, q.poll, q.wait, q.kill = f, p.stdout, p.stderr, p.poll, p.wait, p.kill
            type(q).returncode = property(lambda self: p.returncode)
            k = rng.choice((1, 2, 5))
            cut = sorted(rng.randrange(n + 1) for _ in range(k)) + [n]
            feed, last = [], 0
            for x in cut:
                feed.append((expected[last:x], rng.choice((0, 0.02, 0.1))))
                last = x
            rc, out, err = drive(q, feed)
            os.close(r)
            if (rc, out) != (status, expected):
                raise Violation("spurious", "%s: with a nonblocking stdin the client ends with %s instead of %d; %s %r" % (what, cmd_status(rc), status, describe_diff("output", expected, out), err[-300:]))
        elif kind == "closed-out":
            argv = a.client_argv([ev, *write1, "exit", str(status)], stub="cmd")
            t = rng.choice((">&-", "2>&-", "<&-", "<&- >&- 2>&-", ">&- 2>&-"))
            p = a.popen(["sh", "-c", 'exec "$@" ' + t, "sh", *argv], env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            o = p.communicate(timeout=WATCHDOG)
            if p.returncode != status or (">&-" not in t.replace("2>&-", "") and o[0] != expected):
                raise Violation("spurious", "%s: started with %s, the client ends with %s instead of %d" % (what, t, cmd_status(p.returncode), status))
        elif kind == "pty-out":
            m, sl = pty.openpty()
            tty.setraw(sl)
            std["stdout"] = sl
            p = a.popen(a.client_argv([ev, *write1, "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            os.close(sl)
            got = b""
            while True:
                try:
                    d = readsome(m, 65536)
                except OSError:
                    break
                if not d:
                    break
                got += d
            os.close(m)
            if p.wait(WATCHDOG) != status or got != expected:
                raise Violation("spurious", "%s: with a terminal as stdout: %s instead of %d; %s" % (what, cmd_status(p.returncode), status, describe_diff("output", expected, got)))
        elif kind == "socket":
            x, y = socket.socketpair()
            std["stdin"] = std["stdout"] = y
            p = a.popen(a.client_argv([ev, "cat", "0", "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            y.close()
            th = threading.Thread(target=lambda: (x.sendall(expected), x.shutdown(socket.SHUT_WR)), daemon=True)
            th.start()
            x.settimeout(WATCHDOG)
            got = b""
            while True:
                d = x.recv(65536)
                if not d:
                    break
                got += d
            x.close()
            if p.wait(WATCHDOG) != status or got != expected:
                raise Violation("spurious", "%s: with one socket as stdin and stdout: %s instead of %d; %s" % (what, cmd_status(p.returncode), status, describe_diff("output", expected, got)))
        elif kind == "same":
            r, w = os.pipe()
            std["stdout"] = std["stderr"] = w
            p = a.popen(a.client_argv([ev, "w", "1", a.p("d"), "0", str(n), "0", "0", "w", "2", a.p("d"), "0", str(n), "0", "0", "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            os.close(w)
            got = b""
            while True:
                d = readsome(r, 65536)
                if not d:
                    break
                got += d
            os.close(r)
            if p.wait(WATCHDOG) != status or len(got) != 2 * n or sorted(got) != sorted(expected * 2):
                raise Violation("spurious", "%s: with one pipe as stdout and stderr: %s instead of %d, %d bytes" % (what, cmd_status(p.returncode), status, len(got)))
        elif kind == "rdwr":
            a.write("out", b"")
            fd = os.open(a.p("out"), os.O_RDWR | os.O_APPEND)
            std["stdout"] = fd
            p = a.popen(a.client_argv([ev, *write1, "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            os.close(fd)
            if p.wait(WATCHDOG) != status or a.read("out") != expected:
                raise Violation("spurious", "%s: with a file as stdout: %s instead of %d; %s" % (what, cmd_status(p.returncode), status, describe_diff("output", expected, a.read("out"))))
        elif kind == "full-in":
            fd = os.open(rng.choice(("/dev/full", "/dev/zero", "/dev/urandom")), os.O_RDONLY)
            std["stdin"] = fd
            p = a.popen(a.client_argv([ev, "r", a.p("zeros"), str(n), "0", "0", *write1, "exit", str(status)], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            os.close(fd)
            o = p.communicate(timeout=WATCHDOG)
            if (p.returncode, o[0]) != (status, expected):
                raise Violation("spurious", "%s: with an endless stdin: %s instead of %d; %s %r" % (what, cmd_status(p.returncode), status, describe_diff("output", expected, o[0]), o[1][-300:]))
        else:
            r, w = os.pipe()
            os.set_blocking(w, False)
            std["stdout"] = w
            p = a.popen(a.client_argv([ev, *write1, "exit", "0"], stub="cmd"), env={"K8PSH_CONFIG": a.p("k.conf")}, **std)
            os.close(w)
            got = b""
            while True:
                d = readsome(r, rng.choice((1000, 65536)))
                if not d:
                    break
                got += d
                time.sleep(rng.choice((0, 0.001)))
            os.close(r)
            rc = p.wait(WATCHDOG)
            if not expected.startswith(got) or (rc == 0 and got != expected):
                raise Violation("lost", "%s: with a nonblocking stdout: %s; %s" % (what, cmd_status(rc), describe_diff("output", expected, got)))
        c.count("evaluations")
        c.count("unusual_streams")
        c.seen("unusual", kind, status, n)
    healthy(c, a, s, "after all")


def check():
    c = Check("C29", "fault_enumeration",
              "clients whose stdout or stderr is full, closed, limited or failing at some byte, at some write or only when closed, and whose stdin cannot be read from some byte on, while the command goes on or ends; and clients with unusual streams that work or are not used. distinct = different streams, faults, positions and outcomes.",
              ["static", "release", "dyn", "shim"])
    k = 12 if THOROUGH else 1
    for i in range(16 * k):
        c.add("output-%d" % i, output, runs=14)
    for i in range(10 * k):
        c.add("input-%d" % i, input_, runs=9)
    for i in range(10 * k):
        c.add("vanish-%d" % i, vanish, runs=40)
    for i in range(10 * k):
        c.add("unusual-%d" % i, unusual, runs=11)
    return c
