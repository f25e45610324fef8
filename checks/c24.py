"""C24: no input makes the program touch memory wrongly."""
import os, resource
from k8 import *
from c19 import Model, render
from c20 import TOKENS


def mutate(rng, b, tokens=TOKENS):
    b = bytearray(b)
    for _ in range(rng.choice((1, 1, 2, 5, 20))):
        p = rng.randrange(len(b) + 1)
        k = rng.random()
        if k < 0.4:
            b[p:p + rng.choice((0, 1, 3))] = rng.choice(tokens)
        elif k < 0.6:
            b[p:p + 1] = bytes([rng.randrange(256)])
        elif k < 0.75:
            del b[p:p + rng.choice((1, 2, 10, 100))]
        elif k < 0.9:
            q = rng.randrange(len(b) + 1)
            b[p:p] = b[q:q + rng.choice((1, 5, 50))]
        else:
            b[p:] = b""
    return bytes(b)


def text(rng):
    return render(Model(rng), rng, (True, rng.choice((b"\n", b"\r\n"))))


def debug_list(rng):
    """A list of modules to debug, with blanks and separators anywhere (on its edges, too)."""
    return "".join(rng.choice((" ", "  ", "\t", ",", ";", "", "", "main", "Main", "MAIN", "process", "socket", "utilities", "configuration", "all", "x", "mainmain", " " * 40, "y" * 30, "\u00e4")) for _ in range(rng.choice((1, 2, 3, 5, 9))))


def calls(c, a, rng, name, count):
    """Everything that parses text, called directly under the sanitizers."""
    env = {"A": "value", "B": "", "K8PSH_DEBUG": rng.choice(("", "all", "Configuration", ",;, x"))}
    u = Units(a, "units_asan", env=env)
    soup = lambda n: b"".join(rng.choice(TOKENS) for _ in range(rng.randrange(n)))
    anything = lambda: rng.choice((lambda: soup(12), lambda: rng.randbytes(rng.choice((0, 1, 2, 15, 16, 17, 100, 5000))), lambda: b"".join(rng.choice((b"/", b".", b"..", b"a", b"", b"\0", b"/./")) for _ in range(rng.randrange(12)))))()
    todo = []
    for i in range(count):
        k = rng.randrange(10)
        if k < 4:
            t = rng.choice((lambda: mutate(rng, text(rng)), lambda: soup(40), lambda: rng.randbytes(rng.randrange(300)), lambda: text(rng) * 30))()
            todo.append([b"load", t, rng.choice((b"/", b"", b"rel", anything())), anything(), b"srv"])
        elif k < 6:
            todo.append([b"subst", anything(), anything(), anything(), rng.choice((b"0", b"1"))])
        elif k < 7:
            todo.append([rng.choice((b"normalize", b"basename", b"parent", b"absolute")), anything()])
        elif k < 8:
            # (the parent is always a normalized path, which has no NUL)
            todo.append([b"relativize", anything().replace(b"\0", b""), anything()])
        elif k < 9:
            # a path that continues another one in a random way
            p = anything().replace(b"\0", b"")
            todo.append([b"relativize", p, p + anything()] if rng.random() < 0.5 else [b"relativize", p + anything().replace(b"\0", b""), p])
        else:
            todo.append([b"debug", anything().replace(b"\0", b"")])
            todo.append([b"setenv", b"K8PSH_DEBUG", debug_list(rng).encode() if rng.random() < 0.8 else anything().replace(b"\0", b"")])
            todo += [[b"debug", m] for m in (b"Main.cxx", b"/src/x.y", b"src/Process.cxx", b"all", b"main")]
            todo.append([b"setenv", b"K8PSH_DEBUG", rng.choice((b"", b"", b"Configuration"))])
    err = sum(isinstance(r, UnitError) for r in u.batch(todo, 200))
    u.close()
    if u.p.returncode != 0:
        raise Violation("crash", "the process ended with %s" % cmd_status(u.p.returncode))
    c.count("evaluations", len(todo))
    c.count("calls_with_errors", err)
    c.count("calls_with_results", len(todo) - err)
    c.seen("calls", tuple(map(tuple, todo)))


def coverage_guided(c, a, rng, name, runs):
    a.makedirs(a.p("corpus"))
    for i in range(30):
        a.write("corpus/c%d" % i, b"\0" + text(rng))
        a.write("corpus/s%d" % i, bytes([rng.choice((4, 5, 6, 7))]) + b"".join(rng.choice(TOKENS + [b"/", b"/a", b".."]) for _ in range(8)))
    a.write("dict", "".join('"%s"\n' % "".join("\\x%02x" % x for x in t) for t in TOKENS if t))
    p = a.popen([a.bin + "/fuzz_config", "-seed=%d" % rng.randrange(1, 1 << 31), "-runs=%d" % runs, "-max_len=600", "-close_fd_mask=3", "-dict=" + a.p("dict"), "-artifact_prefix=" + a.p("crash-"), "-timeout=60", "-rss_limit_mb=4000", "-print_final_stats=1", a.p("corpus")],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    rc, out, err = finish(p, None, timeout=1500 if THOROUGH else 250, what="fuzzer")
    crash = [f for f in os.listdir(a.dir) if f.startswith("crash-")]
    if rc != 0 or crash:
        reports = a.sanitizer_reports()
        raise Violation("fuzz", "%s with the input %r: %s" % (cmd_status(rc), a.read(crash[0]) if crash else None, reports[0][:2000] if reports else err[-500:]))
    n = len(os.listdir(a.p("corpus")))
    c.count("coverage_guided_runs", runs)
    c.count("corpus_reached", n)
    c.count("evaluations", runs)
    c.seen("guided", rng.random())


def frames(rng, types, n):
    out = b""
    for _ in range(n):
        k = rng.random()
        t = rng.choice(types)
        if k < 0.75:
            out += frame(t, rng.randbytes(rng.choice((0, 1, 2, 4, 5, 100, 4090, 4091, 4092, 4096, 8186, 8187, 8188, 8192, 20000, 70000)) if rng.random() < 0.5 else rng.randrange(0, 9000)))
        elif k < 0.85:
            out += struct.pack("<BI", t, rng.choice((0, 1, 0x7fffffff if rng.random() < 0.02 else 1 << 20, 4096, 1 << 16)))
        elif k < 0.95:
            out += rng.randbytes(rng.randrange(1, 12))
        else:
            out += frame(rng.randrange(256), rng.randbytes(rng.randrange(0, 20)))
    return mutate(rng, out, [b"\0", b"\xff", b"\0\0\0\0", b"\x05\x02\0\0\0ab"]) if rng.random() < 0.3 else out


def serve_conf(a, rng, port, debug):
    lines = ["cmd A= ?B= '=C=${A:-x}' '%s/probe' '%s'" % (a.bin, a.p("ev")), "'%s' '%s/probe' '%s' cat" % ("n" * rng.choice((1, 15, 16, 200)), a.bin, a.p("ev")), "missing /nonexistent/" + "x" * rng.choice((1, 300, 5000)), "empty ''"]
    return conf(a, port, lines, settings="")


def watch(a, s):
    reports = a.sanitizer_reports()
    if reports:
        raise Violation("sanitizer", reports[0][:3000], log=s.output()[-500:] if s else "")


def server_input(c, a, rng, name, shots, how="asan"):
    port = a.port()
    debug = rng.choice((None, "all", "Process"))
    env = {"K8PSH_DEBUG": debug} if debug else {}
    s = start(a, rng, port, how, env)
    for i in range(shots):
        wd = rng.choice((b"", b"", b".", b"x", b"../..", b"/", b"\0", rng.randbytes(rng.choice((5, 300, 5000)))))
        args = rng.choice(([b"cat"], [b"cat"], [b"w", b"1", b"/dev/zero", b"0", b"%d" % rng.choice((1, 4096, 8192, 100000))], [b"exit", b"3"], [b"close", b"0", b"cat"], [b"kill", b"9"], [rng.randbytes(rng.choice((1, 100, 5000, 200000)))]))
        envs = [rng.choice((b"A=1", b"B=2", b"C=3", b"A", b"", b"=", b"A==", b"B=" + b"y" * rng.choice((0, 15, 16, 5000)), rng.randbytes(20))) for _ in range(rng.choice((0, 1, 3, 50)))]
        req = request(rng.choice((b"cmd", b"cmd", b"cmd", b"missing", b"empty", b"none", rng.randbytes(9))), args, wd, envs)
        k = rng.random()
        if k < 0.3:
            req = mutate(rng, req, [b"\0", b"\xff", b"\0\0\0\0", frame(START, b"cmd"), frame(ENV, b"A=2")])
        if k > 0.2:
            req += frames(rng, (IN, IN, IN, IN, TERM, WD, ENV, ARG, START, OUT, EXIT), rng.choice((0, 1, 3, 10)))
        if k > 0.9:
            req = rng.randbytes(rng.choice((1, 5, 100, 10000)))
        conn = Raw(port)
        cuts = sorted(rng.randrange(len(req) + 1) for _ in range(rng.choice((0, 0, 1, 5))))
        try:
            conn.send(req, cuts, rng.choice((0, 0, 0.002)))
            if rng.random() < 0.7:
                conn.send(frame(IN))
                conn.s.settimeout(rng.choice((0.02, 0.1, 0.5)))
                for _ in range(100):
                    if not conn.s.recv(rng.choice((1, 100, 65536))):
                        break
        except OSError:
            pass
        rng.choice((conn.close, conn.close, conn.reset))()
        c.count("evaluations")
        c.count("server_inputs")
        c.seen("server", req[:5000])
        if not s.alive():
            break
    watch(a, s)
    rc = s.stop()
    watch(a, s)
    if rc < 0:
        raise Violation("crash", "the server ended with %s: %s" % (cmd_status(rc), s.output()[-1000:]))


def start(a, rng, port, how, env, opts=()):
    a.write("k.conf", serve_conf(a, rng, port, env))
    if how == "asan":
        return a.server(None, port=port, variant="asan", env=env, opts=opts)
    s = Server()
    s.arena, s.port, s.log = a, port, a.p("server.log")
    with open(s.log, "wb") as f:
        s.p = a.popen([*VALGRIND(a), a.bin + "/dyn/k8pshd", "--config=" + a.p("k.conf"), "--name=srv", "-e", a.p("sv"), *opts], env=env, cwd=a.dir, stdout=f, stderr=f)
    s.pid = s.p.pid
    s.wait_listen()
    return s


def VALGRIND(a):
    return ["/usr/bin/valgrind", "-q", "--vgdb=no", "--trace-children=no", "--leak-check=no", "--show-error-list=no", "--track-origins=no", "--log-file=" + a.p("san/v.%p")]


def client_input(c, a, rng, name, runs, how="asan"):
    """The client, given arbitrary messages by a server and arbitrary standard input."""
    port = a.port()
    a.write("k.conf", conf(a, port, ["cmd A= B=${A} C= x", "stop x"], settings="connectTimeoutMs = %d\n" % WATCHDOG_MS))
    fs = FakeServer(port)
    try:
        for i in range(runs):
            variant = "asan"
            args = [rng.choice(("", "x", "y" * 300, "-c", "\u00e4", "z" * 100000)) for _ in range(rng.choice((0, 1, 5)))]
            env = {"A": "1" * rng.choice((0, 1, 15, 16, 9000)), "K8PSH_CONFIG": a.p("k.conf")}
            if rng.random() < 0.2:
                env["K8PSH_DEBUG"] = rng.choice(("all", "Process;Socket", ", ,", "pROCESS , all;", debug_list(rng)))
            argv = a.client_argv(args, variant, stub=rng.choice(("cmd", "cmd", "stop")))
            if how == "valgrind":
                argv = VALGRIND(a) + [a.bin + "/dyn/k8psh", "cmd", *args]
            p = a.popen(argv, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            conn = fs.accept()
            stream = frames(rng, (OUT, OUT, OUT, ERR, ERR, ERR, IN, EXIT, START, TERM), rng.choice((0, 1, 3, 10, 30)))
            if rng.random() < 0.5:
                stream += frame(EXIT, rng.choice((0, 1, 255, -1, 256, -2147483648, 2147483647)))
            cuts = sorted(rng.randrange(len(stream) + 1) for _ in range(rng.choice((0, 0, 1, 5))))
            wait = rng.random() < 0.7

            def serve():
                try:
                    if wait:
                        fs.request(conn)
                    conn.send(stream, cuts, rng.choice((0, 0, 0.002)))
                    rng.choice((conn.close, conn.close, conn.reset, lambda: conn.s.shutdown(1)))()
                except OSError:
                    pass
            t = threading.Thread(target=serve, daemon=True)
            t.start()
            feed = [(rng.randbytes(rng.choice((0, 1, 4096, 8192, 100000))), rng.choice((0, 0.002))) for _ in range(rng.choice((0, 1, 3)))]
            rc, out, err = drive(p, feed)
            t.join(WATCHDOG)
            conn.close()
            watch(a, None)
            if rc < 0 and rc not in (-signal.SIGABRT, -signal.SIGPIPE):
                raise Violation("crash", "the client ended with %s on %r..." % (cmd_status(rc), stream[:200]))
            c.count("evaluations")
            c.count("client_inputs")
            c.seen("client", stream[:5000], rc)
    finally:
        fs.close()


WATCHDOG_MS = 5000
OPTS = ["-b", "-d", "-k", "-l", "-o", "-w", "-e", "-m", "-p", "-t", "-c", "-n", "-h", "-v", "-s", "-i", "--background", "--disable-client-executables", "--keep-client-executables", "--generate-local-executables", "--overwrite-client-executables", "--no-wait",
        "--executable-directory", "--max-connections", "--pidfile", "--timeout", "--config", "--name", "--help", "--version", "--server", "--ignore-invalid-arguments", "--install"]


def command_lines(c, a, rng, name, runs):
    """Arbitrary command lines, program names and environment variables, in arbitrary directories."""
    port = a.port(4)
    for i in range(runs):
        a.makedirs(a.p("out"))
        t = conf(a, port, ["cmd x", "stop x"], settings="connectTimeoutMs = 20\n").encode() + b"[other] A=b --timeout 5 -m=0\nc2 x\n"
        a.write("k.conf", t if rng.random() < 0.7 else mutate(rng, t))
        value = lambda: rng.choice(("", "0", "-1", "1", "5", "srv", "other", a.p("k.conf"), a.p("out"), a.p("out/pid"), "99999999999999999999", "-99999999999999999999", "2147483648", "-2147483649", "1x", "x", "\u00e4", "=", "a=b", "y" * 5000, " 5", "+5", "0x10", "/"))
        args = []
        for _ in range(rng.choice((0, 1, 2, 4, 8))):
            o = rng.choice(OPTS)
            k = rng.random()
            if o.startswith(("--inst", "--exec", "-e", "-p", "--pid")):
                v = rng.choice((a.p("out"), a.p("out/x"), a.p("nothing/x"), a.p("out") + "/" * 300))
                args += [o + "=" + v] if k < 0.5 and o.startswith("--") else [o, v]
            elif k < 0.4:
                args += [o]
            elif k < 0.6:
                args += [o + "=" + value()]
            else:
                args += [o, value()]
        if rng.random() < 0.3:
            args.append(value())
        server = rng.random() < 0.6
        if server:
            args = ["--config=" + a.p("k.conf"), "--name=" + rng.choice(("srv", "other")), "-m", "0", "-t", "30"] * (rng.random() < 0.7) + args
        argv0 = rng.choice(("k8psh", "k8pshd", "cmd", "", "/", "//", "k8psh/", "./k8pshd", "/x/y/cmd", ".", "..", "k8psh.exe", "a" * 4000)) if rng.random() < 0.5 else ("k8pshd" if server else "k8psh")
        env = {}
        for n in ("K8PSH_CONFIG", "K8PSH_NAME", "K8PSH_DEBUG"):
            if rng.random() < 0.6:
                env[n] = debug_list(rng) if n == "K8PSH_DEBUG" and rng.random() < 0.5 else rng.choice((a.p("k.conf"), "srv", "", "all", "x" * 3000, ",", ";;a;all", " all ", "\u00e4"))
        env.setdefault("K8PSH_CONFIG", a.p("k.conf"))
        fds = rng.random() < 0.2
        p = a.popen(args and [argv0] + args or [argv0], executable=a.bin + "/asan/k8psh", env=env, cwd=a.p("work"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            # a server without limits stays
            out, _ = p.communicate(timeout=rng.choice((1, 3)) if not server else 2)
        except subprocess.TimeoutExpired:
            p.terminate()
            try:
                out, _ = p.communicate(timeout=5)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            c.count("ended_by_signal")
        a.probe("killall")
        watch(a, None)
        if p.returncode < 0 and p.returncode not in (-signal.SIGABRT, -signal.SIGTERM, -signal.SIGKILL):
            raise Violation("crash", "%r %r ended with %s: %r" % (argv0, args, cmd_status(p.returncode), out[-500:]))
        c.count("evaluations")
        c.count("command_lines")
        c.seen("line", argv0, tuple(args), p.returncode)


def directories(c, a, rng, name, lengths):
    """Programs and working directories with paths of all kinds of lengths."""
    port = a.port()
    for n in lengths:
        base = a.p("d")
        d = base
        while len(d) < n:
            k = min(200, n - len(d) - 1)
            if k < 1:
                break
            d += "/" + "p" * k
        cur = os.open("/", os.O_RDONLY)
        a.makedirs(d) if len(d) < 3900 else None
        os.close(cur)
        if len(d) >= 3900:
            continue
        prog = os.path.join(d, "k8psh")
        if len(prog) < 4095:
            import shutil
            shutil.copyfile(a.bin + "/asan/k8psh", prog)
            os.chmod(prog, 0o755)
        out = a.p("o%d" % n)
        a.mkdir(out)
        a.write("k.conf", "baseDirectory = '%s'\n[srv:%d]\ncmd '%s/probe' '%s' exit 7\n[o:1]\nx y\n" % (base, port, a.bin, a.p("ev")))
        with open(a.p("log"), "wb") as f:
            s = a.popen([prog, "-s", "-c", a.p("k.conf"), "-n", "srv", "-l", "-e", out], cwd=d, stdout=f, stderr=f)
        if not wait_until(lambda: listening(port) or s.poll() is not None) or s.poll() is not None:
            watch(a, None)
            raise Violation("no-server", "with a path of %d bytes: %r" % (len(prog), a.read("log")[-300:]))
        if not wait_until(lambda: os.path.lexists(out + "/cmd")):
            raise Hang("no-executable", "with a path of %d bytes" % len(prog))
        rc, o, e = finish(a.popen([out + "/cmd"], cwd=d, env={"K8PSH_CONFIG": a.p("k.conf")}, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        watch(a, None)
        if rc != 7:
            raise Violation("path", "with a program path of %d bytes and a directory of %d, the session ends with %s: %r" % (len(prog), len(d), cmd_status(rc), e[-300:]))
        s.terminate()
        s.wait()
        c.count("evaluations")
        c.seen("path", len(d), len(prog))


def sessions(c, a, rng, name, runs, how="asan"):
    """Ordinary traffic in all directions, with both ends instrumented."""
    port = a.port()
    s = start(a, rng, port, how, {})
    client = lambda args: a.client_argv(args, "asan") if how == "asan" else VALGRIND(a) + [a.bin + "/dyn/k8psh", *args]
    for i in range(runs):
        d, ops, exp = write_plan(rng, 300000 if how == "asan" else 30000)
        a.write("data", d)
        n = rng.choice((0, 1, 5000, 200000 if how == "asan" else 20000))
        k = rng.random()
        args = ["cmd"] + (ops_args(ops, a.p("data")) if k < 0.5 else ["cat"] if k < 0.9 else ["close", "1", "close", "2", "exit", "4"])
        p = a.popen(client(args), env={"K8PSH_CONFIG": a.p("k.conf"), "A": "1"}, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        kill = rng.random()
        noise = [(rng.choice((0, 0.01, 0.1)), p.kill)] if kill < 0.1 else [(rng.choice((0, 0.01, 0.1)), p.terminate)] if kill < 0.2 else None
        rc, out, err = drive(p, [(rng.randbytes(n), 0)], noise=noise)
        watch(a, s)
        if p.returncode < 0 and not noise:
            raise Violation("crash", "the client ended with %s: %r" % (cmd_status(rc), err[-500:]))
        c.count("evaluations")
        c.count("sessions_" + how)
        c.seen("session", how, tuple(args[:4]), n, p.returncode)
    rc = s.stop()
    watch(a, s)
    if rc != 0:
        raise Violation("crash", "the server ended with %s: %s" % (cmd_status(rc), s.output()[-500:]))


def check():
    c = Check("C24", "exploration",
              "AddressSanitizer, UBSan and libstdc++ assertions (and valgrind memcheck for uninitialised data) watch: parsers called with generated, mutated, arbitrary and coverage-guided input; servers and clients given mutated and arbitrary messages in arbitrary pieces; command lines, program names, environments and path lengths; ordinary traffic. distinct = different inputs (with outcome).",
              ["asan", "units_asan", "dyn", "fuzz_config"])
    k = 12 if THOROUGH else 1
    for i in range(6 * k):
        c.add("calls-%d" % i, calls, count=6000)
    for i in range(8 if THOROUGH else 2):
        c.add("guided-%d" % i, coverage_guided, runs=1500000 if THOROUGH else 40000)
    for i in range(6 * k):
        c.add("server-%d" % i, server_input, shots=50)
        c.add("client-%d" % i, client_input, runs=30)
        c.add("lines-%d" % i, command_lines, runs=25)
    for i in range(4 * k):
        c.add("sessions-%d" % i, sessions, runs=15)
    edges = sorted({x for e in (256, 512, 1024, 2048) for x in range(e - 12, e + 3)} | {100, 3000, 3800})
    for i in range(6):
        c.add("directories-%d" % i, directories, lengths=edges[i::6] if THOROUGH else edges[i::6][::2])
    for i in range(2 * (3 if THOROUGH else 1)):
        c.add("memcheck-server-%d" % i, server_input, shots=25, how="valgrind")
        c.add("memcheck-client-%d" % i, client_input, runs=5, how="valgrind")
        c.add("memcheck-sessions-%d" % i, sessions, runs=4, how="valgrind")
    return c
