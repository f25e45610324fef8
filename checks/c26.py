"""C26: command line and configured server options combine as documented."""
import os, signal, socket as pysocket
from k8 import *
from refs import spell_number, not_number, too_large

FLAGS = {"b": "--background", "d": "--disable-client-executables", "k": "--keep-client-executables", "l": "--generate-local-executables", "o": "--overwrite-client-executables", "w": "--no-wait"}
VALUED = {"e": "--executable-directory", "m": "--max-connections", "p": "--pidfile", "t": "--timeout"}
UNKNOWN = ["--foo", "-x", "--timeoutx", "--timeoutx=5", "--time=5", "-t5", "-kl", "--keep-client-executables=1", "--keep", "word", "--", "-", "--no-wait=", "--Background", "-B", "--pid-file=x", "--config-file=x", "-bk", "--backgroun", "-executable-directory", "--max-connection=3", "--disable", "=", "-e.", "--overwrite", "\u00e4", "--\n", "--keep-client-executables ", " -k", "---k", "-I", "--ignore", "--generate-local-executables=", "--server=1", "--help=1", "--versions"]


def spelled(rng, short, long, value=None):
    if value is None:
        return [rng.choice(("-" + short, long))]
    return rng.choice((["-" + short, value], [long, value], [long + "=" + value]))


def q(s):
    return "'" + s.replace("'", "''") + "'"


class Case:
    """Random options in the configuration and on the command line, and what they mean together."""

    def __init__(self, c, a, rng):
        self.a, self.rng = a, rng
        self.dirs = ["d1", "d2", "-k", "--timeout=5", "a b"]
        for d in self.dirs:
            a.makedirs(a.p("work", d))
        self.eff = {"e": None, "m": -1, "p": None, "t": -1}
        self.flags = set()
        self.lists = []
        self.overridden = False
        bg = rng.random() < 0.3
        for side in ("configuration", "command line"):
            opts = []
            for _ in range(rng.choice((0, 1, 2, 4, 7))):
                k = rng.random()
                if k < 0.5:
                    f = rng.choice("dkklloww")
                    self.flags.add(f)
                    opts.append(spelled(rng, f, FLAGS[f]))
                else:
                    opts.append(self.valued(rng.choice("eemptt")))
            self.lists.append(opts)
        # there are always a directory, and a PID file in the background
        last = rng.randrange(2)
        if self.eff["e"] is None:
            self.lists[last].append(self.valued("e"))
        if bg:
            self.flags.add("b")
            o = self.lists[rng.randrange(2)]
            o.insert(rng.randrange(len(o) + 1), spelled(rng, "b", FLAGS["b"]))
            if self.eff["p"] is None:
                self.lists[last].append(self.valued("p"))
        # recompute what is effective from the final order
        self.recompute()

    def valued(self, k):
        rng, a = self.rng, self.a
        v = {"e": lambda: (lambda d: d if rng.random() < 0.5 else a.p("work", d))(rng.choice(self.dirs)), "m": lambda: spell_number(rng, rng.choice((-1, 1, 2, 1000, -7, 4294967297))).decode(), "p": lambda: rng.choice(("pid1", a.p("work", "pid2"), "d1/-b")),
             "t": lambda: spell_number(rng, rng.choice((-1, 250, 10000000, -300, 4294967546))).decode()}[k]()
        self.eff[k] = v
        return spelled(rng, k, VALUED[k], v)

    def recompute(self):
        values = {k: [] for k in VALUED}
        for opts in self.lists:
            for o in opts:
                for k, l in VALUED.items():
                    if o[0] in ("-" + k, l) and len(o) == 2:
                        values[k].append(o[1])
                    elif len(o) == 1 and o[0].startswith(l + "="):
                        values[k].append(o[0][len(l) + 1:])
        self.eff = {k: v[-1] if v else {"m": "-1", "t": "-1"}.get(k) for k, v in values.items()}
        self.overridden = any(0 <= int(x) < 1000 for x in values["t"][:-1])

    def directory(self):
        return os.path.join(self.a.p("work"), self.eff["e"])

    def pidfile(self):
        return self.eff["p"] and os.path.join(self.a.p("work"), self.eff["p"])


def config(a, port, me, options, mark="R"):
    """The server 'me' (with a sleeper) and another one."""
    return ("baseDirectory = '%s'\nconnectTimeoutMs = 200\n[%s:%d] %s\n" % (a.p("work"), q(me), port, " ".join(q(o) for o in options)) +
            "mine '%s/probe'\n[else:%d]\ntheirs x\nmore x\n" % (a.bin, 1))


def decoy(a, port):
    return "[decoy:%d]\ndec1 x\n[srv:%d]\ndec2 x\n[d3:1]\ndec3 x\n" % (port, port)


def invocation(a, rng, text, me, port, cmdline):
    """The complete command line and environment: where the configuration and the name come from varies."""
    env, head = {}, []
    a.write("k.conf", text)
    a.write("decoy.conf", decoy(a, port))
    k = rng.randrange(5)
    if k == 0:
        env["K8PSH_CONFIG"] = a.p("k.conf")
    elif k == 1:
        a.write("work/k8psh.conf", text)  # the default
    else:
        if k == 2:
            env["K8PSH_CONFIG"] = rng.choice((a.p("decoy.conf"), a.p("missing.conf"), ""))
        if k == 3:
            head.append(spelled(rng, "c", "--config", a.p("decoy.conf")))
            a.write("work/k8psh.conf", decoy(a, port))
        head.append(spelled(rng, "c", "--config", rng.choice((a.p("k.conf"), "../k.conf"))))
    k = rng.randrange(4)
    if me == pysocket.gethostname() and rng.random() < 0.8:
        pass
    elif k == 0:
        env["K8PSH_NAME"] = me
    else:
        if k == 1:
            env["K8PSH_NAME"] = rng.choice(("decoy", "else", "nobody"))
        if k == 2:
            head.append(spelled(rng, "n", "--name", rng.choice(("decoy", "else"))))
        head.append(spelled(rng, "n", "--name", me))
    # the order among different options does not matter, but it does among equal ones
    groups = [head, [list(x) for x in cmdline]]
    merged = []
    while any(groups):
        g = rng.choice([g for g in groups if g])
        merged.append(g.pop(0))
    flat = [x for o in merged for x in o]
    k = rng.random()
    variant = rng.choice(("static", "release"))
    if k < 0.5:
        argv = [a.bin + "/" + variant + "/k8pshd", *flat]
        if rng.random() < 0.2:
            argv.insert(rng.choice((1, len(argv))), rng.choice(("-s", "--server")))
    else:
        argv = [a.bin + "/" + variant + "/k8psh", rng.choice(("-s", "--server")), *flat]
    return argv, env


def running(a):
    return {p: v for p, v in a.pids().items() if v[1] != "Z"}


def listing(a):
    r = {}
    for root, dirs, files in os.walk(a.p("work")):
        for f in files:
            p = os.path.join(root, f)
            r[p] = os.readlink(p) if os.path.islink(p) else a.read(p)
    return r


def combined(c, a, rng, name, runs):
    for _ in range(runs):
        a.new()
        case = Case(c, a, rng)
        port = a.port()
        me = rng.choice(("srv", "srv", "x y", pysocket.gethostname()))
        argv, env = invocation(a, rng, config(a, port, me, [x for o in case.lists[0] for x in o]), me, port, case.lists[1])
        f, d = case.flags, case.directory()
        existing = rng.random() < (0.5 if "o" in f else 0.1)
        if existing and "d" not in f:
            a.write(os.path.join(d, "theirs"), b"existing")
        else:
            existing = False
        before = listing(a)
        what = "%r with %r in the configuration and %r in the environment" % (argv[1:], case.lists[0], env)
        with open(a.p("log"), "wb") as lf:
            p = a.popen(argv, env=env, stdout=lf, stderr=lf)
        info = lambda: dict(effective=case.eff, flags=sorted(f), log=a.read("log")[-300:])
        stubs = [] if "d" in f else ["more", "theirs"] + (["mine"] if "l" in f else [])
        if existing and "o" not in f:
            p.wait(WATCHDOG)
            now = listing(a)
            if p.returncode == 0 or (now != before if "k" not in f else any(now.get(x) != v for x, v in before.items())):
                raise Violation("overwrite", "%s: status %s, and files are %r" % (what, cmd_status(p.returncode), sorted(listing(a))), **info())
            c.count("refused_existing")
            c.count("evaluations")
            continue
        if not wait_until(lambda: listening(port) or (p.poll() is not None and "b" not in f)) or ("b" not in f and p.poll() is not None and int(case.eff["t"]) != 250):
            raise Violation("no-server", "%s: the server does not start (%r)" % (what, p.poll()), **info())
        pid = p.pid
        if "b" in f:
            p.wait(WATCHDOG)
            if p.returncode != 0:
                raise Violation("background", "%s: the starting process ends with %s" % (what, cmd_status(p.returncode)), **info())
            if not wait_until(lambda: a.read(case.pidfile()).endswith(b"\n") or not running(a)):
                raise Hang("pidfile", "%s: no PID file %s" % (what, case.pidfile()), **info())
            pid = int(a.read(case.pidfile()) or 0)
        alive = lambda: a.pids().get(pid, ("", "Z", 0))[1] != "Z"
        finite = 0 <= int(case.eff["t"]) < 1000
        want = dict(before)
        for s in stubs:
            want[os.path.join(d, s)] = os.path.realpath(argv[0])
        if "b" in f:
            want[case.pidfile()] = b"%d\n" % pid

        def settled():
            return listing(a) == want
        if not finite:
            if not wait_until(settled, 20):
                now = listing(a)
                raise Violation("files", "%s: %r instead of %r" % (what, {k: now.get(k) for k in set(now) | set(want) if now.get(k) != want.get(k)}, {k: want.get(k) for k in set(now) | set(want) if now.get(k) != want.get(k)}), **info())
        session = lambda i, *ops: a.popen(a.client_argv([a.p("ev%d" % i), *ops], stub="mine"), env={"K8PSH_CONFIG": a.p("cl.conf")}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
        a.write("cl.conf", "baseDirectory = '%s'\nconnectTimeoutMs = 200\n[x:%d]\nmine y\n" % (a.p("work"), port))
        m = int(case.eff["m"])
        if finite:
            kind = "timeout"
        elif 0 <= m < 10:
            kind = "connections"
            for i in range(m):
                if not alive():
                    raise Violation("connections", "%s: the server ended after %d connections" % (what, i), **info())
                rc, out, _ = finish(session(i, "exit", "3"))
                if rc != 3:
                    raise Violation("connections", "%s: connection %d ended with %s" % (what, i, cmd_status(rc)), **info())
        else:
            kind = "signal"
            if case.overridden:
                time.sleep(0.5)
                if not alive():
                    raise Violation("timeout", "%s: the server ended by itself" % what, **info())
            s = session(0, "waitfile", a.p("go"), "exit", "4")
            if not wait_until(lambda: a.read("ev0") or s.poll() is not None) or s.poll() is not None:
                raise Violation("session", "%s: the session ended with %r" % (what, s.poll()), **info())
            os.kill(pid, signal.SIGTERM)
            if "w" in f:
                if not wait_until(lambda: not alive()):
                    raise Hang("no-wait", "%s: the server waits for the session" % what, **info())
            else:
                time.sleep(0.15)
                if not alive():
                    raise Violation("no-wait", "%s: the server does not wait for the session" % what, **info())
            a.write("go", b"")
            rc, _, _ = finish(s)
            if rc != 4:
                raise Violation("session", "%s: the session ended with %s" % (what, cmd_status(rc)), **info())
        if not wait_until(lambda: not alive()):
            raise Hang("no-end", "%s: the server does not end (%s)" % (what, kind), **info())
        if "b" not in f:
            p.wait(WATCHDOG)
            if p.returncode != 0:
                raise Violation("status", "%s: the server ended with %s (%s)" % (what, cmd_status(p.returncode), kind), **info())
        if "k" not in f:
            for s in stubs:
                del want[os.path.join(d, s)]
        want.pop(case.pidfile(), None) if "b" in f else None
        now = listing(a)
        if now != want:
            raise Violation("files-left", "%s: finally %r instead of %r (%s)" % (what, {k: now.get(k) for k in set(now) | set(want) if now.get(k) != want.get(k)}, {k: want.get(k) for k in set(now) | set(want) if now.get(k) != want.get(k)}, kind), **info())
        c.count("evaluations")
        c.count("ended_by_" + kind)
        c.seen(tuple(argv[1:]), tuple(map(tuple, case.lists[0])), kind)
        c.sample(configuration=case.lists[0], command_line=argv[1:], effective=case.eff, flags=sorted(f), ended_by=kind)


def errors(c, a, rng, name, runs):
    """Options that are unknown, or lack their value, or have a value that is not a number."""
    for i in range(runs):
        a.new()
        case = Case(c, a, rng)
        # (a server that is started wrongly has to end)
        where = rng.randrange(2)
        kind = rng.choice(("unknown", "unknown", "missing", "number", "ignored"))
        lists = [list(case.lists[0]), list(case.lists[1])]
        stop = [["-t", "300"], ["-m", "-1"]]
        if kind in ("unknown", "ignored"):
            for _ in range(1 if kind == "unknown" else rng.choice((1, 2, 4))):
                bad = rng.choice(UNKNOWN)
                w = where if kind == "unknown" else rng.randrange(2)
                if w == 0:
                    # the first words of a section are environment declarations if they look like some
                    while "=" in bad[1:] and not bad.startswith("--"):
                        bad = rng.choice(UNKNOWN)
                lists[w].insert(rng.randrange(len(lists[w]) + 1) if w or bad[1:].find("=") < 0 else len(lists[w]), [bad])
        elif kind == "missing":
            bad = rng.choice(list(VALUED.items()) + ([("c", "--config"), ("n", "--name")] if where else []))
            bad = rng.choice(("-" + bad[0], bad[1]))
            lists[where].append([bad])
        else:
            k = rng.choice("mt")
            bad = rng.choice(("", "x", "--5", "99999999999999999999", "-99999999999999999999", "-", "k5", "ten", "5x", "300ms", "250 ", "1e2", "2.5", "0x10", "-1x", "3,", "100 200", *(not_number(rng).decode(errors="surrogateescape") for _ in range(12)), *(too_large(rng, 2 ** 63).decode() for _ in range(3))))
            lists[where].append(spelled(rng, k, VALUED[k], bad))
            if where == 0:
                lists[1] = [o for o in lists[1] if not (o[0] == "-" + k or o[0].startswith(VALUED[k]))]
        if kind == "ignored":
            # -i counts for what follows, and on the command line for the configuration as well
            lists[1].insert(0, [rng.choice(("-i", "--ignore-invalid-arguments"))])
            stopper = spelled(rng, "t", VALUED["t"], "300")
            lists[1].append(stopper)
        elif kind != "missing" or where == 0:
            lists[1].insert(0, spelled(rng, "t", VALUED["t"], "300")) if kind != "number" else None
            if kind == "missing":  # the first option on the command line must not be taken for the missing value
                lists[1].insert(0, [rng.choice(("-k", "-k", "-l", "--timeout=300", "--keep-client-executables", "-w"))])
        port = a.port()
        text = config(a, port, "srv", [x for o in lists[0] for x in o])
        a.write("k.conf", text)
        argv = [a.bin + "/" + rng.choice(("static", "release")) + "/k8pshd"]
        pre = [x for o in lists[1] for x in o]
        # configuration and name are given first, by the environment
        env = {"K8PSH_CONFIG": a.p("k.conf"), "K8PSH_NAME": "srv"}
        argv += pre
        d = case.directory()
        before = listing(a)
        srv = a.popen(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        what = "%r with %r in the configuration" % (pre, lists[0])
        try:
            out, err = srv.communicate(timeout=WATCHDOG)
        except subprocess.TimeoutExpired:
            raise Violation("accepted", "%s: the server does not end (%s)" % (what, kind), bad=bad)
        rc = srv.returncode
        if kind == "ignored":
            if rc != 0:
                raise Violation("not-ignored", "%s: the server ended with %s: %r" % (what, cmd_status(rc), err[-300:]))
            wait_until(lambda: not running(a), 20)
        else:
            if rc == 0:
                raise Violation("accepted", "%s: the server ended with 0 (%s %r)" % (what, kind, bad))
            if not err.strip():
                raise Violation("unnamed", "%s: no problem is named" % what)
        if kind != "ignored":
            # (a value that is not a number is only noticed after the executables have been created, which may have to be kept)
            if listing(a) != before and not (kind == "number" and "k" in case.flags):
                raise Violation("created", "%s: files %r instead of %r" % (what, sorted(listing(a)), sorted(before)))
            if running(a) or listening(port):
                raise Violation("created", "%s: something is still running: %r %r" % (what, running(a), listening(port)))
        c.count("evaluations")
        c.count("errors_" + kind)
        c.seen("error", tuple(pre), tuple(map(tuple, lists[0])))


def clients(c, a, rng, name, runs):
    """Options of the client."""
    port, port2 = a.port(), a.port()
    a.write("k.conf", "baseDirectory = '%s'\nconnectTimeoutMs = 0\n[srv:%d]\ncmd '%s/probe' '%s' exit 7\n'--foo' '%s/probe' '%s' exit 8\n" % (a.p("work"), port, a.bin, a.p("ev"), a.bin, a.p("ev")))
    a.write("two.conf", "baseDirectory = '%s'\nconnectTimeoutMs = 0\n[srv:%d]\ncmd '%s/probe' '%s' exit 9\n" % (a.p("work"), port2, a.bin, a.p("ev")))
    a.server(None, port=port)
    a.server(None, port=port2, confname="two.conf", opts=["-d"])
    for i in range(runs):
        k = rng.choice(("config", "config", "config", "help", "version", "unknown", "missing", "no-command", "dashed"))
        variant = rng.choice(("static", "release"))
        prog = a.bin + "/" + variant + "/" + rng.choice(("k8psh", "k8psh", "k8pshd") if k in ("help", "version") else ("k8psh",))
        env, args, want = {}, [], None
        pick = {7: a.p("k.conf"), 9: a.p("two.conf")}
        if k == "config":
            w = rng.choice((7, 9))
            other = pick[16 - w]
            way = rng.randrange(4)
            if way == 0:
                env["K8PSH_CONFIG"] = pick[w]
            elif way == 1:
                a.write("work/k8psh.conf", a.read(pick[w]))
            else:
                if way == 2:
                    env["K8PSH_CONFIG"] = rng.choice((other, a.p("missing"), ""))
                else:
                    args += spelled(rng, "c", "--config", other)
                args += spelled(rng, "c", "--config", pick[w])
            args += ["cmd"]
            want = w
        elif k == "dashed":
            env["K8PSH_CONFIG"] = pick[7]
            args, want = ["--foo"], 8
        elif k in ("help", "version"):
            args = rng.choice(([], spelled(rng, "c", "--config", pick[7]))) + [rng.choice({"help": ("-h", "--help"), "version": ("-v", "--version")}[k])] + rng.choice(([], ["cmd"], ["--unknown"]))
            want = 0
        elif k == "unknown":
            env["K8PSH_CONFIG"] = pick[7]
            args = [rng.choice([x for x in UNKNOWN if x not in ("--foo",)])] + rng.choice(([], ["cmd"]))
        elif k == "missing":
            env["K8PSH_CONFIG"] = pick[7]
            args = rng.choice(([], spelled(rng, "c", "--config", pick[7]))) + [rng.choice(("-c", "--config", "--install"))]
        else:
            env["K8PSH_CONFIG"] = pick[7]
            args = rng.choice(([], spelled(rng, "c", "--config", pick[7])))
        try:
            os.unlink(a.p("ev"))
        except FileNotFoundError:
            pass
        before = set(listing(a))
        rc, out, err = finish(a.popen([prog, *args], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE), None)
        what = "%r with %r" % (args, env)
        if want is not None and rc != want:
            raise Violation("client-option", "%s: the client ends with %s instead of %d: %r" % (what, cmd_status(rc), want, err[-300:]))
        if want is None and (rc == 0 or a.read("ev") or set(listing(a)) != before):
            raise Violation("client-error", "%s: the client ends with %s (a command was run: %r)" % (what, cmd_status(rc), bool(a.read("ev"))))
        if k == "version" and not out.decode().startswith(os.path.basename(prog)):
            raise Violation("version", "%s prints %r" % (what, out))
        if k == "help":
            docs = [("-c", "--config"), ("-h", "--help"), ("-v", "--version")]
            if prog.endswith("k8psh"):
                docs += [("-s", "--server"), ("--install",)]
            else:
                docs += [("-" + x, y) for x, y in list(FLAGS.items()) + list(VALUED.items())] + [("-i", "--ignore-invalid-arguments"), ("-n", "--name")]
            missing = [x for d in docs for x in d if x.encode() not in out]
            if missing:
                raise Violation("help", "%s does not mention %r" % (what, missing))
        if k in ("help", "version") and set(listing(a)) != before:
            raise Violation("created", "%s creates files" % what)
        try:
            os.unlink(a.p("work/k8psh.conf"))
        except FileNotFoundError:
            pass
        c.count("evaluations")
        c.count("client_" + k)
        c.seen("client", tuple(args), tuple(sorted(env)))


def check():
    c = Check("C26", "exploration",
              "real servers with random options, in random spellings, in the configuration and on the command line (with configuration and name from options, environment or default); files, PID file, end by signal, timeout or connections, and waiting are compared with a model in which the last value wins; unknown, incomplete and wrong options, ignored or not; all options of the client. distinct = different combinations.",
              ["static", "release"])
    k = 20 if THOROUGH else 1
    for i in range(16 * k):
        c.add("combined-%d" % i, combined, runs=12)
    for i in range(8 * k):
        c.add("errors-%d" % i, errors, runs=25)
    for i in range(4 * k):
        c.add("clients-%d" % i, clients, runs=60)
    return c
