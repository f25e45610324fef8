"""C33: it makes no difference what the server (or client) is started as, with and in."""
import os, pty, signal, socket, subprocess, threading, time, tty
from k8 import *
from c09 import check_report

LONG_MS = 3600000


def namespaces(a):
    try:
        return subprocess.run(["unshare", "-Ur", "-p", "-f", "--kill-child", "true"], user=a.uid, group=a.uid, extra_groups=[], cwd="/", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
    except (OSError, subprocess.SubprocessError):
        return False


def through_pipe(a, rng, name, f):
    """The configuration f, as something that has no size and can be read only once."""
    fifo = a.p(name)
    os.mkfifo(fifo)
    os.chown(fifo, a.uid, a.uid)
    text = a.read(f)
    cut = rng.randrange(len(text) + 1)

    def feed():
        try:
            with open(fifo, "wb", 0) as w:
                w.write(text[:cut])
                time.sleep(rng.choice((0, 0.01)))
                w.write(text[cut:])
        except OSError:
            pass
        os.unlink(fifo)
    threading.Thread(target=feed, daemon=True).start()
    return fifo


def broken_stream(a, rng, kind):
    """A stream that the messages of the server cannot be written to."""
    if kind == "pipe":
        r, w = os.pipe()
        os.close(r)
        return w
    if kind == "socket":
        x, y = socket.socketpair()
        y.close()
        return x.detach()
    if kind == "full":
        return os.open("/dev/full", os.O_WRONLY)
    if kind == "read-only":
        return os.open("/dev/null", os.O_RDONLY)
    m, s = pty.openpty()
    tty.setraw(s)
    os.close(m)
    return s


def circumstances(c, a, rng, kinds, daemon):
    """(launching command, popen's arguments, inherited descriptors, server's directory)"""
    launch, kw, inherited, prefix, cwd, env = [], {}, set(), [], a.dir, {}
    for k in kinds:
        if k == "init":
            if namespaces(a):
                prefix += ["unshare", "-Ur", "-p", "-f", "--kill-child"]
                c.count("as_first_process")
            else:
                launch += ["sub"]
                c.count("no_namespaces")
        elif k == "adopter":
            launch += ["sub"]
        elif k == "children":
            for _ in range(rng.choice((1, 3))):
                launch += ["kid", str(LONG_MS if "init" in kinds else rng.choice((100, 1000, LONG_MS)))]
            launch += ["kid", str(LONG_MS)]
        elif k == "ignored":
            for s in rng.sample((1, 2, 3, 10, 13, 14, 15, 17, 18, 20), rng.randrange(1, 8)):
                launch += ["ign", str(s)]
        elif k == "umask":
            launch += ["umask", str(rng.choice((0, 0o77, 0o777)))]
        elif k == "nice":
            launch += ["nice", str(rng.choice((1, 19)))]
        elif k == "descriptors":
            for f in rng.sample((3, 4, 5, 6, 7, 8, 9, 10, 11, 12) + (() if "limits" in kinds else (50, 63, 255)), rng.randrange(1, 8)):
                launch += ["fd", str(f)]
                inherited.add(f)
        elif k == "directory":
            cwd = a.p("gone")
            a.makedirs(cwd)
            launch += ["rmcwd"]
        elif k == "environment":
            env.update(("V%d" % i, "x" * rng.choice((0, 10, 1000))) for i in range(rng.choice((1, 500))))
            env.update({"LD_BIND_NOW": "1", "POSIXLY_CORRECT": "1", "LC_ALL": rng.choice(("C", "tr_TR.UTF-8", "x")), "TZ": rng.choice(("", "Pacific/Kiritimati", "x"))})
        elif k == "limits":
            prefix += ["prlimit", "--nofile=%d" % rng.choice((24, 64)), "--core=%d" % rng.choice((0, 1)), "--stack=%d" % rng.choice((1 << 20, 1 << 24)), "--"]
        elif k == "messages":
            which = rng.choice(("stdout", "stderr", "both"))
            how = rng.choice(("pipe", "pipe", "socket", "full", "read-only", "pty"))
            for s in ("stdout", "stderr"):
                if which in (s, "both"):
                    kw[s] = broken_stream(a, rng, how)
    return prefix + [a.bin + "/probe", "start", a.p("kids"), *launch, "--"], kw, inherited, cwd, env


def one(c, a, rng, name, kinds, daemon, runs):
    for _ in range(runs):
        a.new()
        session(c, a, rng, kinds, daemon)


def session(c, a, rng, kinds, daemon):
    variant = rng.choice(("static", "release"))
    prefix, kw, inherited, cwd, env = circumstances(c, a, rng, kinds, daemon)
    if "messages" in kinds and rng.random() < 0.3:
        env["K8PSH_DEBUG"] = rng.choice(("all", "main", "process", "socket"))
    port = a.port()
    other = a.port()
    undefined = rng.random() < 0.3  # (a warning as soon as the configuration is loaded)
    commands = ["cmd '%s/probe'" % a.bin, "broken '%s/nothing'" % a.dir]
    others = "[other:%d]\none x\ntwo y\nthree z\n" % other
    a.write("k.conf", conf(a, port, commands + (["warn ${UNDEFINED}x"] if undefined else [])) + others)
    a.write("client.conf", conf(a, port, commands) + others)
    a.write("sv/keepme", b"k")
    a.write("kids", b"")
    a.write("d", rng.randbytes(rng.choice((3, 70000, 300000))))
    d = a.read("d")
    what = "%s server started with %s%s" % (variant, prefix, " in the background" if daemon else "")
    n = rng.choice((2, 4, 7))
    how = rng.choice((15, 15, 2, "connections"))
    opts = ["-b", "-p", a.p("sv", "pid")] if daemon else []
    if how == "connections":
        opts += ["-m", str(n)]
    piped = rng.random() < 0.25
    argv = prefix + [a.bin + "/" + variant + "/k8pshd", "--config=" + (through_pipe(a, rng, "k.pipe", "k.conf") if piped else a.p("k.conf")), "-n", "srv", "-e", a.p("sv"), *opts]
    log = a.p("server.log")
    with open(log, "wb") as f:
        std = {"stdout": f, "stderr": f}
        std.update(kw)
        s = Server()
        s.arena, s.port, s.log = a, port, log
        try:
            s.p = a.popen(argv, env=env, cwd=cwd, **std)
        finally:
            for x in set(kw.values()):
                os.close(x)
    s.wait_listen()
    if daemon:
        if s.wait() != 0:
            raise Violation("status", "%s: the starting process ended with %s" % (what, cmd_status(s.p.returncode)))
        if not wait_until(lambda: a.read("sv/pid").endswith(b"\n")):
            raise Hang("pidfile", "%s: no PID file" % what)
        pid = int(a.read("sv/pid"))
    elif "unshare" in prefix:
        inner = lambda: [q for q, x in a.pids().items() if x[0] == "k8pshd" and x[2] == s.p.pid]
        if not wait_until(inner):
            raise HarnessError("no server in the namespace")
        pid = inner()[0]
    else:
        pid = s.p.pid
    exited = lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"
    kids = lambda: {e[3] for e in a.events("kids")}
    created = sorted(os.listdir(a.p("sv")))
    if created != sorted(["keepme", "one", "two", "three"] + (["pid"] if daemon else [])):
        raise Violation("files", "%s: created %r" % (what, created))
    # sessions of all kinds, the last of which is not finished when the server is stopped
    orphans, seen, held = [], set(), []
    for i in range(n):
        last = i == n - 1
        k = "held" if last else rng.choice(("io", "io", "orphan", "orphan", "fail", "kill"))
        client = a.client_argv
        launch = []
        if rng.random() < 0.3:
            launch = [a.bin + "/probe", "start", "/dev/null"] + sum((["ign", str(x)] for x in rng.sample((1, 2, 3, 10, 13, 14, 15, 17, 18, 20), rng.randrange(1, 8))), []) + ["umask", "511", "fd", "7", "--"]
        ev = "ev%d" % i
        a.write(ev, b"")
        ce = {"K8PSH_CONFIG": a.p("client.conf") if rng.random() < 0.8 else through_pipe(a, rng, "client%d.pipe" % i, "client.conf")}
        pipes = dict(stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if k == "fail":
            rc, out, err = drive(a.popen(launch + client([], stub="broken", variant=variant), env=ce, **pipes), [])
            if rc == 0 or out or (a.dir + "/nothing").encode() not in err:
                raise Violation("sessions", "%s: a command that cannot be started ended with %s, %r, %r" % (what, cmd_status(rc), out, err))
        elif k == "orphan":
            ms = rng.choice((0, 50, LONG_MS, LONG_MS))
            code = rng.randrange(256)
            ops = ["(", "setsid" if rng.random() < 0.5 else "nop", "close", "0", "close", "1", "close", "2", "trap", "-1", "mark", "orphan", "sleep", str(ms), "exit", "0", ")", "w", "1", a.p("d"), "0", "3", "0", "0", "exit", str(code)]
            rc, out, err = drive(a.popen(launch + client([a.p(ev)] + ops, stub="cmd", variant=variant), env=ce, **pipes), [])
            if rc != code or out != d[:3] or err:
                raise Violation("sessions", "%s: a command that leaves a process behind ended with %s instead of %d, %r, %r" % (what, cmd_status(rc), code, out, err))
            if not wait_until(lambda: any(e[0] == "orphan" for e in a.events(ev))):
                raise Violation("orphan", "%s: the process left behind by a command was ended" % what)
            if ms == LONG_MS:
                orphans.append((ev, next(e[3] for e in a.events(ev) if e[0] == "orphan")))
        elif k == "kill":
            p = a.popen(launch + client([a.p(ev), "trap", "-1", "waitfile", a.p("never%d" % i)], stub="cmd", variant=variant), env=ce, stdin=subprocess.DEVNULL)
            if not wait_until(lambda: any(e[0] == "trapped" for e in a.events(ev))):
                raise Hang("start", "%s: a command does not start" % what)
            p.kill()
            if not wait_until(lambda: any(e[0] == "sig" for e in a.events(ev))):
                raise Violation("not-terminated", "%s: a command without client is not terminated" % what)
            a.write("never%d" % i, b"")
        else:
            code = rng.randrange(256)
            inp = rng.randbytes(rng.choice((0, 5, 100000)))
            ops = [a.p(ev), "report", a.p("r%d" % i), "r", a.p("in%d" % i), "-1", "0", "0", *(["waitfile", a.p("go")] if last else []), "w", "1", a.p("d"), "0", str(len(d)), "0", "0", "w", "2", a.p("d"), "0", "3", "0", "0", "exit", str(code)]
            p = a.popen(launch + client(ops, stub="cmd", variant=variant), env=ce, **pipes)
            if last:
                held.append((p, code, inp, i))
                if not wait_until(lambda: a.read("r%d" % i)):
                    raise Hang("report", "%s: a command does not start" % what)
                check_report(c, json.loads(a.read("r%d" % i)), inherited, what, seen)
                continue
            rc, out, err = drive(p, [(inp, 0)])
            if rc != code or out != d or err != d[:3] or a.read("in%d" % i) != inp:
                raise Violation("sessions", "%s: a session ended with %s instead of %d, %d of %d bytes, %r" % (what, cmd_status(rc), code, len(out), len(d), err))
            check_report(c, json.loads(a.read("r%d" % i)), inherited, what, seen)
        c.count("sessions")
    # nothing is left of the finished ones
    current = lambda: [q for q, x in a.pids().items() if x[2] == pid and (x[0] == "k8pshd" or x[1] == "Z") and q not in kids()]
    if not wait_until(lambda: len(current()) <= 1):
        raise Hang("children", "%s: leftover children %r" % (what, {q: x for q, x in a.pids().items() if q in current()}))
    # it goes down as usual
    if how != "connections":
        if exited():
            raise Violation("exited", "%s: the server has ended by itself (%s)" % (what, s.output()[-300:]))
        a.probe("kill", pid, how)
    time.sleep(rng.choice((0, 0.05, 0.1)))
    if exited():
        raise Violation("not-waited", "%s: the server (stopped by %s) exited before its last session" % (what, how))
    a.write("go", b"")
    for p, code, inp, i in held:
        rc, out, err = drive(p, [(inp, 0)])
        if rc != code or out != d or err != d[:3] or a.read("in%d" % i) != inp:
            raise Violation("sessions", "%s: the last session ended with %s instead of %d, %d of %d bytes, %r" % (what, cmd_status(rc), code, len(out), len(d), err))
    if not wait_until(exited):
        raise Hang("server-hang", "%s: the server (stopped by %s) does not exit after its sessions%s" % (what, how, " (%d processes left behind by commands)" % len(orphans)))
    st = wait_orphan(pid) if daemon else s.wait()
    if st != 0:
        raise Violation("status", "%s: the server (stopped by %s) ended with %s: %s" % (what, how, cmd_status(st), s.output()[-300:]))
    if sorted(os.listdir(a.p("sv"))) != ["keepme"]:
        raise Violation("files", "%s: left %r" % (what, sorted(os.listdir(a.p("sv")))))
    # and leaves the processes alone that are none of its sessions
    if "unshare" not in prefix:
        for ev, q in orphans:
            if a.pids().get(q, ("", "Z", 0))[1] == "Z" or any(e[0] == "sig" for e in a.events(ev)):
                raise Violation("orphan", "%s: a process left behind by a command was ended or signalled: %r" % (what, a.events(ev)))
    if "unshare" not in prefix and any(e[0] == "sig" for e in a.events("kids")):
        raise Violation("children", "%s: children from before were signalled: %r" % (what, a.events("kids")))
    c.count("evaluations")
    c.count("left_behind", len(orphans))
    c.count("configurations_through_pipes", int(piped))
    c.seen(tuple(kinds), daemon, variant, how, bool(orphans), undefined, piped)
    c.sample(circumstances=list(kinds), background=daemon, launched=prefix[-12:], stopped_by=how, sessions=n, left_behind=len(orphans))


def check():
    subreaper()
    c = Check("C33", "exploration",
              "servers started in unusual circumstances (as the first process of a pid namespace, as an adopter of orphans, with children from before, with ignored signals, extra descriptors, unwritable message streams, from a removed directory, with low limits, any file mode mask, "
              "configurations that come through pipes, and combinations of these), each serving normal, failing and killed sessions and commands that leave processes behind, and stopped while a session is unfinished; what commands are started with, exit statuses, files, waiting, and untouched unrelated processes are checked. "
              "distinct = different (circumstances, mode, build, way of stopping, orphans).", ["static", "release"])
    kinds = ["init", "adopter", "children", "ignored", "umask", "descriptors", "directory", "environment", "limits", "messages", "nice"]
    k = 8 if THOROUGH else 1
    r = random.Random("c33-%s" % os.environ.get("VERIF_SEED", "1"))
    for i in range(k):
        for kd in kinds:
            for daemon in (False, True):
                if daemon and kd == "init":
                    continue
                c.add("%s-%s-%d" % (kd, "background" if daemon else "foreground", i), one, kinds=[kd], daemon=daemon, runs=3 if kd in ("init", "adopter", "children", "messages") else 2)
        for j in range(6):
            ks = sorted(r.sample(kinds, r.choice((2, 3, 4))))
            c.add("combined-%d-%d" % (i, j), one, kinds=ks, daemon="init" not in ks and r.random() < 0.4, runs=2)
    return c
