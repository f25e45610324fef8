"""C03: the client's exit status tells the truth about the command."""
import os, signal, subprocess
from k8 import *

FATAL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 64]


def shape(rng, a):
    """Things a command may do before its end; returns (ops, description)."""
    k = rng.randrange(11)
    if k == 0:
        return ["close", "1", "close", "2", "close", "0", "sleep", str(rng.choice((0, 1, 30)))], "closes all"
    if k == 1:
        return ["close", "1", "sleep", "5"], "closes stdout"
    if k == 2:
        return ["w", "1", a.p("d"), "0", "200000", "0", "0"], "large output"
    if k == 3:
        return ["w", "1", a.p("d"), "0", "70000", "8192", "0", "w", "2", a.p("d"), "0", "9000", "0", "0"], "both outputs"
    if k == 4:
        return ["(", "sleep", str(rng.choice((5, 60))), "w", "1", a.p("d"), "0", "100", "0", "0", ")"], "background child holds the streams"
    if k == 5:
        return ["close", "0", "sleep", str(rng.choice((0, 20)))], "closes stdin"
    if k == 6:
        return ["r", a.p("in"), "-1", "0", "0"], "reads stdin"
    if k == 7:
        return ["r", a.p("in"), "10", "0", "0"], "reads part of stdin"
    if k == 8:
        return ["sleep", str(rng.choice((1, 20, 300)))], "waits"
    if k == 9:
        return ["close", "2", "close", "1", "(", "sleep", "10", ")"], "closes outputs, background child"
    return [], "ends at once"


def codes(c, a, rng, name, codes, sigs):
    variant, env = pick_variant(a, rng)
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", rng.randbytes(200000))
    for kind, v in [("exit", x) for x in codes] + [("kill", x) for x in sigs]:
        ops, what = shape(rng, a)
        stdin = rng.choice((subprocess.DEVNULL, subprocess.PIPE))
        p = a.client([a.p("ev"), *ops, kind, str(v)], stub="cmd", variant=variant, env=env and shim_env(a, rng), stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = drive(p, [(rng.randbytes(rng.choice((0, 100, 100000))), 0)], shaky=(a, rng) if rng.random() < 0.1 else None)
        if kind == "exit" and rc != v:
            raise Violation("exit", "command (%s) exited with %d, client ended with %s" % (what, v, cmd_status(rc)))
        if kind == "kill":
            if not any(e[0] == "kill" and e[1] == v for e in a.events()):
                raise Violation("exit", "command (%s) never got to its end, client ended with %s" % (what, cmd_status(rc)))
            if rc == 0:
                raise Violation("killed", "command (%s) was killed by signal %d, client exited with 0" % (what, v))
        a.write("ev", b"")
        c.count("evaluations")
        c.count(kind)
        c.seen(kind, v, what, variant)
        c.sample(case=name, command=what, end="%s %d" % (kind, v), client=cmd_status(rc), build=variant)


def killed_outside(c, a, rng, name):
    """The command is killed from outside at some moment."""
    port = a.port()
    variant, env = pick_variant(a, rng)
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", rng.randbytes(300000))
    for s in rng.sample([1, 2, 3, 6, 9, 11, 15], 4):
        ops, what = shape(rng, a)
        p = a.client([a.p("ev"), *ops, "sleep", "60000"], stub="cmd", variant=variant, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not wait_until(lambda: a.events()):
            raise Hang("no-start", "command does not start")
        pid = a.events()[0][3]
        time.sleep(rng.choice((0, 0.01, 0.1)))
        act = lambda: a.probe("kill", pid, s)
        rc, out, err = drive(p, [], noise=[(0, act)])
        if rc == 0:
            raise Violation("killed", "command (%s) was killed by signal %d from outside, client exited with 0" % (what, s))
        a.write("ev", b"")
        c.count("evaluations")
        c.seen("outside", s, what, variant)


def stopped(c, a, rng, name):
    """The command is stopped and continued, as by job control, before it goes on to its end."""
    port = a.port()
    variant, env = pick_variant(a, rng)
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", rng.randbytes(150000))
    for r in range(4):
        a.write("ev", b"")
        code = rng.randrange(256)
        first = rng.choice(([], ["close", "0"], ["close", "2"], ["close", "0", "close", "1", "close", "2"], ["w", "1", a.p("d"), "0", "1000", "0", "0"]))
        closed = "1" in first[1::2] and first[0] == "close"
        then = ([] if "close" in first and "0" in first else ["r", a.p("in%d" % r), "-1", "0", "0"]) + ([] if closed else ["w", "1", a.p("d"), "1000", "149000", "0", "0"])
        p = a.client([a.p("ev"), *first, "mark", "ready", "waitfile", a.p("go%d" % r), *then, "exit", str(code)], stub="cmd", variant=variant, env=env and shim_env(a, rng), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not wait_until(lambda: any(e[0] == "ready" for e in a.events())):
            raise Hang("no-start", "command does not start")
        pid = [e for e in a.events() if e[0] == "ready"][0][3]
        for _ in range(rng.choice((1, 1, 3))):
            a.probe("kill", pid, rng.choice((signal.SIGSTOP, signal.SIGTSTP)))
            time.sleep(rng.choice((0.3, 0.6)))
            a.probe("kill", pid, int(signal.SIGCONT))
        a.write("go%d" % r, b"")
        feed = rng.randbytes(rng.choice((0, 5, 100000)))
        rc, out, err = drive(p, [(feed, 0)])
        what = "command (%r) was stopped and continued" % first
        if rc != code:
            raise Violation("exit", "%s and exited with %d, client ended with %s: %r" % (what, code, cmd_status(rc), err[-300:]))
        if out != (b"" if closed else a.read("d") if "w" in first else a.read("d")[1000:]) or ("r" in then and a.read("in%d" % r) != feed):
            raise Violation("streams", "%s, %d bytes of output and %d of %d bytes of input arrived" % (what, len(out), len(a.read("in%d" % r)), len(feed)))
        c.count("evaluations")
        c.count("stopped_and_continued")
        c.seen("stopped", tuple(first[:6]), variant)


def failed_start(c, a, rng, name):
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.makedirs(a.p("base", "ok"))
    a.write("noexec", b"#!/bin/sh\nexit 0\n", 0o644)
    a.write("garbage", b"\x7fELF" + bytes(100), 0o755)
    a.write("badinterp", b"#!/nonexistent/interpreter\n", 0o755)
    a.makedirs(a.p("dir"))
    cmds = ["ok '%s/probe'" % a.bin, "missing '%s/does-not-exist'" % a.dir, "missingname does-not-exist-anywhere-k8", "noexec '%s/noexec'" % a.dir, "garbage '%s/garbage'" % a.dir,
            "badinterp '%s/badinterp'" % a.dir, "isdir '%s/dir'" % a.dir, "empty ''", "nopath =PATH= nothing-here-k8"]
    a.server(conf(a, port, cmds, base="base"), port=port, variant=variant, env=env)
    # the client has its own view of the configuration: other base directory, additional commands
    a.write("c.conf", conf(a, port, cmds + ["unknown x"], base="work"))
    for d in ("ok", "gone", "locked", "file"):
        a.makedirs(a.p("work", d))
    os.mkdir(a.p("base", "locked"))
    os.chmod(a.p("base", "locked"), 0o000)
    a.write("base/file", b"x")
    table = [("missing", "ok"), ("missingname", "ok"), ("noexec", "ok"), ("garbage", "ok"), ("badinterp", "ok"), ("isdir", "ok"), ("empty", "ok"), ("nopath", "ok"), ("unknown", "ok"),
             ("ok", "gone"), ("ok", "locked"), ("ok", "file"), ("notconfigured", "ok")]
    for cmd, wd in table:
        use_stub = rng.random() < 0.5
        args = [a.p("ev"), "exit", "0"]
        p = a.client(args if use_stub else [cmd] + args, stub=cmd if use_stub else None, variant=variant, env=env, confname="c.conf", cwd=a.p("work", wd),
                     stdin=rng.choice((subprocess.DEVNULL, subprocess.PIPE)), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = drive(p, [(b"x" * rng.choice((0, 10, 100000)), 0)])
        if rc == 0:
            raise Violation("failed-start", "%s in %s cannot be started, but the client exited with 0" % (cmd, wd))
        if a.events():
            raise Violation("failed-start", "%s in %s was started" % (cmd, wd))
        c.count("evaluations")
        c.count("failed_starts")
        c.seen("failed", cmd, wd, variant)
    # the same server still runs the good one
    rc, out, err = a.run([a.p("ev"), "exit", "0"], stub="ok", variant=variant, env=env, confname="c.conf", cwd=a.p("work", "ok"))
    if rc != 0:
        raise Violation("exit", "good command ended with %s (%r)" % (cmd_status(rc), err[-300:]))


def raw(c, a, rng, name, codes):
    """What the server itself reports: exactly one status for a normal end, none otherwise."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", rng.randbytes(200000))
    for v in codes:
        ops, what = shape(rng, a)
        kill = rng.random() < 0.3
        conn = Raw(port)
        conn.send(request("cmd", [a.p("ev"), *ops] + (["kill", str(rng.choice(FATAL))] if kill else ["exit", str(v)])) + frame(IN, b"x" * 20) + frame(IN))
        out, err, status, closed, n = conn.collect()
        conn.close()
        if status != (None if kill else v):
            raise Violation("raw-status", "command (%s) %s, server reported %r" % (what, "was killed" if kill else "exited with %d" % v, status))
        c.count("evaluations")
        c.seen("raw", None if kill else v, what, variant)


WAITS = [("quiet", []), ("closes all", ["close", "0", "close", "1", "close", "2"]), ("closes outputs", ["close", "2", "close", "1"]), ("closes stdin", ["close", "0"]), ("closes stdout", ["close", "1"]),
         ("output before", ["w", "1", None, "0", "1000", "0", "0"]), ("reads stdin first", ["r", "/dev/null", "-1", "0", "0"]), ("background child", ["(", "sleep", "3600000", ")", "close", "0"])]


def waits(c, a, rng, name, what, ops, span, mode):
    """The command takes long, with streams open or closed."""
    variant = rng.choice(("static", "release"))
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant)
    a.write("d", bytes(1000))
    v = rng.randrange(1, 256)
    s = rng.choice(FATAL)
    if what == "background child":  # lives as long as the command
        ops = ["(", "sleep", str(int(span * 1000) + 300), ")", "close", "0"]
    args = [a.p("ev")] + [x or a.p("d") for x in ops] + ["sleep", str(int(span * 1000))] + (["kill", str(s)] if mode == "kill" else ["exit", str(v)])
    if mode == "raw":
        conn = Raw(port, timeout=WATCHDOG + span)
        conn.send(request("cmd", args) + frame(IN))
        out, err, rc, closed, n = conn.collect()
        conn.close()
    else:
        p = a.client(args, stub="cmd", variant=variant, stdin=subprocess.DEVNULL if mode == "null" else subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = drive(p, [(b"abc", 0)], timeout=WATCHDOG + span * 2)
    if mode == "kill":
        if rc == 0 or not any(e[0] == "kill" and e[1] == s for e in a.events()):
            raise Violation("killed", "command (%s, %d s) was killed by signal %d, client ended with %s: %r" % (what, span, s, cmd_status(rc), a.events()))
    elif rc != v:
        raise Violation("exit", "command (%s, %d s) exited with %d, %s got %r: %r" % (what, span, v, mode, rc, a.events()))
    c.count("evaluations")
    c.count("commands_running_%d_seconds" % span)
    c.seen("waits", what, mode, variant)


def check():
    c = Check("C03", "exploration",
              "every exit code 0-255 and every fatal signal, each after a random behaviour (closing streams in various orders, bulk output, background children, partial input); kills from outside; commands stopped and continued; every way a start can fail. "
              "distinct = different (end, behaviour, build).", ["static", "release", "dyn", "shim"])
    rng = c.rng("plan")
    for i, (what, ops) in enumerate(WAITS):
        for span, modes in ((LONG, ("pipe", "null", "raw", "kill")), (13, ("pipe", "null", "raw"))):
            for m in (modes if THOROUGH else (modes[i % len(modes)],) if what != "closes all" else modes[:2]):
                c.add_long("waits-%s-%d-%s" % (what.replace(" ", "-"), span, m), waits, what=what, ops=ops, span=span, mode=m)
    for rep in range(10 if THOROUGH else 1):
        order = list(range(256))
        rng.shuffle(order)
        sigs = FATAL * 2
        rng.shuffle(sigs)
        for i in range(16):
            c.add("codes-%d-%d" % (rep, i), codes, codes=order[i * 16:i * 16 + 16], sigs=sigs[i * 3:i * 3 + 3])
        for i in range(4):
            c.add("outside-%d-%d" % (rep, i), killed_outside)
        for i in range(4):
            c.add("stopped-%d-%d" % (rep, i), stopped)
        for i in range(4):
            c.add("failed-%d-%d" % (rep, i), failed_start)
        for i in range(4):
            c.add("raw-%d-%d" % (rep, i), raw, codes=order[i * 12:i * 12 + 12])
    return c
