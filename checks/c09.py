"""C09: resources are conserved across sessions and not leaked to commands."""
import fcntl, os, signal, socket, subprocess, threading, time
from k8 import *
from c08 import hostile

MASK = sum(1 << (s - 1) for s in (signal.SIGTERM, signal.SIGINT, signal.SIGPIPE, signal.SIGCHLD))


def conserved(c, a, rng, name, rounds, batch):
    """Histories of sessions of all kinds; afterwards, the server has what it had before."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    daemon = rng.random() < 0.4
    srv = a.server(conf(a, port, ["cmd '%s/probe'" % a.bin, "broken '%s/nothing'" % a.dir]), port=port, variant=variant, env=env, opts=(["-b", "-p", a.p("pid")] if daemon else []))
    pid = srv.pid
    if daemon:
        if not wait_until(lambda: a.read("pid").endswith(b"\n")):
            raise Hang("daemon", "no PID file")
        pid = int(a.read("pid"))
        time.sleep(0.1)
    ready = lambda: sorted(x for x in a.fds(pid) if "socket:" in x[1])
    wait_until(ready)
    time.sleep(0.05)
    before = a.fds(pid)
    for r in range(rounds):
        kinds = {}
        procs, held = [], []
        for i in range(batch):
            k = rng.choice(("ok", "ok", "fail", "kill-client", "hostile", "kill-command", "kill-session", "output", "child"))
            kinds[k] = kinds.get(k, 0) + 1
            if k == "hostile":
                h = hostile(rng, port, None, {})
                if h:
                    held.append(h)
                continue
            args = {"ok": ["exit", "0"], "fail": ["exit", "9"], "kill-client": ["sleep", "3600000"], "kill-command": ["kill", "11"], "kill-session": ["sleep", "3600000"],
                    "output": ["w", "1", a.p("k.conf"), "0", "10", "1", "100"], "child": ["(", "sleep", "20", ")"]}[k]
            p = a.client([a.p("ev%d" % i)] + args, stub="cmd", variant=variant, env=env and shim_env(a, rng))
            procs.append((k, p))
        time.sleep(rng.choice((0, 0.02)))
        for k, p in procs:
            if k == "kill-client":
                p.send_signal(rng.choice((9, 15)))
        if any(k == "kill-session" for k, _ in procs):
            time.sleep(0.1)
            for q, (n, st, pp) in a.pids().items():
                if pp == pid and st != "Z":
                    a.probe("kill", q, 9)
        for h in held:
            h.close()
        # whatever is still there by then and would never end
        time.sleep(0.02)
        for _ in range(3):
            for q, x in a.pids().items():
                if x[0] == "probe":
                    a.probe("kill", q, 15)
            time.sleep(0.01)
        for k, p in procs:
            try:
                p.wait(WATCHDOG)
            except subprocess.TimeoutExpired:
                raise Hang("client", "client (%s) does not end" % k)
            a.procs.remove(p)
        def quiet():
            return not [q for q, (n, st, pp) in a.pids().items() if pp == pid]
        if not wait_until(quiet):
            raise Hang("children", "the server has leftover children after %r: %r" % (kinds, a.pids()))
        after = a.fds(pid)
        if after != before:
            raise Violation("descriptors", "the server's descriptors changed from %r to %r after %r" % (before, after, kinds))
        c.count("evaluations")
        c.count("sessions", batch)
        c.seen("conserved", tuple(sorted(kinds)), variant, daemon)
    c.sample(case=name, build=variant, background=daemon, descriptors=before)


def check_report(c, j, inherited, what, seen):
    fds = [(n, bytes.fromhex(h).decode(errors="replace")) for n, h in j["fds"]]
    nums = sorted(n for n, _ in fds)
    if [n for n in nums if n < 3] != [0, 1, 2]:
        raise Violation("missing", "%s: the command has only the descriptors %r" % (what, fds))
    extra = [(n, l) for n, l in fds if n > 2 and n not in inherited]
    if extra:
        raise Violation("leak", "%s: the command was started with the descriptors %r" % (what, fds))
    std = [l for n, l in fds if n < 3]
    if len(set(std)) != 3 or not all(l.startswith("pipe:") for l in std):
        raise Violation("streams", "%s: the command's standard streams are %r" % (what, std))
    for l in std:
        if l in seen:
            raise Violation("streams", "%s: %s is also used by another session" % (what, l))
        seen.add(l)
    if j["blocked"] & MASK or j["ignored"] & MASK:
        raise Violation("signals", "%s: blocked %x, ignored %x" % (what, j["blocked"], j["ignored"]))


def started(c, a, rng, name, kind):
    """What commands are started with, for servers started in all kinds of ways."""
    variant, env = ("dyn", shim_env(a, rng)) if rng.random() < 0.2 and kind in ("plain", "parallel") else (rng.choice(("static", "release")), {})
    port = a.port()
    opts, kw, inherited = [], {}, set()
    argv_wrap = None
    opened = []
    if kind == "background":
        opts = ["-b", "-p", a.p("pid")]
    if kind == "inherited":
        r, w = os.pipe()
        opened = [r, w]
        kw["pass_fds"] = (r, w)
        inherited = {r, w}
    if kind.startswith("closed"):
        which = [int(x) for x in kind.split("-")[0][6:]]

        def closer():
            for f in which:
                try:
                    os.close(f)
                except OSError:
                    pass
        kw["preexec_fn"] = closer
        if kind.endswith("background"):
            opts = ["-b", "-p", a.p("pid")]
    if kind == "options":
        opts = ["-t", "600000", "-m", "1000", "-l"]
    srv = a.server(conf(a, port, ["cmd '%s/probe'" % a.bin]), port=port, variant=variant, env=env, opts=opts, **kw)
    seen = set()
    runs = 6
    if kind == "parallel":
        ps = []
        for i in range(runs):
            ps.append(a.client([a.p("ev%d" % i), "report", a.p("r%d" % i), "waitfile", a.p("go"), "w", "1", a.p("k.conf"), "0", "5", "0", "0", "exit", "3"], stub="cmd", variant=variant, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        if not wait_until(lambda: all(a.read("r%d" % i) for i in range(runs))):
            raise Hang("report", "no report")
        a.write("go", b"")
        for p in ps:
            rc, out, err = drive(p, [])
            if rc != 3 or out != a.read("k.conf")[:5]:
                raise Violation("session", "session ended with %s" % cmd_status(rc))
    else:
        for i in range(runs):
            a.write("in", b"i" * 10)
            rc, out, err = a.run([a.p("ev%d" % i), "report", a.p("r%d" % i), "cat", "0", "w", "2", a.p("in"), "0", "7", "0", "0", "exit", "3"], stdin=b"hello", stub="cmd", variant=variant, env=env)
            if (rc, out, err) != (3, b"hello", b"i" * 7):
                raise Violation("session", "%s: session ended with %s, %r, %r" % (kind, cmd_status(rc), out, err))
    for i in range(runs):
        try:
            j = json.loads(a.read("r%d" % i))
        except ValueError:
            raise Violation("report", "the command could not report")
        check_report(c, j, inherited, "%s, session %d" % (kind, i), seen)
        c.count("evaluations")
        c.count("reports")
        c.seen("started", kind, variant, i)
    for f in opened:
        os.close(f)


def check():
    c = Check("C09", "exploration",
              "histories of normal, failing, killed, disconnected and hostile sessions, after which the server's descriptors (numbers and objects) and children are compared with those before; "
              "commands reporting their own descriptors and signal state, from servers started in the foreground, background, with closed standard streams or inherited descriptors, and in parallel. distinct = different (kinds, build, way of starting).",
              ["static", "release", "dyn", "shim"], workers=6)
    k = 8 if THOROUGH else 1
    for i in range(10 * k):
        c.add("conserved-%d" % i, conserved, rounds=3, batch=12)
    kinds = ["plain", "parallel", "background", "inherited", "options", "closed0", "closed1", "closed2", "closed01", "closed02", "closed12", "closed012", "closed012-background", "closed0-background"]
    for i in range(k):
        for kd in kinds:
            c.add("started-%s-%d" % (kd, i), started, kind=kd)
    return c
