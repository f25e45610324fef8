"""C07: losing the client terminates its command, and nothing else does."""
import os, signal, subprocess, threading, time
from k8 import *

WAYS_REAL = ["KILL", "TERM", "INT"]
WAYS_RAW = ["close", "half", "reset", "terminate", "terminate-reset", "truncated-header", "truncated-data"] + ["invalid-%d" % t for t in (WD, ENV, ARG, START, OUT, ERR, EXIT, 9, 77, 255)]
MOMENTS = ["idle", "start", "early", "flood", "stdin-flow", "stdin-full", "after-eof", "closed0", "closed1", "closed12", "closed02", "closed01", "ended-closed1", "slow", "child", "unread-output"]


def gone(a, pid):
    return a.pids().get(pid, ("", "Z", 0))[1] == "Z"


def wait_signalled(c, a, pid, trap, what, ev="ev"):
    """The command has to be signalled."""
    def pred():
        return any(e[0] == "sig" and e[1] == 15 and e[3] == pid for e in a.events(ev)) if trap else gone(a, pid)
    t = time.monotonic()
    if not wait_until(pred):
        raise Hang("not-terminated", "the command gets no termination signal: %s" % what)
    sigs = [e for e in a.events(ev) if e[0] == "sig" and e[3] == pid]
    if trap and any(e[1] not in (15, signal.SIGPIPE) for e in sigs):  # a command that writes to streams that nobody reads any more gets PIPE in addition
        raise Violation("wrong-signal", "the command got %r: %s" % (sigs, what))
    return time.monotonic() - t


def session_pids(a, srv):
    return [p for p, (n, st, pp) in a.pids().items() if pp == srv.pid and st != "Z"]


def ops_for(a, moment, trap):
    """Operations of the command (it never ends by itself), and which kind of traffic there is."""
    o = ["trap", "-1"] if trap else []
    tail = ["mark", "ready", "sleep", "3600000"]
    if moment.startswith("closed"):
        o += [x for f in moment[6:] for x in ("close", f)]
    elif moment == "ended-closed1":
        o += ["close", "1"]
    elif moment == "flood":
        o += ["mark", "ready", "flood", "1", "8192"]
    elif moment == "unread-output":
        o += ["mark", "ready", "flood", "2", "8192"]
    elif moment == "stdin-flow":
        o += ["mark", "ready", "r", "/dev/null", "-1", "0", "0"]
    elif moment == "slow":
        o += ["mark", "ready", "w", "1", a.p("d"), "0", "100000", "10", "1000"]
    elif moment == "child":
        o += ["(", "sleep", "3600000", ")"]
    return o + tail


def lost(c, a, rng, name, pairs, variant):
    """The client is lost in every way at every moment."""
    env = {} if variant != "dyn" else shim_env(a, rng)
    port = a.port()
    srv = a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", bytes(100000))
    for n, (way, moment) in enumerate(pairs):
        trap = rng.random() < 0.5 and moment not in ("start", "early")
        evname = "ev%d" % n
        ev = a.p(evname)
        what = "%s at %s%s" % (way, moment, " (with a handler)" if trap else "")
        ops = ops_for(a, moment, trap)
        stop = threading.Event()
        ready = lambda: any(e[0] == ("start" if moment in ("start", "early") else "ready") for e in a.events(evname))

        def wait_ready():
            if moment == "early":  # the request has been sent, the command may not even have been started
                return
            if not wait_until(ready):
                raise Hang("start", "command does not start")
        if way in WAYS_REAL:
            p = a.client([ev] + ops, stub="cmd", variant=variant, env=env and shim_env(a, rng), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

            def traffic():
                try:
                    if moment == "stdin-flow":
                        while not stop.is_set():
                            os.write(p.stdin.fileno(), bytes(8192))
                    elif moment in ("stdin-full",):
                        os.write(p.stdin.fileno(), bytes(3000000))
                except OSError:
                    pass

            def drain(f):
                try:
                    while os.read(f.fileno(), 65536):
                        pass
                except (OSError, ValueError):
                    pass
            ts = [threading.Thread(target=traffic, daemon=True)]
            if moment != "unread-output":
                ts += [threading.Thread(target=drain, args=(f,), daemon=True) for f in (p.stdout, p.stderr)]
            for t in ts:
                t.start()
            if moment in ("after-eof", "ended-closed1"):
                ts[0].join()
                p.stdin.close()
            wait_ready()
            time.sleep(rng.choice((0, 0.001, 0.02, 0.1)))
            if moment == "early":
                # the request has been sent as soon as the session exists
                wait_until(lambda: session_pids(a, srv))
            p.send_signal(getattr(signal, "SIG" + way))
            p.wait()
            stop.set()
        else:
            conn = Raw(port)
            req = request("cmd", [ev] + ops)
            conn.send(req)
            if moment == "stdin-full":
                conn.send(frame(IN, bytes(200000)))
            if moment in ("after-eof", "ended-closed1"):
                conn.send(frame(IN))
            wait_ready()
            if moment == "stdin-flow":
                for _ in range(20):
                    conn.send(frame(IN, bytes(rng.randrange(1, 9000))))
            if moment == "flood":
                conn.s.recv(65536)
            if moment == "early":
                time.sleep(rng.choice((0, 0, 0.0005, 0.002)))
            else:
                time.sleep(rng.choice((0, 0.001, 0.05)))
            draining = moment in ("flood", "slow") and way not in ("reset", "close", "terminate-reset")  # a well-behaved reader otherwise

            def reader():
                try:
                    while conn.s.recv(65536):
                        pass
                except OSError:
                    pass
            if draining:
                threading.Thread(target=reader, daemon=True).start()
            if moment == "unread-output" and way not in ("reset", "close"):
                way = "close"
            if way == "close":
                conn.close()
            elif way == "half":
                conn.s.shutdown(1)
            elif way == "reset":
                conn.reset()
            elif way == "terminate":
                conn.send(frame(TERM))
            elif way == "terminate-reset":
                conn.send(frame(TERM))
                conn.reset()
            elif way == "truncated-header":
                conn.send(frame(IN, b"xyz")[:rng.randrange(1, 5)])
                conn.s.shutdown(1)
            elif way == "truncated-data":
                conn.send(frame(IN, b"x" * 100)[:rng.randrange(5, 104)])
                conn.s.shutdown(1)
            else:
                conn.send(frame(int(way[8:]), rng.choice((b"", b"data"))))
        if moment == "early":
            # if it has been started at all, it ends
            if way in WAYS_REAL:
                time.sleep(0.02)
            def quiet():
                live = [(p, x) for p, x in a.pids().items() if x[1] != "Z" and p != srv.pid]
                return not live
            if not wait_until(quiet):
                raise Hang("not-terminated", "processes are left: %r: %s" % (a.pids(), what))
            c.count("started_early" if a.events(evname) else "not_started")
        else:
            pid = [e for e in a.events(evname) if e[0] == "start"][0][3]
            dt = wait_signalled(c, a, pid, trap, what, evname)
            if dt > 3 and not env:
                raise Hang("late", "the command was signalled only after %.1f s: %s" % (dt, what))
            if not wait_until(lambda: not session_pids(a, srv)):
                raise Hang("session-stays", "the session does not end: %s" % what)
        for pid, x in a.pids().items():
            if x[0] == "probe":
                a.probe("kill", pid, 9)
        if way not in WAYS_REAL:
            conn.close()
        c.count("evaluations")
        c.count("lost_" + way.split("-")[0])
        c.seen("lost", way, moment, trap, variant)
    if not srv.alive():
        raise Violation("server", "the server ended")


def healthy(c, a, rng, name, kind, span):
    """The client stays: no signal at all, however long, quiet or strange the session is."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    a.server(plain_conf(a, port), port=port, variant=variant, env=env)
    a.write("d", bytes(300000))
    ops = ["trap", "-1"]
    s = str(int(span * 1000))
    stdin = subprocess.PIPE
    feed = None
    if kind == "quiet":
        ops += ["sleep", s]
    elif kind == "no-stdin":
        stdin = subprocess.DEVNULL
        ops += ["sleep", s]
    elif kind == "closes-all":
        ops += ["close", "0", "close", "1", "close", "2", "sleep", s]
    elif kind == "closes-out":
        ops += ["close", "1", "close", "2", "sleep", s]
    elif kind == "closes-in":
        ops += ["close", "0", "sleep", s]
        feed = [(b"x" * 1000, 0.05)] * 10
    elif kind == "ended":
        ops += ["r", a.p("in"), "-1", "0", "0", "sleep", s]
        feed = [(b"x", 0)]
    elif kind == "bulk":
        ops += ["w", "1", a.p("d"), "0", "300000", "100", "0", "w", "2", a.p("d"), "0", "300000", "0", "0", "sleep", s]
    elif kind == "child":  # the command ends, a child of it goes on
        ops += ["(", "sleep", s, "w", "1", a.p("d"), "0", "1000", "0", "0", "exit", "0", ")"]
    elif kind == "unread-stdin":
        ops += ["sleep", s, "w", "1", a.p("d"), "0", "3000", "0", "0"]
        feed = [(bytes(1000000), 0)]
    elif kind == "background-session":
        ops += ["setsid", "sleep", s]
    elif kind == "slow-reader":
        ops += ["w", "1", a.p("d"), "0", "300000", "0", "0", "sleep", s]
    ops += ["exit", "7"]
    p = a.client([a.p("ev")] + ops, stub="cmd", variant=variant, env=env, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    hold = threading.Event()
    if feed is None and stdin == subprocess.PIPE:
        class Hold(list):
            def __iter__(self):
                hold.wait(span * 1.2)
                return iter(())
        feed = Hold()
    # something else happens on the same server meanwhile
    others = [a.client([a.p("evo")] + ["sleep", "3600000"], stub="cmd", variant=variant, env=env) for _ in range(2)]
    noise = [(span * 0.3, others[0].kill), (span * 0.1, others[1].terminate)]
    rc, out, err = drive(p, feed, (20000, 0.01) if kind == "slow-reader" else None, noise=noise, timeout=WATCHDOG + span, shaky=(a, rng) if rng.random() < 0.3 else None)
    sig = [e for e in a.events() if e[0] in ("sig", "werr") and e[:2] != ("sig", signal.SIGCONT)]  # (the check itself stops and continues processes)
    if sig:
        raise Violation("signalled", "the command of a healthy client got %r (%s)" % (sig, kind))
    if rc != 7:
        raise Violation("status", "the client of a %s command ended with %s" % (kind, cmd_status(rc)))
    c.count("evaluations")
    c.count("healthy_sessions")
    c.seen("healthy", kind, variant)


KINDS = ["quiet", "no-stdin", "closes-all", "closes-out", "closes-in", "ended", "bulk", "child", "unread-stdin", "background-session", "slow-reader"]


def check():
    c = Check("C07", "fault_enumeration",
              "every way of losing a client (signals to the real client; close, half-close, reset, truncation, terminate request, every kind of invalid message by a scripted one) at every moment (before the start, idle, in bulk traffic, with full "
              "pipes, after end of input, with streams closed), the signals being recorded by the command itself; healthy sessions of all kinds with other clients dying around them. distinct = different (way, moment, handler, build).",
              ["static", "release", "dyn", "shim"])
    rng = c.rng("plan")
    for kd in KINDS:
        c.add_long("healthy-%s-long" % kd, healthy, kind=kd, span=LONG)
    pairs = [(w, m) for w in WAYS_REAL + WAYS_RAW for m in MOMENTS]
    for rep in range(6 if THOROUGH else 1):
        rng.shuffle(pairs)
        use = pairs if THOROUGH else [x for x in pairs if not x[0].startswith("invalid")] + [x for x in pairs if x[0].startswith("invalid")][:60]
        use = use + [(w, "early") for w in WAYS_REAL + ["close", "half", "reset", "terminate", "terminate-reset", "invalid-9"] for _ in range(4)]
        rng.shuffle(use)
        for i in range(0, len(use), 8):
            c.add("lost-%d-%d" % (rep, i), lost, pairs=use[i:i + 8], variant=("static", "dyn", "release", "dyn")[i // 8 % 4])
        for kd in KINDS:
            c.add("healthy-%s-%d" % (kd, rep), healthy, kind=kd, span=rng.choice((1, 3, 8)) if THOROUGH else 1)
    return c
