"""C08: sessions are isolated from each other and from the server."""
import os, signal, socket, stat, subprocess, threading, time
from k8 import *


def hostile(rng, port, stop, counts):
    """One misbehaving connection."""
    kind = rng.choice(("nothing", "garbage", "half-request", "reset", "unknown", "stall", "huge-length", "invalid-after-start", "flood-in", "no-read", "twice", "bad-directory", "not-executable"))
    counts[kind] = counts.get(kind, 0) + 1
    try:
        s = Raw(port)
        if kind == "nothing":
            s.close()
        elif kind == "garbage":
            s.send(rng.randbytes(rng.randrange(1, 3000)))
            s.close()
        elif kind == "half-request":
            r = request("cmd", ["a", "b"])
            s.send(r[:rng.randrange(1, len(r))])
            s.close()
        elif kind == "reset":
            s.send(request("cmd", ["/dev/null", "sleep", "3600000"]))
            time.sleep(rng.choice((0, 0.005)))
            s.reset()
        elif kind == "unknown":
            s.send(request("no-such-command"))
            s.collect()
            s.close()
        elif kind == "bad-directory":
            s.send(request("cmd", ["/dev/null"], wd="no/such/directory"))
            s.collect()
            s.close()
        elif kind == "not-executable":
            s.send(request("broken", ["/dev/null"]))
            s.collect()
            s.close()
        elif kind == "stall":
            s.send(request("cmd", ["/dev/null"])[:7])
            return s
        elif kind == "huge-length":
            s.send(struct.pack("<BI", rng.choice((WD, ENV, ARG, START)), 0x7fffffff) + b"xyz")
            return s
        elif kind == "invalid-after-start":
            s.send(request("cmd", ["/dev/null", "sleep", "3600000"]) + bytes([rng.choice((9, 200, 8, 0))]) + b"\0\0\0\0")
            s.collect()
            s.close()
        elif kind == "flood-in":
            s.send(request("cmd", ["/dev/null", "sleep", "3600000"]) + frame(IN, bytes(100000)))
            s.close()
        elif kind == "no-read":
            s.send(request("cmd", ["/dev/null", "flood", "1", "65536"]))
            return s
        elif kind == "twice":
            s.send(request("cmd", ["/dev/null", "exit", "0"]) * 2)
            s.collect()
            s.close()
    except (OSError, Hang):
        pass
    return None


def snapshot(a, d):
    r = {}
    for root, ds, fs in os.walk(d):
        for f in ds + fs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            r[os.path.relpath(p, d)] = (stat.S_IFMT(st.st_mode), st.st_ino, st.st_size, os.readlink(p) if stat.S_ISLNK(st.st_mode) else None)
    return r


def one_session(c, a, rng, n, variant, env, wdroot):
    """A session with unique contents in every respect; returns a list of complaints."""
    token = "%08x" % rng.randrange(1 << 32)
    d = data(rng, size(rng, 60000))
    d2 = data(rng, size(rng, 60000))
    inp = data(rng, size(rng, 60000))
    a.write("o" + token, d)
    a.write("e" + token, d2)
    wd = wdroot + "/w" + token
    a.makedirs(wd)
    code = rng.randrange(256)
    rep = a.p("r" + token)
    ops = ["report", rep, "r", a.p("i" + token), "-1", "0", "0"]
    w = [["w", "1", a.p("o" + token), "0", str(len(d)), "0", "0"], ["w", "2", a.p("e" + token), "0", str(len(d2)), "0", "0"], ["sleep", str(rng.choice((0, 10, 100)))]]
    rng.shuffle(w)
    ops += sum(w, []) + ["exit", str(code), "arg" + token]
    p = a.client([a.p("v" + token)] + ops, stub="cmd", variant=variant, cwd=wd, env=dict(env, TOKEN=token), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    rc, out, err = drive(p, [(inp, rng.choice((0, 0.01)))])
    bad = []
    if out != d:
        bad.append(describe_diff("stdout", d, out))
    if err != d2:
        bad.append(describe_diff("stderr", d2, err))
    if rc != code:
        bad.append("status %s instead of exit %d" % (cmd_status(rc), code))
    if a.read("i" + token) != inp:
        bad.append(describe_diff("stdin", inp, a.read("i" + token)))
    try:
        j = json.loads(a.read(rep))
        argv = [bytes.fromhex(x).decode() for x in j["argv"]]
        if argv[1:] != [a.p("v" + token)] + ops:
            bad.append("arguments %r" % argv)
        e = sorted(bytes.fromhex(x).decode() for x in j["env"])
        if e != ["TOKEN=" + token]:
            bad.append("environment %r instead of the token %s" % (e, token))
        if bytes.fromhex(j["cwd"]).decode() != wd:
            bad.append("directory %r instead of %r" % (bytes.fromhex(j["cwd"]), wd))
    except ValueError:
        bad.append("no report")
    if bad:
        raise Violation("isolation", "session %d: %s" % (n, "; ".join(bad)))
    c.count("evaluations")


def concurrent(c, a, rng, name, width, rounds, hostiles):
    """Sessions in parallel with each other and with hostile ones; the server's files stay as they are."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    daemon = rng.random() < 0.3
    cf = conf(a, port, ["cmd '%s/probe'" % a.bin, "broken '%s/nothing'" % a.dir], header="TOKEN=")
    cf += "[other:%d]\nelse x\nmore y\n" % a.port()
    a.write("sv/untouched", b"u")
    srv = a.server(cf, port=port, variant=variant, env=env, opts=(["-b", "-p", a.p("sv", "pid")] if daemon else []))
    if daemon:
        wait_until(lambda: a.read("sv/pid").endswith(b"\n"))
    before = snapshot(a, a.p("sv"))
    if sorted(before) != sorted(["untouched", "else", "more"] + (["pid"] if daemon else [])):
        raise Violation("files", "unexpected files %r" % sorted(before))
    stop = threading.Event()
    counts, errors, held = {}, [], []

    def attacker(seed):
        r = random.Random(seed)
        while not stop.is_set():
            h = hostile(r, port, stop, counts)
            if h:
                held.append(h)
                if len(held) > 12:
                    held.pop(0).close()
            time.sleep(r.choice((0, 0.002, 0.01)))

    def killer(seed):
        r = random.Random(seed)
        while not stop.is_set():  # clients that die
            p = a.client(["/dev/null", "sleep", "3600000"], stub="cmd", variant=variant, env=env)
            time.sleep(r.choice((0.005, 0.03)))
            p.send_signal(r.choice((9, 15)))
            p.wait()
            a.procs.remove(p)

    def worker(seed, n):
        r = random.Random(seed)
        try:
            for k in range(rounds):
                one_session(c, a, r, n * 100 + k, variant, env and shim_env(a, r), a.p("work"))
        except Exception as e:
            errors.append(e)
    ts = [threading.Thread(target=worker, args=(rng.random(), n), daemon=True) for n in range(width)]
    hs = [threading.Thread(target=attacker, args=(rng.random(),), daemon=True) for n in range(hostiles)] + ([threading.Thread(target=killer, args=(rng.random(),), daemon=True)] if hostiles else [])
    for t in ts + hs:
        t.start()
    for t in ts:
        t.join()
    stop.set()
    for t in hs:
        t.join(WATCHDOG)
    for e in errors:
        raise e
    if snapshot(a, a.p("sv")) != before:
        raise Violation("files", "the server's files changed from %r to %r" % (before, snapshot(a, a.p("sv"))))
    if not listening(port) or (not daemon and not srv.alive()):
        raise Violation("server", "the server is gone: %s" % srv.output()[-500:])
    one_session(c, a, rng, 999, variant, env, a.p("work"))
    for h in held:
        h.close()
    for k, v in counts.items():
        c.count("hostile_" + k, v)
    c.seen("concurrent", variant, width, daemon, tuple(sorted(counts)))
    c.sample(case=name, build=variant, parallel=width, hostile=dict(counts), background=daemon)


def single(c, a, rng, name, rounds):
    """After each kind of bad session the server's files are still there, and the next session works; a session's failure does not end others."""
    variant, env = pick_variant(a, rng)
    port = a.port()
    cf = conf(a, port, ["cmd '%s/probe'" % a.bin, "broken '%s/nothing'" % a.dir], header="TOKEN=") + "[other:%d]\nelse x\n" % a.port()
    daemon = rng.random() < 0.5
    srv = a.server(cf, port=port, variant=variant, env=env, opts=(["-b", "-p", a.p("sv", "pid")] if daemon else []))
    if daemon:
        wait_until(lambda: a.read("sv/pid").endswith(b"\n"))
    before = snapshot(a, a.p("sv"))
    # a long session that has to survive all this
    a.write("tok", b"survived")
    lp = a.client([a.p("evl"), "waitfile", a.p("go"), "w", "1", a.p("tok"), "0", "8", "0", "0", "exit", "42"], stub="cmd", variant=variant, env=env, stdout=subprocess.PIPE)
    wait_until(lambda: a.events("evl"))
    for r in range(rounds):
        counts = {}
        h = hostile(rng, port, None, counts)
        k = list(counts)[0]
        if rng.random() < 0.3:  # the serving process itself dies
            p = a.client([a.p("evk"), "sleep", "3600000"], stub="cmd", variant=variant, env=env)
            wait_until(lambda: a.events("evk"))
            ppids = [x[2] for pid, x in a.pids().items() if pid == a.events("evk")[-1][3]]
            for pp in ppids:
                a.probe("kill", pp, 9)
            p.wait()
            a.write("evk", b"")
            k += "+killed"
        one_session(c, a, rng, r, variant, env, a.p("work"))
        if snapshot(a, a.p("sv")) != before:
            raise Violation("files", "after %s, the server's files changed from %r to %r" % (k, sorted(before), sorted(snapshot(a, a.p("sv")))))
        if h:
            h.close()
        c.count("bad_sessions")
        c.seen("single", k, daemon, variant)
    if lp.poll() is not None:
        raise Violation("isolation", "another session ended with %s meanwhile" % cmd_status(lp.returncode))
    a.write("go", b"")
    rc, out, err = drive(lp)
    if rc != 42 or out != b"survived":
        raise Violation("isolation", "a session in parallel to bad ones ended with %s, %r" % (cmd_status(rc), out))
    c.count("evaluations")


def stalled(c, a, rng, name, n):
    """Many connections that never say anything do not prevent new sessions."""
    port = a.port()
    a.server(conf(a, port, ["cmd '%s/probe'" % a.bin], header="TOKEN="), port=port)
    held = []
    for i in range(n):
        s = Raw(port)
        if i % 3 == 1:
            s.send(frame(WD, b"")[:rng.randrange(1, 6)])
        elif i % 3 == 2:
            s.send(request("cmd", ["/dev/null", "sleep", "3600000"]))
        held.append(s)
        if i % 10 == 9:
            one_session(c, a, rng, i, "static", {}, a.p("work"))
    for s in held:
        s.close()
    one_session(c, a, rng, n, "static", {}, a.p("work"))
    c.count("stalled_connections", n)
    c.seen("stalled", n)


def crowd(c, a, rng, name, n, limit=5):
    """A new session is served at once, with many silent, stalled or busy connections waiting, each of which may take the server only a negligible time."""
    port = a.port()
    a.server(conf(a, port, ["cmd '%s/probe'" % a.bin], header="TOKEN="), port=port, variant=rng.choice(("static", "release")))
    held = []
    kinds = (lambda: b"", lambda: frame(WD, b"x")[:rng.randrange(1, 6)], lambda: request("cmd", ["/dev/null", "x"])[:-3], lambda: struct.pack("<BI", WD, 1 << 30), lambda: request("cmd", ["/dev/null", "flood", "1", "4096"]))
    for i in range(n):
        s = socket.socket()
        s.setblocking(False)
        s.connect_ex(("127.0.0.1", port))
        held.append(s)
        k = 0 if i % 2 else rng.randrange(4) if i % 20 else 4
        if k:
            time.sleep(0.0005)
            try:
                s.send(kinds[k]())
            except OSError:
                pass
    t = time.monotonic()
    one_session(c, a, rng, 0, "static", {}, a.p("work"))
    took = time.monotonic() - t
    for s in held:
        s.close()
    if took > limit:
        raise Hang("late", "a session took %.1f s with %d other connections, most of them silent" % (took, n))
    c.count("crowds")
    c.seen("crowd", n)
    c.sample(case=name, connections=n, session_s=round(took, 3))


def exhausted(c, a, rng, name, limit):
    """So many connections that the system refuses to start processes for all of them: the server is there again when they are gone."""
    import resource
    port = a.port()
    variant = rng.choice(("static", "release"))
    cf = conf(a, port, ["cmd '%s/probe'" % a.bin], header="TOKEN=") + "[other:%d]\nelse x\n" % a.port()
    srv = a.server(cf, port=port, variant=variant, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_NPROC, (limit, limit)))
    before = snapshot(a, a.p("sv"))
    for r in range(3):
        held = []
        lp = a.client([a.p("evl%d" % r), "waitfile", a.p("go%d" % r), "exit", "42"], stub="cmd", variant=variant)
        if not wait_until(lambda: a.events("evl%d" % r)):
            raise Hang("start", "no session")
        for i in range(limit + rng.randrange(2, 20)):
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex(("127.0.0.1", port))
            held.append(s)
        if rng.random() < 0.5:
            p = a.client([a.p("evx%d" % r), "exit", "0"], stub="cmd", variant=variant)
            rc = drive(p)[0]
            if (rc == 0) != bool([e for e in a.events("evx%d" % r) if e[0] == "exit"]):
                raise Violation("isolation", "a client ended with %s" % cmd_status(rc))
        time.sleep(rng.choice((0.02, 0.1)))
        for s in held:
            s.close()
        a.write("go%d" % r, b"")
        rc, out, err = drive(lp)
        if rc != 42:
            raise Violation("isolation", "a session in parallel to too many connections ended with %s" % cmd_status(rc))
        if not wait_until(lambda: [x[0] for x in a.pids().values() if x[1] != "Z"] == ["k8pshd"] or not srv.alive()):
            raise Hang("left", "processes are left: %r" % a.pids())
        if not srv.alive() or not listening(port):
            raise Violation("server", "the server is gone after too many connections (%d): %s" % (len(held), srv.output()[-400:]))
        one_session(c, a, rng, r, variant, {}, a.p("work"))
        if snapshot(a, a.p("sv")) != before:
            raise Violation("files", "after too many connections, the server's files are %r" % sorted(snapshot(a, a.p("sv"))))
    c.count("refused_forks", srv.output().count("fork"))
    c.seen("exhausted", limit, variant)


def check():
    c = Check("C08", "exploration",
              "parallel sessions with unique arguments, environment, directory, input, outputs and status, checked individually, in the presence of hostile, malformed, stalled, killed and disconnected ones of 13 kinds, dying clients and dying serving processes; "
              "the server's files compared before and after. distinct = different (scenario, kinds, build).", ["static", "release", "dyn", "shim"], workers=5)
    k = 8 if THOROUGH else 1
    for i in range(2 * k):
        c.add("exhausted-%d" % i, exhausted, limit=(12, 25)[i % 2])
    for i in range(3 * k):
        c.add("crowd-%d" % i, crowd, n=(150, 300, 150)[i % 3])
    for i in range(8 * k):
        c.add("concurrent-%d" % i, concurrent, width=rng_width(i), rounds=12, hostiles=i % 3)
    for i in range(6 * k):
        c.add("single-%d" % i, single, rounds=10)
    for i in range(2 * k):
        c.add("stalled-%d" % i, stalled, n=60)
    return c


def rng_width(i):
    return (2, 4, 8, 16)[i % 4]
