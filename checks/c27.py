"""C27: debug output appears only when requested and never changes the result."""
import itertools, os, re, signal
from k8 import *

MODULES = ["Configuration", "Main", "Process", "Socket", "Utilities"]
WS = b"\t\n\v\f\r "


def selected(value, module):
    """The documented meaning: a comma or semicolon separated, case-insensitive list of module names, or 'all'."""
    if value is None:
        return False
    items = [x.strip(WS).lower() for x in value.replace(b";", b",").split(b",")]
    return bool(module) and module.lower() in items or b"all" in items


def matcher(c, a, rng, name, length, part, parts):
    """Every short list, for modules with short names; and longer random ones."""
    u = Units(a)
    alphabet = [b"a", b"L", b"l", b" ", b",", b";", b"x"]
    files = [(b"/src/al.cxx", b"al"), (b"all.x", b"all"), (b"a", b"a"), (b"src/LL.a.b", b"LL")]

    def compare(value, f, module, r):
        want = selected(value, module)
        if isinstance(r, UnitError) or (r[0] == b"1") != want:
            raise Violation("selection", "with K8PSH_DEBUG=%r, messages of module %r are %s" % (value, module, r if isinstance(r, UnitError) else "logged" if r[0] == b"1" else "not logged"))
        c.count("evaluations")
        c.count("selected" if want else "not_selected")
    for n in range(length + 1):
        values = [b"".join(t) for i, t in enumerate(itertools.product(alphabet, repeat=n)) if i % parts == part]
        calls, wants = [], []
        for v in values:
            calls.append([b"setenv", b"K8PSH_DEBUG", v])
            wants.append(None)
            for f, m in files if n < length else files[:2]:
                calls.append([b"debug", f])
                wants.append((v, f, m))
        for w, r in zip(wants, u.batch(calls, 3000)):
            if w:
                compare(*w, r)
        c.seen("short", n, part)
    names = [m.encode() for m in MODULES]
    calls, wants = [], []
    for _ in range(1500):
        v = b""
        for _ in range(rng.choice((0, 1, 2, 4, 9))):
            m = rng.choice(names + [b"all", b"ALL", b"All", b"", b"x", b"Main.cxx", b"src/Main", b"debug", b"1", b"*", b"Process Socket", b"aal", b"alll", b"Sock", b"Sockets", b"MMain"])
            m = rng.choice((m, m.lower(), m.upper(), m.swapcase(), m[:-1], m + m))
            v += rng.choice((b"", b" ", b"\t", b"  ")) + m + rng.choice((b"", b" ", b"\n", b" \t")) + rng.choice((b",", b";", b",,", b" ", b",;", b"|", b":", b", "))
        v = rng.choice((v, v[:-1]))
        calls.append([b"setenv", b"K8PSH_DEBUG", v])
        wants.append(None)
        for m in names:
            f = rng.choice((b"/a/b/src/", b"", b"src/", b"./", b"/x.y/")) + m + rng.choice((b".cxx", b".hxx", b"", b".cxx.o"))
            calls.append([b"debug", f])
            wants.append((v, f, m))
        c.seen("long", v)
    calls.append([b"unsetenv", b"K8PSH_DEBUG"])
    wants.append(None)
    for m in names:
        calls.append([b"debug", m + b".cxx"])
        wants.append((None, m, m))
    for w, r in zip(wants, u.batch(calls, 3000)):
        if w:
            compare(*w, r)
    u.close()


LINE = re.compile(rb"^\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}, DEBUG, \d+\] \((\w*)\) ", re.M)


def value(rng):
    ms = rng.sample(MODULES, rng.choice((0, 1, 1, 2, 3)))
    if rng.random() < 0.15:
        ms.append("all")
    ms += rng.sample(["", "x", "Mai", "Sockets", "alll", "Proces s"], rng.choice((0, 1, 2)))
    rng.shuffle(ms)
    return "".join(rng.choice(("", " ", "\t")) + rng.choice((m, m.upper(), m.lower())) + rng.choice(("", " ")) + rng.choice((",", ";")) for m in ms)[:None if rng.random() < 0.3 else -1]


def text(a, port, other):
    return "baseDirectory = '%s'\nconnectTimeoutMs = 500\n[srv:%d]\ncmd A=a '=B=b' '%s/probe' '%s'\nbad '%s'\nnone ''\nother '%s/probe' 'R:%s'\n[nobody:%d]\nlost x\n" % (a.p("work"), port, a.bin, a.p("ev"), a.p("missing"), a.bin, a.p("rep"), other)


def scenario(a, rng):
    """A client run whose results only depend on its input: (function of the client variant)"""
    k = rng.randrange(10)
    size = rng.choice((0, 1, 10, 1000, 3000, 3500, 3800, 4000, 4096, 5000, 9000, 100000)) + rng.randrange(0, 40)
    filler = ["f" * size]
    if k < 2:
        d, ops, exp = write_plan(rng, 60000)
        a.write("d", d)
        return dict(stub="cmd", args=ops_args(ops, a.p("d")) + ["exit", str(rng.randrange(256))], stdin=b"")
    if k < 3:
        return dict(stub="cmd", args=["cat"], stdin=rng.randbytes(size))
    if k < 6:
        return dict(stub="bad", args=filler * rng.choice((1, 2)) + ["x"] * rng.choice((0, 100)), stdin=b"abc")
    if k < 7:
        return dict(stub="cmd", args=["kill", "9"] + filler, stdin=b"")
    if k < 9:
        return dict(stub="none", args=filler, stdin=b"")
    return dict(stub=rng.choice(("lost", "unknown")), args=filler, stdin=b"")


def normalized(err):
    # process specific parts of messages
    return re.sub(rb"\[\d{4}-\d\d-\d\d [^\]]*\]", b"[]", err)


def run(a, sc, variant, env=None):
    p = a.client(sc["args"], stub=sc["stub"], variant=variant, env=env, cwd=a.p("work"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    r = drive(p, [(sc["stdin"], 0)])
    return r[0], r[1], normalized(r[2])


def sessions(c, a, rng, name, rounds):
    """The same client runs against servers with different selections."""
    for _ in range(rounds):
        a.new()
        ports = [a.port() for _ in range(3)]
        other = a.port()
        variant = rng.choice(("static", "static", "release", "asan"))
        vals = [None, "all", value(rng)]
        servers = []
        a.mkdir(a.p("work", "deep"))
        for port, v in zip(ports, vals):
            a.write("s%d.conf" % port, text(a, port, other))
            env = {} if v is None else {"K8PSH_DEBUG": v}
            s = a.server(None, port=port, variant=variant, env=env, confname="s%d.conf" % port, opts=["-d"])
            servers.append(s)
        for i in range(8):
            sc = scenario(a, rng)
            got = []
            for port, v in zip(ports, vals):
                got.append(run(a, sc, variant if variant != "asan" else "static", {"K8PSH_CONFIG": a.p("s%d.conf" % port)}))
            for g, v in zip(got[1:], vals[1:]):
                if g != got[0]:
                    d = "status %s instead of %s" % (cmd_status(g[0]), cmd_status(got[0][0])) if g[0] != got[0][0] else describe_diff("stdout", got[0][1], g[1]) if g[1] != got[0][1] else describe_diff("stderr", got[0][2], g[2])
                    raise Violation("changed", "with K8PSH_DEBUG=%r on the server (%s), %r with %d arguments (%d bytes) has another result: %s" % (v, variant, sc["stub"], len(sc["args"]), sum(map(len, sc["args"])), d))
            c.count("evaluations", 2)
            c.count("results_compared", 2)
            c.seen("session", variant, vals[2], sc["stub"], tuple(map(len, sc["args"])))
        for s, v in zip(servers, vals):
            rc = s.stop()
            if rc != 0:
                raise Violation("status", "with K8PSH_DEBUG=%r the server ends with %s" % (v, cmd_status(rc)))
            check_log(c, a.read(s.log), v, variant, True)


def check_log(c, log, v, variant, busy):
    mods = {m.decode() for m in LINE.findall(log)}
    want = {m for m in MODULES if selected(v.encode(), m.encode())} if v is not None else set()
    if variant == "release":
        want_max = want_min = set()  # built without debug messages
    else:
        want_max = want
        want_min = want & {"Configuration", "Main", "Process", "Socket"} if busy else want & {"Configuration", "Main"}
    if mods - want_max:
        raise Violation("unrequested", "with K8PSH_DEBUG=%r there are debug messages of %r (%s)" % (v, sorted(mods - want_max), variant))
    if want_min - mods:
        raise Violation("missing", "with K8PSH_DEBUG=%r there are no debug messages of %r (%s)" % (v, sorted(want_min - mods), variant))
    if not mods and b"DEBUG" in log:
        raise Violation("unrequested", "with K8PSH_DEBUG=%r: %r" % (v, log[:300]))
    c.count("debug_lines", len(LINE.findall(log)))
    c.count("logs_checked")


def clients(c, a, rng, name, runs):
    """Debug messages of the client itself, and none without the variable."""
    port = a.port()
    a.write("k.conf", text(a, port, a.port()))
    a.server(None, port=port, opts=["-d"])
    for _ in range(runs):
        v = rng.choice((None, "", value(rng), value(rng), "all"))
        variant = rng.choice(("static", "release"))
        rc, out, err = a.run(["exit", "3"], stub="cmd", variant=variant, env={} if v is None else {"K8PSH_DEBUG": v})
        if rc != 3:
            raise Violation("status", "with K8PSH_DEBUG=%r the client ends with %s: %r" % (v, cmd_status(rc), err[-200:]))
        if err:
            raise Violation("unrequested", "with K8PSH_DEBUG=%r the client writes %r" % (v, err[:300]))
        check_log(c, out, v, variant, True)
        c.count("evaluations")
        c.seen("client", v, variant)


def check():
    n = 8 if THOROUGH else 6
    parts = 16 if THOROUGH else 8
    c = Check("C27", "exploration",
              "every list of up to %d of the characters 'aLl ,;x' for short module names (exhaustive) and random lists of real names, against an independent matcher; the messages in the logs of real servers and clients; the same client runs (including commands that cannot be started, with arguments of many lengths) against servers with different selections have equal results. distinct = different lists, runs and sizes." % n,
              ["static", "release", "asan", "units"])
    k = 20 if THOROUGH else 1
    for i in range(parts):
        c.add("matcher-%d" % i, matcher, length=n, part=i, parts=parts)
    for i in range(8 * k):
        c.add("sessions-%d" % i, sessions, rounds=3)
    for i in range(4 * k):
        c.add("clients-%d" % i, clients, runs=30)
    return c
