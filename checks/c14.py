"""C14: arguments arrive unchanged."""
import os, subprocess
from k8 import *

SPECIAL = [b"", b"-", b"--", b"-h", b"--help", b"-v", b"--version", b"-c", b"--config", b"--config=/dev/null", b"-s", b"--server", b"--install", b"--install=x", b"-n", b"-x", b"A=b", b"=A=", b"?A=", b"=", b"#", b"# comment", b"'", b"''", b'"', b'""',
           b"\\", b"\\n", b"\\x41", b"${HOME}", b"${PATH:-x}", b"$HOME", b"`id`", b"$(id)", b"*", b"~", b";", b"|", b">", b"&&", b" ", b"  ", b"\t", b"\n", b"\r\n", b"a b", b" lead", b"trail ", b"a\nb", b"]", b"[", b"\x01", b"\x7f", b"\xff", b"\xc3\xa4", b"\xf0\x9f\x98\x80",
           b"%s%n", b"0", b"-1", b".", b"..", b"/", b"!", b"\x1b[0m", b"cmd", b"k8psh", b"R:x"]


def arg(rng, big):
    k = rng.random()
    if k < 0.5:
        return rng.choice(SPECIAL)
    if k < 0.8:
        return bytes(rng.randrange(1, 256) for _ in range(rng.choice((1, 2, 5, 20, 80))))
    if k < 0.9:
        return b"".join(rng.choice(SPECIAL) for _ in range(rng.randrange(1, 6)))
    if not big:
        return b"x" * rng.randrange(1, 300)
    n = rng.choice((8187, 8192, 4096, 16384, 65536, 120000, 3000)) + rng.randrange(-6, 7)
    return bytes(b or 1 for b in rng.randbytes(n))


def arglist(rng):
    k = rng.random()
    if k < 0.1:
        return []
    if k < 0.2:
        return [arg(rng, False) for _ in range(rng.choice((100, 500, 2000)))]
    if k < 0.3:
        return [b""] * rng.randrange(1, 5)
    return [arg(rng, True) for _ in range(rng.randrange(1, 10))]


def sq(b):
    """Single-quoted notation."""
    return b"'" + b.replace(b"'", b"''") + b"'"


def cfgargs(rng):
    r = [arg(rng, False) for _ in range(rng.choice((0, 0, 1, 2, 5)))]
    return r


def want(a, exe, rep, cfg, args, what, c):
    path = a.p(rep)
    j = a.read(rep)
    if not j:
        raise Violation("not-started", "%s: the command was not started" % what)
    got = [bytes.fromhex(h) for h in json.loads(j)["argv"]]
    expected = [exe, b"R:" + os.fsencode(path)] + cfg + args
    if got != expected:
        i = next((i for i, (x, y) in enumerate(zip(got, expected)) if x != y), min(len(got), len(expected)))
        raise Violation("arguments", "%s: argument %d is %r instead of %r (%d arguments instead of %d)" % (what, i, got[i:i + 1] and got[i][:200], expected[i:i + 1] and expected[i][:200], len(got), len(expected)))
    c.count("arguments_compared", len(expected))
    os.unlink(path)


def sessions(c, a, rng, name, runs):
    port = a.port()
    variant, env = pick_variant(a, rng)
    cmds = {}
    text = b"baseDirectory = '%s'\n[srv:%d]\n" % (os.fsencode(a.p("work")), port)
    exe = os.fsencode(a.bin + "/probe")
    names = ["cmd", "--help", "-c", "a b", "k8psh2", "x=y"]
    for i, n in enumerate(names):
        cfg = cfgargs(rng)
        rep = "rep%d" % i
        cmds[n] = (exe, rep, cfg)
        text += b" ".join([sq(n.encode()), sq(exe), sq(b"R:" + os.fsencode(a.p(rep)))] + [sq(x) for x in cfg]) + b"\n"
    # no executable: the command's name is run
    os.symlink(a.bin + "/probe", a.p("work", "tool"))
    text += b"tool\n'tool 2' A=1 ?B= '=C=x y'\n"
    os.symlink(a.bin + "/probe", a.p("work", "tool 2"))
    srv = a.server(text, port=port, variant=variant, env=env)
    for r in range(runs):
        args = arglist(rng)
        how = rng.choice(("stub", "stub", "stub", "k8psh", "k8psh", "k8psh-opts", "raw", "raw", "own-name"))
        cv, ce = ("static", {}) if rng.random() < 0.6 else pick_variant(a, rng)
        n = rng.choice(names)
        e = dict(ce)
        what = "%s of %r with %d arguments" % (how, n, len(args))
        exe_, rep, cfg = cmds[n]
        if how == "raw":
            fs = [frame(ARG, x) for x in args] + [frame(WD, b"")] + [frame(ENV, b"X=y")] * rng.randrange(3)
            # the order of the arguments matters, what is in between does not
            order = list(range(len(args)))
            others = fs[len(args):]
            seq = fs[:len(args)]
            for o in others:
                seq.insert(rng.randrange(len(seq) + 1), o)
            msg = b"".join(seq) + frame(START, n.encode()) + frame(IN)
            conn = Raw(port)
            conn.send(msg, sorted(rng.randrange(1, len(msg)) for _ in range(rng.choice((0, 1, 5)))), rng.choice((0, 0.001)))
            out = conn.collect()
            conn.close()
            rc = out[2]
        elif how == "own-name":
            n = rng.choice(("tool", "tool 2"))
            rep = "repown"
            p = a.client([b"R:" + os.fsencode(a.p(rep)), *args], stub=n, variant=cv, env=e, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
            rc, o, err = drive(p)
            exe_, cfg = n.encode(), []
        else:
            if how == "stub":
                argv0, kw = invocation(a, rng, a.client_argv([], cv, n)[0])
                p = a.popen([argv0, *args], env=dict({"K8PSH_CONFIG": a.p("k.conf")}, **e), stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, **kw)
            else:
                if n.startswith("-"):
                    n = "cmd"
                    exe_, rep, cfg = cmds[n]
                if how == "k8psh":
                    own = []
                else:
                    e["K8PSH_CONFIG"] = "/nonexistent/conf"
                    own = rng.choice(([b"-c", os.fsencode(a.p("k.conf"))], [b"--config", os.fsencode(a.p("k.conf"))], [b"--config=" + os.fsencode(a.p("k.conf"))], [b"-c", b"/dev/null", b"--config=" + os.fsencode(a.p("k.conf"))]))
                p = a.client([*own, n.encode(), *args], variant=cv, env=e, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
            rc, o, err = drive(p)
        if rc != 0:
            raise Violation("failed", "%s ended with %r" % (what, rc))
        want(a, exe_, rep, cfg, args, what, c)
        c.count("evaluations")
        c.seen(how, cv, len(args), sum(map(len, args)), len(cfg))
        if len(args) < 6 and sum(map(len, args)) < 200:
            c.sample(how=how, command=n, args=[repr(x) for x in args], configured=[repr(x) for x in cfg])


def crowd(c, a, rng, name, count):
    """As many arguments as the system can take."""
    port = a.port()
    exe = os.fsencode(a.bin + "/probe")
    cfg = [b"conf", b""]
    a.server(b"baseDirectory = '%s'\n[srv:%d]\ncmd " % (os.fsencode(a.p("work")), port) + b" ".join(sq(x) for x in [exe, b"R:" + os.fsencode(a.p("rep"))] + cfg) + b"\n", port=port)
    for content in (lambda i: b"", lambda i: b"%d" % (i % 10), lambda i: rng.choice((b"", b"x", b"-"))):
        args = [content(i) for i in range(count)]
        p = a.client([b"cmd", *args], stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
        rc, o, err = drive(p)
        if rc != 0:
            raise Violation("failed", "a command with %d arguments ended with %r: %r" % (count, rc, err[-300:]))
        want(a, exe, "rep", cfg, args, "%d arguments" % count, c)
        c.count("evaluations")
        c.seen("crowd", count, len(b"".join(args)))


def wire(c, a, rng, name, runs):
    """What the client sends."""
    port = a.port()
    a.write("k.conf", b"baseDirectory = '%s'\n[srv:%d]\ncmd exe conf1 ''\n" % (os.fsencode(a.p("work")), port))
    fs = FakeServer(port)
    for r in range(runs):
        args = arglist(rng)
        cv, ce = pick_variant(a, rng)
        direct = rng.random() < 0.5
        p = a.client(([b"cmd"] if direct else []) + args, stub=None if direct else "cmd", variant=cv, env=ce, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
        conn = fs.accept()
        m = fs.request(conn)
        conn.send(frame(OUT) + frame(ERR) + frame(EXIT, 0))
        conn.close()
        p.wait()
        got = [x for t, x in m if t == ARG]
        if got != args:
            raise Violation("wire", "the client sent %r instead of %r" % ([x[:50] for x in got][:20], [x[:50] for x in args][:20]))
        if m[-1] != (START, b"cmd"):
            raise Violation("wire", "the client started %r" % (m[-1],))
        c.count("evaluations")
        c.count("arguments_compared", len(args))
        c.seen("wire", len(args), sum(map(len, args)))
    fs.close()


def check():
    c = Check("C14", "exploration",
              "lists of 0-2000 (and up to 140000 short) arguments made of option-like, quoted, empty, multi-line, non-UTF-8 and long (up to 120 kB) byte strings, configured and from the client, through executables, the k8psh command with its own options, scripted clients and scripted servers; "
              "the started program reports its argument vector. distinct = different (way, number, total length, configured).", ["static", "release", "dyn", "shim"])
    k = 10 if THOROUGH else 1
    for i in range(20 * k):
        c.add("sessions-%d" % i, sessions, runs=40)
    for n in (70000, 140000):
        c.add("crowd-%d" % n, crowd, count=n)
    for i in range(6 * k):
        c.add("wire-%d" % i, wire, runs=30)
    return c
