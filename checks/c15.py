"""C15: the command's environment is exactly what the configuration prescribes."""
import os, subprocess
from k8 import *
from refs import command_environment, q_single, q_double

NAMES = [b"A", b"B", b"C", b"LONG_NAME_1", b"lower", b"_x", b"P9", b"A.B", b"A-B", b"D(1)", b"E F", b"G", b"H", b"AA", b"AB", b"PATH", b"HOME", b"LD_LIBRARY_PATH", b"K8PSH_X"]


def value(rng, refs=True):
    k = rng.random()
    if k < 0.15:
        return b""
    if k < 0.3:
        return rng.choice((b"=", b"a=b", b"==", b"x y", b"a\nb", b"'", b'"', b"\\", b"#", b"\xff\x80", b"\xc3\xa4", b" ", b"?", b";", b"$", b"$A", b"{A}", b"}"))
    if k < 0.45 and refs:
        return rng.choice((b"${A}", b"${B:-x}", b"${", b"${A", b"x${C}y", b"${A}${B}"))
    if k < 0.5:
        return bytes(b or 1 for b in rng.randbytes(rng.choice((1000, 8190, 50000))))
    return bytes(rng.choice(b"abcdefgh0123456789:/.-") for _ in range(rng.randrange(1, 12)))


def default(rng, names):
    """(notation, meaning): single-quoted ones contain references"""
    k = rng.random()
    if k < 0.3:
        return b"", b""
    if k < 0.75:
        v = b""
        for _ in range(rng.randrange(1, 4)):
            t = rng.random()
            n = rng.choice(names)
            if t < 0.35:
                v += b"${" + n + b"}"
            elif t < 0.55:
                v += b"${" + n + b":-" + rng.choice((b"", b"dflt", b"a b", b":-", b"$x", b"=")) + b"}"
            elif t < 0.65:
                v += rng.choice((b"$", b"${", b"$A", b"}", b"{", b"$$", b":-"))
            else:
                v += rng.choice((b":", b"/opt/lib", b"x", b" ", b"=", b"''"[:1], b"#", b"\xc3\xbc"))
        return q_single(v), v
    v = bytes(rng.choice(b"abcxyz:/.=-_ ") for _ in range(rng.randrange(1, 10)))
    if k < 0.87:
        return q_double(v, rng), v
    v = v.replace(b" ", b"_")
    return v, v


def declarations(rng, names, most):
    r = []
    for _ in range(rng.choice((0, 1, 2, 3, 6, most))):
        p = rng.choice((b"", b"", b"?", b"?", b"="))
        n = rng.choice(names)
        text, v = default(rng, names)
        token = p + n + b"="
        # the notation of the default decides about references: double quotes before single ones, as the same quotes twice would be a quote character
        r.append(((q_double(token) if b" " in token or rng.random() < 0.2 else token) + text if text[:1] != b'"' else (q_single(token) if b" " in token else token) + text, (p, n, v)))
    return r


def compare(a, rep, decls, cenv, senv, what, c):
    j = a.read(rep)
    if not j:
        raise Violation("not-started", "%s: the command was not started" % what)
    os.unlink(a.p(rep))
    got = sorted(bytes.fromhex(h) for h in json.loads(j)["env"])
    want = sorted(n + b"=" + v for n, v in command_environment(decls, cenv, senv).items())
    if got != want:
        extra, missing = [x[:120] for x in got if x not in want], [x[:120] for x in want if x not in got]
        raise Violation("environment", "%s: has %r, lacks %r%s" % (what, extra[:4], missing[:4], "" if extra or missing else " (a variable is repeated)"),
                        declarations=decls, client={k: v[:100] for k, v in cenv.items()}, server={k: v[:100] for k, v in senv.items()})
    c.count("variables_compared", len(want))
    c.count("variables_absent", len({n for p, n, d in decls}) - len(want))


def environ(rng, names, density):
    return {n: value(rng) for n in names if rng.random() < density}


def sessions(c, a, rng, name, configs, runs):
    for k in range(configs):
        a.new()
        names = rng.sample(NAMES, rng.choice((2, 3, 5, len(NAMES))))
        port = a.port()
        variant = rng.choice(("static", "release"))
        text = b"baseDirectory = '%s'\n[before] =A=1 B=2 =G=3\nignored x\n" % os.fsencode(a.p("work"))
        header = declarations(rng, names, 5)
        text += b"[srv:%d] %s\n" % (port, b" ".join(t for t, d in header))
        cmds = []
        for i in range(5):
            d = declarations(rng, names, 12)
            cmds.append((b"cmd%d" % i, header, d))
            text += b"cmd%d %s '%s' 'R:%s'\n" % (i, b" ".join(t for t, x in d), os.fsencode(a.bin + "/probe"), os.fsencode(a.p("rep")))
        text += b"[after:%d] H=9 =C=8\nlater y\n" % a.port()
        # references in unquoted defaults would be resolved when loading: the server's values must not look like references then, which none of these defaults contain
        e = {os.fsdecode(x): y for x, y in environ(rng, names + [b"UNDECLARED", b"SECRET"], 0.5).items()}
        srv = a.server(text, port=port, variant=variant, env=e)
        senv = {os.fsencode(n): os.fsencode(v) for n, v in a.environment(e).items()}
        for r in range(runs):
            n, h, d = rng.choice(cmds)
            decls = [x for t, x in h + d]
            how = rng.choice(("stub", "stub", "k8psh", "raw"))
            what = "%s of %s (%s)" % (how, n.decode(), b" ".join(t for t, x in h + d)[:600])
            if how == "raw":
                sent = []
                cenv = {}
                for _ in range(rng.choice((0, 1, 3, 8))):
                    m, v = rng.choice(names + [b"UNDECLARED", b"OTHER"]), value(rng)
                    sent.append(frame(ENV, m + b"=" + v))
                    cenv[m] = v
                rng.shuffle(sent) if len(set(cenv)) == len(sent) else None
                conn = Raw(port)
                conn.send(frame(WD) + b"".join(sent) + frame(START, n) + frame(IN))
                rc = conn.collect()[2]
                conn.close()
            else:
                ce = {os.fsdecode(x): y for x, y in environ(rng, names + [b"UNDECLARED", b"SECRET", b"CLIENTONLY"], rng.choice((0, 0.3, 0.7, 1))).items()}
                if rng.random() < 0.3:
                    ce["PATH"] = None
                cp = a.client([] if how == "stub" else [n], stub=n.decode() if how == "stub" else None, variant=rng.choice(("static", "release")), env=ce, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
                rc = drive(cp)[0]
                full = {"K8PSH_CONFIG": a.p("k.conf")}
                full.update(ce)
                cenv = {os.fsencode(x): os.fsencode(y) for x, y in a.environment(full).items()}
            if rc != 0:
                raise Violation("failed", "%s ended with %r" % (what, rc))
            compare(a, "rep", decls, cenv, senv, what, c)
            c.count("evaluations")
            c.seen(how, tuple((p, m) for p, m, v in decls), tuple(m in cenv for p, m, v in decls), tuple(m in senv for p, m, v in decls))
            if len(decls) < 5:
                c.sample(how=how, declarations=[t.decode("latin1")[:100] for t, x in h + d], client=sorted(x.decode("latin1") for x in cenv), server=sorted(x.decode("latin1") for x in senv))


def matrix(c, a, rng, name):
    """Every kind of declaration, default and presence at both ends, single and in pairs of the same name."""
    port = a.port()
    kinds = [(p, d) for p in (b"", b"?", b"=") for d in (b"", b"dv", b"${X}", b"${X:-dx}", b"${Y:-dy}", b"pre${X}post", b"${Z}")]
    text = b"baseDirectory = '%s'\n[srv:%d]\n" % (os.fsencode(a.p("work")), port)
    cmds = {}
    i = 0
    for k1 in kinds:
        for k2 in [None] + kinds:
            ds = [(k1[0], b"X", k1[1])] + ([(k2[0], b"X", k2[1])] if k2 else [])
            cmds[b"c%d" % i] = ds
            text += b"c%d %s '%s' 'R:%s'\n" % (i, b" ".join(q_single(p + n + b"=" + d) for p, n, d in ds), os.fsencode(a.bin + "/probe"), os.fsencode(a.p("rep")))
            i += 1
    combos = [(sx, cx) for sx in (None, b"", b"SX") for cx in (None, b"", b"CX", b"${Y}")]
    mine = combos[int(name.split("-")[1])::4]
    for sx, cx in mine:
        port_conf = text
        e = {"Y": b"SY"}
        if sx is not None:
            e["X"] = sx
        srv = a.server(port_conf, port=port, env=e, variant="static")
        senv = {os.fsencode(n): os.fsencode(v) for n, v in a.environment(e).items()}
        for n, ds in cmds.items():
            conn = Raw(port)
            conn.send(frame(WD) + frame(ENV, b"Y=CY") + (frame(ENV, b"X=" + cx) if cx is not None else b"") + frame(START, n) + frame(IN))
            rc = conn.collect()[2]
            conn.close()
            what = "%r with server %r, client %r" % (ds, sx, cx)
            if rc != 0:
                raise Violation("failed", "%s ended with %r" % (what, rc))
            cenv = {b"Y": b"CY"}
            if cx is not None:
                cenv[b"X"] = cx
            compare(a, "rep", ds, cenv, senv, what, c)
            c.count("evaluations")
            c.seen("matrix", n, sx, cx)
        srv.stop()


def big(c, a, rng, name, n):
    """Very many variables, and very large values."""
    port = a.port()
    decls, text = [], []
    for i in range(n):
        p = rng.choice((b"", b"", b"?", b"="))
        m = b"V%d" % (i if rng.random() < 0.95 else rng.randrange(n))
        v = rng.choice((b"", b"x%d" % i, b"a${V%d}b" % rng.randrange(n), b"${V%d:-none}" % rng.randrange(n)))
        decls.append((p, m, v))
        text.append(p + m + b"=" + (q_single(v) if v else b""))
    sizes = (60000, 65535, 65536, 65537, 100000, 120000)
    for i, k in enumerate(sizes):
        decls.append((b"?=" [i % 2:i % 2 + 1], b"L%d" % i, b""))
        text.append(decls[-1][0] + decls[-1][1] + b"=")
    cut = rng.randrange(len(decls))
    conf_ = b"baseDirectory = '%s'\n[srv:%d] %s\ncmd %s '%s' 'R:%s'\n" % (os.fsencode(a.p("work")), port, b" ".join(text[:cut]), b" ".join(text[cut:]), os.fsencode(a.bin + "/probe"), os.fsencode(a.p("rep")))
    env = lambda mark: {**{"V%d" % i: rng.choice(("", mark + "%d" % i, mark * 50)) for i in range(n) if rng.random() < 0.4}, **{"L%d" % i: mark * k for i, k in enumerate(sizes)}}
    e, ce = env("s"), env("c")
    srv = a.server(conf_, port=port, variant=rng.choice(("static", "release")), env=e)
    full = {"K8PSH_CONFIG": a.p("k.conf")}
    full.update(ce)
    for how in ("stub", "raw"):
        if how == "stub":
            cenv = {os.fsencode(x): os.fsencode(y) for x, y in a.environment(full).items()}
            rc = drive(a.client([], stub="cmd", variant=rng.choice(("static", "release")), env=ce, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE))[0]
        else:
            cenv = {os.fsencode(x): os.fsencode(y) for x, y in ce.items() if not x.startswith("L") or x == "L0"}
            sent = [frame(ENV, x + b"=" + y) for x, y in cenv.items()]
            rng.shuffle(sent)
            conn = Raw(port)
            conn.send(frame(WD) + b"".join(sent) + frame(START, b"cmd") + frame(IN))
            rc = conn.collect()[2]
            conn.close()
        if rc != 0:
            raise Violation("failed", "%s with %d variables ended with %r" % (how, n, rc))
        compare(a, "rep", decls, cenv, {os.fsencode(x): os.fsencode(y) for x, y in a.environment(e).items()}, "%s with %d variables" % (how, n), c)
        c.count("evaluations")
        c.seen("big", how, n)


def wire(c, a, rng, name, runs):
    """What the client sends: the declared variables that it has, and no others."""
    for r in range(runs):
        a.new()
        names = rng.sample(NAMES, rng.choice((2, 5, len(NAMES))))
        port = a.port()
        h, d = declarations(rng, names, 5), declarations(rng, names, 8)
        a.write("k.conf", b"baseDirectory = '%s'\n[srv:%d] %s\ncmd %s exe\n" % (os.fsencode(a.p("work")), port, b" ".join(t for t, x in h), b" ".join(t for t, x in d)))
        fs = FakeServer(port)
        ce = {os.fsdecode(x): y for x, y in environ(rng, names + [b"UNDECLARED"], 0.6).items()}
        p = a.client([], stub="cmd", variant=rng.choice(("static", "release")), env=ce, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
        conn = fs.accept()
        m = fs.request(conn)
        conn.send(frame(EXIT, 0))
        conn.close()
        p.wait()
        full = {"K8PSH_CONFIG": a.p("k.conf")}
        full.update(ce)
        cenv = {os.fsencode(x): os.fsencode(y) for x, y in a.environment(full).items()}
        decls = [x for t, x in h + d]
        want = {n + b"=" + cenv[n] for p_, n, v in decls if p_ != b"=" and n in cenv}
        got = {x for t, x in m if t == ENV}
        if got != want:
            raise Violation("wire", "%r: the client sent %r instead of %r" % (decls, sorted(x[:60] for x in got), sorted(x[:60] for x in want)))
        fs.close()
        c.count("evaluations")
        c.seen("wire", tuple((p_, n) for p_, n, v in decls))


def check():
    c = Check("C15", "exploration",
              "random declarations (plain, optional, inherited; repeated; defaults with references in single quotes) in the server section and the command, random client and server environments (values with '=', line breaks, references, up to 50 kB), plus all pairs of declarations of one name with all presences; "
              "the started program reports its environment, which is compared with a model of the documentation. distinct = different declarations and presences.", ["static", "release"])
    k = 10 if THOROUGH else 1
    for i in range(24 * k):
        c.add("sessions-%d" % i, sessions, configs=4, runs=14)
    for i in range(4):
        c.add("matrix-%d" % i, matrix)
    for i in range(k):
        for n in (300, 3000):
            c.add("big-%d-%d" % (n, i), big, n=n)
    for i in range(4 * k):
        c.add("wire-%d" % i, wire, runs=25)
    return c
