"""C19: a configuration means what its documented structure says."""
import os
from k8 import *
from refs import q_single, q_double, spell_number

WORDS = [b"gcc", b"g++", b"make", b"a", b"B", b"tool-1", b"x.y", b"_", b"1120", b"8080", b"server", b"[", b"]", b"cmd=1", b"--opt", b"-o", b"a b", b"#", b"'", b'"', b"\\", b"k8psh", b"baseDirectory", b"connectTimeoutMs", b"\n", b"\r\n", b"\t", b"\xc3\xa4", b"?x", b"=x", b"[srv]", b"a:b", b"line\nbreak", b"# no comment", b"x=y=z", b"all", b"$", b"\xff"]


def word(rng, unlike=()):
    while True:
        w = rng.choice(WORDS) if rng.random() < 0.7 else bytes(rng.choice(b"abcdefghij0123456789-_./") for _ in range(rng.randrange(1, 15)))
        if rng.random() < 0.1:
            w += rng.choice(WORDS)
        if b"${" not in w and not any(x in w for x in unlike):
            return w


def write(rng, w, first=b"", bad=b""):
    """One of the notations of a word."""
    plain = w and not any(x in b" \t\r\n\v\f'\"#\0" or x in bad for x in w) and w[0] not in first
    k = rng.random()
    if plain and k < 0.6:
        return w
    return q_single(w) if k < 0.8 else q_double(w)


class Model:
    """A configuration as the documentation describes it."""

    def __init__(self, rng):
        self.settings, self.hosts = [], []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            if rng.random() < 0.5:
                self.settings.append((b"baseDirectory", rng.choice((b"/", b"/x", b"/a b/c", b"/q/../r", b"/.//z/", b".", b"..", b"sub/../other", b"rel", b"/\xff#", b"'"))))
            else:
                self.settings.append((b"connectTimeoutMs", spell_number(rng, rng.choice((0, 1, -1, 5, 30000, 2147483648, 9223372036854775807, -5000)))))
        names = []
        port = 1120
        for _ in range(rng.choice((0, 1, 2, 3, 6))):
            n = word(rng, (b":", b"\n", b"\r"))
            if n in names or not n:
                continue
            names.append(n)
            explicit = rng.random() < 0.4
            if explicit:
                port = rng.choice((0, 1, 80, 1119, 1120, 1121, 8080, 65534, 65535, rng.randrange(65536)))
            if port > 65535:
                explicit, port = True, 2000
            env = self.env(rng)
            opts = [rng.choice((b"--timeout=5", b"--x", b"--")) if not k and rng.random() < 0.6 else word(rng) for k in range(rng.choice((0, 0, 1, 3)))]
            while opts and (opts[0].find(b"=", 1) > 0) and not opts[0].startswith(b"--"):
                opts.pop(0)
            cmds = []
            for _ in range(rng.choice((0, 1, 2, 4))):
                cn = rng.choice([x[0] for h in self.hosts for x in h["commands"]] + [x[0] for x in cmds]) if (self.hosts or cmds) and rng.random() < 0.3 and any(h["commands"] for h in self.hosts) else word(rng)
                exe = [word(rng) for _ in range(rng.choice((0, 0, 1, 2, 5)))]
                while exe and exe[0].find(b"=", 1) > 0:
                    exe.pop(0)
                cmds.append((cn, self.env(rng), exe))
            self.hosts.append(dict(name=n, port=port, explicit=explicit, env=env, options=opts, commands=cmds))
            port += 1

    @staticmethod
    def env(rng):
        return [(rng.choice((b"", b"?", b"=")) + rng.choice((b"A", b"PATH", b"X_1", b"a.b", b"N N", b"o")), rng.choice((b"", b"", b"v", b"a b", b"=", b"x=y", b"#", b"?", b"'", b":/usr/bin"))) for _ in range(rng.choice((0, 0, 1, 2, 4)))]

    def expected(self, wd):
        base, timeout = wd, 30000
        for k, v in self.settings:
            if k == b"connectTimeoutMs":
                timeout = int(v)
            else:
                base = os.path.normpath(os.path.join(wd, v)) if not v.startswith(b"/") else os.path.normpath(v)
        commands, hosts = {}, {}
        for h in self.hosts:
            hosts[h["name"]] = {} if h["commands"] else None
            for n, env, exe in h["commands"]:
                hosts[h["name"]][n] = commands[n] = dict(name=n, host=h["name"], port=h["port"], options=h["options"], env=h["env"] + env, exe=exe or [n])
        return dict(base=base, timeout=timeout, commands=commands, hosts=hosts)


def render(m, rng, style):
    """Text of a model: style is 'plain' or 'wild', and the line ending."""
    wild, eol = style
    lines = []
    sp = (lambda n=1: b"".join(rng.choice((b" ", b"\t", b"  ")) for _ in range(rng.randrange(n, n + 2)))) if wild else (lambda n=1: b" " * n)
    comment = lambda: b"#" + rng.choice((b"", b" comment", b" 'unbalanced", b' "', b" [srv] a=b", b"# ## \\", b" baseDirectory = /no", b"[x:1]", b" \xff\x01"))

    def noise():
        while wild and rng.random() < 0.35:
            lines.append(rng.choice((b"", b"", sp(), b"\t", comment(), sp() + comment())))

    def line(text):
        lines.append((sp(0) if wild else b"") + text + ((sp(0) if rng.random() < 0.5 else sp() + comment()) if wild else b""))

    decl = lambda n, v: (write(rng, n + b"=") + b"" if wild and rng.random() < 0.1 and v == b"" else rng.choice((write(rng, n + b"=" + v), (n + b"=" if b" " not in n else q_single(n) + b"=") + (write(rng, v) if v else b""))))
    for k, v in m.settings:
        noise()
        line(k + (rng.choice((b"=", b" =", b"= ", sp() + b"=" + sp())) if wild else b" = ") + write(rng, v, b"="))
    for h in m.hosts:
        noise()
        n = write(rng, h["name"], bad=b"]")
        if h["explicit"]:
            n += b":" + spell_number(rng, h["port"])
        text = b"[" + (sp(0) if wild else b" ") + n + (sp(0) if wild else b" ") + b"]"
        for t in [decl(*e) for e in h["env"]] + [write(rng, o) for o in h["options"]]:
            text += (sp() if text[-1:] != b"]" or not wild else sp(1)) + t
        line(text)
        for cn, env, exe in h["commands"]:
            noise()
            line(write(rng, cn, b"[") + b"".join(sp() + t for t in [decl(*e) for e in env] + [write(rng, x) for x in exe]))
    noise()
    text = eol.join(lines)
    # without a final newline or with some
    return text + (eol * rng.choice((0, 1, 1, 3)) if wild else eol)


def compare(got, want, text, what):
    for k in ("base", "timeout"):
        if got[k] != want[k]:
            raise Violation(k, "%s: %s is %r instead of %r in %r" % (what, k, got[k], want[k], text))
    if set(got["commands"]) != set(want["commands"]):
        raise Violation("commands", "%s: has commands %r instead of %r in %r" % (what, sorted(got["commands"]), sorted(want["commands"]), text))
    for n in want["commands"]:
        if got["commands"][n] != want["commands"][n]:
            raise Violation("command", "%s: command %r is %r instead of %r in %r" % (what, n, got["commands"][n], want["commands"][n], text))
    for h, cmds in want["hosts"].items():
        if (got["hosts"][h] or None) != cmds:
            raise Violation("server", "%s: server %r has %r instead of %r in %r" % (what, h, got["hosts"][h], cmds, text))


def units(c, a, rng, name, models):
    u = Units(a, cwd=a.dir)
    wd0 = os.fsencode(a.dir)
    a.makedirs(a.p("sub dir"))
    for _ in range(models):
        m = Model(rng)
        wd, wdabs = rng.choice(((b"", wd0), (b".", wd0), (wd0, wd0), (b"work", wd0 + b"/work"), (wd0 + b"/work/../sub dir/", wd0 + b"/sub dir"), (b"work/..", wd0)))
        want = m.expected(wdabs)
        hosts = [h["name"] for h in m.hosts] + [b"other", b""]
        want["hosts"].update({h: None for h in hosts if h not in want["hosts"]})
        for style in ((False, b"\n"), (True, b"\n"), (True, b"\n"), (True, b"\r\n"), (False, b"\r\n")):
            text = render(m, rng, style)
            # (line ends within quotes belong to the value)
            try:
                got = u.load(text, wd, hosts)
            except UnitError as e:
                raise Violation("rejected", "a valid configuration is rejected (%s): %r" % (e, text))
            compare(got, want, text, "%s layout" % ("random" if style[0] else "plain"))
            c.count("evaluations")
            c.count("servers", len(m.hosts))
            c.count("commands", len(want["commands"]))
            c.seen(text)
        c.sample(configuration=repr(text[:400]))
    u.close()


KINDS = ("servers", "commands", "same-command", "arguments", "declarations", "server-declarations", "options", "settings", "blank", "comments", "long-words", "long-comment", "long-line")


def big(c, a, rng, name, kind, n):
    """Numbers and lengths beyond 8 and 16 bits."""
    u = Units(a, cwd=a.dir)
    m = Model(rng)
    while not m.hosts or not m.hosts[-1]["commands"] or m.hosts[-1]["port"] > 60000:
        m = Model(rng)
    h = m.hosts[-1]
    cmd = h["commands"][-1]
    blank, comment = 0, 0
    if kind == "servers":
        m.hosts = []
        port = rng.choice((0, 1, 255, 1120))
        for i in range(min(n, 65535 - port)):
            m.hosts.append(dict(name=b"h%d" % i, port=port, explicit=i == 0 and port != 1120, env=[], options=[], commands=[(b"c%d" % (i if i % 300 else 0), [], [])] if i % 3 else []))
            port += 1
    elif kind == "commands":
        h["commands"] = [(b"c%d" % i, [], []) for i in range(n)]
    elif kind == "same-command":
        h["commands"] = [(b"c", [], [b"x%d" % i]) for i in range(n)]
    elif kind == "arguments":
        h["commands"].append((b"c", [], [b"exe"] + [b"x%d" % i for i in range(n)]))
    elif kind == "declarations":
        h["commands"].append((b"c", [(rng.choice((b"", b"?", b"=")) + b"E%d" % (i % 40000), b"v%d" % i) for i in range(n)], [b"exe"]))
    elif kind == "server-declarations":
        h["env"] = [(rng.choice((b"", b"?", b"=")) + b"E%d" % i, b"") for i in range(n)]
    elif kind == "options":
        h["options"] = [b"--"] + [b"x%d" % i for i in range(n)]
    elif kind == "settings":
        m.settings = [(b"connectTimeoutMs", b"%d" % i) for i in range(n)]
    elif kind == "long-words":
        w = lambda: b"%d" % rng.randrange(9) + rng.choice((b"ab", b"a b", b"'", b"[", b"\xff")) * (n // rng.choice((1, 2))) + b"z"
        h["name"] = b"n" + b"ab" * n
        h["options"] = [b"--" + w()]
        h["env"] = [(b"E", b"v" + w()), (b"E" * n, b"x")]
        h["commands"].append((b"c" + w(), [(b"?D", w())], [w(), w(), w(), b"end"]))
        m.settings.append((b"baseDirectory", b"/" + b"d/" * n))
    want = m.expected(os.fsencode(a.dir))
    hosts = [x["name"] for x in m.hosts[:50] + m.hosts[-50:]] + [b"other"]
    hosts = list(dict.fromkeys(hosts))
    want["hosts"] = {k: want["hosts"].get(k) for k in hosts}
    for style in ((False, b"\n"), (True, rng.choice((b"\n", b"\r\n")))):
        text = render(m, rng, style)
        eol = style[1]
        if kind == "blank":
            text = eol * n + text + eol * n
        elif kind == "comments":
            text = (b"# comment" + eol) * n + text + (b"#" + eol) * n
        elif kind == "long-comment":
            text = b"#" + b"c [x] 'y" * n + eol + text + b" # " + b"z" * n
        elif kind == "long-line":
            text = b" " * n + eol + text + eol + b"\t" * n
        try:
            got = u.load(text, b"", hosts)
        except UnitError as e:
            raise Violation("rejected", "%d %s: a valid configuration is rejected (%.300s)" % (n, kind, e))
        if got != want:
            try:
                compare(got, want, b"...", "%d %s" % (n, kind))
            except Violation as e:
                raise Violation("big", ("%d %s: %s" % (n, kind, e))[:2000])
        c.count("evaluations")
        c.count("big_configurations")
        c.seen("big", kind, n, style)
    u.close()


def files(c, a, rng, name, runs):
    """The file's own directory and name, and what clients and servers make of the commands."""
    for _ in range(runs):
        a.new()
        port = a.port(3)
        eol = rng.choice((b"\n", b"\r\n"))
        first = [b"one", b"both", b"twice", b"twice"]
        second = [b"two", b"both"]
        rng.shuffle(first)
        lines = [b"baseDirectory = work", b"# comment", b"[srv:%d]" % port]
        n = 0
        last = {}
        for h, cmds in ((b"srv", first), (b"second", second)):
            if h == b"second":
                lines += [b"", b"[empty]", b"[second] --executable-directory='%s'" % os.fsencode(a.p("sv"))]
            for x in cmds:
                lines.append(b"%s '%s/probe' '%s' exit %d" % (x, os.fsencode(a.bin), os.fsencode(a.p("ev")), n))
                last[(h, x)] = n
                last[x] = n
                n += 1
        text = eol.join(lines) + rng.choice((b"", eol))
        v = rng.choice(("static", "release"))
        a.server(text, port=port, variant=v, opts=["-e", a.p("stubs"), "-l", "-k"])
        a.server(None, name="second", port=port + 2, variant=v, keep_opts=True)
        for x in (b"one", b"two", b"both", b"twice"):
            rc, out, err = a.run([], stdin=None, stub=x.decode(), variant=v)
            if rc != last[x]:
                raise Violation("client", "%r ended with %d instead of %d: %r in %r" % (x, rc, last[x], err[-300:], text))
            c.count("evaluations")
        for h, p in ((b"srv", port), (b"second", port + 2)):
            for x in set(first + second):
                conn = Raw(p)
                conn.send(request(x) + frame(IN))
                rc = conn.collect()[2]
                conn.close()
                if rc != last.get((h, x)):
                    raise Violation("server", "%r at %r ended with %r instead of %r in %r" % (x, h, rc, last.get((h, x)), text))
                c.count("evaluations")
        c.seen("files", text)


def check():
    c = Check("C19", "exploration",
              "random configurations (settings, servers with explicit and sequential ports, options, declarations, commands, repeated names) rendered in plain and random layouts (comments, blank lines, spaces, quotes, LF and CRLF, with and without final newline), loaded and compared with the model; "
              "and running servers and clients with the same configuration. distinct = different texts.", ["static", "release", "units"])
    k = 20 if THOROUGH else 1
    for kind in KINDS:
        for n in (300, 70000):
            c.add("big-%s-%d" % (kind, n), big, kind=kind, n=n)
    for i in range(16 * k):
        c.add("units-%d" % i, units, models=120)
    for i in range(4 * k):
        c.add("files-%d" % i, files, runs=3)
    return c
