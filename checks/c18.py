"""C18: configuration strings decode to the documented values."""
import os, subprocess
from k8 import *
from refs import expand, q_single

WS = b" \t\r\n\v\f"
NAMES = [b"A", b"B", b"LONG_NAME_1", b"lower", b"UNSET", b"_u", b"N9", b"A.B", b"P(x86)", b"c-d"]
ESCAPES = {0x22: b'\\"', 0x5c: b"\\\\", 0x27: b"\\'", 8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 0: b"\\0"}


class Piece:
    """kind: u(nquoted), s(ingle), d(ouble); text as written; raw: what it decodes to before references are expanded."""

    def __init__(self, kind, text, raw):
        self.kind, self.text, self.raw = kind, text, raw


def literal(rng, n):
    r = b""
    while len(r) < n:
        k = rng.random()
        if k < 0.35:
            r += bytes([rng.randrange(1, 256)])
        elif k < 0.6:
            r += rng.choice((b"'", b'"', b"\\", b"#", b" ", b"\t", b"\n", b"$", b"[", b"]", b"=", b"?", b":", b"{", b"}", b"\\n", b"''", b'""', b"\\x41", b"\r\n", b"-", b";", b","))
        else:
            r += bytes([rng.choice(b"abcdefXYZ0189_/.-")])
    return r


def ref(rng, spaces):
    n = rng.choice(NAMES)
    if not spaces:
        return rng.choice((b"${" + n + b"}", b"${" + n + b":-" + rng.choice((b"", b"dflt", b":-", b"$", b"a:b", b"{", b"/x", b"=")) + b"}"))
    return rng.choice((b"${" + n + b"}", b"${" + n + b":-" + rng.choice((b"", b"a b", b" ", b"#", b"-", b"it's", b"\t")) + b"}"))


def no_refs(b):
    """Text without anything that starts a reference."""
    return b.replace(b"${", b"${"[:1] + b"(")


def unquoted(rng, bad):
    raw = b""
    for _ in range(rng.choice((1, 1, 2, 3))):
        raw += ref(rng, False) if rng.random() < 0.4 else no_refs(literal(rng, rng.choice((1, 3, 10))))
    raw = bytes(x for x in raw if x not in WS and x not in b"'\"#\0" and x not in bad)
    return Piece("u", raw, raw)


def single(rng):
    raw = literal(rng, rng.choice((0, 1, 3, 10)))
    if rng.random() < 0.3:
        raw += ref(rng, True)
    return Piece("s", q_single(raw), raw)


def double(rng):
    text, raw = b"", b""
    for _ in range(rng.choice((0, 1, 2, 4))):
        if rng.random() < 0.35:
            r = ref(rng, True).replace(b'"', b"").replace(b"\\", b"")
            text += r
            raw += r
            continue
        for x in no_refs(literal(rng, rng.choice((1, 3, 10)))) + (b"\0" if rng.random() < 0.1 else b""):
            k = rng.random()
            if x == 0x24:
                # (an escaped dollar sign might or might not start a reference)
                text += b"$"
            elif x == 0x22:
                text += rng.choice((b'\\"', b'""', b"\\x22"))
            elif x == 0x5c or x == 0:
                text += rng.choice((ESCAPES[x], b"\\x%02x" % x))
            elif k < 0.2:
                text += (rng.choice((b"\\x%02x", b"\\x%02X"))) % x
            elif x in ESCAPES and k < 0.7:
                text += ESCAPES[x]
            else:
                text += bytes([x])
            raw += bytes([x])
    return Piece("d", b'"' + text + b'"', raw)


def expanded(pieces, lookup):
    """The documented value, or None if it depends on whether references may continue across notations."""
    joined, out = b"", b""
    for p in pieces + [Piece("s", b"", b"")]:
        if p.kind != "s":
            joined += p.raw
            continue
        out += expand(joined, lookup) + p.raw
        joined = b""
    apart = b"".join(p.raw if p.kind == "s" else expand(p.raw, lookup) for p in pieces)
    return out if apart == out else None


def value(rng, lookup, bad=b"", first_bad=b"", empty=True, plain=None):
    """(notation, value)"""
    while True:
        pieces = []
        for _ in range(rng.choice((1, 1, 2, 3, 5))):
            p = rng.choice((unquoted(rng, bad), single(rng), double(rng)))
            # the same quotes twice are a quote character
            if not p.text or (pieces and p.kind != "u" and pieces[-1].kind == p.kind):
                continue
            pieces.append(p)
        if not pieces or (pieces[0].kind == "u" and pieces[0].text[0] in first_bad):
            continue
        v = expanded(pieces, lookup)
        if v is None or (not empty and not v) or (plain and not plain(v)):
            continue
        # a default which is itself (part of) a reference has no documented meaning
        if any(p.kind != "s" and b"${" in p.raw and re_nested(p.raw) for p in pieces):
            continue
        return b"".join(p.text for p in pieces), v


def re_nested(raw):
    i = 0
    while True:
        i = raw.find(b"${", i)
        if i < 0:
            return False
        e = raw.find(b"}", i)
        if e < 0 or b"${" in raw[i + 2:e]:
            return True
        i = e


def environment(u, rng):
    env = {}
    u.call("clearenv")
    for n in NAMES:
        if n != b"UNSET" and rng.random() < 0.7:
            env[n] = rng.choice((b"", b"value", b"a b", b"#x", b"'", b'"', b"\\n", b"${B}", b"${UNSET:-x}", b"]", b"=", b"\n", b"\xff", literal(rng, 8)))
            u.call("setenv", n, env[n])
    return env


def units(c, a, rng, name, files):
    u = Units(a)
    for _ in range(files):
        env = environment(u, rng)
        look = env.get
        text, checks = b"", []
        val = lambda **kw: value(rng, look, **kw)
        if rng.random() < 0.5:
            n = rng.choice((0, 1, -1, 30000, 1234567, -99999))
            d = b"%d" % n
            k = rng.randrange(len(d))
            text += rng.choice((b"connectTimeoutMs", b"'connectTimeoutMs'", b'connect"Timeout"Ms', b'"connect\\x54imeoutMs"')) + rng.choice((b"=", b" = ")) + rng.choice((d, b"'" + d + b"'", b'"' + d + b'"', d[:k] + b"'" + d[k:] + b"'", b'"\\x%02x"' % d[0] + d[1:], b"${UNSET:-" + d + b"}")) + b"\n"
            checks.append(("timeout", lambda r: r["timeout"], n))
        if rng.random() < 0.6:
            t, v = val(first_bad=b"=", plain=lambda v: b"\0" not in v)
            text += b"baseDirectory = '/'%s\n" % t if not t.startswith(b"'") else b"baseDirectory = /%s\n" % t
            checks.append(("base", lambda r: r["base"], b"/" + b"/".join(lexical(v))))
        hosts = []
        for h in range(rng.choice((1, 2))):
            # a host name ends at the colon
            t, v = val(bad=b"]", empty=False, plain=lambda v: b":" not in v and v not in hosts)
            hosts.append(v)
            text += rng.choice((b"[", b"[ ")) + t + rng.choice((b":%d" % (2000 + h), b"':%d'" % (2000 + h) if not t.endswith(b"'") else b":%d" % (2000 + h))) + rng.choice((b"]", b" ]")) + b" H=1 --option"
            opts = [val() for _ in range(rng.choice((0, 1, 3)))]
            text += b"".join(b" " + t for t, v in opts) + b"\n"
            for k in range(rng.choice((1, 2))):
                t, n = val(first_bad=b"[", empty=False)
                key = n + b"%d.%d" % (h, k)
                text += t + b"%d.%d" % (h, k)
                envs = []
                for e in range(rng.choice((0, 0, 1, 2))):
                    t, v = val()
                    text += b" " + rng.choice((b"", b"?", b"=")) + b"E%d=" % e + t
                    envs.append(v)
                args = [val() for _ in range(rng.choice((0, 1, 4)))]
                text += b" exe" + b"".join(rng.choice((b" ", b"\t", b"  ")) + t for t, v in args) + b"\n"
                def get(r, key=key):
                    cmd = r["commands"].get(key)
                    return cmd and (cmd["host"], cmd["options"], [v for n, v in cmd["env"]], cmd["exe"])
                checks.append(("command %r" % key, get, (hosts[-1], [b"--option"] + [v for t, v in opts], [b"1"] + envs, [b"exe"] + [v for t, v in args])))
        try:
            r = u.load(text, "/")
        except UnitError as e:
            raise Violation("rejected", "a valid configuration is rejected (%s): %r" % (e, text), environment=env)
        for what, get, want in checks:
            got = get(r)
            if got != want:
                raise Violation("value", "%s is %r instead of %r in %r" % (what, got, want, text), environment=env)
            c.count("evaluations")
        c.count("configurations")
        c.seen("units", text)
        c.sample(configuration=repr(text[:300]))
    u.close()


def big(c, a, rng, name):
    """Values of many pieces, and pieces of many bytes."""
    u = Units(a)
    env = environment(u, rng)
    look = env.get
    args = []
    for count in (300, 3000, 30000):
        pool = [value(rng, look) for _ in range(300)]
        args.append([rng.choice(pool) for _ in range(count)])
    for n in (255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 200000, 1000003):
        raw = literal(rng, min(n, 70000))
        raw = (raw * (n // len(raw) + 1))[:n]
        k = rng.randrange(4)
        if k == 0:
            args.append([(q_single(raw), raw)])
        elif k == 1:
            plain = bytes(x for x in no_refs(raw) if x not in WS and x not in b"'\"#\0$=")
            args.append([(plain, plain)])
        else:
            plain = no_refs(raw.replace(b"$", b"S"))
            args.append([(b'"' + b"".join((b"\\x%02x" % x) if k == 2 or x in b"\"\\" else bytes([x]) for x in plain) + b'"', plain)])
    rng.shuffle(args)
    args = [(b"x" + b"x".join(t for t, v in arg), b"x" + b"x".join(v for t, v in arg)) for arg in args]
    for sep in (b" ", b"\t" * 70000 + b" "):
        text = b"[h:77] H=1\ncmd exe " + sep.join(t for t, v in args[:5 if len(sep) > 1 else None]) + b"\nlast exe"
        r = u.load(text)
        got, want = r["commands"][b"cmd"]["exe"][1:], [v for t, v in args[:5 if len(sep) > 1 else None]]
        for (t, v), g in zip(args, got):
            if v != g:
                i = first_diff(v, g)
                raise Violation("big", "a value of %d bytes (%d in the file) is one of %d, the first difference at %d: %r instead of %r" % (len(v), len(t), len(g), i, g[i:i + 40], v[i:i + 40]))
        if len(got) != len(want) or r["commands"][b"last"]["exe"] != [b"exe"]:
            raise Violation("big", "%d values instead of %d" % (len(got), len(want)))
        c.count("evaluations", len(want))
        c.count("big_values", len(want))
    c.seen("big", tuple(len(t) for t, v in args))
    u.close()


def lexical(v):
    out = []
    for p in v.split(b"/"):
        if p == b"..":
            del out[-1:]
        elif p not in (b"", b"."):
            out.append(p)
    return out


def singles(c, a, rng, name):
    """Every byte in every notation."""
    u = Units(a)
    u.call("clearenv")
    for x in range(256):
        b = bytes([x])
        forms = []
        if x not in WS and x not in b"'\"#\0":
            forms += [(b"x" + b, b"x" + b), (b"x" + b + b"y", b"x" + b + b"y")]
        if x:
            forms += [(b"'" + (b"''" if x == 0x27 else b) + b"'", b), (b"x'" + (b"''" if x == 0x27 else b) + b"'y", b"x" + b + b"y")]
        if x not in (0, 0x22, 0x5c):
            forms += [(b'"' + b + b'"', b), (b'x"' + b + b'"y', b"x" + b + b"y")]
        if x == 0x22:
            forms += [(b'""""', b), (b'"a""b"', b'a"b')]
        for e in {b"\\x%02x" % x, b"\\x%02X" % x, b"\\x%X%x" % (x >> 4, x & 15), b"\\x%x%X" % (x >> 4, x & 15)} | ({ESCAPES[x]} if x in ESCAPES else set()):
            forms += [(b'"' + e + b'"', b), (b'"' + e + b'41g"', b + b"41g"), (b'"' + e + e + b'"', b + b), (b"'a'" + b'"' + e + b'"' + b"'b'", b"a" + b + b"b")]
        r = u.load(b"[h]\ncmd exe " + b" ".join(t for t, v in forms) + b"\n")
        got = r["commands"][b"cmd"]["exe"][1:]
        want = [v for t, v in forms]
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            raise Violation("byte", "%r decodes to %r" % (forms[i] if i < len(forms) else forms, got[i:i + 1]))
        c.count("evaluations", len(forms))
        c.seen("byte", x)
    # two bytes next to each other, and at the borders of pieces
    sig = b"'\"\\#$ \n\tax0{}=[]?:"
    forms = []
    for x in sig:
        for y in sig:
            v = bytes([x, y])
            forms.append((q_single(v), v))
            if v != b"${":
                forms.append((b'"' + b"".join(ESCAPES.get(z, bytes([z])) for z in v) + b'"', v))
                forms.append((b'"' + v.replace(b"\\", b"\\\\").replace(b'"', b'""') + b'"', v))
                forms.append((b"'" + bytes([x]).replace(b"'", b"''") + b"'" + b'"' + ESCAPES.get(y, bytes([y])) + b'"', v))
    r = u.load(b"[h]\ncmd exe " + b" ".join(t for t, v in forms) + b"\n")["commands"][b"cmd"]["exe"][1:]
    for (t, v), g in zip(forms, r):
        if g != v:
            raise Violation("pair", "%r decodes to %r instead of %r" % (t, g, v))
    if len(r) != len(forms):
        raise Violation("pair", "%d values instead of %d" % (len(r), len(forms)))
    c.count("evaluations", len(forms))
    u.close()


def started(c, a, rng, name, configs):
    """End to end: the arguments a command is started with."""
    for _ in range(configs):
        a.new()
        port = a.port()
        env = {os.fsdecode(n): os.fsdecode(literal(rng, 6)) for n in NAMES if n != b"UNSET" and rng.random() < 0.6}
        senv = {os.fsencode(k): os.fsencode(v) for k, v in a.environment(env).items()}
        args = [value(rng, senv.get, plain=lambda v: b"\0" not in v) for _ in range(rng.choice((1, 5, 30)))]
        text = b"baseDirectory = '%s'\n[srv:%d]\ncmd '%s' 'R:%s' %s\n" % (os.fsencode(a.p("work")), port, os.fsencode(a.bin + "/probe"), os.fsencode(a.p("rep")), b" ".join(t for t, v in args))
        a.server(text, port=port, variant=rng.choice(("static", "release")), env=env)
        conn = Raw(port)
        conn.send(request("cmd") + frame(IN))
        rc = conn.collect()[2]
        conn.close()
        j = a.read("rep")
        if rc != 0 or not j:
            raise Violation("not-started", "status %r" % rc, configuration=text)
        got = [bytes.fromhex(h) for h in json.loads(j)["argv"]][2:]
        for (t, v), g in zip(args, got):
            if v != g:
                raise Violation("argument", "%r was passed as %r instead of %r" % (t, g, v), environment=senv)
        if len(got) != len(args):
            raise Violation("argument", "%d arguments instead of %d" % (len(got), len(args)), configuration=text)
        c.count("evaluations", len(args))
        c.seen("started", text)


def check():
    c = Check("C18", "exploration",
              "every byte in every notation and every pair of significant bytes (exhaustive); random concatenations of unquoted, single-quoted and double-quoted pieces with and without references, as settings, host names, server options, command names, defaults and arguments, under random environments, "
              "compared with the value they were written for; arguments also as received by started commands. distinct = different configurations.", ["static", "release", "units"])
    k = 20 if THOROUGH else 1
    c.add("singles", singles)
    for i in range(3 * k):
        c.add("big-%d" % i, big)
    for i in range(16 * k):
        c.add("units-%d" % i, units, files=150)
    for i in range(6 * k):
        c.add("started-%d" % i, started, configs=8)
    return c
