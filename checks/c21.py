"""C21: environment references expand exactly as documented."""
import itertools, os
from k8 import *
from refs import expand, command_environment, q_single

NAMES = [b"A", b"B", b"AB", b"lower", b"_", b"_x", b"N9", b"9", b"A_LONG_NAME_OF_A_VARIABLE_1234567890", b"A.B", b"P(x86)", b"c-d", b"U", b"UNSET"]


def undocumented(s):
    """References without a name, and defaults that contain the start of a reference, have no documented meaning."""
    i, e, d = 0, -1, -1
    while True:
        i = s.find(b"${", i)
        if i < 0:
            return False
        if e < i:
            e = s.find(b"}", i)
            if e < 0:
                return False
        if d < i:
            d = s.find(b":-", i)
            d = len(s) if d < 0 else d
        if e == i + 2 or d == i + 2 or (d < e and b"${" in s[d:e]):
            return True
        i += 2


def check_all(c, u, strings, env, over, what):
    look = lambda n: over[n] if over.get(n) is not None else env.get(n)
    ov = []
    for n, v in over.items():
        ov += [n, v or b"", b"1" if v is not None else b"0"]
    strings = [s for s in strings if not undocumented(s)]
    for s, r in zip(strings, u.batch([[b"subst", s] + ov for s in strings])):
        w = expand(s, look)
        if isinstance(r, UnitError) or r[0] != w:
            raise Violation("expansion", "%r expands to %r instead of %r (environment %r, definitions %r)" % (s, r if isinstance(r, UnitError) else r[0], w, {k: v[:60] for k, v in env.items()}, over))
        if w != s:
            c.count("changed_by_expansion")
    c.count("evaluations", len(strings))
    c.seen(what, len(strings), tuple(sorted(env)), tuple(sorted(over)))


def set_env(u, env):
    u.call("clearenv")
    for n, v in env.items():
        u.call("setenv", n, v)


def exhaustive(c, a, rng, name, length, part, parts):
    u = Units(a)
    alphabet = [b"$", b"{", b"}", b":", b"-", b"A", b"x", b" "]
    envs = [({b"A": b"<${B}>", b"xA": b"", b"B": b"never"}, {}), ({b"A": b"e"}, {b"A": b"o", b"x": b"${A}", b"AA": None}), ({}, {})]
    pool = []
    for n in range(length + 1):
        for i, t in enumerate(itertools.product(alphabet, repeat=n)):
            if i % parts == part:
                pool.append(b"".join(t))
    for k, (env, over) in enumerate(envs):
        set_env(u, env)
        check_all(c, u, pool, env, over, ("exhaustive", length, part, k))
    c.count("exhaustive", len(pool) * len(envs))
    # whole references in short contexts
    bits = [b"${A}", b"${x}", b"${A:-x}", b"${x:-}", b"${x:-A}", b"$", b"{", b"}", b"${", b"${A", b"${A:", b"${A:-", b":-", b"A", b"-"]
    pool = [b"".join(t) for n in range(4) for i, t in enumerate(itertools.product(bits, repeat=n)) if i % parts == part]
    for k, (env, over) in enumerate(envs):
        set_env(u, env)
        check_all(c, u, pool, env, over, ("references", part, k))
    u.close()


def val(rng):
    k = rng.random()
    if k < 0.2:
        return b""
    if k < 0.6:
        return rng.choice((b"${A}", b"${B:-x}", b"$", b"${", b"}", b"a b", b"${A", b"\n", b"=", b"\xff\x80", b"${UNSET}", b":-", b"'", b'"', b"\\"))
    if k < 0.7:
        return bytes(x or 1 for x in rng.randbytes(rng.choice((300, 5000, 70000))))
    return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 10)))


def random_strings(c, a, rng, name, envs, strings):
    u = Units(a)
    for _ in range(envs):
        env = {n: val(rng) for n in NAMES if n != b"UNSET" and rng.random() < 0.6}
        over = {n: rng.choice((val(rng), val(rng), None)) for n in NAMES if rng.random() < 0.3}
        set_env(u, env)
        pool = []
        for _ in range(strings):
            s = b""
            for _ in range(rng.choice((1, 2, 3, 5, 10))):
                k = rng.random()
                n = rng.choice(NAMES)
                if k < 0.3:
                    s += b"${" + n + b"}"
                elif k < 0.5:
                    s += b"${" + n + b":-" + rng.choice((b"", b"x", b":-", b"$", b"{", b"${", b" ", b"a:-b", b"\n", b"\xff", b"'", b"$B", b"x" * 3000)) + b"}"
                elif k < 0.7:
                    s += rng.choice((b"$", b"${", b"$$", b"${" + n, b"${" + n + b":", b"${" + n + b":-", b"${" + n + b":+x}", b"${" + n + b"-x}", b"${" + n + b"=}", b"${" + n + b"$}", b"${" + n + b"\n}", b"${!A}", b"${#A}", b"${A[0]}", b"${A/x/y}", b"$A", b"$(A)", b"%A%", b"}", b"{", b":-", b"${" + n + b":-x", b"${\xc3\xa4}"))
                elif k < 0.9:
                    s += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 8)))
                else:
                    s += bytes(rng.choice(b"abc ") for _ in range(rng.choice((1, 20, 4000))))
            pool.append(s)
        check_all(c, u, pool, env, over, ("random", tuple(pool)))
        c.sample(string=repr(pool[0][:100]), environment=repr(env)[:200])
    u.close()


def big(c, a, rng, name):
    """Very many references, and very long names, defaults and values."""
    u = Units(a)
    env = {b"A": b"x" * 70000, b"B": b"${A}", b"lower": b"", b"N" * 70000: b"long name", b"S": b"s"}
    over = {b"A_LONG_NAME_OF_A_VARIABLE_1234567890": b"y" * 300, b"U": None}
    set_env(u, env)
    pool = []
    for n in (255, 256, 257, 65535, 65536, 65537):
        for bit in (b"${B}", b"${S}", b"${UNSET}", b"${UNSET:-d}", b"${", b"$", b"}", b"${B", b"${B:-", b"x${S:-q}"):
            if bit == b"${B:-" and n > 300:
                continue  # (the end of each is searched for in the rest)
            pool += [bit * n, bit * n + b"}", b"${S}" + bit * n + b"${S}"]
        for t in (b"", b"${A}", b"${"):
            pool += [t + b"${UNSET:-" + b"d" * n + b"}" + t, t + b"${" + b"N" * n + b"}" + t, t + b"${" + b"N" * n, t + b"x" * n + t + b"${S}", t + b"${S:-" + b"-:" * n + t, b"${A_LONG_NAME_OF_A_VARIABLE_1234567890}" * (n // 10) + t]
    pool += [b"${A}" * 300, b"".join(rng.choice((b"${B}", b"${S}", b"$", b"{", b"x", b"${UNSET:-z}")) for _ in range(100000))]
    for i in range(0, len(pool), 10):
        check_all(c, u, pool[i:i + 10], env, over, ("big", i))
    u.close()


def started(c, a, rng, name, configs):
    """In a session: already made definitions come first, then the server's environment."""
    for _ in range(configs):
        a.new()
        port = a.port()
        names = rng.sample([n for n in NAMES if n not in (b"9",)], 6)
        senv = {n: v for n, v in ((n, val(rng)[:1000]) for n in names if rng.random() < 0.6)}
        decls = []
        for k in range(rng.choice((1, 4, 10))):
            while True:
                d = b""
                for _ in range(rng.choice((1, 2, 4))):
                    n = rng.choice(names)
                    d += rng.choice((b"${" + n + b"}", b"${" + n + b":-dflt " + b"}", b"${" + n, b"$" + n, b"}", b"x", b":"))
                if not undocumented(d):
                    break
            decls.append((rng.choice((b"", b"=", b"?")), rng.choice(names), d))
        text = b"baseDirectory = '%s'\n[srv:%d]\ncmd %s '%s' 'R:%s'\n" % (os.fsencode(a.p("work")), port, b" ".join(q_single(p + n + b"=" + d) for p, n, d in decls), os.fsencode(a.bin + "/probe"), os.fsencode(a.p("rep")))
        e = {os.fsdecode(n): os.fsdecode(v) for n, v in senv.items()}
        a.server(text, port=port, variant=rng.choice(("static", "release")), env=e)
        full = {os.fsencode(n): os.fsencode(v) for n, v in a.environment(e).items()}
        cenv = {n: val(rng)[:500] for n in names if rng.random() < 0.3}
        conn = Raw(port)
        conn.send(request("cmd", env=[n + b"=" + v for n, v in cenv.items()]) + frame(IN))
        rc = conn.collect()[2]
        conn.close()
        j = a.read("rep")
        if rc != 0 or not j:
            raise Violation("not-started", "status %r" % rc, configuration=text)
        got = sorted(bytes.fromhex(h) for h in json.loads(j)["env"])
        want = sorted(n + b"=" + v for n, v in command_environment(decls, cenv, full).items())
        if got != want:
            raise Violation("definitions", "the command has %r instead of %r with %r" % ([x[:80] for x in got if x not in want], [x[:80] for x in want if x not in got], text), client=cenv, server=senv)
        c.count("evaluations")
        c.count("definitions_compared", len(want))
        c.seen("started", text)


def check():
    n = 7 if THOROUGH else 5
    parts = 32 if THOROUGH else 8
    c = Check("C21", "exploration",
              "every string of up to %d of the characters '${}:-', two letters and a space, and every sequence of up to 3 reference fragments, in 3 environments (exhaustive), random longer strings in random environments and definitions, compared with an independent expander; definitions made in order by real sessions. distinct = different groups of strings and environments." % n,
              ["static", "release", "units"])
    k = 20 if THOROUGH else 1
    for i in range(parts):
        c.add("exhaustive-%d" % i, exhaustive, length=n, part=i, parts=parts)
    c.add("big", big)
    for i in range(8 * k):
        c.add("random-%d" % i, random_strings, envs=15, strings=100)
    for i in range(5 * k):
        c.add("started-%d" % i, started, configs=8)
    return c
