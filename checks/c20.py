"""C20: malformed configurations are rejected as a whole."""
import os, subprocess
from k8 import *
from c19 import Model, render
from refs import q_single, not_number, too_large


class Valid:
    """A valid configuration as lines of (kind, text), in which defects can be planted."""

    def __init__(self, rng):
        self.lines = []
        for _ in range(rng.choice((0, 1, 2))):
            self.lines.append(("setting", rng.choice((b"baseDirectory = /x", b"connectTimeoutMs = 5", b"connectTimeoutMs=-1", b"baseDirectory='/a b'"))))
        port = 1120
        for h in range(rng.choice((1, 1, 2, 3))):
            head = b"[" + rng.choice((b"", b" ")) + b"host%d" % h
            if rng.random() < 0.5:
                port = rng.choice((80, 2000, 65000))
                head += b":%d" % port
            self.lines.append(("host", head + rng.choice((b"]", b" ]")) + rng.choice((b"", b" A=b", b" ?C= --timeout 5", b" =D= 'x y'"))))
            for k in range(rng.choice((0, 1, 2))):
                self.lines.append(("command", b"cmd%d.%d" % (h, k) + rng.choice((b"", b" A=b exe", b" 'exe' \"arg\\n\"", b" =P= exe a b c", b" ?X='a b'"))))
        for _ in range(rng.choice((0, 1, 2))):
            self.lines.insert(rng.randrange(len(self.lines) + 1), ("comment", rng.choice((b"", b"# comment", b"  ", b"# 'x"))))

    def text(self, lines=None, eol=b"\n", end=True):
        return eol.join(t for k, t in (lines or self.lines)) + (eol if end else b"")


DEFECTS = ["setting-key", "setting-word", "unterminated-single", "unterminated-double", "escape", "hex", "header-open", "header-empty", "header-missing-close", "header-end-of-file", "timeout", "port-text", "port-range", "port-sequential", "trailing-setting", "stray-settings-text", "header-two-names"]


def defective(rng, kind):
    """A valid configuration with one defect, and a word of it (or None)."""
    while True:
        v = Valid(rng)
        lines = list(v.lines)
        at = lambda k: [i for i, (x, t) in enumerate(lines) if x == k]
        firsthost = at("host")[0]
        settings = [i for i in range(firsthost + 1)]
        end = True
        if kind == "setting-key":
            lines.insert(rng.choice(settings), ("bad", rng.choice((b"unknown", b"basedirectory", b"BaseDirectory", b"baseDirector", b"baseDirectoryX", b"connectTimeout", b"connectTimeoutMS", b"timeout", b"port", b"'base Directory'", b"base", b"connectTimeoutMs2", b"Host")) + rng.choice((b" = ", b"=")) + rng.choice((b"1", b"/x", b"'x'"))))
        elif kind == "setting-word":
            lines.insert(rng.choice(settings), ("bad", rng.choice((b"cmd exe", b"gcc", b"word", b"a b c", b"'quoted'", b"=", b"= x", b"]"))))
        elif kind == "unterminated-single":
            i = rng.choice(at("host") + at("command") + at("setting"))
            k, t = lines[i]
            if b"'" in t or b'"' in t or any(b"'" in x for _, x in lines[i:]):
                continue
            lines[i] = (k, rng.choice((t + b" '", t + b" 'abc", t + b"'abc", t + b" 'a''", t + b" ''a'")) if k != "setting" else t + rng.choice((b"'", b"'x", b"''''a'")))
        elif kind == "unterminated-double":
            i = rng.choice(at("host") + at("command") + at("setting"))
            k, t = lines[i]
            # (quotes and backslashes further down would end the string or be in it)
            if any(b'"' in x or b"\\" in x for _, x in lines[i:]):
                continue
            lines[i] = (k, t + (rng.choice((b' "', b' "abc', b' "a""', b' "a\\"', b' "\\\\\\"')) if k != "setting" else rng.choice((b'"', b'"x', b'"x""', b'"\\"'))))
        elif kind == "escape":
            i = rng.choice(at("command") or at("host"))
            k, t = lines[i]
            e = b"\\" + bytes([rng.choice([x for x in range(1, 256) if bytes([x]) not in (b'"', b"\\", b"'", b"b", b"t", b"n", b"f", b"r", b"0", b"x")])])
            lines[i] = (k, t + b' "' + rng.choice((b"", b"ab", b"\\n")) + e + rng.choice((b"", b"x")) + b'"')
        elif kind == "hex":
            i = rng.choice(at("command") or at("host"))
            k, t = lines[i]
            bad = rng.choice((b"g", b"G", b"z", b"/", b":", b"@", b"`", b" ", b"-", b"+", b"\xff", b"x", b"."))
            lines[i] = (k, t + b' "' + b"\\x" + rng.choice((bad, b"0" + bad, b"f" + bad, b"A" + bad + b"1", bad + b"1", b"4")) + b'"')
        elif kind == "header-open":
            i = rng.choice(at("host"))
            lines[i] = ("bad", rng.choice((b"[", b"[ ", b"[host", b"[host:80", b"[host # ]", b"[host\t", b"['host'")))
        elif kind == "header-empty":
            i = rng.choice(at("host"))
            lines[i] = ("bad", rng.choice((b"[]", b"[ ]", b"[\t]", b"[] x", b"['']", b'[""]')))
        elif kind == "header-missing-close":
            i = rng.choice(at("host"))
            k, t = lines[i]
            lines[i] = ("bad", t.replace(b"]", b""))
        elif kind == "header-two-names":
            i = rng.choice(at("host"))
            lines[i] = ("bad", rng.choice((b"[a b]", b"[host 80]", b"[ a b:80 ]", b"[host : 80]", b"[host:80 x]", b"[host :80]")))
        elif kind == "header-end-of-file":
            lines.append(("bad", rng.choice((b"[", b"[x", b"[x:80", b"[x ", b"[ "))))
            end = False
        elif kind == "timeout":
            lines.insert(rng.choice(settings), ("bad", b"connectTimeoutMs" + rng.choice((b" = ", b"=")) + rng.choice((b"abc", b"''", b"-", b"'x1'", b"ms5", b"--5", b"+-1", b"99999999999999999999", b"-99999999999999999999", b".5", b"x", b"'- 1'", b"", b"5x", b"12345 "[:5] + b"'ms'", b"5.0", b"1e3", b"0x10", b"10s", b"-1x", b"5-", b"'5 x'", b"\"5\\t1\"", b"1,000", q_single(not_number(rng)), q_single(not_number(rng)), q_single(not_number(rng)), too_large(rng, 2 ** 63), b"-" + too_large(rng, 2 ** 63 + 1)))))
        elif kind == "port-text":
            i = rng.choice(at("host"))
            lines[i] = ("bad", b"[h:" + rng.choice((b"x", b"80x", b"x80", b"-1", b"-80", b"+80", b"8 0"[:1] + b"'.'0", b"0x50", b"80:81", b"80.0", b"'8 0'", b"80-", b"1e3", b"\xb2", b",80", b"80,")) + b"]")
            if rng.random() < 0.6:  # one bad character anywhere in a port of any length
                digits = b"%d" % rng.choice((rng.randrange(1, 10), rng.randrange(10, 1000), rng.randrange(1000, 65536), rng.randrange(10 ** 5, 10 ** 12)))
                digits = rng.choice((b"", b"", b"0", b"00", b"000")) + digits
                at_ = rng.randrange(len(digits) + 1)
                lines[i] = ("bad", b"[h:" + digits[:at_] + rng.choice((b"x", b"-", b"+", b".", b",", b";", b"/", b"_", b"e", b"A", b":", b"%", b"!", b"\xff", b"' '", b"'\t'", b"\x7f")) + digits[at_:] + b"]")
        elif kind == "port-range":
            i = rng.choice(at("host"))
            lines[i] = ("bad", b"[h:" + rng.choice((b"65536", b"65537", b"70000", b"99999", b"100000", b"131072", b"4294967296", b"4294967376", b"18446744073709551615", b"18446744073709551616", b"18446744073709551696", b"9" * 30)) + b"]")
            if rng.random() < 0.7:
                lines[i] = ("bad", b"[h:" + too_large(rng, 65536) + b"]")
        elif kind == "port-sequential":
            i = rng.choice(at("host"))
            lines.insert(i, ("bad", b"[last:65535]"))
            j = i + 1
            k, t = lines[j]
            rest = t[t.index(b"]"):]
            lines[j] = (k, b"[next" + rest)
        elif kind in ("trailing-setting", "stray-settings-text"):
            if not at("setting"):
                continue
            i = rng.choice(at("setting"))
            k, t = lines[i]
            lines[i] = (k, t + rng.choice((b" x", b" 'x'", b"\tword", b" = 1", b" [h]", b" =", b" 1 # c", b' ""')))
        eol = b"\r\n" if rng.random() < 0.25 else b"\n"
        return v.text(lines, eol, end and rng.random() < 0.8), v.text(v.lines, eol)


def units(c, a, rng, name, runs):
    u = Units(a, rng.choice(("units", "units_asan")))
    for i in range(runs):
        kind = DEFECTS[i % len(DEFECTS)]
        bad, good = defective(rng, kind)
        try:
            u.load(good, "/")
        except UnitError as e:
            raise Violation("rejected", "a valid configuration is rejected (%s): %r" % (e, good))
        try:
            u.load(bad, "/")
        except UnitError as e:
            if not str(e).strip():
                raise Violation("unnamed", "no problem is named for %r (%s)" % (bad, kind))
        else:
            raise Violation("accepted", "a configuration with a defect (%s) is accepted: %r" % (kind, bad))
        c.count("evaluations")
        c.count("defect_" + kind)
        c.seen(bad)
        if i < 20:
            c.sample(defect=kind, configuration=repr(bad[:200]))
    u.close()


TOKENS = [b"'", b'"', b"\\", b"#", b"[", b"]", b":", b"=", b" ", b"\n", b"\r\n", b"\0", b"${", b"}", b"${A}", b"${A:-", b":-", b"?", b"\\x", b"\\x4", b"\\", b"\t", b"a", b"[h]\n", b"[h:80]\n", b"baseDirectory = ", b"connectTimeoutMs = ", b"1", b"--", b"A=", b"cmd", b"\v", b"\xff", b"''", b'""', b"\r"]


def totality(c, a, rng, name, runs):
    """Any bytes: a result or an error, and always the same one."""
    u = Units(a, "units_asan", env={"A": "value", "B": ""})
    calls = []
    for i in range(runs):
        k = rng.randrange(4)
        if k == 0:
            t = b"".join(rng.choice(TOKENS) for _ in range(rng.randrange(0, 30)))
        elif k == 1:
            t = rng.randbytes(rng.randrange(0, 200))
        elif k == 2:
            m = Model(rng)
            t = bytearray(render(m, rng, (True, b"\n")))
            for _ in range(rng.choice((1, 1, 2, 5))):
                p = rng.randrange(len(t) + 1)
                t[p:p + rng.choice((0, 1, 1, 3))] = rng.choice(TOKENS + [b""])
            t = bytes(t)
        else:
            t = render(Model(rng), rng, (True, b"\n"))
            t = t[:rng.randrange(len(t) + 1)]
        calls.append(t)
    errors = 0
    for t in calls:
        try:
            first = u.call("load", t, rng.choice((b"/", b"")))
        except UnitError as e:
            first = None
            errors += 1
            if not str(e).strip():
                raise Violation("unnamed", "no problem is named for %r" % t)
        c.count("evaluations")
        c.seen(t)
    c.count("arbitrary_accepted", runs - errors)
    c.count("arbitrary_rejected", errors)
    u.close()


def programs(c, a, rng, name, runs):
    """Server and client with defective configurations."""
    for i in range(runs):
        a.new()
        kind = rng.choice(DEFECTS)
        bad, good = defective(rng, kind)
        port = a.port()
        # the first server of the good part is a real one
        extra = b"[srv:%d] --keep-client-executables\nrun '%s/probe' '%s'\n" % (port, os.fsencode(a.bin), os.fsencode(a.p("ev")))
        k = bad.find(b"[")
        where = rng.choice(("before", "after"))
        if where == "before" and kind not in ("setting-key", "setting-word", "timeout", "trailing-setting", "stray-settings-text", "port-sequential") and k >= 0 and bad[:k].count(b"'") % 2 == 0 and bad[:k].count(b'"') % 2 == 0 and b"#" not in bad[:k]:
            text = bad[:k] + extra + bad[k:]
        elif kind in ("unterminated-single", "unterminated-double", "header-end-of-file"):
            text = bad
        else:
            text = bad + b"\n" + extra
        a.write("k.conf", text)
        a.makedirs(a.p("out"))
        v = rng.choice(("static", "release"))
        srv = a.server(None, port=None, wait=False, variant=v, name=rng.choice(("srv", "host0", "nobody")), opts=["-e", a.p("out"), "-m", "0", "-t", "0"] + rng.choice(([], ["-l"], ["-b", "-p", a.p("out/pid")], ["-o"], ["-i"])), keep_opts=True)
        rc = srv.wait()
        log = srv.output()
        if rc == 0:
            raise Violation("server", "a server accepts a configuration with a defect (%s): %r" % (kind, text))
        if not log.strip():
            raise Violation("unnamed", "the server names no problem (%s)" % kind)
        if os.listdir(a.p("out")) or listening(port):
            raise Violation("created", "a server with a defective configuration (%s) creates %r" % (kind, os.listdir(a.p("out"))))
        # a client must not reach anything with it, even if the server (with a good configuration) is there
        a.write("good.conf", b"baseDirectory = '%s'\n" % os.fsencode(a.p("work")) + extra)
        if i % 3 == 0:
            a.server(None, port=port, confname="good.conf")
            rc, out, err = a.run([], stub="run", variant=v)
            if rc == 0 or a.read("ev"):
                raise Violation("client", "a client runs a command of a configuration with a defect (%s): %r" % (kind, text))
            if not err.strip():
                raise Violation("unnamed", "the client names no problem (%s)" % kind)
            c.count("clients")
        c.count("servers")
        c.count("evaluations")
        c.seen("program", text)


def check():
    c = Check("C20", "exploration",
              "17 kinds of single defects at random places of random valid configurations (the same configuration without the defect is accepted); random bytes, tokens, truncations and mutations under AddressSanitizer/UBSan end in a result or an error; real servers and clients with defective configurations start and create nothing. "
              "distinct = different texts.", ["static", "release", "units", "units_asan"])
    k = 20 if THOROUGH else 1
    for i in range(8 * k):
        c.add("units-%d" % i, units, runs=17 * 40)
    for i in range(8 * k):
        c.add("totality-%d" % i, totality, runs=1200)
    for i in range(6 * k):
        c.add("programs-%d" % i, programs, runs=20)
    return c
