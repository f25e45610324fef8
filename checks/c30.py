"""C30: every failure is explained, where the user looks for it, and nothing else is said."""
import subprocess
from k8 import *


def token(rng, filename=False):
    """A name that has to be found in a message as it is."""
    kind = rng.randrange(7)
    t = "n%x" % rng.randrange(1 << 32)
    if kind == 1:
        t += "%s%n%d%%"
    elif kind == 2:
        t += " with  blanks "
    elif kind == 3:
        t += "\u00e9\u4e2d"
    elif kind == 4:
        t = t * (20 if filename else 400)
    elif kind == 5:
        t += "\\x41\\n\"'`$(x)&;|<>*?"
    elif kind == 6 and not filename:
        t += "/../" + t
    return t


def q(s):
    return "'" + s.replace("'", "''") + "'"


def base(a, port, extra="", settings=""):
    return "baseDirectory = %s\nconnectTimeoutMs = 300\n%s[srv:%d]\ncmd '%s/probe'\n%s" % (q(a.p("work")), settings, port, a.bin, extra)


# Every case: (a, rng, port) -> (program, arguments, [texts to be found in stderr], keyword arguments of popen)

def c_config_missing(a, rng, port):
    f = a.p(token(rng, True))
    return "k8psh", rng.choice((["-c", f], ["--config", f], ["--config=" + f])) + ["cmd"], [f], {}


def c_config_env(a, rng, port):
    f = token(rng, True)
    return "k8psh", ["cmd"], [f], dict(env={"K8PSH_CONFIG": f})


def c_config_default(a, rng, port):
    return "k8psh", ["cmd"], ["k8psh.conf"], dict(env={"K8PSH_CONFIG": None})


def c_config_unreadable(a, rng, port):
    a.write("secret.conf", base(a, port), 0)
    return "k8psh", ["-c", a.p("secret.conf"), "cmd"], [a.p("secret.conf")], {}


def c_config_directory(a, rng, port):
    return rng.choice((("k8psh", ["-c", a.p("work"), "cmd"]), ("k8pshd", ["-c", a.p("work")]))) + ([a.p("work")], {})


def c_unknown_command(a, rng, port):
    t = token(rng)
    return "k8psh", [t, "argument"], [t], {}


def c_unknown_stub(a, rng, port):
    t = token(rng, True)
    a.makedirs(a.p("x"))
    os.symlink(a.bin + "/" + a.variant + "/k8psh", a.p("x", t))
    a.stub = a.p("x", t)
    return None, [], [t], {}


def c_unrelated(a, rng, port):
    t = token(rng, True)
    a.makedirs(a.p("elsewhere", t))
    return "k8psh", ["cmd"], [a.p("elsewhere", t), a.p("work")], dict(cwd=a.p("elsewhere", t))


def c_unreachable(a, rng, port):
    return "k8psh", ["cmd"], ["300"], {}


def c_option_value(a, rng, port):
    o = rng.choice(("-c", "--config", "--install"))
    return "k8psh", [o], [o], {}


def c_install_target(a, rng, port):
    t = a.p(token(rng, True), "file")
    return "k8psh", ["--install", t], [t], {}


def c_install_directory(a, rng, port):
    return "k8psh", ["--install=" + a.p("work")], [a.p("work")], {}


def c_install_source(a, rng, port):
    return "k8psh", ["--install", "/dev/full"], ["/dev/full"], {}


def config(text, *want):
    def f(a, rng, port):
        t = token(rng)
        t = "".join(x for x in t if x.isalnum()) or "t"
        a.write("k.conf", base(a, port, text.replace("@", t)) if not text.startswith("^") else base(a, port, "", text[1:].replace("@", t)))
        return rng.choice(("k8psh", "k8pshd")), [], [w.replace("@", t) for w in want], {}
    return f


def s_invalid(a, rng, port):
    t = "--" + token(rng)
    return "k8pshd", [t], [t], {}


def s_invalid_conf(a, rng, port):
    t = "--" + token(rng)
    a.write("k.conf", base(a, port).replace("[srv:%d]" % port, "[srv:%d] %s" % (port, q(t))))
    return "k8pshd", [], [t], {}


def s_value(a, rng, port):
    o = rng.choice(("-e", "-m", "-n", "-p", "-t", "-c", "--executable-directory", "--max-connections", "--name", "--pidfile", "--timeout", "--config"))
    return "k8pshd", [o], [o], {}


def s_value_conf(a, rng, port):
    o = rng.choice(("-e", "-m", "-p", "-t", "--executable-directory", "--max-connections", "--pidfile", "--timeout"))
    a.write("k.conf", base(a, port).replace("[srv:%d]" % port, "[srv:%d] %s" % (port, o)))
    return "k8pshd", rng.choice(([], ["-d"])), [o], {}


def s_timeout(a, rng, port):
    t = "x" + token(rng)
    return "k8pshd", ["-t", t], [t], {}


def s_connections(a, rng, port):
    return "k8pshd", ["-m", "x"], ["connections"], {}


def s_port(a, rng, port):
    import socket
    a.sock = socket.socket()
    a.sock.bind(("127.0.0.1", port))
    a.sock.listen(1)
    return "k8pshd", [], [str(port)], {}


def s_exists(a, rng, port):
    t = token(rng, True)
    a.write("k.conf", base(a, port, "[other:%d]\n%s x\n" % (port + 1, q(t))))
    a.write("sv/" + t, b"x")
    a.keep = [t]
    return "k8pshd", [], [t], {}


def s_directory(a, rng, port):
    a.write("k.conf", base(a, port, "[other:%d]\nremote x\n" % (port + 1)))
    return "k8pshd", ["-e", a.p("missing")], ["remote"], {}


def s_config(a, rng, port):
    f = a.p(token(rng, True))
    return "k8pshd", ["-c", f], [f], {}


def s_config_default(a, rng, port):
    return "k8pshd", [], ["k8psh.conf"], dict(env={"K8PSH_CONFIG": None})


CASES = dict((n[2:], f) for n, f in list(globals().items()) if n[:2] in ("c_", "s_"))
CASES.update(
    key=config("^@ = 1\n", "@"),
    key_bare=config("^@\n", "@"),
    timeout_value=config("^connectTimeoutMs = @x\n", "@x"),
    trailing=config("^connectTimeoutMs = 1 @\n", "@"),
    quote=config("cmd2 'abc @", "abc @"),
    dquote=config("cmd2 \"abc @", "abc @"),
    escape=config("cmd2 \"@\\q\"", "\\q", "@"),
    hexa=config("cmd2 \"@\\xg0\"", "g"),
    port_name=config("[@:12x4]\nc\n", "12x4"),
    port_range=config("[@:65536]\nc\n", "65536"),
    port_digits=config("[@:99999999999999999999999]\nc\n", "99999999999999999999999"),
    port_missing=config("[@:]\nc\n", "port"),
    host_empty=config("[]@\nc\n", "@"),
    host_open=config("[@ b c\nc\n", "b c"),
)


def failing(c, a, rng, name, case, runs):
    for i in range(runs):
        a.new()
        a.sock = a.stub = None
        a.keep = []
        a.variant, env = pick_variant(a, rng)
        port = a.port(2)
        a.write("k.conf", base(a, port))
        prog, args, want, kw = CASES[case](a, rng, port)
        e = {"K8PSH_CONFIG": a.p("k.conf")} if rng.random() < 0.5 or case in ("unknown_stub",) else {}
        e.update(kw.pop("env", {}))
        cfg = [] if "K8PSH_CONFIG" in e else (["--config=" + a.p("k.conf")] if not any(x.startswith(("-c", "--config")) for x in args) else [])
        e.update(env or {})
        if prog == "k8pshd":
            argv = [a.bin + "/" + a.variant + "/k8pshd", *cfg, "-n", "srv", "-e", a.p("sv"), *args]
        else:
            argv = [a.stub or a.bin + "/" + a.variant + "/k8psh", *cfg, *args]
            if prog and not args:
                argv.append("cmd")
        before = {d: sorted(os.listdir(a.p(d))) for d in ("work", "sv")}
        stderr = rng.choice(("pipe",) * 6 + ("full", "closed"))
        extra = {}
        full = None
        if stderr == "full":
            extra["stderr"] = full = open("/dev/full", "wb")
        elif stderr == "closed":
            argv = ["/bin/sh", "-c", 'exec "$0" "$@" 2>&-', *argv]
        p = a.popen(argv, env=e, cwd=kw.get("cwd"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, **dict(dict(stderr=subprocess.PIPE), **extra))
        rc, out, err = finish(p, what="failing " + case)
        if full:
            full.close()
        if a.sock:
            a.sock.close()
        what = "%s (%s %r, %s)" % (case, prog, args, a.variant)
        if rc == 0:
            raise Violation("success", "%s: ends with 0 (%r, %r)" % (what, out[-200:], (err or b"")[-300:]))
        if out:
            raise Violation("stdout", "%s: a failure is reported on stdout: %r" % (what, out[-300:]))
        if stderr == "pipe":
            if not err.strip():
                raise Violation("unexplained", "%s: ends with %s without any message" % (what, cmd_status(rc)))
            for w in want:
                if os.fsencode(w) not in err:
                    raise Violation("unnamed", "%s: the message does not name the problem %r: %r" % (what, w, err[-600:]))
            c.count("messages")
        after = {d: sorted(os.listdir(a.p(d))) for d in ("work", "sv")}
        if after != before:
            raise Violation("files", "%s: leaves files: %r" % (what, after))
        c.count("evaluations")
        c.seen("failing", case, a.variant, stderr, len(err or b"") // 64)


def session(c, a, rng, name, runs):
    """Commands that cannot be started, and messages of a running server."""
    for i in range(runs):
        a.new()
        variant, env = pick_variant(a, rng)
        port = a.port()
        t = a.p(token(rng, True))
        kind = rng.choice(("missing", "missing-path", "not-executable", "directory", "format", "workdir", "gone"))
        cmd = t
        if kind == "missing":
            cmd = os.path.basename(t)
        elif kind == "not-executable":
            a.write(t, b"#!/bin/sh\n", 0o644)
        elif kind == "directory":
            a.mkdir(t)
        elif kind == "format":
            a.write(t, b"#!/missing/interpreter\n", 0o755)
        a.mkdir(a.p("work", "sub"))
        a.write("k.conf", base(a, port, "broken %s\n" % q(cmd)))
        s = a.server(None, opts=["-d"], port=port, variant=variant, env=env)
        if kind in ("workdir", "gone"):
            d = a.p("work", "sub", "n%x" % rng.randrange(1 << 32))
            a.mkdir(d)
            if kind == "workdir":
                # the client can be in it, its server cannot enter it: another base directory
                a.mkdir(a.p("other"))
                a.mkdir(a.p("other", "sub"))
                a.write("c.conf", base(a, port).replace(q(a.p("work")), q(a.p("other"))))
                os.rename(d, a.p("other", "sub", os.path.basename(d)))
                d = a.p("other", "sub", os.path.basename(d))
                rc, out, err = a.run(["cmd", "exit", "0"], stdin=None, confname="c.conf", cwd=d, variant=variant)
            else:
                p = a.client(["sh", "-c"], cwd=d)  # (only to get an error for a command that is not configured)
                p.wait()
                os.chmod(d, 0o600)
                rc, out, err = finish(a.popen(["/bin/sh", "-c", 'chmod 700 . && cd . && chmod 600 . && exec "$0" "$@"', *a.client_argv(["cmd", "exit", "0"], variant)], env={"K8PSH_CONFIG": a.p("k.conf")}, cwd=a.p("work", "sub"), stdout=subprocess.PIPE, stderr=subprocess.PIPE))
                if rc == 0 and not out:
                    continue
            want = os.path.basename(d) if kind == "workdir" else "sub"
        else:
            rc, out, err = a.run(["broken", "x"], stdin=None, variant=variant, env=env)
            want = cmd
        what = "%s command, %s" % (kind, variant)
        if rc == 0 or out:
            raise Violation("success", "%s: ends with %s, %r" % (what, cmd_status(rc), out))
        log = os.fsencode(s.output()) if kind in ("workdir", "gone") else b""
        if os.fsencode(want) not in (err + log):
            raise Violation("unnamed", "%s: the message does not name %r: %r (server: %r)" % (what, want, err[-400:], log[-400:]))
        if s.stop() != 0:
            raise Violation("server", what + ": the server fails")
        c.count("messages")
        c.count("evaluations")
        c.seen("session", kind, variant)


def quiet(c, a, rng, name, runs):
    """What works (with warnings at most) is neither explained nor fails."""
    for i in range(runs):
        a.new()
        variant, env = pick_variant(a, rng)
        port = a.port(2)
        kind = rng.choice(("normal", "ignored", "ignored-conf", "removed", "pidfile-removed", "undefined", "help", "version", "install", "generate"))
        t = "".join(x for x in token(rng, False) if x not in "/\\'\"`$(){}")
        prog = a.bin + "/" + variant
        if kind in ("help", "version", "install", "generate"):
            a.write("k.conf", base(a, port, "[other:%d]\nremote x\n" % (port + 1)))
            argv = {"help": rng.choice(([prog + "/k8psh", "-h"], [prog + "/k8psh", "--help"], [prog + "/k8pshd", "--help"], [prog + "/k8psh", "-s", "--help"])),
                    "version": rng.choice(([prog + "/k8psh", "-v"], [prog + "/k8psh", "--version"], [prog + "/k8pshd", "-v"], [prog + "/k8psh", "--server", "-v"])),
                    "install": [prog + "/k8psh", "--install", a.p("installed")],
                    "generate": [prog + "/k8pshd", "-n", "nobody", "-c", a.p("k.conf"), "-e", a.p("sv")]}[kind]
            rc, out, err = finish(a.popen(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
            if rc or err or (kind in ("help", "version")) != bool(out):
                raise Violation("quiet", "%s (%r) ends with %s, %r, %r" % (kind, argv[1:], cmd_status(rc), out[-200:], err[-300:]))
            if kind == "help" and any(o not in out for o in ((b"--config", b"--install", b"--server", b"--version") if argv[0].endswith("psh") and "-s" not in argv else (b"--background", b"--timeout", b"--pidfile", b"--max-connections"))):
                raise Violation("quiet", "%r is incomplete: %r" % (argv[1:], out))
            c.count("evaluations")
            c.seen("quiet", kind, variant, tuple(argv[1:2]))
            continue
        opts, want, header = ["-p", a.p("pid")], [], ""
        if kind == "ignored":
            opts += ["-i", "--" + t]
            want = ["--" + t]
        elif kind == "ignored-conf":
            header = "-i " + q("--" + t)
            want = ["--" + t]
        elif kind == "removed":
            want = ["remote"]
        elif kind == "pidfile-removed":
            opts += ["-b"]
        text = base(a, port, "[other:%d]\nremote x\n" % (port + 1)).replace("[srv:%d]" % port, "[srv:%d] %s" % (port, header))
        if kind == "undefined":
            v = "V%X" % rng.randrange(1 << 32)
            text = "# c\n" + text.replace("cmd '", "cmd ${%s}'" % v)
            want = [v]
        a.write("k.conf", text)
        s = a.server(None, opts=opts, port=port, variant=variant, env=env)
        if kind == "pidfile-removed":
            if s.wait() != 0 or not wait_until(lambda: a.read("pid").endswith(b"\n")):
                raise Violation("quiet", "the background server does not start")
            pid = int(a.read("pid"))
        rc, out, err = a.run([a.p("ev"), "exit", "5"], stub="cmd", stdin=None)
        if (rc, out) != (5, b"") or (err and kind != "undefined"):
            raise Violation("quiet", "%s: the client ends with %s, %r, %r" % (kind, cmd_status(rc), out, err[-300:]))
        if kind == "undefined" and v.encode() not in err:
            raise Violation("unnamed", "the client does not name the undefined variable: %r" % err)
        if kind == "removed":
            if not wait_until(lambda: os.path.lexists(a.p("sv/remote"))):
                raise Violation("quiet", "no client executable")
            os.unlink(a.p("sv/remote"))
        if kind == "pidfile-removed":
            os.unlink(a.p("pid"))
            os.kill(pid, signal.SIGTERM)
            rc = wait_orphan(pid)
        else:
            rc = s.stop()
        if rc != 0:
            raise Violation("quiet", "%s: the server ends with %s: %s" % (kind, cmd_status(rc), s.output()[-300:]))
        log = os.fsencode(s.output())
        for w in want:
            if os.fsencode(w) not in log:
                raise Violation("unnamed", "%s: the server's warning does not name %r: %r" % (kind, w, log[-400:]))
        if not want and log:
            raise Violation("quiet", "%s: the server says %r" % (kind, log[-400:]))
        if os.listdir(a.p("sv")):
            raise Violation("files", "%s: the server leaves %r" % (kind, os.listdir(a.p("sv"))))
        c.count("evaluations")
        c.seen("quiet", kind, variant)


def check():
    subreaper()
    c = Check("C30", "exploration",
              "every way in which the client or the server fails by itself, with ordinary and hostile names, on an open, full or closed stderr; commands that cannot be started; everything that works with or without warnings. distinct = different failures, variants, streams and lengths of messages.",
              ["static", "release", "dyn", "shim"])
    k = 12 if THOROUGH else 1
    for n in sorted(CASES):
        c.add("failing-" + n, failing, case=n, runs=5 * k)
    for i in range(12 * k):
        c.add("session-%d" % i, session, runs=4)
    for i in range(12 * k):
        c.add("quiet-%d" % i, quiet, runs=4)
    return c
