"""C31: a running server goes on as it was started, whatever happens to its files afterwards."""
import itertools, json, subprocess
from k8 import *

UNIQ = itertools.count()
OTHERS = ("remote", "remote2", "a", "b", "tool")


def text(a, port, base, cmds, header="", remote=0):
    return "baseDirectory = '%s'\nconnectTimeoutMs = 2000\n[srv:%d] %s\n%s\n[other:%d]\n%s" % (base, port, header, "\n".join(cmds), remote, "".join(x + " x\n" for x in OTHERS))


def rewrite(a, rng, path, new):
    """One of the ways in which a file gets changed."""
    way = rng.choice(("overwrite", "replace", "remove", "truncate", "forbid", "garbage", "directory"))
    if way == "overwrite":
        a.write(path, new)
    elif way == "replace":
        a.write(path + ".new", new)
        os.rename(path + ".new", path)
    elif way == "truncate":
        os.truncate(path, 0)
    elif way == "forbid":
        os.chmod(path, 0)
    elif way == "garbage":
        a.write(path, b"[[[" + bytes(rng.randrange(1, 256) for _ in range(200)))
    else:
        os.unlink(path)
        if way == "directory":
            a.mkdir(path)
    return way


def later(c, a, rng, name, runs):
    for i in range(runs):
        a.new()
        variant, env = pick_variant(a, rng)
        port = a.port(2)
        background = rng.random() < 0.4
        relative = rng.random() < 0.5  # the configuration file, its base directory and the executable directory
        value = "v%x" % rng.randrange(1 << 32)
        a.mkdir(a.p("start"))
        a.mkdir(a.p("start", "base"))
        a.mkdir(a.p("start", "base", "sub"))
        a.mkdir(a.p("start", "bin"))
        a.mkdir(a.p("start", "prog"))
        a.mkdir(a.p("moved"))
        # (a copy of the program: it gets removed and replaced)
        prog = a.p("start", "prog", "k8pshd")
        subprocess.run(["install", "-m", "755", a.bin + "/" + variant + "/k8psh", prog], check=True)  # (this process must not have it open for writing)
        cmds = ["cmd VAR=%s '%s/probe'" % (value, a.bin), "dup '%s/probe' mark a" % a.bin]
        header = rng.choice(("", "-k", "-w", "HVAR=1 -p '%s'" % a.p("start", "pid")))
        base = a.p("start", "base")
        a.write("start/k.conf", text(a, port, "base" if relative else base, cmds, header, port + 1))
        a.write("client.conf", text(a, port, base, ["cmd VAR x", "dup x", "fresh x"], "", port + 1))
        argv = [prog, "--config=" + ("k.conf" if relative else a.p("start", "k.conf")), "-n", "srv", "-e", "bin" if relative else a.p("start", "bin")]
        pidfile = "HVAR" in header
        argv += (["-b"] + ([] if pidfile else ["-p", ""])) if background else []
        log = open(a.p("log"), "wb")
        s = a.popen(argv, env=env, cwd=a.p("start"), stdout=log, stderr=log)
        log.close()
        if not wait_until(lambda: len(listening(port)) > 0 or s.poll() not in (None, 0)) or not listening(port):
            raise Violation("start", "the server does not start: %r" % a.read("log"))
        if not wait_until(lambda: set(os.listdir(a.p("start", "bin"))) == set(OTHERS)):
            raise Hang("start", "no executables")
        if background:
            if not wait_until(lambda: s.poll() is not None) or s.returncode:
                raise Violation("start", "the background server does not start: %r" % a.read("log"))
            pids = [p for p, (n, st, pp) in a.pids().items() if st != "Z" and n == "k8pshd"]
            if len(pids) != 1:
                raise Violation("start", "background servers: %r" % a.pids())
            pid = pids[0]
            if pidfile and not wait_until(lambda: a.read("start/pid") == b"%d\n" % pid):
                raise Violation("start", "PID file: %r" % a.read("start/pid"))
        else:
            pid = s.pid
        done = []
        what = "%s%s server" % (variant, ", background" if background else "")

        def serve():
            n = rng.randrange(256)
            sub = rng.choice(("", "sub"))
            e = a.p("rep%d" % next(UNIQ))
            rc, out, err = finish(a.client([e + ".ev", "report", e, "exit", str(n)], stub="cmd", variant="static", confname="client.conf", cwd=a.p("start", "base", sub).rstrip("/"), stdout=subprocess.PIPE, stderr=subprocess.PIPE))
            if rc != n or out or err:
                raise Violation("not-served", "%s, after %r: a client that should end with %d ends with %s: %r (server: %r)" % (what, done, n, cmd_status(rc), err[-300:], a.read("log")[-300:]))
            rep = json.loads(a.read(e))
            envs = sorted(bytes.fromhex(x) for x in rep["env"])
            if envs != sorted([b"VAR=" + value.encode()] + ([b"HVAR=1"] if pidfile else [])):
                raise Violation("settings", "%s, after %r: the command's environment is %r" % (what, done, envs))
            cwd = bytes.fromhex(rep["cwd"]).decode()
            if cwd != a.p("start", "base", sub).rstrip("/"):
                raise Violation("settings", "%s, after %r: the command runs in %r" % (what, done, cwd))
            c.count("clients_served")

        serve()
        # a session that spans all changes
        p = a.client([a.p("ev"), "mark", "started", "waitfile", a.p("go"), "exit", "77"], stub="cmd", confname="client.conf", cwd=base)
        if not wait_until(lambda: a.read("ev")):
            raise Hang("start", "command does not start")
        new = text(a, port, a.p("moved"), ["cmd VAR=changed NEW=1 '/bin/false'", "fresh '%s/probe'" % a.bin], rng.choice(("", "-o", "-m 1", "-t 1")), port)
        removed = set()
        for k in rng.sample(range(6), rng.choice((1, 2, 4))):
            if k == 0:
                done.append("config: " + rewrite(a, rng, a.p("start", "k.conf"), new))
            elif k == 1:
                way = rng.choice(("remove", "replace"))
                if way == "replace":
                    a.write("start/prog/new", b"#!/bin/sh\nexit 99\n", 0o755)
                    os.rename(a.p("start", "prog", "new"), prog)
                else:
                    os.unlink(prog)
                done.append("program: " + way)
            elif k == 2:
                for x in rng.sample(OTHERS, rng.choice((1, 1, 2, 4, 5))):
                    os.unlink(a.p("start", "bin", x))
                    removed.add(x)
                done.append("executable removed")
            elif k == 3 and pidfile and background:
                os.unlink(a.p("start", "pid"))
                done.append("PID file removed")
            elif k == 4:
                a.write("start/bin/unrelated", b"x")
                done.append("unrelated file")
            elif k == 5:
                os.kill(pid, signal.SIGCONT)
                done.append("CONT")
            if rng.random() < 0.7:
                serve()
        serve()
        rc, out, err = finish(a.client(["fresh"], confname="client.conf", cwd=base, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        if rc == 0:
            raise Violation("settings", "%s, after %r: a command that has only been configured later is run" % (what, done))
        a.write("go", b"")
        if p.wait(WATCHDOG) != 77:
            raise Violation("disturbed", "%s, after %r: a session ended with %s" % (what, done, cmd_status(p.returncode)))
        os.kill(pid, signal.SIGTERM)
        r = wait_orphan(pid, what) if background else finish(s, what=what)[0]
        if r != 0:
            raise Violation("end", "%s, after %r: ends with %s: %r" % (what, done, cmd_status(r), a.read("log")[-300:]))
        left = set(os.listdir(a.p("start", "bin")))
        want = ({"unrelated"} if "unrelated file" in done else set()) | (set(OTHERS) - removed if header == "-k" else set())
        if left != want:
            raise Violation("files", "%s, after %r: leaves %r instead of %r" % (what, done, left, want))
        if pidfile and os.path.exists(a.p("start", "pid")):
            raise Violation("files", "%s, after %r: leaves its PID file" % (what, done))
        if os.path.isfile(a.p("start", "k.conf")) and "config: overwrite" in done and a.read("start/k.conf") != new.encode():
            raise Violation("files", "the server changed its configuration")
        c.count("evaluations")
        c.count("changes", len(done))
        c.seen(variant, background, relative, header[:2], tuple(sorted(done)))


def check():
    subreaper()
    c = Check("C31", "exploration",
              "running servers (foreground and background, started with absolute and relative names) whose configuration, program, executables and PID file are rewritten, replaced, removed or forbidden in random order between and during sessions. distinct = different servers and sets of changes.",
              ["static", "release", "dyn", "shim"])
    k = 12 if THOROUGH else 1
    for i in range(24 * k):
        c.add("later-%d" % i, later, runs=3)
    return c
