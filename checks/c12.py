"""C12: exactly the right client executables exist, and each reaches its server."""
import os, stat, subprocess
from k8 import *

NAMES = ["gcc", "g++", "a.b", "run it", "x-1", "_", "UPPER", "lower", "ünï", "a'b", "c\"d", "$v", "#n", "=eq", "[s", "?q", "k8", "java", "with\ttab", "-dash", "~", "*", "cc1", "cc2", "cc3", "zz"]


def quote(s):
    return "'" + s.replace("'", "''") + "'"


def entries(d):
    r = {}
    for f in os.listdir(os.fsencode(d)):
        p = os.path.join(os.fsencode(d), f)
        st = os.lstat(p)
        n = os.fsdecode(f)
        if stat.S_ISLNK(st.st_mode):
            r[n] = ("link", os.readlink(p))
        elif stat.S_ISDIR(st.st_mode):
            r[n] = ("dir", None)
        else:
            with open(p, "rb") as fh:
                r[n] = ("file", fh.read())
    return r


def model(a, rng, nservers):
    """A random configuration: text, {server: (port, [commands])}, {command: winning server}"""
    servers, winner = {}, {}
    text = "baseDirectory = '%s'\nconnectTimeoutMs = 200\n" % a.p("work")
    for i in range(nservers):
        n = "srv%d" % i
        port = a.port()
        cmds = rng.sample(NAMES, rng.choice((0, 1, 2, 4, 7)) if nservers > 1 or i else rng.choice((1, 3, 6)))
        servers[n] = (port, cmds)
        text += "[%s:%d]\n" % (n, port)
        for x in cmds:
            # every server runs a command of its own, whose report tells which one it was
            text += "%s '%s/probe' 'R:%s'\n" % (quote(x), a.bin, a.p("rep-" + n))
            winner[x] = n
    return text, servers, winner


def created(servers, winner, me, local):
    """Executables are made for all commands as a client sees them, without those that this server itself provides."""
    return {x for x, s in winner.items() if local or s != me}


def stub_problem(a, path, want=None):
    if not os.access(path, os.X_OK):
        return "is not executable"
    return None


def run_stub(c, a, rng, x, winner, servers, started, what):
    for s in servers:
        try:
            os.unlink(a.p("rep-" + s))
        except FileNotFoundError:
            pass
    args = ["a1", "", "--help", x]
    argv0, kw = invocation(a, rng, a.p("sv", x))
    p = a.popen([argv0, *args], env={"K8PSH_CONFIG": a.p("k.conf")}, **kw, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    rc, out, err = drive(p)
    s = winner[x]
    got = [n for n in servers if os.path.exists(a.p("rep-" + n))]
    if s in started:
        if got != [s] or rc != 0:
            raise Violation("dispatch", "%s: the executable of %r, which is offered by %s, ended with %s and was run by %r (%r)" % (what, x, s, cmd_status(rc), got, err[-200:]))
        j = json.loads(a.read("rep-" + s))
        argv = [bytes.fromhex(h).decode() for h in j["argv"]]
        if argv[2:] != args:
            raise Violation("dispatch", "%s: %r was run with %r" % (what, x, argv))
    elif got or rc == 0:
        raise Violation("dispatch", "%s: the executable of %r, whose server %s is not running, ended with %s and was run by %r" % (what, x, s, cmd_status(rc), got))
    c.count("executables_run")


def compare(a, before, want_new, removed, what, progs=None):
    now = entries(a.p("sv"))
    for n in set(before) | set(now) | set(want_new):
        if n in want_new:
            if n not in now:
                raise Violation("missing", "%s: the executable %r is missing (there are %r)" % (what, n, sorted(now)))
            if now[n] == before.get(n):
                raise Violation("missing", "%s: the existing file %r was not replaced" % (what, n))
        elif n in removed:
            if n in now:
                raise Violation("left", "%s: %r is still there" % (what, n))
        elif now.get(n) != before.get(n):
            raise Violation("changed" if n in before else "extra", "%s: %r is %r instead of %r" % (what, n, now.get(n), before.get(n)))


def run_case(c, a, rng, name, runs):
    for r in range(runs):
        a.new()
        variant, env = pick_variant(a, rng)
        if variant == "dyn":
            env = {}
        text, servers, winner = model(a, rng, rng.choice((1, 2, 3, 4)))
        me = rng.choice(sorted(servers) + ["srv0", "unknown"])
        port, own = servers.get(me, (None, []))
        local, disable, overwrite, keep = rng.random() < 0.35, rng.random() < 0.2, rng.random() < 0.35, rng.random() < 0.3
        opts = [rng.choice(x) for x, y in ((("-l", "--generate-local-executables"), local), (("-d", "--disable-client-executables"), disable), (("-o", "--overwrite-client-executables"), overwrite), (("-k", "--keep-client-executables"), keep)) if y]
        rng.shuffle(opts)
        # existing files
        a.write("sv/other", b"other file")
        a.write("sv/gccx", b"not a command")
        conflict = set()
        pool = sorted(set(winner) | set(NAMES))
        for x in rng.sample(pool, rng.choice((0, 0, 0, 1, 2, 4))):
            k = rng.choice(("file", "link", "dangling", "dir", "file"))
            p = a.p("sv", x)
            if k == "file":
                a.write(p, b"existing " + x.encode())
            elif k == "dir":
                a.makedirs(p)
            else:
                os.symlink("/bin/true" if k == "link" else "/nonexistent", p)
                os.lchown(p, a.uid, a.uid)
            conflict.add(x)
        cwd = rng.choice((a.dir, a.p("work")))
        direc = spelled_dir(a, rng, a.p("sv"), cwd)
        confdir = spelled_dir(a, rng, a.dir, cwd)
        before = entries(a.p("sv"))
        todo = set() if disable else created(servers, winner, me, local)
        deletes = {x for x in winner if x in before and before[x][0] != "dir"} if (disable or overwrite) else set()
        fails = bool({x for x in todo if x in before and x not in deletes})
        bg = rng.random() < 0.2 and own
        a.write("k.conf", text)
        what = "server %s (%r of %r) with %s %r, existing %r" % (me, own, sorted(winner), direc, opts, sorted(conflict))
        argv = opts + [rng.choice((["-e", direc], ["--executable-directory", direc], ["--executable-directory=" + direc]))][0] + (["-b", "-p", spelled_dir(a, rng, a.dir, cwd) + "/pid"] if bg else []) + ["--config=" + confdir + "/k.conf"]
        srv = a.server(None, name=me, opts=argv, variant=variant, port=port, wait=False, keep_opts=True, cwd=cwd)
        others = []
        if own and not fails:
            srv.wait_listen()
            # the executables are made after the server has started to listen: it serves (or, in the background, has let go of the caller) once they are complete
            if bg:
                if srv.wait() != 0:
                    raise Violation("status", "%s: starting in the background ended with %s: %s" % (what, cmd_status(srv.p.returncode), srv.output()[-200:]))
                if not wait_until(lambda: a.read("pid").endswith(b"\n")):
                    raise Hang("pidfile", "no PID file")
                pid = int(a.read("pid"))
            else:
                pid = srv.pid
                x = [n for n in own if winner[n] == me or True][0]
                conn = Raw(port)
                conn.send(request(x, []))
                conn.collect()
                conn.close()
            compare(a, before, todo, deletes - todo, what)
            for x in todo:
                e = entries(a.p("sv"))[x]
                pr = stub_problem(a, a.p("sv", x))
                if pr:
                    raise Violation("executable", "%s: %r %s" % (what, x, pr))
            # the other servers, without executables of their own
            started = {me}
            for s, (pt, cm) in servers.items():
                if s != me and cm and rng.random() < 0.6:
                    a.makedirs(a.p("none-" + s)) if not os.path.exists(a.p("none-" + s)) else None
                    o = a.server(None, name=s, opts=["-e", a.p("none-" + s)], port=pt, keep_opts=True, variant=variant)
                    started.add(s)
                    others.append(o)
            for x in sorted(todo):
                run_stub(c, a, rng, x, winner, servers, started, what)
            a.probe("kill", pid, 15)
            if not wait_until(lambda: a.pids().get(pid, ("", "Z", 0))[1] == "Z"):
                raise Hang("server-hang", "server does not exit")
            if keep:
                compare(a, before, todo, deletes - todo, what + ", after the exit")
            else:
                compare(a, before, set(), deletes, what + ", after the exit")
        else:
            st = srv.wait()
            if fails:
                if st == 0:
                    raise Violation("status", "%s: some executable could not be created, but the server ended with 0" % what)
                now = entries(a.p("sv"))
                # what existed is as it was, or deleted on request; only without commands (or if asked to) may created ones be left
                for n in set(before) | set(now):
                    if n in before:
                        ok = now.get(n) == before[n] or (n in deletes and (n not in now or keep or not own))
                    else:
                        ok = n in todo and (keep or not own)
                    if not ok:
                        raise Violation("failed-start", "%s: after the failure, %r is %r instead of %r" % (what, n, now.get(n), before.get(n)))
                c.count("failing_starts")
            else:
                if st != 0:
                    raise Violation("status", "%s: server without commands ended with %s: %s" % (what, cmd_status(st), srv.output()[-200:]))
                compare(a, before, todo, deletes - todo, what + " (nothing to serve)")
                started = set()
                for s, (pt, cm) in servers.items():
                    if cm:
                        a.makedirs(a.p("none-" + s))
                        others.append(a.server(None, name=s, opts=["-e", a.p("none-" + s)], port=pt, keep_opts=True, variant=variant))
                        started.add(s)
                for x in sorted(todo):
                    run_stub(c, a, rng, x, winner, servers, started, what)
                c.count("client_only_starts")
        c.count("evaluations")
        c.count("directories_compared")
        c.seen("case", len(todo), bool(own), tuple(sorted(o.lstrip("-")[0] for o in opts)), fails, len(conflict), bool(bg))
        c.sample(server=me, own=own, created=sorted(todo), options=opts, existing=sorted(conflict), fails=fails)


def big(c, a, rng, name, n):
    """Very many executables, with the longest of names, of several servers."""
    text = "baseDirectory = '%s'\n" % a.p("work")
    servers, winner = {}, {}
    for s in ("srv", "two", "three"):
        port = a.port()
        cmds = ["%s-%d" % (s, i) for i in range(n if s == "two" else 20)] + ["both", s[0] * 255]
        rng.shuffle(cmds)
        servers[s] = port
        text += "[%s:%d]\n" % (s, port) + "".join("%s '%s/probe' 'R:%s'\n" % (x, a.bin, a.p("rep-" + s)) for x in cmds)
        winner.update({x: s for x in cmds})
    local = rng.random() < 0.5
    a.write("sv/mine", b"m")
    before = entries(a.p("sv"))
    srv = a.server(text, port=servers["srv"], opts=["-e", a.p("sv")] + (["-l"] if local else []), variant=rng.choice(("static", "release")), keep_opts=True)
    a.server(None, name="two", port=servers["two"], keep_opts=True, opts=["-d"])
    want = created(servers, winner, "srv", local)
    what = "%d executables" % len(want)
    if not wait_until(lambda: len(os.listdir(a.p("sv"))) >= len(want) + 1):
        raise Violation("missing", "%s: there are only %d" % (what, len(os.listdir(a.p("sv"))) - 1))
    time.sleep(0.1)  # (the last one may be written)
    compare(a, before, want, set(), what)
    if len({now for now in entries(a.p("sv")).values()}) != 2:
        raise Violation("different", "%s: not all of them are equal" % what)
    for x in rng.sample(sorted(x for x in want if winner[x] == "two"), 12) + [x for x in want if winner[x] == "srv"][:2]:
        run_stub(c, a, rng, x, winner, ["srv", "two", "three"], {"srv", "two"}, what)
    if srv.stop() != 0:
        raise Violation("status", "%s: the server fails" % what)
    if entries(a.p("sv")) != before:
        raise Violation("left", "%s: %d of them are left" % (what, len(entries(a.p("sv"))) - 1))
    c.count("evaluations")
    c.count("executables_created", len(want))
    c.seen("big", n, local)


def failing_directory(c, a, rng, name):
    """Directories in which nothing can be created; and failures after executables have been created."""
    for kind in ("missing", "readonly", "file", "pidfile", "timeout", "max", "badoption-in-section", "port-used", "full"):
        a.new()
        port = a.port()
        a.write("f", b"")
        cf = lambda h="": "connectTimeoutMs = 100\n" + conf(a, port, ["cmd x"], header=h) + "[other:%d]\n%s\n" % (a.port(), "\n".join("c%d x" % i for i in range(8)))
        a.write("sv/mine", b"m")
        opts, e, h = [], a.p("sv"), ""
        if kind == "missing":
            e = a.p("nope")
        elif kind == "file":
            e = a.p("f")
        elif kind == "readonly":
            os.chmod(a.p("sv"), 0o555)
        elif kind == "timeout":
            opts = ["-t", "abc"]
        elif kind == "max":
            opts = ["-m", "many"]
        elif kind == "badoption-in-section":
            h = "--no-such-option"
        elif kind == "full":
            a.write("sv/c5", b"in the way")
        elif kind == "port-used":
            s = socket.socket()
            s.bind(("127.0.0.1", port))
            s.listen(1)
        before = entries(a.p("sv"))
        if kind == "pidfile":
            a.write("pid", b"1\n")
            opts = ["-b", "-p", a.p("pid")]
        a.write("k.conf", cf(h))
        srv = a.server(None, opts=opts + ["-e", e], port=port, wait=False, keep_opts=True)
        st = srv.wait()
        if kind == "pidfile":
            if not wait_until(lambda: not any(x[1] != "Z" for x in a.pids().values())):
                raise Hang("server-hang", "server stays although it could not write its PID file")
            if a.read("pid") != b"1\n":
                raise Violation("pidfile", "the existing PID file was changed or removed")
        elif st == 0:
            raise Violation("status", "%s: the server ended with 0" % kind)
        if entries(a.p("sv")) != before:
            raise Violation("failed-start", "%s: the directory changed from %r to %r" % (kind, sorted(before), sorted(entries(a.p("sv")))))
        if kind == "readonly":
            os.chmod(a.p("sv"), 0o755)
        if kind == "port-used":
            s.close()
        c.count("evaluations")
        c.count("failing_starts")
        c.seen("failing", kind)


def check():
    c = Check("C12", "exploration",
              "random configurations (1-4 servers, overlapping and unusual command names), options and existing files (regular, links, dangling, directories); the directory is compared with a model while the server runs and after it has exited; "
              "each created executable is run and the server that ran it identified by its report. distinct = different (number of executables, role, options, outcome).", ["static", "release", "dyn"])
    k = 10 if THOROUGH else 1
    for i in range(32 * k):
        c.add("case-%d" % i, run_case, runs=8)
    for n in (300, 1500):
        c.add("big-%d" % n, big, n=n)
    for i in range(2 * k):
        c.add("failing-%d" % i, failing_directory)
    return c
