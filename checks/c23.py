"""C23: installing yields a complete working executable or an error."""
import os, tempfile
from k8 import *

TARGETS = ["new", "shorter", "longer", "same-size", "empty", "not-executable", "write-only", "read-only", "foreign-executable", "foreign", "dangling-link", "link", "directory", "no-directory", "itself", "link-to-itself", "full-device", "others-executable", "running"]
ERRNOS = {"link": (18, 1, 31, 13), "open": (13, 28, 24, 4), "read": (5, 4), "write": (28, 5, 4), "fchmod": (1, 30), "close": (5, 28, 122)}


def pad(data, rng):
    """The program with something appended, so that its size is special for some block size."""
    k = rng.random()
    if k < 0.3:
        return data
    block = rng.choice((4096, 8192, 8192, 16384, 65536))
    n = (-len(data)) % block + rng.choice((0, 0, 1, block - 1))
    if k < 0.4:
        n += rng.choice((1000000, 300000))
    return data + rng.randbytes(n)


def prepare(a, rng, kind, prog, data, d):
    """Creates the target and returns its path."""
    t = os.path.join(d, rng.choice(("k8psh", "target", "a b", "-x", "\u00e4", "n" * 200)))

    def put(path, content, mode, mine=True):
        with open(path, "wb") as f:
            f.write(content)
        os.chmod(path, mode)
        if mine:
            os.chown(path, a.uid, a.uid)
    if kind == "shorter":
        put(t, data[:rng.randrange(1, len(data))], rng.choice((0o755, 0o644)))
    elif kind == "longer":
        put(t, rng.randbytes(len(data) + rng.choice((1, 100, 8192, 100000))), rng.choice((0o755, 0o644)))
    elif kind == "same-size":
        put(t, rng.randbytes(len(data)), rng.choice((0o755, 0o644)))
    elif kind == "empty":
        put(t, b"", 0o700)
    elif kind == "not-executable":
        put(t, rng.choice((data, b"x")), rng.choice((0o600, 0o644, 0o666)))
    elif kind == "others-executable":
        put(t, b"x" * 10, rng.choice((0o611, 0o655, 0o666 | 0o011)))
    elif kind == "write-only":
        put(t, b"y" * 10000, 0o200)
    elif kind == "read-only":
        put(t, rng.choice((data[:-1], b"")), rng.choice((0o444, 0o555)))
    elif kind == "foreign-executable":
        put(t, b"z" * rng.choice((10, len(data) + 5)), 0o777, False)
    elif kind == "foreign":
        put(t, b"z", 0o666, False)
    elif kind == "dangling-link":
        os.symlink(os.path.join(d, "elsewhere"), t)
    elif kind == "link":
        put(os.path.join(d, "elsewhere"), b"q" * rng.choice((10, len(data) + 10)), 0o644)
        os.symlink("elsewhere", t)
    elif kind == "directory":
        a.mkdir(t)
    elif kind == "no-directory":
        t = os.path.join(d, "none", "x")
    elif kind == "itself":
        t = prog
    elif kind == "link-to-itself":
        os.symlink(prog, t)
    elif kind == "full-device":
        t = "/dev/full"
    elif kind == "running":
        put(t, a.read(a.bin + "/probe"), 0o755)
    return t


def one(c, a, rng, kind, variant="static", fault="", other_fs=None, fresh_owner=True):
    a.new()
    data = pad(a.read(a.bin + "/" + variant + "/k8psh"), rng)
    # a program the user owns can be linked, another one only be copied
    prog = a.write("prog", data, 0o755)
    if not fresh_owner:
        os.chown(prog, 0, 0)
    os.rename(prog, a.p("work", "k8psh"))
    prog = a.p("work", "k8psh")
    d = a.p("target")
    shm = None
    try:
        if other_fs:
            shm = tempfile.mkdtemp(prefix="k8v.", dir="/dev/shm")
            os.chmod(shm, 0o755)
            os.chown(shm, a.uid, a.uid)
            d = shm
        else:
            a.mkdir(d)
        t = prepare(a, rng, kind, prog, data, d)
        before = os.path.exists(t) and kind not in ("full-device", "directory")
        argv = [prog] + rng.choice(([], [], ["--config=" + a.p("nothing")])) + rng.choice((["--install", t], ["--install=" + t], ["--install", os.path.relpath(t, a.p("work"))] if not t.startswith("/dev") else ["--install", t]))
        env = {}
        busy = None
        what = fault
        if fault.startswith("fsize"):
            limit = rng.choice((0, 1, 8191, 8192, 8193, 100000, len(data) - 1, len(data) // 2))
            ignore = "trap '' XFSZ; " if fault == "fsize-ignored" else ""
            argv = ["/bin/sh", "-c", ignore + 'exec prlimit --fsize=%d -- "$@"' % limit, "sh"] + argv
            what = "%s %d" % (fault, limit)
        elif fault.startswith("umask"):
            argv = ["/bin/sh", "-c", 'umask %s; exec "$@"' % fault[5:], "sh"] + argv
        elif fault:
            f, k = fault.split("-")
            n = 1 if f in ("link", "fchmod", "close") else rng.choice((1, 2)) if f == "open" else rng.choice((1, 2, 3, 10, 50, 100, (len(data) + 8191) // 8192, (len(data) + 8191) // 8192 + 1))
            e = "short" if k == "short" else rng.choice(ERRNOS[f])
            env = {"LD_PRELOAD": a.bin + "/shim", "SHIM_LOG": a.p("shim.log"), "SHIM_FAIL": "%s:%d:%s" % (f, n, e)}
            what = env["SHIM_FAIL"]
        if kind == "running":
            busy = a.popen([t, "sleep", "600000"])
        p = a.popen(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = finish(p, None, what="installing")
        info = dict(target=kind, argv=argv, fault=what, output=(out + err)[-300:], other_filesystem=bool(other_fs), size=len(data))
        if busy:
            busy.kill()
            busy.wait()
        injected = bool(fault) and (fault.startswith("fsize") or b"fail " in a.read("shim.log"))
        impossible = kind in ("directory", "no-directory", "full-device", "foreign", "read-only", "running")
        if rc == 0:
            if not os.path.isfile(t):
                raise Violation("no-file", "installing succeeded, but there is no such file", **info)
            got = a.read(t)
            if got != data:
                raise Violation("incomplete", "installing succeeded, but the file differs: %s" % describe_diff("file", data, got), **info)
            # executable for the user who installed it
            q = a.popen([t, "--version"], stdout=subprocess.PIPE) if os.path.basename(t) == "k8psh" else None
            if q is None:
                os.mkdir(a.p("run"))
                os.chmod(a.p("run"), 0o755)
                os.symlink(t, a.p("run", "k8psh"))
                try:
                    q = a.popen([a.p("run", "k8psh"), "--version"], stdout=subprocess.PIPE)
                except PermissionError:
                    raise Violation("not-executable", "installing succeeded, but the file (mode %o) cannot be executed" % os.stat(t).st_mode, **info)
            rc2, out2, _ = finish(q)
            if rc2 != 0 or not out2:
                raise Violation("not-working", "installing succeeded, but the installed program ends with %s" % cmd_status(rc2), **info)
            if not before and not fault.startswith("umask") and os.stat(t).st_mode & 0o555 != 0o555:
                raise Violation("not-executable", "installing succeeded, but not everybody can execute the new file (mode %o, umask 022)" % os.stat(t).st_mode, **info)
            c.count("installed_over_existing" if before else "installed_new")
        else:
            if not fault.startswith("fsize") and not injected and not impossible and kind not in ("itself", "link-to-itself"):
                raise Violation("refused", "installing failed (%s) for no reason" % cmd_status(rc), **info)
            c.count("failures_reported")
        if kind in ("itself", "link-to-itself") and a.read(prog) != data:
            raise Violation("destroyed", "installing onto itself damaged the program (status %s)" % cmd_status(rc), **info)
        if injected:
            c.count("faults_injected")
        c.count("evaluations")
        c.seen(kind, fault, bool(other_fs), rc == 0, fresh_owner, variant)
        c.sample(target=kind, fault=what, status=rc, other_filesystem=bool(other_fs), size=len(data))
    finally:
        if shm:
            _rm(shm)


def _rm(path):
    import shutil
    if path.startswith("/dev/shm/k8v."):
        shutil.rmtree(path, ignore_errors=True)


def plain_case(c, a, rng, name, rounds, part, parts):
    for r in range(rounds):
        for i, kind in enumerate(TARGETS):
            if i % parts != part:
                continue
            for other in (False, True):
                if other and kind in ("itself", "full-device"):
                    continue
                one(c, a, rng, kind, rng.choice(("static", "release")), "", other, rng.random() < 0.5)


def faults(c, a, rng, name, rounds):
    for r in range(rounds):
        kind = rng.choice(("new", "new", "shorter", "longer", "same-size", "not-executable", "foreign-executable", "dangling-link"))
        f = rng.choice(("fsize", "fsize-ignored", "umask777", "umask177", "umask077", "umask022"))
        one(c, a, rng, kind, rng.choice(("static", "release")), f, rng.random() < 0.5, rng.random() < 0.5)
        for f in ("link-e", "open-e", "read-e", "write-e", "write-short", "read-short", "fchmod-e", "close-e"):
            one(c, a, rng, kind if f != "fchmod-e" else "not-executable", "dyn", f, rng.random() < 0.3, rng.random() < 0.3)


def serves(c, a, rng, name, count):
    """An installed program is a working server and client."""
    for _ in range(count):
        a.new()
        port = a.port()
        a.mkdir(a.p("inst"))
        old = rng.choice((None, b"x" * 10, b"y" * 9000000))
        t = a.p("inst", "k8psh")
        if old is not None:
            a.write(t, old, rng.choice((0o644, 0o755)))
        variant = rng.choice(("static", "release"))
        rc, out, err = finish(a.popen([a.bin + "/" + variant + "/k8psh", "--install", t], stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        if rc != 0:
            raise Violation("refused", "installing failed (%s) for no reason: %r" % (cmd_status(rc), err[-200:]))
        a.write("k.conf", plain_conf(a, port))
        with open(a.p("log"), "wb") as f:
            s = a.popen([t, "-s", "--config", a.p("k.conf"), "--name", "srv", "-e", a.p("sv")], stdout=f, stderr=f)
        if not wait_until(lambda: listening(port) or s.poll() is not None) or s.poll() is not None:
            raise Violation("no-server", "the installed program does not serve: %r" % a.read("log")[-300:])
        rc, out, err = finish(a.popen([t, "cmd", a.p("ev"), "exit", "42"], env={"K8PSH_CONFIG": a.p("k.conf")}, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        if rc != 42:
            raise Violation("no-client", "the installed program exits with %s instead of 42: %r" % (cmd_status(rc), err[-300:]))
        c.count("evaluations")
        c.count("sessions_with_installed_program")
        c.seen("serves", variant, old and len(old))


def check():
    c = Check("C23", "fault_enumeration",
              "19 kinds of target x same and other file system x linkable and not linkable program, programs of sizes around multiples of block sizes; failing and short link/open/read/write/fchmod/close calls, file size limits and umasks. After status 0 the target is compared byte by byte and executed. distinct = different combinations of target, fault, file system, ownership and outcome.",
              ["static", "release", "dyn", "shim"])
    k = 15 if THOROUGH else 1
    for i in range(8):
        c.add("targets-%d" % i, plain_case, rounds=2 * k, part=i, parts=8)
    for i in range(8 * k):
        c.add("faults-%d" % i, faults, rounds=6)
    for i in range(4 * k):
        c.add("serves-%d" % i, serves, count=3)
    return c
