"""Shared machinery: building /repo's sources, contained execution of the real programs, protocol peers, verdicts and evidence."""
import atexit, collections, errno, fcntl, hashlib, json, os, random, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("K8V_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4
LONG = 240 if THOROUGH else 62  # seconds: sessions that are idle for longer than any time-out somebody might have thought to be long enough
ENOUGH = int(os.environ.get("K8V_ENOUGH", "3"))  # violations after which no more cases are started
LIGHT = os.environ.get("K8V_LIGHT") == "1"  # (only for tools/mutate.py: without the cases that mostly wait)
WATCHDOG = float(os.environ.get("K8V_WATCHDOG", "40"))  # seconds; only ever leads to a verdict after a second run agrees

# Message types of the wire protocol
WD, ENV, ARG, START, IN, OUT, ERR, TERM, EXIT = range(9)


def plain(x):
    """Anything as something JSON can hold."""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [plain(v) for v in x]
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


class Violation(Exception):
    def __init__(self, key, msg, **info):
        super().__init__(msg)
        self.key, self.msg, self.info = key, msg, info


class Hang(Violation):
    """Something that should have happened within a very generous time did not: only a violation if a second run agrees."""


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- building

CXXBASE = ["-std=c++11", "-g", "-I", REPO + "/src", "-pthread"]
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
N = VERIF + "/native/"
VARIANTS = {
    # name: (command, own sources)
    "static": (["g++", *CXXBASE, "-O0", "-DDEBUG", "-static", "{src}/k8psh.cxx"], []),  # as /opt/vp/build.sh builds it
    "release": (["g++", *CXXBASE, "-Os", "-static", "{src}/k8psh.cxx"], []),  # as the documentation builds it
    "dyn": (["g++", *CXXBASE, "-O1", "-U_FORTIFY_SOURCE", "-DDEBUG", "{src}/k8psh.cxx"], []),
    "asan": (["clang++", *CXXBASE, *SAN, "-DDEBUG", "{src}/k8psh.cxx", N + "assert.cxx"], [N + "assert.cxx"]),
    "units": (["g++", *CXXBASE, "-O1", "-DDEBUG", N + "units.cxx"], [N + "units.cxx"]),
    "units_asan": (["clang++", *CXXBASE, *SAN, "-DDEBUG", N + "units.cxx", N + "assert.cxx"], [N + "units.cxx", N + "assert.cxx"]),
    "fuzz_config": (["clang++", *CXXBASE, *SAN, "-fsanitize=fuzzer", "-DFUZZ_CONFIG", N + "fuzz.cxx", N + "assert.cxx"], [N + "fuzz.cxx", N + "assert.cxx"]),
    "probe": (["gcc", "-O1", "-static", N + "probe.c"], [N + "probe.c"]),
    "shim": (["gcc", "-O1", "-U_FORTIFY_SOURCE", "-fPIC", "-shared", N + "shim.c", "-ldl", "-pthread"], [N + "shim.c"]),
}
NO_REPO = {"probe", "shim"}


def _src_files():
    d = REPO + "/src"
    return sorted(os.path.join(d, f) for f in os.listdir(d))


def _key(variant):
    cmd, own = VARIANTS[variant]
    h = hashlib.sha256(json.dumps(cmd).encode())
    for f in own + ([] if variant in NO_REPO else _src_files()):
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read() + b"\0")
    return h.hexdigest()[:24]


class HarnessError(Exception):
    pass


def build(names):
    """Builds the variants from /repo's current sources, returns a private directory (readable by everyone) containing them."""
    cache = VERIF + "/.cache"
    os.makedirs(cache, exist_ok=True)
    run = tempfile.mkdtemp(prefix="k8v.bin.", dir="/tmp")
    os.chmod(run, 0o755)
    atexit.register(_rmtree, run)

    def one(v):
        out = "%s/%s-%s" % (cache, v, _key(v))
        if not os.path.exists(out):
            tmp = out + ".tmp.%d" % os.getpid()
            cmd = [a.replace("{src}", REPO + "/src") for a in VARIANTS[v][0]] + ["-o", tmp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise HarnessError("cannot build %s:\n%s" % (v, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, out)
        else:
            os.utime(out)  # (more recent than what gets removed below)
        d = "%s/%s" % (run, v)
        if v in ("static", "release", "dyn", "asan"):
            os.mkdir(d)
            shutil.copyfile(out, d + "/k8psh")
            os.chmod(d + "/k8psh", 0o755)
            os.symlink("k8psh", d + "/k8pshd")
        else:
            shutil.copyfile(out, d)
            os.chmod(d, 0o755)

    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, list(names)))
    old = []
    for f in os.listdir(cache):
        try:
            old.append((os.path.getmtime(os.path.join(cache, f)), os.path.join(cache, f)))
        except OSError:
            pass
    for t, f in sorted(old)[:-60]:
        if time.time() - t > 3600:
            try:
                os.unlink(f)
            except OSError:
                pass
    return run


def _rmtree(path):
    if path.startswith("/tmp/k8v."):
        shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- arenas

_portlock = threading.Lock()
_ports = set()


def free_port(count=1):
    """A port (or the first of count consecutive ones) below the ephemeral range that nothing is bound to."""
    with _portlock:
        for _ in range(5000):
            p = random.SystemRandom().randrange(10000, 30000 - count)
            if any(q in _ports for q in range(p, p + count)):
                continue
            try:
                for q in range(p, p + count):
                    s = socket.socket()
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    try:
                        s.bind(("127.0.0.1", q))
                    finally:
                        s.close()
            except OSError:
                continue
            _ports.update(range(p, p + count))
            return p
    raise HarnessError("no free port")


def listening(port):
    """Local addresses (as hex strings) of the listening TCP sockets on a port, without connecting to it."""
    r = []
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(f) as fh:
                next(fh)
                for line in fh:
                    a = line.split()
                    addr, p = a[1].rsplit(":", 1)
                    if a[3] == "0A" and int(p, 16) == port:
                        r.append(addr)
        except (OSError, StopIteration):
            pass
    return r


def tcp_count(port, states=None):
    """Number of TCP sockets with the local or remote port, per state."""
    c = collections.Counter()
    with open("/proc/net/tcp") as fh:
        next(fh)
        for line in fh:
            a = line.split()
            lp, rp = int(a[1].split(":")[1], 16), int(a[2].split(":")[1], 16)
            if port in (lp, rp) and a[3] != "0A":
                c[a[3]] += 1
    return c


def readsome(fd, n, what="output"):
    """Like os.read, but for a limited time."""
    import select
    if not select.select([fd], [], [], WATCHDOG)[0]:
        raise Hang("stuck", "nothing comes and nothing ends: %s" % what)
    return os.read(fd, n)


def wait_until(pred, timeout=None, step=0.002):
    end = time.monotonic() + (WATCHDOG if timeout is None else timeout)
    while True:
        v = pred()
        if v:
            return v
        if time.monotonic() > end:
            return v
        time.sleep(step)
        step = min(step * 1.3, 0.05)


_subreaper = False


def subreaper():
    """From now on, the exit status of background servers can be collected."""
    global _subreaper
    import ctypes
    if ctypes.CDLL(None).prctl(36, 1, 0, 0, 0) != 0:
        raise HarnessError("cannot become a subreaper")
    _subreaper = True


def wait_orphan(pid, what="background server"):
    """Waits for the end of an adopted process, returns its status as Popen does."""
    def pred():
        try:
            p, st = os.waitpid(pid, os.WNOHANG)
        except ChildProcessError:
            return None
        return (os.waitstatus_to_exitcode(st),) if p else None
    r = wait_until(pred)
    if not r:
        raise Hang("server-hang", what + " did not exit")
    return r[0]


class Arena:
    """A scratch directory and an unprivileged user of its own, in which the programs under test run."""

    def __init__(self, bindir):
        self.bin = bindir
        for _ in range(2000):
            uid = random.SystemRandom().randrange(100000, 1000000)
            self._lockname = "/tmp/.k8v-uid-%d" % uid
            try:
                self._lock = os.open(self._lockname, os.O_CREAT | os.O_EXCL | os.O_RDWR, 0o600)
                break
            except FileExistsError:
                continue
        else:
            raise HarnessError("no free uid")
        self.uid = uid
        self.root = tempfile.mkdtemp(prefix="k8v.", dir="/tmp")
        os.chmod(self.root, 0o755)
        os.chown(self.root, uid, uid)
        self.n = 0
        self.procs = []
        self.dir = None
        self.ports = []
        self.new()

    # -- files
    def new(self):
        """Ends everything that is running, and starts over in an empty directory."""
        self.clean()
        self.n += 1
        self.dir = "%s/%d" % (self.root, self.n)
        self.mkdir(self.dir)
        for d in ("work", "stubs", "sv", "san"):
            self.mkdir(self.dir + "/" + d)
        return self

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def mkdir(self, path):
        os.mkdir(path)
        os.chmod(path, 0o755)
        os.chown(path, self.uid, self.uid)

    def makedirs(self, path):
        if not os.path.isdir(path):
            self.makedirs(os.path.dirname(path.rstrip("/") if isinstance(path, str) else path.rstrip(b"/")))
            self.mkdir(path)

    def write(self, name, data, mode=0o644):
        path = name if name.startswith("/") else self.p(name)
        with open(path, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode(errors="surrogateescape"))
        os.chmod(path, mode)
        os.chown(path, self.uid, self.uid)
        return path

    def read(self, name):
        path = name if name.startswith("/") else self.p(name)
        try:
            with open(path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return b""

    def events(self, name="ev"):
        """The events recorded by the probe: [(name, a, b, pid, us)]"""
        r = []
        for line in self.read(name).decode().splitlines():
            a = line.split()
            if len(a) == 5:
                r.append((a[0], int(a[1]), int(a[2]), int(a[3]), int(a[4])))
        if any(e[0] == "harness-error" for e in r):
            raise HarnessError("probe: %r" % (r,))
        if any(e[0] == "bad-op" for e in r):
            raise Violation("arguments", "the command did not receive the arguments it was given: %r" % (r,))
        return r

    # -- processes
    def environment(self, env=None):
        """The complete environment of a process started with these variables."""
        e = {"PATH": "/usr/bin:/bin", "HOME": self.dir}
        e.update(env or {})
        if env is not None and "PATH" in env and env["PATH"] is None:
            del e["PATH"]
        e = {k: v for k, v in e.items() if v is not None}
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_sigill=1:log_path=%s/san/r" % self.dir)
        e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:log_path=%s/san/r" % self.dir)
        return e

    def popen(self, argv, env=None, cwd=None, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw):
        e = self.environment(env)
        fds = dict(close_fds=True)
        p = subprocess.Popen(argv, env=e, cwd=cwd or self.p("work"), stdin=stdin, stdout=stdout, stderr=stderr,
                             user=self.uid, group=self.uid, extra_groups=[], start_new_session=True, umask=0o022, **fds, **kw)
        self.procs.append(p)
        return p

    def probe(self, *args):
        """Runs a helper as the arena's user."""
        r = subprocess.run([self.bin + "/probe", *map(str, args)], stdout=subprocess.PIPE, user=self.uid, group=self.uid, extra_groups=[], cwd="/")
        return r.stdout

    def fds(self, pid):
        out = self.probe("fds", pid)
        try:
            return sorted((n, bytes.fromhex(h).decode(errors="replace")) for n, h in json.loads(out))
        except ValueError:
            return []

    def pids(self):
        """{pid: (comm, state, ppid)} of the processes of the arena's user."""
        r = {}
        for d in os.listdir("/proc"):
            if not d.isdigit():
                continue
            try:
                with open("/proc/%s/status" % d) as f:
                    st = dict(l.rstrip("\n").split(":\t", 1) for l in f if ":\t" in l)
                if int(st["Uid"].split()[0]) == self.uid:
                    r[int(d)] = (st["Name"], st["State"][0], int(st["PPid"]))
            except (OSError, KeyError, ValueError):
                pass
        return r

    def sanitizer_reports(self):
        r = []
        d = self.p("san")
        for f in sorted(os.listdir(d)):
            t = self.read(d + "/" + f).decode(errors="replace")
            if t.strip():
                r.append(t)
        return r

    def reap(self):
        """Orphans of the arena end up with the check if it is a subreaper."""
        own = {p.pid for p in self.procs}
        for pid, (n, st, pp) in self.pids().items():
            if st == "Z" and pp == os.getpid() and pid not in own:
                try:
                    os.waitpid(pid, os.WNOHANG)
                except OSError:
                    pass

    def clean(self):
        if self.dir is None:
            return
        for _ in range(200):
            self.probe("killall")
            for p in self.procs:
                p.poll()
            if _subreaper:
                self.reap()
            if not any(s != "Z" for _, s, _ in self.pids().values()):
                break
            time.sleep(0.005)
        for p in self.procs:
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                pass
            for f in (p.stdin, p.stdout, p.stderr):
                if f:
                    try:
                        f.close()
                    except OSError:
                        pass
        self.procs = []
        with _portlock:
            _ports.difference_update(self.ports)
        self.ports = []
        _rmtree(self.dir)
        self.dir = None

    def port(self, count=1):
        p = free_port(count)
        self.ports.extend(range(p, p + count))
        return p

    def close(self):
        self.clean()
        _rmtree(self.root)
        os.close(self._lock)
        try:
            os.unlink(self._lockname)
        except OSError:
            pass

    # -- the programs
    def server(self, conf, name="srv", opts=(), variant="static", port=None, env=None, cwd=None, wait=True, confname="k.conf", keep_opts=False, **kw):
        if conf is not None:
            self.write(confname, conf)
        s = Server()
        s.arena, s.port = self, port
        s.log = self.p("server.%d.log" % len(self.procs))
        argv = [self.bin + "/" + variant + "/k8pshd", "--config=" + self.p(confname), "--name=" + name]
        if not keep_opts:
            argv += ["-e", self.p("sv")]
        argv += list(opts)
        with open(s.log, "wb") as f:
            s.p = self.popen(argv, env=env, cwd=cwd or self.dir, stdout=f, stderr=f, **kw)
        s.pid = s.p.pid
        if wait:
            s.wait_listen()
        return s

    def client_argv(self, args, variant="static", stub=None):
        if stub:
            # one directory per variant: a link keeps the variant it has been created for
            path = self.p("stubs", stub) if variant == "static" else self.p("stubs", variant, stub)
            if not os.path.lexists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                try:
                    os.symlink(self.bin + "/" + variant + "/k8psh", path)
                except FileExistsError:
                    pass
            return [path, *args]
        return [self.bin + "/" + variant + "/k8psh", *args]

    def client(self, args, variant="static", stub=None, env=None, confname="k.conf", **kw):
        e = {"K8PSH_CONFIG": self.p(confname)}
        e.update(env or {})
        return self.popen(self.client_argv(args, variant, stub), env=e, **kw)

    def run(self, args, stdin=b"", timeout=None, what="client", **kw):
        """Runs a client to its end; returns (status, stdout, stderr)."""
        if stdin is None:
            kw["stdin"] = subprocess.DEVNULL
        else:
            kw["stdin"] = subprocess.PIPE
        p = self.client(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
        return finish(p, stdin, timeout, what)


ODD_NAMES = ["d l", "-", "-e", "--", "l'q", 'l"q', "l\\n", "l\tt", "l\nn", "${HOME}", "$x", "#", "\u00e4", "\udcff", "=", "a=b", "[s]", "*", "l:1"]


def spelled_dir(a, rng, path, cwd):
    """Some spelling of a directory for a process in cwd (call it before looking at what the directories contain)."""
    for _ in range(rng.choice((0, 0, 1, 1, 2))):
        k = rng.randrange(6)
        holder = a.p("lk%d" % rng.randrange(1 << 40))
        name = rng.choice(ODD_NAMES)
        if k < 3:
            a.makedirs(holder)
        if k == 0:  # a link with an odd name
            os.symlink(path, os.path.join(holder, name))
            path = os.path.join(holder, name)
        elif k == 1:  # a link to somewhere below, and back
            a.makedirs(path + "/zz-below") if not os.path.isdir(path + "/zz-below") else None
            os.symlink(path + "/zz-below", os.path.join(holder, name))
            path = os.path.join(holder, name) + "/.."
        elif k == 2:  # a link to a link, relative
            os.symlink(os.path.relpath(os.path.realpath(path), os.path.realpath(holder)), holder + "/a")
            os.symlink("a", os.path.join(holder, name))
            path = os.path.join(holder, name)
        elif k == 3:
            path = os.path.dirname(path) + "/./" + os.path.basename(path) + "//" if not path.endswith(("/", "/..")) else path + "/."
        elif k == 4:
            path = path + "/."
        else:
            path = "/" + path.lstrip("/").replace("/", "//")
    if rng.random() < 0.4 and os.path.realpath(cwd) == cwd:
        up = "../" * (cwd.count("/") - a.dir.count("/"))  # cwd is the arena's directory or below
        if path.startswith(a.dir + "/"):
            path = rng.choice(("", "./")) + up + path[len(a.dir) + 1:]
    return path


def invocation(a, rng, path):
    """Ways to start an executable, all with the same meaning: (argv[0], keyword arguments of popen) for the directory 'work'."""
    name = os.path.basename(path)
    k = rng.randrange(6)
    if k == 0:  # found in PATH: just the name
        return name, dict(executable=path)
    if k == 1:
        return os.path.relpath(path, a.p("work")), {}
    if k == 2:
        return os.path.dirname(path) + "/./../" + os.path.basename(os.path.dirname(path)) + "//" + name, {}
    if k == 3:  # a link to the link, under the same name
        d = a.p("l%d" % rng.randrange(1 << 30))
        a.mkdir(d)
        os.symlink(path, d + "/" + name)
        return d + "/" + name, {}
    if k == 4:  # the name it is called by counts, not what it is called for
        return "/some/where else/" + name, dict(executable=path)
    return path, {}


def finish(p, stdin=None, timeout=None, what="client"):
    """Feeds stdin and collects the outputs of a process; returns (status, stdout, stderr)."""
    try:
        out, err = p.communicate(stdin if p.stdin else None, timeout=WATCHDOG if timeout is None else timeout)
    except subprocess.TimeoutExpired:
        raise Hang("hang", "%s did not finish" % what)
    return p.returncode, out, err


class Server:
    def wait_listen(self):
        def ready():
            return listening(self.port) or self.p.poll() is not None
        if not wait_until(ready):
            raise Hang("server-start", "server does not start listening")
        if self.p.poll() is not None and not listening(self.port):
            log = self.output()
            if "Failed to bind" in log:
                raise Inconclusive("port in use")
            raise Violation("server-start", "server exited with %r while starting: %s" % (self.p.returncode, log[-500:]))

    def output(self):
        return self.arena.read(self.log).decode(errors="replace")

    def alive(self):
        return self.p.poll() is None

    def wait(self, timeout=None, what="server"):
        try:
            return self.p.wait(WATCHDOG if timeout is None else timeout)
        except subprocess.TimeoutExpired:
            raise Hang("server-hang", what + " did not exit")

    def stop(self, sig=signal.SIGTERM, timeout=None):
        self.p.send_signal(sig)
        return self.wait(timeout, "server (after signal %d)" % sig)


# ---------------------------------------------------------------- protocol

def frame(t, data=b""):
    if isinstance(data, int):
        return struct.pack("<Bi", t, data)
    return struct.pack("<BI", t, len(data)) + data


def request(cmd, args=(), wd=b"", env=()):
    b = lambda x: x if isinstance(x, bytes) else os.fsencode(x)
    return (frame(WD, b(wd)) + b"".join(frame(ARG, b(a)) for a in args) + b"".join(frame(ENV, b(e)) for e in env) + frame(START, b(cmd)))


class Raw:
    """A scripted client."""

    def __init__(self, port, timeout=None):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=WATCHDOG if timeout is None else timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def send(self, data, cuts=(), delay=0.0):
        last = 0
        for c in list(cuts) + [len(data)]:
            if c > last:
                self.s.sendall(data[last:c])
                last = c
                if delay and c < len(data):
                    time.sleep(delay)

    def frame(self):
        """The next message (type, payload or exit code), or None at the end of the connection."""
        while True:
            if len(self.buf) >= 5:
                t, n = struct.unpack("<BI", self.buf[:5])
                if t == EXIT:
                    v = struct.unpack("<i", self.buf[1:5])[0]
                    self.buf = self.buf[5:]
                    return t, v
                if len(self.buf) >= 5 + n:
                    d = self.buf[5:5 + n]
                    self.buf = self.buf[5 + n:]
                    return t, d
            try:
                got = self.s.recv(65536)
            except socket.timeout:
                raise Hang("raw-timeout", "server sends nothing more")
            except OSError as e:
                if e.errno in (errno.ECONNRESET, errno.EPIPE):
                    return None
                raise
            if not got:
                return None
            self.buf += got

    def collect(self):
        """All messages until the end: (stdout, stderr, exit status or None, closed streams, frames)"""
        out = {OUT: b"", ERR: b""}
        closed, n, status = [], 0, None
        while True:
            f = self.frame()
            if f is None:
                return out[OUT], out[ERR], status, closed, n
            n += 1
            if f[0] in out:
                if f[1]:
                    out[f[0]] += f[1]
                else:
                    closed.append(f[0])
            elif f[0] == IN:
                closed.append(IN)
            elif f[0] == EXIT:
                status = f[1]
            else:
                raise Violation("server-message", "server sent message type %d" % f[0])

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class FakeServer:
    """A scripted server: accepts connections on a port and lets the test talk to the real client."""

    def __init__(self, port):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", port))
        self.l.listen(16)
        self.l.settimeout(WATCHDOG)

    def accept(self):
        try:
            c, _ = self.l.accept()
        except socket.timeout:
            raise Hang("no-connection", "client does not connect")
        r = Raw.__new__(Raw)
        r.s, r.buf = c, b""
        c.settimeout(WATCHDOG)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return r

    def request(self, r):
        """Reads a request; returns the list of its messages."""
        m = []
        while True:
            f = r.frame()
            if f is None:
                return m
            m.append(f)
            if f[0] == START:
                return m

    def close(self):
        self.l.close()


# ---------------------------------------------------------------- data

_datacache = {}


def data(rng, n, kind=None):
    """n bytes: random, or of a kind that is likely to confuse framing and text handling."""
    kind = rng.choice(("random", "random", "random", "zeros", "frames", "text", "ff")) if kind is None else kind
    if kind == "random":
        return rng.randbytes(n)
    if kind == "zeros":
        return bytes(n)
    if kind == "ff":
        return b"\xff" * n
    if kind == "text":
        s = b"".join(b"line %d\r\n\x1a\x04" % i for i in range(n // 8 + 1))
        return s[:n]
    s = (frame(EXIT, 0) + frame(IN) + frame(OUT) + frame(ERR, b"x") + frame(TERM)) * (n // 25 + 1)
    return s[:n]


def first_diff(a, b):
    n = min(len(a), len(b))
    lo, hi = 0, n
    if a[:n] == b[:n]:
        return n
    while lo + 1 < hi:
        mid = (lo + hi) // 2
        if a[:mid] == b[:mid]:
            lo = mid
        else:
            hi = mid
    return lo


def describe_diff(what, expected, got):
    i = first_diff(expected, got)
    return "%s differs: expected %d bytes, got %d, first difference at %d (expected ..%r, got ..%r)" % (what, len(expected), len(got), i, expected[i:i + 24], got[i:i + 24])


def size(rng, big=300000):
    """Sizes around all interesting boundaries."""
    k = rng.random()
    if k < 0.15:
        return rng.randrange(0, 6)
    if k < 0.55:
        b = rng.choice((8192, 8187, 16384, 65536, 65535, 4096, 131072, 1024, 65531))
        return max(0, b + rng.randrange(-7, 8))
    if k < 0.8:
        return rng.randrange(1, 20000)
    return rng.randrange(1, big)


def cmd_status(rc):
    """A shell-like description of a Popen return code."""
    return "signal %d" % -rc if rc < 0 else "exit %d" % rc


# ---------------------------------------------------------------- checks

class Check:
    """Runs the cases of one property, decides, and writes the evidence."""

    def __init__(self, prop, level, rule, variants, workers=None, assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.workers = workers or NCPU
        self.variants = variants
        self.assumptions = list(assumptions)
        self.t0 = time.monotonic()
        self.cases = []
        self.waiting = []
        self.lock = threading.Lock()
        self.stats = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.errors = []
        self.known = load_known(prop)
        self.known_hit = collections.Counter()
        self.local = threading.local()
        self.arenas = []
        self.extra = {}
        self.executed = 0

    # -- collecting
    def add(self, name, fn, **params):
        self.cases.append((name, fn, params))

    def add_long(self, name, fn, **params):
        """A case that mostly waits: it runs besides the others, from the beginning."""
        if not LIGHT:
            self.waiting.append((name, fn, params))

    def count(self, name, n=1):
        with self.lock:
            self.stats[name] += n

    def seen(self, *sig):
        """Records the signature of what an execution did; distinct ones are counted."""
        with self.lock:
            self.sigs.add(sig)

    def sample(self, **kw):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(kw)

    def rng(self, name):
        return random.Random("%d/%s/%s" % (SEED, self.prop, name))

    def arena(self):
        a = getattr(self.local, "arena", None)
        if a is None:
            a = self.local.arena = Arena(self.bin)
            with self.lock:
                self.arenas.append(a)
        return a

    # -- running
    def _attempt(self, name, fn, params):
        a = self.arena().new()
        try:
            fn(self, a, self.rng(name), name, **params)
            reports = a.sanitizer_reports()
            if reports:
                raise Violation("sanitizer", reports[0][:2000])
        finally:
            a.clean()

    def _case(self, case):
        name, fn, params = case
        if len(self.violations) >= ENOUGH:
            return
        with self.lock:
            self.executed += 1
        tries = 0
        hang = None
        while True:
            tries += 1
            try:
                self._attempt(name, fn, params)
                if hang:
                    with self.lock:
                        self.inconclusive.append((name, "not reproduced: " + hang.msg))
                return
            except (Hang, subprocess.TimeoutExpired, TimeoutError) as e:
                if not isinstance(e, Hang):
                    e = Hang("timeout", "something does not end: %s" % e)
                if hang is None:
                    hang = e
                    continue
                self._violation(name, e)
                return
            except Violation as e:
                self._violation(name, e)
                return
            except Inconclusive as e:
                if tries < 4:
                    continue
                with self.lock:
                    self.inconclusive.append((name, str(e)))
                return
            except Exception:
                if os.environ.get("K8V_TRACE"):
                    traceback.print_exc()
                if tries < 3:
                    time.sleep(0.2)
                    continue
                with self.lock:
                    self.errors.append((name, traceback.format_exc()))
                return

    def _violation(self, name, e):
        key = "%s" % e.key
        for k in self.known:
            if k == key:
                with self.lock:
                    self.known_hit[k] += 1
                return
        with self.lock:
            self.violations.append((name, e))

    def main(self, argv):
        try:
            self.bin = build(self.variants + (["probe"] if "probe" not in self.variants else []))
        except HarnessError as e:
            print("ERROR " + str(e))
            sys.exit(2)
        only = None
        if "--case" in argv:
            only = argv[argv.index("--case") + 1]
            self.cases = [c for c in self.cases if c[0] == only]
            self.waiting = [c for c in self.waiting if c[0] == only]
        try:
            with ThreadPoolExecutor(40) as slow, ThreadPoolExecutor(self.workers) as ex:
                w = slow.map(self._case, self.waiting)
                list(ex.map(self._case, self.cases))
                list(w)
        finally:
            for a in self.arenas:
                try:
                    a.close()
                except Exception:
                    traceback.print_exc()
        self.finish(only)

    def finish(self, only=None):
        ev = {
            "property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
            "coverage": dict(self.extra, evaluations=self.stats.get("evaluations", self.executed), distinct_nontrivial=len(self.sigs), rule=self.rule,
                             samples=self.samples or [dict(case=c[0]) for c in (self.cases + self.waiting)[:3]], cases=self.executed,
                             observed={k: v for k, v in sorted(self.stats.items()) if k != "evaluations"},
                             inconclusive=len(self.inconclusive), inconclusive_notes=["%s: %s" % i for i in self.inconclusive[:5]]),
            "assumptions": self.assumptions, "wall_s": round(time.monotonic() - self.t0, 3), "violations": len(self.violations),
        }
        if only is None:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            tmp = VERIF + "/evidence/.%s.%d" % (self.prop, os.getpid())
            with open(tmp, "w") as f:
                json.dump(plain(ev), f, indent=1)
                f.write("\n")
            os.rename(tmp, VERIF + "/evidence/%s.json" % self.prop)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for name, why in self.inconclusive[:5]:
            print("inconclusive: %s: %s" % (name, why))
        if self.violations:
            os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
            for i, (name, e) in enumerate(self.violations[:3]):
                path = "evidence/replay/%s-%d.json" % (self.prop, i)
                with open(VERIF + "/" + path, "w") as f:
                    json.dump(plain({"property": self.prop, "case": name, "seed": SEED, "tier": TIER, "key": e.key, "what": e.msg, "info": e.info,
                               "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 checks/run.py %s --case %s" % (SEED, TIER, self.prop, name)}), f, indent=1)
                print("%s [%s] %s" % (name, e.key, e.msg[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        if self.errors:
            for name, tb in self.errors[:3]:
                print("ERROR in case %s\n%s" % (name, tb))
            sys.exit(2)
        if not self.executed or len(self.inconclusive) * 5 > self.executed or not self.sigs:
            print("ERROR: inconclusive (%d of %d cases, %d distinct executions)" % (len(self.inconclusive), self.executed, len(self.sigs)))
            sys.exit(3)
        print("%s: held on %d evaluations (%d cases, %d distinct), %s; %.1fs" % (self.prop, ev["coverage"]["evaluations"], self.executed, len(self.sigs), dict(sorted(self.stats.items())), ev["wall_s"]))
        sys.stdout.flush()
        sys.exit(0)


def load_known(prop):
    r = []
    try:
        with open(VERIF + "/known_findings.txt") as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    r.append(line.split("key=", 1)[1].split()[0])
    except OSError:
        pass
    return r


def conf(a, port, commands, name="srv", base="work", settings="", header=""):
    """A configuration with one server."""
    return "baseDirectory = '%s'\n%s[%s:%d] %s\n%s\n" % (a.p(base) if not base.startswith("/") else base, settings, name, port, header, "\n".join(commands))


# ---------------------------------------------------------------- calling the sources' public functions

class UnitError(Exception):
    """The function reported an error."""


class Units:
    def __init__(self, a, variant="units", env=None, cwd=None):
        self.p = a.popen([a.bin + "/" + variant], env=dict(env or {}), cwd=cwd or a.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.a = a
        self.fd = self.p.stdout.fileno()
        self.buf, self.pos = b"", 0
        self.calls = 0
        self.last = None

    def _need(self, n):
        import select
        parts, have = [self.buf[self.pos:]], len(self.buf) - self.pos
        while have < n:
            r, _, _ = select.select([self.fd], [], [], WATCHDOG)
            if not r:
                raise Hang("unit-hang", "call does not return: %.20000r" % (self.last,))
            got = os.read(self.fd, 1 << 20)
            if not got:
                self.p.wait()
                reports = self.a.sanitizer_reports()
                raise Violation("crash", "%s ended the process: %s; call %s" % (cmd_status(self.p.returncode), reports[0][:1500] if reports else "", repr(self.last)[:20000]))
            parts.append(got)
            have += len(got)
        self.buf, self.pos = b"".join(parts), 0

    def _take(self, n):
        if len(self.buf) - self.pos < n:
            self._need(n)
        self.pos += n
        return self.buf[self.pos - n:self.pos]

    def call(self, *args):
        args = [x if isinstance(x, bytes) else os.fsencode(x) for x in args]
        self.last = args
        self.calls += 1
        try:
            self.p.stdin.write(struct.pack("<I", len(args)) + b"".join(struct.pack("<I", len(x)) + x for x in args))
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        n, = struct.unpack("<I", self._take(4))
        out = []
        for _ in range(n):
            k, = struct.unpack("<I", self._take(4))
            out.append(self._take(k))
        if out[0] == b"err":
            raise UnitError(out[1].decode(errors="replace"))
        return out[1:]

    def batch(self, calls, size=500):
        """Many calls at once: a list of results, which are lists of values or UnitErrors."""
        r = []
        for k in range(0, len(calls), size):
            flat = []
            for args in calls[k:k + size]:
                flat.append(b"%d" % len(args))
                flat.extend(args)
            o = iter(self.call(b"batch", *flat))
            for args in calls[k:k + size]:
                got = [next(o) for _ in range(int(next(o)))]
                r.append(UnitError(got[1].decode(errors="replace")) if got[0] == b"err" else got[1:])
        return r

    def load(self, text, wd="", hosts=()):
        return self.parse_load(self.call("load", text, wd, *hosts), hosts)

    def parse_load(self, values, hosts=()):
        o = iter(values)
        i = lambda: int(next(o))

        def command():
            key = next(o)
            c = dict(name=next(o), host=next(o), port=i())
            c["options"] = [next(o) for _ in range(i())]
            c["env"] = [(next(o), next(o)) for _ in range(i())]
            c["exe"] = [next(o) for _ in range(i())]
            if key != c["name"]:
                raise Violation("map-key", "command %r is listed as %r" % (c["name"], key))
            return key, c

        r = dict(base=next(o), timeout=i(), commands=dict(command() for _ in range(i())), hosts={})
        for h in hosts:
            n = next(o)
            r["hosts"][h] = None if n == b"none" else dict(command() for _ in range(int(n)))
        return r

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.wait()


# ---------------------------------------------------------------- driving sessions

def stutter(p, a, rng, rounds=12, pause=0.04):
    """Stops one or several processes of the arena (clients, servers, sessions, commands) again and again for moments, until p has ended."""
    n = 0
    for _ in range(rng.randrange(1, rounds)):
        if p.poll() is not None:
            break
        own = [pid for pid, (_, st, _) in a.pids().items() if st != "Z"]
        stopped = rng.sample(own, min(len(own), rng.choice((1, 1, 1, 2, 4))))
        try:
            for pid in stopped:
                try:
                    os.kill(pid, signal.SIGSTOP)
                except OSError:
                    pass
            time.sleep(rng.random() * pause)
        finally:
            for pid in stopped:
                try:
                    os.kill(pid, signal.SIGCONT)
                except OSError:
                    pass
        n += len(stopped)
        time.sleep(rng.random() * 0.01)
    return n


def drive(p, feed=None, out_plan=None, err_plan=None, timeout=None, what="client", noise=None, shaky=None):
    """Feeds stdin by [(bytes, delay)] and reads the outputs at the given pace (chunk, delay); returns (status, stdout, stderr).
    noise: list of (delay, pid signal target function) executed meanwhile."""
    res = {}

    def reader(name, f, plan):
        chunk, delay, limit = (plan or (1 << 16, 0, 0)) + ((0,) if plan and len(plan) == 2 else ())
        b = []
        n = 0
        while True:
            try:
                d = os.read(f.fileno(), chunk)
            except OSError:
                break
            if not d:
                break
            b.append(d)
            n += 1
            if delay and (not limit or n < limit):
                time.sleep(delay)
        res[name] = b"".join(b)

    def feeder():
        fd = p.stdin.fileno()
        try:
            for d, delay in feed:
                v = memoryview(d)
                while len(v):
                    v = v[os.write(fd, v):]
                if delay:
                    time.sleep(delay)
        except OSError:
            pass
        try:
            p.stdin.close()
        except OSError:
            pass

    ts = []
    if p.stdin is not None:
        ts.append(threading.Thread(target=feeder, daemon=True))
    if p.stdout is not None:
        ts.append(threading.Thread(target=reader, args=("out", p.stdout, out_plan), daemon=True))
    if p.stderr is not None:
        ts.append(threading.Thread(target=reader, args=("err", p.stderr, err_plan), daemon=True))
    for t in ts:
        t.start()
    for delay, act in noise or ():
        time.sleep(delay)
        if p.poll() is not None:
            break
        act()
    if shaky:  # (arena, random numbers)
        stutter(p, *shaky)
    end = time.monotonic() + (WATCHDOG if timeout is None else timeout)
    try:
        p.wait(max(0.1, end - time.monotonic()))
    except subprocess.TimeoutExpired:
        p.kill()
        raise Hang("hang", "%s did not finish (%d bytes of stdout, %d of stderr so far)" % (what, len(res.get("out", b"")), len(res.get("err", b""))))
    for t in ts[1 if p.stdin is not None else 0:]:
        t.join(max(1, end - time.monotonic()))
        if t.is_alive():
            raise Hang("hang-output", "%s exited but its output stays open" % what)
    return p.returncode, res.get("out", b""), res.get("err", b"")


SHIM_KINDS = ("", "", "short", "delay", "both")


def shim_env(a, rng, kind=None):
    """Environment for preloading the shim with short transfers and / or delays into a dynamically linked build."""
    kind = rng.choice(("short", "delay", "both")) if kind is None else kind
    e = {"LD_PRELOAD": a.bin + "/shim"}
    if kind in ("short", "both"):
        e["SHIM_SHORT"] = "%d:%d:%d" % (rng.randrange(1, 1 << 30), rng.choice((1, 3, 7, 100, 5000)), rng.choice((5, 30, 60)))
    if kind in ("delay", "both"):
        e["SHIM_DELAY"] = "%d:%d:%d" % (rng.randrange(1, 1 << 30), rng.choice((100, 1000, 3000)), rng.choice((2, 5, 15)))
    if rng.random() < 0.5:
        e["SHIM_JUMP"] = str(rng.randrange(1 << 30))  # (nothing but the time in messages may depend on the wall clock)
    return e


def pick_variant(a, rng, i=None):
    """(variant, environment) for server and client: shipped build mostly, with perturbed ones in between."""
    k = rng.randrange(10) if i is None else i % 10
    if k < 4:
        return "static", {}
    if k < 6:
        return "release", {}
    return "dyn", shim_env(a, rng)


def plain_conf(a, port, extra=(), header=""):
    """One server offering the probe as 'cmd' (which gets all its operations from the client)."""
    return conf(a, port, ["cmd '%s/probe'" % a.bin, "rep '%s/probe'" % a.bin, *extra], header=header)


def write_plan(rng, total_cap=400000, streams=(1, 2), nops=None):
    """A random sequence of writes to the streams: returns (data, ops, {fd: expected bytes})"""
    big = total_cap
    n = nops or rng.choice((1, 1, 2, 3, 5, 9))
    pieces, ops, off = [], [], 0
    exp = {1: [], 2: []}
    for _ in range(n):
        k = size(rng, max(2, big))
        k = min(k, total_cap - off)
        if k < 0:
            break
        d = data(rng, k)
        fd = rng.choice(streams)
        chunk = rng.choice((0, 0, 1 + rng.randrange(1, 70000), rng.randrange(1, 9000), 65536, 8192, 4096))
        if chunk and k / chunk > 400:
            chunk = k // 400 + 1
        delay = rng.choice((0, 0, 0, 200, 2000)) if chunk and k / chunk < 30 else 0
        pieces.append(d)
        ops.append((fd, off, k, chunk, delay))
        exp[fd].append(d)
        off += k
    return b"".join(pieces), ops, {k: b"".join(v) for k, v in exp.items()}


def ops_args(ops, file):
    r = []
    for fd, off, k, chunk, delay in ops:
        r += ["w", fd, file, off, k, chunk, delay]
    return [str(x) for x in r]
