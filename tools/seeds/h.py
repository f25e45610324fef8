"""What the demonstrations share: everything happens in a scratch directory, with processes in a group of their own."""
import atexit, os, shutil, signal, socket, struct, subprocess, sys, tempfile, time

BIN = os.path.realpath("_build/k8psh")
SRC = os.path.realpath("src")
DIR = os.path.realpath(tempfile.mkdtemp(prefix="k8demo."))
PROCS = []
WD, ENV, ARG, START, IN, OUT, ERR, TERM, EXIT = range(9)
signal.signal(signal.SIGPIPE, signal.SIG_DFL)
for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGCHLD):
    signal.signal(s, signal.SIG_DFL)
signal.alarm(250)


def cleanup():
    for p in PROCS:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(DIR, ignore_errors=True)


atexit.register(cleanup)
for d in ("sv", "cl", "work"):
    os.mkdir(DIR + "/" + d)
shutil.copy(BIN, DIR + "/k8psh")
shutil.copy(BIN, DIR + "/k8pshd")


def bad(msg):
    print("BROKEN: " + msg)
    sys.exit(1)


def port(n=1):
    while True:
        p = 20000 + int.from_bytes(os.urandom(2), "little") % 10000
        try:
            for i in range(n):
                with socket.socket() as s:
                    s.bind(("127.0.0.1", p + i))
            return p
        except OSError:
            pass


def popen(argv, env=None, **kw):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin")}
    e.update(env or {})
    p = subprocess.Popen(argv, env=e, start_new_session=True, restore_signals=True, **kw)
    PROCS.append(p)
    return p


def write(name, text, mode=0o644):
    path = os.path.join(DIR, name)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    os.chmod(path, mode)
    return path


def conf(commands, p, base=None, settings="", header="", name="srv", extra="", file="k.conf"):
    return write(file, "baseDirectory = '%s'\n%s\n[%s:%d] %s\n%s\n%s\n" % (base or DIR + "/work", settings, name, p, header, "\n".join(commands), extra))


def listening(p):
    with open("/proc/net/tcp") as f:
        return any(l.split()[1].endswith(":%04X" % p) and l.split()[3] == "0A" for l in f.readlines()[1:])


def wait(cond, t=20):
    end = time.monotonic() + t
    while time.monotonic() < end:
        if cond():
            return True
        time.sleep(0.02)
    return bool(cond())


def server(p, opts=(), env=None, name="srv", cwd=None, start=True, **kw):
    kw.setdefault("stdout", subprocess.DEVNULL)
    kw.setdefault("stderr", subprocess.DEVNULL)
    s = popen([DIR + "/k8pshd", "--config=" + DIR + "/k.conf", "--name=" + name, "-e", DIR + "/sv", *opts], env=env, cwd=cwd or DIR, stdin=subprocess.DEVNULL, **kw)
    if start and not wait(lambda: listening(p)):
        print("cannot start the server")
        sys.exit(3)
    return s


def client(cmd, args=(), cwd=None, env=None, opts=(), **kw):
    return popen([DIR + "/k8psh", "--config=" + DIR + "/k.conf", *opts, cmd, *args], cwd=cwd or DIR + "/work", env=env, **kw)


def run(cmd, args=(), data=b"", timeout=60, **kw):
    p = client(cmd, args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", b"", b""
    return p.returncode, out, err


def msg(t, data=b"", n=None):
    return struct.pack("<BI", t, len(data) if n is None else n) + data


def connect(p):
    s = socket.create_connection(("127.0.0.1", p))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def request(p, name=b"cmd", args=()):
    s = connect(p)
    s.sendall(msg(WD) + b"".join(msg(ARG, a) for a in args) + msg(START, name))
    return s


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def ticks(pid):
    with open("/proc/%d/stat" % pid) as f:
        a = f.read().rsplit(")", 1)[1].split()
    return int(a[11]) + int(a[12])


def children(pid):
    r = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    if int(f.read().rsplit(")", 1)[1].split()[1]) == pid:
                        r.append(int(d))
            except (OSError, IndexError):
                pass
    return r
