#!/usr/bin/env python3
"""Systematic small changes to the sources: which compile, pass the repository's tests and are not noticed by any check?

mutate.py filter OUT.json [N]  generates them, keeps those that differ after optimization, build and pass the stable tests
mutate.py check IN.json LOG [N] [SEED]   runs the checks, most relevant first, against N of them, chosen at random

Works on copies in /tmp; /repo is only read."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
SRC = os.environ.get("MUTSRC", "/repo")
FILES = ["Configuration.cxx", "Main.cxx", "Process.cxx", "Socket.cxx", "Utilities.cxx", "Utilities.hxx", "Configuration.hxx", "Socket.hxx"]
JOBS = int(os.environ.get("JOBS", "7"))
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d[\w.]*|<<=|>>=|->|\+\+|--|&&|\|\||[<>=!+\-*/%&|^]=|<<|>>|::|.|\n', re.S)


def active(text):
    """For each line: is it compiled on Linux?"""
    stack, out = [], []
    for line in text.split("\n"):
        s = re.sub(r"\s+", " ", line.strip().replace("# ", "#"))
        if s.startswith("#if"):
            win = "_WIN32" in s or "__APPLE__" in s or "GIT_VERSION" in s or re.search(r"ifdef K8PSH_DEBUG", s)
            neg = s.startswith("#ifndef") or "!defined" in s
            stack.append((neg if win else True, win))
            out.append(False)
            continue
        if s.startswith("#el"):
            cur, win = stack[-1]
            stack[-1] = ((not cur) if win and "__APPLE__" not in s else (False if "__APPLE__" in s else cur), win)
            out.append(False)
            continue
        if s.startswith("#endif"):
            stack.pop()
            out.append(False)
            continue
        out.append(all(c for c, w in stack) and not s.startswith("#"))
    return out


SWAPS = {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"],
         "+": ["-"], "-": ["+"], "+=": ["-=", "="], "-=": ["+="], "++": ["--"], "--": ["++"], "true": ["false"], "false": ["true"], "!": [""],
         "continue": ["break"], "break": ["continue", ""], "&": ["|"], "|": ["&"], "|=": ["="]}


def mutants():
    for f in FILES:
        text = open(SRC + "/src/" + f).read()
        act = active(text)
        lines = text.split("\n")
        pos, tokens = 0, []
        for m in TOKEN.finditer(text):
            tokens.append((m.start(), m.group()))
        lineof = lambda p: text.count("\n", 0, p)
        quiet = lambda n: not act[n] or any(w in lines[n] for w in ("LOG_DEBUG", "std::cout", "LOG_WARNING", "#include"))
        for i, (p, t) in enumerate(tokens):
            n = lineof(p)
            if quiet(n):
                continue
            for r in SWAPS.get(t, []):
                yield f, p, t, r
            if re.fullmatch(r"\d+", t):
                yield f, p, t, str(int(t) + 1)
                if t not in "01":
                    yield f, p, t, "0"
                if t != "0":
                    yield f, p, t, str(int(t) - 1)
            if t == "'" or (t.startswith("'") and len(t) >= 3):
                yield f, p, t, "'\\1'"
            if t in ("if", "while"):
                j = text.index("(", p)
                d, k = 0, j
                while True:
                    if text[k] == "(":
                        d += 1
                    elif text[k] == ")":
                        d -= 1
                        if not d:
                            break
                    k += 1
                cond = text[j:k + 1]
                if "#" in cond:
                    continue
                yield f, j, cond, "(true || %s)" % cond
                yield f, j, cond, "(false && %s)" % cond
        off = 0
        for n, l in enumerate(lines):
            s = l.strip()
            if act[n] and s.endswith(";") and not quiet(n) and not s.startswith(("return", "}", "break", "continue", "std::string ", "using", "typedef", "#")) and s != ";":
                yield f, off + len(l) - len(l.lstrip()), s, "(void)0;"
            off += len(l) + 1


def apply(d, m):
    f, p, old, new = m
    t = open(SRC + "/src/" + f).read()
    assert t[p:p + len(old)] == old
    open(d + "/src/" + f, "w").write(t[:p] + new + t[p + len(old):])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw)


local = threading.local()


def workdir():
    d = getattr(local, "d", None)
    if not d:
        d = local.d = tempfile.mkdtemp(prefix="k8mut.", dir="/tmp")
        sh("cp -r " + SRC + "/. %s; cd %s && /bin/rm -rf ./.git ./_build" % (d, d))
        sh("CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C %s/_build" % (d, d, d))
    return d


TEST = r'''
B=%(d)s/_build; rm -f $B/[0-9]_k8pshTest $B/k8pshTest.conf $B/test.out $B/test.err $B/test3.out $B/k8psh.pid; ip link set lo up; unset K8PSH_CONFIG K8PSH_DEBUG WORKSPACE; B=%(d)s/_build; cd %(d)s
timeout 20 ctest --test-dir $B --timeout 5 --stop-on-failure || exit 1
timeout 6 $B/k8pshd --background --config=k8psh_example.conf --name=gcc --pidfile=$B/k8psh.pid </dev/null && sleep 0.4 && kill -9 $(cat $B/k8psh.pid)
r=$?
exit $r
'''


def opthash(d):
    r = sh("g++ -std=c++11 -O1 -DDEBUG -I %s/src -S -o - %s/src/k8psh.cxx | grep -v '\\.ident\\|\\.file' | sha256sum; exit ${PIPESTATUS[0]}" % (d, d), executable="/bin/bash")
    return r.returncode, r.stdout


base = [None]


def consider(m):
    d = workdir()
    try:
        apply(d, m)
        code, h = opthash(d)
        if code:
            return "nobuild"
        if h == base[0]:
            return "equal"
        if sh("ninja -C %s/_build" % d).returncode:
            return "nobuild"
        try:
            r = sh(["unshare", "-n", "-p", "-f", "--kill-child", "bash", "-c", TEST % {"d": d}], timeout=120)
        except subprocess.TimeoutExpired:
            return "tests"
        return "alive" if r.returncode == 0 else "tests"
    finally:
        shutil.copy(SRC + "/src/" + m[0], d + "/src/" + m[0])


ORDER = {
    "Configuration.cxx": "C18 C19 C20 C24 C21 C30", "Configuration.hxx": "C19 C20 C24 C12 C25",
    "Process.cxx": "C17 C01 C02 C03 C15 C14 C16 C25 C07 C04 C06 C05 C08 C09 C29 C32 C24 C27 C33",
    "Socket.cxx": "C01 C04 C17 C12 C25 C28 C10 C09 C08 C26 C24", "Socket.hxx": "C01 C04 C09 C08 C25 C24",
    "Utilities.cxx": "C22 C21 C27 C16 C12 C13 C23 C18 C30 C24 C01", "Utilities.hxx": "C22 C21 C27 C30 C01 C24 C15 C10",
    "Main.cxx": "C26 C12 C10 C11 C13 C23 C30 C28 C31 C08 C09 C27 C03 C07 C33",
}
ALL = ["C%02d" % i for i in range(1, 34)]


def order(m):
    first = ORDER[m[0]].split()
    line = open(SRC + "/src/" + m[0]).read()[:m[1]].count("\n") + 1
    if m[0] == "Main.cxx":
        t = open(SRC + "/src/Main.cxx").read()
        if m[1] < t.index("static const std::string defaultPidFilename"):
            first = "C26 C30 C23 C12 C10 C13 C03".split()
    if m[0] == "Process.cxx":
        t = open(SRC + "/src/Process.cxx").read()
        a, b = t.index("int k8psh::Process::runRemoteCommand"), t.index("void k8psh::Process::run(")
        if a < m[1] < b:
            first = "C25 C01 C02 C03 C04 C15 C06 C05 C29 C30 C14 C27".split()
    return first + ([c for c in ALL if c not in first] if os.environ.get("ALLCHECKS") else []), line


def check(m, log):
    d = tempfile.mkdtemp(prefix="k8mut.", dir="/tmp")
    os.chmod(d, 0o755)
    try:
        sh("cp -r " + SRC + "/src %s/src" % d)
        apply(d, m)
        props, line = order(m)
        seen = []
        for p in props:
            env = dict(os.environ, K8V_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", K8V_LIGHT=os.environ.get("K8V_LIGHT", "1"), K8V_ENOUGH="1", K8V_WATCHDOG="20")
            c = sh(["timeout", "600", "python3", "checks/run.py", p], cwd=V, env=env)
            o = c.stdout.decode(errors="replace")
            if c.returncode == 1 and "VIOLATION property=%s " % p in o:
                res = "caught %s: %s" % (p, o.strip().split("\n")[0][:160])
                break
            if c.returncode:
                seen.append("%s:%d" % (p, c.returncode))
        else:
            res = "SURVIVED " + " ".join(seen)
        with open(log, "a") as f:
            f.write(json.dumps({"m": m, "line": line, "res": res}) + "\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "count":
        print(len(list(mutants())))
    elif sys.argv[1] == "filter":
        ms = list(dict.fromkeys(mutants()))
        random.Random(7).shuffle(ms)
        ms = ms[:int(sys.argv[3]) if len(sys.argv) > 3 else None]
        d = workdir()
        base[0] = opthash(d)[1]
        res = {}
        with ThreadPoolExecutor(JOBS) as ex:
            for m, r in zip(ms, ex.map(consider, ms)):
                res.setdefault(r, []).append(m)
                n = sum(map(len, res.values()))
                if n % 50 == 0:
                    print(n, len(ms), {k: len(v) for k, v in res.items()}, flush=True)
                    json.dump(res, open(sys.argv[2], "w"))
        json.dump(res, open(sys.argv[2], "w"))
        print({k: len(v) for k, v in res.items()})
        sh("/bin/rm -rf /tmp/k8mut.*")
    else:
        ms = [tuple(m) for m in json.load(open(sys.argv[2]))["alive"]]
        log = sys.argv[3]
        done = set()
        if os.path.exists(log):
            done = {tuple(json.loads(l)["m"]) for l in open(log)}
        random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(ms)
        ms = [m for m in ms[:int(sys.argv[4]) if len(sys.argv) > 4 else None] if m not in done]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda m: check(m, log), ms))
