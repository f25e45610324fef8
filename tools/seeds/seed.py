#!/usr/bin/env python3
"""seed.py make|try [id...]: makes /verif/seeded/<id> from the definitions, or tries them: builds, tests, demonstrates, runs checks (then restores /repo)."""
import json, os, shutil, subprocess, sys, time
V = "/verif"
H = V + "/tools/seeds"
R = os.environ.get("SEEDREPO", "/repo")  # (a clone can be used instead, with the tests in a network namespace)
BUILD, TEST = "bash /opt/vp/build.sh", "bash /opt/vp/test.sh /tmp/seedtest.json"
if R != "/repo":
    BUILD = "CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C %s/_build" % (R, R, R)
    TEST = ["unshare", "-n", "-p", "-f", "--kill-child", "bash", "-c", """ip link set lo up; unset K8PSH_CONFIG K8PSH_DEBUG WORKSPACE; B=%s/_build; cd %s
ctest --test-dir $B --timeout 30 </dev/null || exit 1
$B/k8pshd --background --config=k8psh_example.conf --name=gcc --pidfile=$B/k8psh.pid </dev/null && sleep 1 && kill -9 $(cat $B/k8psh.pid)
r=$?; rm -f $B/k8psh.pid; exit $r""" % (R, R)]
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


for f in sorted(os.listdir(H)):
    if f.startswith("defs") and f.endswith(".py"):
        exec(open(H + "/" + f).read())


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    assert not sh("git -C %s status --porcelain" % R).stdout, "dirty"


def make(s):
    clean()
    try:
        for f, old, new in s["edits"]:
            p = R + "/src/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = V + "/seeded/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "wb").write(diff)
        shutil.copy(H + "/h.py", d + "/h.py")
        open(d + "/demo.py", "w").write("from h import *\n" + s["demo"].strip("\n") + '\nprint("as specified")\n')
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    finally:
        sh("git -C %s checkout -- ." % R)


def demo(s):
    t = time.time()
    try:
        r = sh("bash %s/seeded/%s/demo.sh" % (V, s["id"]), cwd=R, timeout=300)
    except subprocess.TimeoutExpired:
        return "timeout", "", 300
    return r.returncode, r.stdout.decode(errors="replace").strip()[-300:], time.time() - t


def attempt(s, props):
    clean()
    r = {"id": s["id"]}
    try:
        assert sh(BUILD).returncode == 0
        r["demo_clean"] = demo(s)
        a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, s["id"]))
        assert a.returncode == 0, a.stdout
        b = sh(BUILD)
        r["build"] = b.returncode
        if b.returncode:
            r["out"] = b.stdout.decode()[-1500:]
            return r
        t = sh(TEST)
        if R != "/repo":
            json.dump({"passed": [], "failed": ["some"] if t.returncode else []}, open("/tmp/seedtest.json", "w"))
        r["tests"] = t.returncode
        res = json.load(open("/tmp/seedtest.json"))
        r["testres"] = res
        r["demo_bug"] = demo(s)
        for p in props or [s["prop"]]:
            t0 = time.time()
            if os.environ.get("NOCHECK"):
                continue
            c = sh("python3 checks/run.py %s" % p, cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            out = c.stdout.decode(errors="replace")
            r["check_" + p] = (c.returncode, "VIOLATION property=%s " % p in out, round(time.time() - t0), out.strip()[:400])
    finally:
        sh("git -C %s checkout -- ." % R)
    return r


def parallel(s, props):
    """Runs checks against a patched copy of the sources."""
    d = "/tmp/seedcopy.%s" % s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        sh("cp -r /repo/src %s/src" % d)
        a = sh(["patch", "-s", "-p1", "-d", d, "-i", "%s/seeded/%s/patch.diff" % (V, s["id"])])
        assert a.returncode == 0, a.stdout
        r = []
        for p in props or [s["prop"]]:
            t0 = time.time()
            c = sh("python3 checks/run.py %s" % p, cwd=V, env=dict(os.environ, K8V_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            out = c.stdout.decode(errors="replace")
            r.append("%s %s %d s %s" % (p, "caught" if c.returncode == 1 and "VIOLATION property=%s " % p in out else "MISSED (%d)" % c.returncode, time.time() - t0, out.strip()[:230].replace("\n", " | ")))
        print(s["id"], *r, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    props = [a[1:] for a in sys.argv[2:] if a.startswith("-")]
    if sys.argv[1] == "par":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
            list(ex.map(lambda s: parallel(s, props), [s for s in SEEDS if not ids or any(s["id"].startswith(i) for i in ids)]))
        sys.exit(0)
    for s in SEEDS:
        if ids and not any(s["id"].startswith(i) for i in ids):
            continue
        if sys.argv[1] == "make":
            make(s)
        else:
            r = attempt(s, props)
            tr = r.pop("testres", None)
            fails = tr["failed"] if tr else None
            ok = r.get("demo_clean", [9])[0] == 0 and r.get("demo_bug", [0])[0] not in (0, 3) and r.get("build") == 0 and fails == []
            print(("OK  " if ok else "BAD ") + s["id"], json.dumps(r if not ok else {k: v for k, v in r.items() if k.startswith(("check", "demo"))}), "failing tests: %r" % fails, flush=True)
    if sys.argv[1] != "make":
        sh(BUILD)
