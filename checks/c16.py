"""C16: the command runs in the corresponding working directory."""
import os, subprocess
from k8 import *
from refs import q_single, quote

PARTS = [b"a", b"b", b"work", b"work2", b"x y", b".hidden", b"..x", b"...", b"x.", b"x..", b"-", b"--help", b"'", b'"', b"\\", b"$A", b"${A}", b"#", b"[s]", b"=", b"\n", b"\t", b"\xc3\xa4", b"\xff\xfe", b"~", b"*", b"a" * 255, b" ", b"k8psh", b"%s", b".git", b"..."]


def path(rng, most=5):
    return b"/".join(rng.choice(PARTS) for _ in range(rng.randrange(1, most)))


def spell(rng, d):
    """Another spelling of an absolute directory."""
    k = rng.randrange(9)
    parts = d.split(b"/")[1:]
    if k == 0:
        return d + b"/"
    if k == 1:
        return d + b"//"
    if k == 2:
        return d + b"/."
    if k == 3:
        return d + b"/sub dir/.."
    if k == 4:
        return b"/" + b"/./".join(parts)
    if k == 5:
        return b"/" + b"//".join(parts) + b"/./"
    if k == 6:
        return b"/../" + b"/".join(parts)
    if k == 7:
        return d + b"/q/r/../../"
    return d


def base_line(rng, confdir, base, how):
    """The setting (if any) for a base directory, in a configuration in a directory."""
    if how == "unset":
        return b""
    if how == "relative":
        v = os.path.relpath(base, confdir)
        v = rng.choice((v, v + b"/", b"./" + v, v + b"/.", v + b"/nope/..", b"nope/../" + v))
    else:
        v = spell(rng, base)
    return b"baseDirectory" + rng.choice((b" = ", b"=", b"\t=  ")) + rng.choice((q_single(v), quote(v, rng, b"$"))) + b"\n"


def server_cfg(a, base_text, port):
    return base_text + b"[srv:%d]\ncmd '%s' 'R:%s'\n" % (port, os.fsencode(a.bin + "/probe"), os.fsencode(a.p("rep")))


def result(a):
    j = a.read("rep")
    if not j:
        return None
    os.unlink(a.p("rep"))
    j = json.loads(j)
    return bytes.fromhex(j["cwd"]), j["cwdino"]


def sessions(c, a, rng, name, setups, runs):
    for s in range(setups):
        a.new()
        root = os.fsencode(a.dir)
        top = root + b"/t"
        a.makedirs(top)
        cb = top + b"/client/" + path(rng, 3)
        sb = rng.choice((top + b"/server/" + path(rng, 3), cb, top + b"/s"))
        if rng.random() < 0.08:
            cb = b"/"
            if rng.random() < 0.7:
                sb = b"/"
        for d in (cb, sb):
            a.makedirs(d)
        port = a.port()
        # the client's and the server's configuration, each with its own spelling
        chow, show = (rng.choice(("absolute", "absolute", "relative", "unset")) for _ in range(2))
        cdir = cb if chow == "unset" and cb != b"/" else rng.choice((root, top)) if cb == b"/" else rng.choice((root, top, cb))
        if cb == b"/" and chow == "unset":
            chow = "absolute"
        if sb == b"/" and show == "unset":
            show = "absolute"
        sdir = sb if show == "unset" else root
        cconf, sconf = os.path.join(cdir, b"client.conf"), os.path.join(sdir, b"server.conf")
        a.write(os.fsdecode(cconf), server_cfg(a, base_line(rng, cdir, cb, chow), port))
        a.write(os.fsdecode(sconf), server_cfg(a, base_line(rng, sdir, sb, show), port))
        variant = rng.choice(("static", "release"))
        scwd = rng.choice((root, sdir, sb))
        named = rng.choice((sconf, os.path.relpath(sconf, scwd), b"./" + os.path.relpath(sconf, scwd)))
        daemon = rng.random() < 0.15
        srv = a.server(None, confname=os.fsdecode(sconf), port=port, variant=variant, cwd=scwd, opts=["--config=" + os.fsdecode(named)] + (["-b", "-p", ""] if daemon else []))
        below, missing = [], []
        for r in range(runs):
            kind = rng.choice(("inside", "inside", "inside", "base", "symlink", "deep", "outside", "sibling", "above", "missing", "file", "forbidden", "deleted", "link-out"))
            if kind in ("outside", "sibling", "above", "link-out", "deleted") and cb == b"/" and kind != "deleted":
                kind = "inside"
            ok = kind in ("inside", "base", "symlink", "deep")
            # with the root as a base there is nothing outside, and the tree is below a scratch directory
            rel = (os.path.relpath(root, b"/") + b"/" if cb == b"/" else b"") + b"w%d/" % r + path(rng)
            if kind == "deep":
                room = 3600 - max(len(cb), len(sb)) - len(rel)
                rel += b"".join(b"/" + b"d" * 200 for _ in range(room // 201))
            if kind == "base":
                rel = b""
            ccwd = os.path.join(cb, rel) if rel else cb
            scwd_ = os.path.join(sb, rel) if rel else sb
            if kind in ("inside", "base", "symlink", "deep", "missing", "file", "forbidden", "deleted"):
                # a server whose base is the root must not be made to create anything outside the scratch directory
                if sb == b"/" and not scwd_.startswith(root):
                    continue
                a.makedirs(ccwd)
                if kind not in ("missing", "file", "forbidden") and not os.path.isdir(scwd_):
                    a.makedirs(scwd_)
            go = ccwd
            if kind in ("missing", "file", "forbidden") and (scwd_ == ccwd or sb.startswith(cb) or cb.startswith(sb)):
                continue
            if kind == "file":
                a.makedirs(os.path.dirname(scwd_))
                a.write(os.fsdecode(scwd_), b"")
            elif kind == "forbidden":
                a.makedirs(scwd_)
                os.chmod(scwd_, 0)
            elif kind == "symlink":
                os.symlink(ccwd, a.p("ln%d" % r))
                go = os.fsencode(a.p("ln%d" % r))
            elif kind == "outside":
                go = root + b"/work"
            elif kind == "sibling":
                tail = rng.choice((b"x", b".", b"2", b" ", b"..", b"-", None))
                last = os.path.basename(cb)
                go = cb + tail if tail and len(last + tail) < 256 else cb[:-1] if len(last) > 1 and last[:-1] not in (b".", b"..") else cb + b"x"
                a.makedirs(go)
                go += rng.choice((b"", b"/" + path(rng)))
                a.makedirs(go)
            elif kind == "above":
                go = os.path.dirname(cb)
            elif kind == "link-out":
                os.symlink(root + b"/work", os.path.join(cb, b"out%d" % r))
                go = os.path.join(cb, b"out%d" % r)
            if kind == "above" and (go + b"/").startswith(cb + b"/"):
                continue
            cenv = {"K8PSH_CONFIG": os.fsdecode(cconf), "PWD": rng.choice((os.fsdecode(cb), "/", a.dir, "relative"))}
            cv = rng.choice(("static", "release"))
            if rng.random() < 0.4 and kind != "deleted" and kind != "link-out":
                del cenv["K8PSH_CONFIG"]
                real = os.path.realpath(go)
                argv = a.client_argv(["-c", rng.choice((cconf, os.path.relpath(cconf, real))), "cmd"], cv)
            else:
                argv = a.client_argv([], cv, stub="cmd")
            what = "client base %r (%s), server base %r (%s), client in %r (%s)" % (cb, chow, sb, show, go[-300:], kind)
            if kind == "deleted":
                argv = ["/bin/sh", "-c", 'rmdir "$0" && exec "$@"', ccwd, *argv]
            p = a.popen(argv, env=cenv, cwd=go, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            rc, out, err = drive(p)
            got = result(a)
            if ok:
                if rc != 0 or got is None:
                    raise Violation("failed", "%s: ended with %s: %r" % (what, cmd_status(rc), err[-300:]))
                st = os.stat(scwd_)
                if got[1] != st.st_ino or got[0] != os.path.realpath(scwd_):
                    raise Violation("directory", "%s: the command ran in %r instead of %r" % (what, got[0], scwd_))
                c.count("directories_compared")
            else:
                if got is not None:
                    raise Violation("started", "%s: the command was run in %r" % (what, got[0]))
                if rc == 0:
                    raise Violation("status", "%s: ended with status 0" % what)
                c.count("refused")
            if kind == "forbidden":
                os.chmod(scwd_, 0o755)
            c.count("evaluations")
            c.seen(kind, cb == sb, chow, show, rel.count(b"/"), cb == b"/", daemon, hash(rel) % 100)
            c.sample(client_base=repr(cb), server_base=repr(sb), client_in=repr(go[-150:]), kind=kind)


def wire(c, a, rng, name, runs):
    """The server joins whatever (ordinary) relative directory it receives; the client sends the remainder below its base."""
    root = os.fsencode(a.dir)
    port = a.port()
    sb = root + b"/s"
    a.makedirs(sb)
    srv = a.server(server_cfg(a, b"baseDirectory = '%s'\n" % sb, port), port=port)
    for r in range(runs):
        rel = path(rng)
        a.makedirs(sb + b"/" + rel)
        sent = rng.choice((rel, rel + b"/", rel.replace(b"/", b"//"), b"./" + rel, rel + b"/."))
        msg = [frame(WD, sent), frame(ENV, b"A=b"), frame(ARG, b"x")]
        rng.shuffle(msg)
        conn = Raw(port)
        conn.send(b"".join(msg) + frame(START, b"cmd") + frame(IN))
        rc = conn.collect()[2]
        conn.close()
        got = result(a)
        if rc != 0 or got is None or got[0] != sb + b"/" + rel:
            raise Violation("directory", "requested %r below %r: ran in %r (%r)" % (sent, sb, got, rc))
        bad = rng.choice((rel + b"/nothing", b"nothing", rel + b"x" * 300, b"/".join([b"a" * 250] * 20)))
        conn = Raw(port)
        conn.send(request("cmd", [], bad) + frame(IN))
        rc = conn.collect()[2]
        conn.close()
        if result(a) is not None or rc == 0:
            raise Violation("started", "requested %r below %r, which does not exist: status %r" % (bad, sb, rc))
        c.count("evaluations", 2)
        c.count("directories_compared")
        c.count("refused")
        c.seen("wire", sent)
    fport = a.port()
    fs = FakeServer(fport)
    cb = root + b"/c"
    for r in range(runs // 2):
        rel = path(rng) if rng.random() < 0.9 else b""
        d = cb + (b"/" + rel if rel else b"")
        a.makedirs(d)
        a.write("c.conf", b"baseDirectory = '%s'\n[srv:%d]\ncmd\n" % (spell(rng, cb), fport))
        p = a.client([], stub="cmd", confname="c.conf", cwd=d, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
        conn = fs.accept()
        m = fs.request(conn)
        conn.send(frame(EXIT, 0))
        conn.close()
        p.wait()
        got = [x for t, x in m if t == WD]
        if len(got) != 1 or os.path.normpath(b"/" + got[0]) != os.path.normpath(b"/" + rel):
            raise Violation("wire", "in %r below %r, the client sent %r" % (rel, cb, got))
        c.count("evaluations")
        c.seen("client", rel)
    fs.close()


def lookup(c, a, rng, name):
    """An executable that is not an absolute path is taken from the command's directory, and one without any slash otherwise from the search path (of its environment)."""
    root = a.dir
    port = a.port()
    names = ["tool", "a b", "-x", "$t", "x.y"]
    for d in ("s", "s/one", "s/one/bin", "s/two", "s/two/bin", "s/two/sub", "s/none", "path1", "path2", "s/one/tool-dir"):
        a.makedirs(a.p(d))

    def place(d, n, mode=0o755):
        a.write(d + "/" + n, b"#!/bin/sh --\nexec '%s/probe' 'R:%s' 'at %s' \"$@\"\n" % (a.bin.encode(), a.p("rep").encode(), (d + "/" + n).encode()), mode)
    for n in names:
        place("s/one", n)
        place("s/one/bin", n)
        place("s/two/bin", n)
        place("path2", n)
        place("s", n)
    place("path1", "tool", 0o644)  # not executable: the search goes on
    place("path1", "a b")
    place("path2", "only-path")
    place("s/two/sub", "only-sub")
    q = lambda x: "'%s'" % x.replace("'", "''")
    search = "%s:%s:%s" % (a.p("path1"), a.p("path2"), os.environ["PATH"])
    rel = rng.random() < 0.3
    if rel:
        search = "sub:" + search  # relative to the command's directory
    cmds = ["c%d %s" % (i, q(n)) for i, n in enumerate(names)] + ["b%d %s" % (i, q("bin/" + n)) for i, n in enumerate(names)] + ["d%d %s" % (i, q("./" + n)) for i, n in enumerate(names)]
    cmds += ["u%d %s" % (i, q("../" + n)) for i, n in enumerate(names)] + ["onlypath only-path", "onlysub only-sub", "slashpath ./only-path"]
    cfg = lambda base: "baseDirectory = '%s'\n[srv:%d] =PATH=%s\n" % (base, port, q(search)) + "".join(x + "\n" for x in cmds)
    a.server(cfg(a.p("s")), port=port, env={"PATH": "/nonexistent:" + os.environ["PATH"]}, variant=rng.choice(("static", "release")), cwd=a.p("s", "one"))
    a.write("c.conf", cfg(a.p("cl")))
    for d in ("one", "two", "none"):
        a.makedirs(a.p("cl", d))
    jobs = [(d, x) for d in ("one", "two", "none") for x in [x.split()[0] for x in cmds]]
    rng.shuffle(jobs)
    for d, cmd in jobs:
        i = int(cmd[1:]) if cmd[1:].isdigit() else None
        want = None
        if i is not None:
            n = names[i]
            here = {"c": "s/%s/%s", "d": "s/%s/./%s", "b": "s/%s/bin/%s", "u": "s/%s/../%s"}[cmd[0]] % (d, n)
            if os.access(a.p(here), os.X_OK):
                want = os.path.normpath(here)
            elif cmd[0] == "c":
                want = "path1/" + n if n == "a b" else "path2/" + n
        elif cmd == "onlypath":
            want = "path2/only-path"
        elif cmd == "onlysub":
            want = "s/two/sub/only-sub" if rel and d == "two" else None
        p = a.client([cmd, "arg"], confname="c.conf", cwd=a.p("cl", d), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = drive(p)
        j = a.read("rep") and json.loads(a.read("rep"))
        if j:
            os.unlink(a.p("rep"))
        got = bytes.fromhex(j["argv"][2]).decode() if j else None
        what = "%s (%s) in %s, search path %s" % (cmd, [x for x in cmds if x.split()[0] == cmd][0], d, search)
        if got != (want and "at " + want):
            raise Violation("lookup", "%s: ran %r instead of %r (status %s, %r)" % (what, got, want, cmd_status(rc), err[-200:]))
        if (rc == 0) != (want is not None):
            raise Violation("status", "%s: ended with %s" % (what, cmd_status(rc)))
        c.count("evaluations")
        c.count("executables_looked_up")
        c.seen("lookup", d, cmd, rel)


def check():
    c = Check("C16", "exploration",
              "random pairs of base directories (equal, different, the root) in random spellings (absolute, relative to the configuration, implicit), clients below, at, beside and above the base, through symbolic links, in long paths and deleted directories; missing, forbidden and non-directories at the server; "
              "the started program reports its directory (path and inode). distinct = different (kind, way of configuring, depth, names).", ["static", "release"])
    k = 10 if THOROUGH else 1
    for i in range(24 * k):
        c.add("sessions-%d" % i, sessions, setups=6, runs=14)
    for i in range(2 * k):
        c.add("lookup-%d" % i, lookup)
    for i in range(4 * k):
        c.add("wire-%d" % i, wire, runs=40)
    return c
