"""C22: path handling agrees with the file system's meaning of paths."""
import itertools, os
from k8 import *

NAMES = [b"", b".", b"..", b"a", b"b", b"..a", b".b", b"a.", b"..."]


def ref_normalize(p):
    absolute = p.startswith(b"/")
    out = []
    for c in p.split(b"/"):
        if c in (b"", b"."):
            continue
        if c == b".." and out and out[-1] != b"..":
            out.pop()
        elif c == b".." and absolute:
            pass
        else:
            out.append(c)
    return (b"/" if absolute else b"") + b"/".join(out)


def comps(p):
    return [c for c in p.split(b"/") if c not in (b"", b".")]


def values(u, calls):
    return u.batch(calls)


def check_normalize(c, u, paths):
    res = values(u, [[b"normalize", p] for p in paths])
    outs = []
    for p, r in zip(paths, res):
        w = ref_normalize(p)
        if isinstance(r, UnitError) or r[0] != w:
            raise Violation("normalize", "%r is normalized to %r instead of %r" % (p, r if isinstance(r, UnitError) else r[0], w))
        outs.append(r[0])
        if w != p:
            c.count("changed_by_normalizing")
    for p, o, r in zip(paths, outs, values(u, [[b"normalize", o] for o in outs])):
        if isinstance(r, UnitError) or r[0] != o:
            raise Violation("idempotence", "%r is normalized to %r, and that to %r" % (p, o, r))
    for p, r in zip(paths, values(u, [[b"absolute", p] for p in paths])):
        if isinstance(r, UnitError) or (r[0] == b"1") != p.startswith(b"/"):
            raise Violation("absolute", "%r: absolute is %r" % (p, r))
    c.count("evaluations", 3 * len(paths))
    return outs


def check_split(c, u, paths):
    """The parent directory and the base name of a path without trailing separators."""
    paths = [p for p in paths if p and not p.endswith(b"/")]
    for p, par, base in zip(paths, values(u, [[b"parent", p] for p in paths]), values(u, [[b"basename", p] for p in paths])):
        if isinstance(par, UnitError) or isinstance(base, UnitError):
            raise Violation("split", "%r: %r %r" % (p, par, base))
        par, base = par[0], base[0]
        if base != p.rsplit(b"/", 1)[-1]:
            raise Violation("basename", "the base name of %r is %r" % (p, base))
        joined = par + b"/" + base if par else base
        if joined.startswith(b"/") != p.startswith(b"/") or comps(joined) != comps(p):
            raise Violation("parent", "the parent directory of %r is %r, and its base name %r" % (p, par, base))
        if par != b"/" and par.endswith(b"/"):
            raise Violation("parent-separator", "the parent directory of %r is %r" % (p, par))
        c.count("evaluations")


def lexical(c, a, rng, name, length, part, parts):
    u = Units(a)
    n = 0
    for k in range(1, length + 1):
        paths = []
        for i, t in enumerate(itertools.product(NAMES, repeat=k)):
            if i % parts != part:
                continue
            body = b"/".join(t)
            paths.append(body)
            paths.append(b"/" + body)
        paths = list(dict.fromkeys(paths))
        check_normalize(c, u, paths)
        check_split(c, u, paths)
        n += len(paths)
    c.count("exhaustive_paths", n)
    c.seen("lexical", length, part)
    u.close()


def rpath(rng, absolute=None):
    names = NAMES + [b"dir with space", b"\xff\xfe", b"a\nb", b"x" * 255, b"-", b"~", b"a\\b", b"C:", b"....", b".a.", b"\xc3\xa4"]
    p = b""
    if absolute if absolute is not None else rng.random() < 0.5:
        p = b"/" * rng.choice((1, 1, 1, 2, 3))
    n = rng.choice((1, 2, 5, 10, 40))
    up = rng.choice((0.1, 0.4))
    p += b"".join((b".." if rng.random() < up else rng.choice(names)) + b"/" * rng.choice((1, 1, 1, 2)) for _ in range(n))
    return p if rng.random() < 0.3 else p.rstrip(b"/") or b"/"


def random_paths(c, a, rng, name, count):
    u = Units(a)
    paths = [rpath(rng) for _ in range(count)]
    check_normalize(c, u, paths)
    check_split(c, u, paths)
    c.seen("random", tuple(paths))
    c.sample(path=repr(paths[0][:200]))
    u.close()


def spell(rng, cs, absolute=True):
    """A spelling of a path, with redundant separators and '.' components in the middle."""
    p = b"/" if absolute else b""
    for i, x in enumerate(cs):
        if i:
            p += rng.choice((b"/", b"/", b"//", b"/./", b"///", b"/././"))
        p += x
    return p


def relativize(c, a, rng, name, count):
    u = Units(a)
    calls, wants = [], []
    names = [b"a", b"b", b"ab", b"a.", b".a", b"..a", b"...", b"a..", b"A", b" ", b"\xff", b"x" * 40]
    for _ in range(count):
        absolute = rng.random() < 0.7
        par = [rng.choice(names) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)) if absolute else rng.choice((1, 2, 3)))]
        k = rng.random()
        if k < 0.5:
            path = par + [rng.choice(names) for _ in range(rng.choice((0, 1, 2, 4)))]
        elif k < 0.6 and par:
            path = par[:-1]  # the parent of the parent
        elif k < 0.85 and par:
            path = list(par)  # differs in one component, often in a suffix of it
            i = rng.randrange(len(par))
            path[i] = rng.choice((path[i] + rng.choice((b"a", b".", b"x", b"b")), path[i][:-1] or b"z", path[i].swapcase(), rng.choice(names)))
            path += [rng.choice(names) for _ in range(rng.choice((0, 0, 1)))]
        else:
            path = [rng.choice(names) for _ in range(rng.choice((0, 1, 3)))]
        if not absolute and not path:
            continue
        ps = spell(rng, par, absolute)
        if par and rng.random() < 0.3:
            ps += rng.choice((b"/", b"//", b"/.", b"/./"))
        calls.append([b"relativize", ps, spell(rng, path, absolute)])
        wants.append(path[len(par):] if path[:len(par)] == par else None)
    # every pair of short paths
    short = [list(t) for n in range(4) for t in itertools.product([b"a", b"ab", b"b"], repeat=n)]
    for x in short:
        for y in rng.sample(short, 12):
            calls.append([b"relativize", b"/" + b"/".join(x), b"/" + b"/".join(y)])
            wants.append(y[len(x):] if y[:len(x)] == x else None)
    for call, w, r in zip(calls, wants, values(u, calls)):
        if w is None:
            if not isinstance(r, UnitError):
                raise Violation("relativize-unrelated", "%r relative to %r is %r instead of an error" % (call[2], call[1], r[0]))
            c.count("unrelated_rejected")
        else:
            if isinstance(r, UnitError) or r[0].startswith(b"/") or comps(r[0]) != w:
                raise Violation("relativize", "%r relative to %r is %r instead of %r" % (call[2], call[1], r if isinstance(r, UnitError) else r[0], b"/".join(w)))
            c.count("related")
    c.count("evaluations", len(calls))
    c.seen("relativize", tuple(map(tuple, calls)))
    c.sample(parent=repr(calls[0][1]), path=repr(calls[0][2]), remainder=repr(wants[0]))
    u.close()


def big(c, a, rng, name, n):
    """Very many and very long components."""
    u = Units(a)
    word = lambda: rng.choice((b"a", b"b", b"..a", b"x" * rng.randrange(1, 30)))
    paths = []
    for root in (b"", b"/"):
        down = [word() for _ in range(n)]
        paths += [root + b"/".join(x) for x in (
            down, down + [b".."] * n, down + [b".."] * (n - 1), down + [b".."] * (n + 2), [b".."] * n, [b".."] * n + down[:3], [b".", b"a"] * n, [b"."] * n + [b"a"], [b"a", b".."] * n,
            [b"a"] + [b""] * n + [b"b"], [b"x" * n], [b"x" * n, b".."], [b"y", b"x" * n, b"..", b"z"], [b"a" * n, b"b" * n], [b"."] * n, [b".." if rng.random() < 0.3 else rng.choice((b".", b"", word())) for _ in range(n)])]
    for i in range(0, len(paths), 8):
        outs = check_normalize(c, u, paths[i:i + 8])
        check_split(c, u, paths[i:i + 8])
    par = [word() for _ in range(n)]
    calls, wants = [], []
    for path, want in ((par, []), (par + [b"z"], [b"z"]), (par + par, par), (par[:-1], None), (par[:-1] + [par[-1] + b"x"], None), ([b"other"] + par[1:], None)):
        calls.append([b"relativize", spell(rng, par), spell(rng, path)])
        wants.append(want)
    calls.append([b"relativize", b"/" + b"x" * n, b"/" + b"x" * n + b"/y"])
    wants.append([b"y"])
    calls.append([b"relativize", b"/" + b"x" * n, b"/" + b"x" * (n + 1)])
    wants.append(None)
    for call, w, r in zip(calls, wants, values(u, calls)):
        if (w is None) != isinstance(r, UnitError) or (w is not None and (comps(r[0]) != w or r[0].startswith(b"/"))):
            raise Violation("relativize", "%d components: %.100r relative to %.100r is %.200r instead of %.200r" % (n, call[2], call[1], r if isinstance(r, UnitError) else r[0], w))
    c.count("evaluations", len(calls))
    c.count("big_paths", len(paths))
    c.seen("big", n)
    u.close()


def on_disk(c, a, rng, name, depth, count):
    """In a real tree without symbolic links, a path and its normalized form are the same directory."""
    root = os.fsencode(a.p("t"))
    names = [b"a", b"..b"]
    level = [root]
    os.mkdir(root)
    for _ in range(depth):
        level = [x + b"/" + n for x in level for n in names]
        for x in level:
            os.mkdir(x)
    u = Units(a)
    inode = lambda p: (lambda s: (s.st_dev, s.st_ino))(os.stat(p))
    cwds, paths = [], []
    for _ in range(count):
        d = rng.randrange(0, depth + 1)
        cwd = [rng.choice(names) for _ in range(d)]
        cur, p = d, []
        for _ in range(rng.choice((1, 3, 6, 12, 30))):
            k = rng.random()
            if k < 0.2:
                p.append(rng.choice((b"", b".")))
            elif k < 0.55 and cur > 0:
                p.append(b"..")
                cur -= 1
            elif cur < depth:
                p.append(rng.choice(names))
                cur += 1
        rel = b"/".join(p)
        if not rel or rel.startswith(b"/"):
            rel = b"./" + rel
        cwds.append(b"/".join([root] + cwd))
        paths.append(rel)
    outs = values(u, [[b"normalize", p] for p in paths] + [[b"normalize", d + b"/" + p] for d, p in zip(cwds, paths)])
    for i, (d, p) in enumerate(zip(cwds, paths)):
        real = inode(d + b"/" + p)
        rel, ab = outs[i][0], outs[len(paths) + i][0]
        if rel.startswith(b"/") or inode(d + b"/" + rel) != real:
            raise Violation("different-directory", "%r in %r is normalized to %r" % (p, d, rel))
        if inode(ab) != real or ab != os.path.realpath(ab):
            raise Violation("different-directory", "%r is normalized to %r" % (d + b"/" + p, ab))
    # relative to each of its ancestors and back
    calls = []
    for d in cwds:
        par = d
        for _ in range(rng.randrange(0, 4)):
            par = par.rsplit(b"/", 1)[0]
        calls.append((par, d))
    for (par, d), r in zip(calls, values(u, [[b"relativize", x, y] for x, y in calls])):
        if isinstance(r, UnitError) or inode(par + b"/" + r[0]) != inode(d):
            raise Violation("relativize-disk", "%r relative to %r is %r" % (d, par, r if isinstance(r, UnitError) else r[0]))
    for d, par, base in zip(cwds, values(u, [[b"parent", d] for d in cwds]), values(u, [[b"basename", d] for d in cwds])):
        if inode(par[0] + b"/" + base[0]) != inode(d):
            raise Violation("split-disk", "%r is split into %r and %r" % (d, par[0], base[0]))
    c.count("evaluations", 4 * len(paths))
    c.count("inodes_compared", 4 * len(paths))
    c.seen("disk", tuple(paths))
    u.close()


def check():
    n = 6 if THOROUGH else 5
    parts = 64 if THOROUGH else 8
    c = Check("C22", "exploration",
              "every sequence of up to %d of 9 components, absolute and relative, with and without a trailing separator (exhaustive), random longer paths, random parent and path pairs in equivalent spellings, each compared with an independent reading of the path; and random paths in real directory trees, compared by inode. distinct = different groups of paths." % n,
              ["units"])
    k = 30 if THOROUGH else 1
    for i in range(parts):
        c.add("lexical-%d" % i, lexical, length=n, part=i, parts=parts)
    for m in (300, 5000, 70000):
        c.add("big-%d" % m, big, n=m)
    for i in range(6 * k):
        c.add("random-%d" % i, random_paths, count=1500)
        c.add("relativize-%d" % i, relativize, count=2500)
    for i in range(2 * k):
        c.add("disk-%d" % i, on_disk, depth=8, count=1500)
    return c
