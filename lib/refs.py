"""Reference models written from the documentation."""

NAME = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-() ")


def expand(text, lookup):
    """Replaces ${NAME} and ${NAME:-default}; everything else is literal. lookup(name) is bytes or None."""
    out, i = [], 0
    while True:
        k = text.find(b"${", i)
        if k < 0:
            out.append(text[i:])
            return b"".join(out)
        out.append(text[i:k])
        j = k + 2
        while j < len(text) and text[j] in NAME:
            j += 1
        rep = None
        if text[j:j + 1] == b"}":
            v = lookup(text[k + 2:j])
            rep, end = (b"" if v is None else v), j + 1
        elif text[j:j + 2] == b":-":
            e = text.find(b"}", j + 2)
            if e >= 0:
                v = lookup(text[k + 2:j])
                rep, end = (text[j + 2:e] if v is None else v), e + 1
        if rep is None:
            out.append(text[k:k + 2])
            i = k + 2
        else:
            out.append(rep)
            i = end


def command_environment(decls, client, server):
    """decls: [(prefix, name, default)]; returns {name: value}."""
    v = {}
    sent = {n for p, n, d in decls if p != b"="}
    look = lambda n: v[n] if v.get(n) is not None else server.get(n)
    for p, n, d in decls:
        if p != b"=" and n in client and n in sent:
            v[n] = client[n]
        elif d == b"" and p == b"=":
            v[n] = server.get(n)
        elif d == b"" and p == b"?":
            v[n] = look(n)
        else:
            v[n] = expand(d, look)
    return {n: x for n, x in v.items() if x is not None}


ESC = {0x22: b'\\"', 0x5c: b"\\\\", 0x27: b"\\'", 8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 0: b"\\0"}
UNQUOTED_BAD = set(b" \t\r\n\v\f'\"#\0")


def q_single(b):
    return b"'" + b.replace(b"'", b"''") + b"'"


def q_double(b, rng=None):
    out = b'"'
    for x in b:
        r = rng.random() if rng else 1.0
        if x == 0x22:
            out += b'""' if r < 0.5 else (b"\\x22" if r < 0.6 else b'\\"')
        elif x == 0x5c:
            out += b"\\x5c" if r < 0.2 else (b"\\x5C" if r < 0.4 else b"\\\\")
        elif x in ESC and x != 0x27:
            # control characters may also be written as they are
            out += bytes([x]) if r < 0.3 and x not in (0,) else (b"\\x%02x" % x if r < 0.5 else ESC[x])
        elif x == 0x27:
            out += b"\\'" if r < 0.4 else b"'"
        elif r < 0.1 or x == 0:
            out += (b"\\x%02x" if r < 0.05 else b"\\x%02X") % x
        else:
            out += bytes([x])
    return out + b'"'


def quote(b, rng, unquoted_extra_bad=b""):
    """Writes a value (without references) as a concatenation of pieces in random notations."""
    out = []
    i = 0
    if not b:
        return rng.choice((b"''", b'""'))
    last = None
    while i < len(b):
        n = rng.choice((1, 2, 5, 20, len(b) - i))
        piece = b[i:i + n]
        kinds = ["'", '"']
        if not any(x in UNQUOTED_BAD or x in unquoted_extra_bad for x in piece):
            kinds += ["u"] * 3
        # two adjacent pieces of the same quotes would be a quote character
        if 0x24 in unquoted_extra_bad and 0x24 in piece:
            # references are only left alone in single quotes
            k = "'"
            if last == "'":
                out.append(b'""')
        else:
            k = rng.choice([k for k in kinds if k != last or k == "u"] or ["'" if last == '"' else '"'])
        out.append(piece if k == "u" else q_single(piece) if k == "'" else q_double(piece, rng))
        last = k
        i += len(piece)
    return b"".join(out)


def spell_number(rng, n):
    """A decimal spelling of n: some have leading zeros."""
    return (b"-" if n < 0 else b"") + b"0" * (rng.choice((0, 0, 0, 0, 1, 2, 5, 9, 10, 15, 30, 70)) if rng.random() < 0.4 else 0) + b"%d" % abs(n)


def not_number(rng):
    """Text that is not a decimal number, but nearly."""
    digits = spell_number(rng, rng.choice((rng.randrange(10), rng.randrange(1000), rng.randrange(10 ** 6), rng.randrange(10 ** 12))))
    k = rng.randrange(len(digits) + 1)
    bad = rng.choice((b"x", b".", b",", b";", b"/", b"_", b"e", b"A", b":", b"%", b"!", b"\xff", b"\x7f", b"k", b"'", b'"', b"(", b"--", b"+-", b"-+", b"0x", b"1-", b"1+", b"ms", b"\xc2\xb2"))
    if k:
        bad = rng.choice((bad, b" ", b"-", b"+", b"\t"))
    return digits[:k] + (bad if k or bad != b"-" else b"--") + digits[k:]


def too_large(rng, limit):
    """A number >= limit that is close to valid ones in one way or another."""
    while True:
        v = rng.randrange(limit)
        n = rng.choice((limit, limit + 1, limit + v, limit * rng.randrange(1, 2000) + v, 2 ** 31 + v, 2 ** 32 + v, 2 ** 32 * rng.randrange(1, 10 ** 6) + v, 2 ** 63 + v, 2 ** 64 + v, 2 ** 64 - v, 2 ** 128 + v, v * 10 + rng.randrange(10), v * 100, v * 10 ** rng.randrange(1, 40) + rng.randrange(10), 10 ** rng.randrange(5, 60)))
        if n >= limit:
            return spell_number(rng, n)
