"""Generators shared by the checks"""
import random
from .murmur import murmur32

EDGE = [1, 2, 3, 7, 8, 63, 64, 255, 256, 1000, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 8193, 12288, 16383, 16384, 16385,
        20000, 32767, 32768, 32769, 65535, 65536, 65537, 100000]
BIG = [131072, 262144, 262145, 1 << 20, (1 << 20) + 1, 3000000]


def size(r, big=0.02):
    x = r.random()
    if x < big:
        return r.choice(BIG)
    if x < 0.45:
        return r.choice(EDGE)
    if x < 0.7:
        return r.randrange(1, 200)
    if x < 0.85:
        return r.randrange(200, 4400)
    return r.randrange(4000, 40000)


def size_class(n):
    for c, lim in (("1", 1), ("s", 255), ("b-", 4095), ("b=", 4096), ("f+", 4097), ("f", 16383), ("r=", 16384), ("F", 65536), ("B", 1 << 18)):
        if n <= lim:
            return c
    return "BB"


def data(uid, n):
    """n reproducible bytes, (nearly) unique per uid from 8 bytes on"""
    return random.Random("v%s" % (uid,)).randbytes(n)


MAXNAME = 10 ** 9     # lower when the server's buffer is small

# everything but the space that ends the URL; CR and LF are in separate tests
KEYBYTES = bytes(b for b in range(256) if b not in b" \r\n\0")
ALNUM = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def name(r, kind=None, table=False):
    kind = kind or r.choice(["a", "a", "n", "b", "l", "x"])
    if kind == "a":
        k = bytes(r.choice(ALNUM) for _ in range(r.randrange(1, 12)))
    elif kind == "n":
        k = b"key%d" % r.randrange(10 ** r.randrange(1, 9))
    elif kind == "b":
        k = bytes(r.choice(KEYBYTES) for _ in range(r.randrange(1, 40)))
    elif kind == "l":
        k = bytes(r.choice(ALNUM) for _ in range(r.randrange(200, 3000)))
    else:
        k = bytes(r.choice(b"/:%?=&.-_~#|") if r.random() < .5 else r.choice(ALNUM) for _ in range(r.randrange(1, 20)))
    k = k[:MAXNAME]
    if table:
        k = k.replace(b"/", b"_")
        if len(k) > 1500:
            k = k[:1500]
    return k


def sibling(r, k, plain):
    """A name that differs little from another one"""
    i = r.choice([0, len(k) - 1, r.randrange(len(k))])
    x = r.randrange(8)
    c = k[i:i + 1]
    if x == 0:
        c = c.swapcase()
    elif x == 1:
        c = bytes([r.choice(ALNUM)])
    elif x == 2:
        return k + bytes([r.choice(ALNUM)])
    elif x == 3:
        return k[:-1] or k
    elif x == 4:
        return k[1:] + k[:1]
    elif x == 5:
        return k + k[-1:] * 2
    elif x == 6:
        # a long common beginning or end
        p = b"p" * r.choice([12, 60, 252, 256, 700, 1500])
        return (p + k if r.random() < .7 else k + p)[:2990]
    elif not plain:
        c = bytes([c[0] ^ r.choice([0x80, 0x80, 1, 0x40])])
        if c not in KEYBYTES:
            c = b"\xff"
    return k[:i] + c + k[i + 1:]


def names(r, n, kinds=None, table=False):
    """n distinct names without hash collisions"""
    out, hs = [], set()
    while len(out) < n:
        k = name(r, r.choice(kinds) if kinds else None, table)
        if out and r.random() < .3:
            k = sibling(r, r.choice(out), kinds and set(kinds) <= set("an"))
            if kinds and "l" not in kinds:
                k = k[:60]
            k = k[:MAXNAME]
            if table:
                k = k.replace(b"/", b"_")[:1500]
        h = murmur32(k)
        if h in hs:
            continue
        hs.add(h)
        out.append(k)
    return out


def cuts(r, n, style=None):
    """chunk lengths which divide n bytes"""
    style = style or r.choice(["one", "few", "many", "byte", "edge"])
    if n <= 1 or style == "one":
        return [n]
    if style == "byte" and n <= 400:
        return [1] * n
    if style == "edge":
        a = r.choice([1, 2, n - 1, max(1, n - 2)])
        return [a, n - a]
    k = r.randrange(1, 4) if style == "few" else r.randrange(3, 12)
    ps = sorted(set(r.randrange(1, n) for _ in range(k)))
    return [b - a for a, b in zip([0] + ps, ps + [n])]


def prefix_names(base):
    """names which are prefixes and extensions of each other"""
    return [base[:i] for i in range(1, len(base) + 1)]
