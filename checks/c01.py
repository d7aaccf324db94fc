"""C01: sequential differential run against a dictionary, all responses compared byte for byte"""
import os, shutil
from vlib.srv import Server, Violation, scratch_base
from vlib.http import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one request whose response was compared with the reference dictionary. Distinct and non-trivial: the combinations of "
        "operation, size class of the value (1 byte, small, at/below/above the 4096 byte block, around the 16 KiB buffer, large), size class of "
        "what the key held before, kind of name and expected outcome.")
ASSUME = ["names whose 32 bit hashes collide are kept out of these histories (they are C18)", "no size limit and no time to live here (C06, C07)"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 160):
        out.append(("history", dict(seed="%d-%d" % (seed, i), variant="asan" if i % 4 else "rel", n=2500 if q else 8000)))
    for i in range(4 if q else 24):
        out.append(("history", dict(seed="%d-d%d" % (seed, i), variant="dbg", n=800 if q else 3000)))
    for i in range(4 if q else 40):
        out.append(("history", dict(seed="%d-w%d" % (seed, i), variant="asan:BUFFER_SIZE=1024", n=1500 if q else 6000)))
    for i in range(2 if q else 8):
        out.append(("sizes", dict(seed="%d-s%d" % (seed, i), variant="asan", part=i, parts=2 if q else 8, every=q)))
    out.append(("many", dict(seed="%d-m" % seed, variant="rel", n=20000 if q else 120000)))
    for i in range(4 if q else 24):
        out.append(("thinning", dict(seed="%d-t%d" % (seed, i), variant=["rel", "asan"][i % 2], n=r_n(i), rounds=6 if q else 30)))
    out.append(("far", dict(seed="%d-f" % seed, variant="rel:BLOCK_LENGTH=131072", n=34000)))
    if not q:
        out.append(("far", dict(seed="%d-fa" % seed, variant="asan:BLOCK_LENGTH=131072", n=66000)))
    out.append(("huge", dict(seed="%d-h" % seed, sizes=[(1 << 31) - 1] if q else [(1 << 31) - 1, (1 << 31) - 4097, 1 << 30, (1 << 30) + 1])))
    return out


def r_n(i):
    return [400, 600, 330, 900][i % 4]


def short(k):
    return k if len(k) < 40 else k[:16] + b"...(%d)" % len(k)


def history(obs, seed, variant, n):
    r = rng("c01", seed)
    with Server(variant, deep=r.choice([0, 0, 150, 386])) as s:
        conns = [Conn(s) for _ in range(r.randrange(1, 4))]
        tabs = gen.names(r, r.randrange(2, 6), table=True)
        keys = {t: gen.names(r, r.randrange(4, 25)) for t in tabs}
        M = {}
        log = []
        small = r.random() < .3
        for i in range(n):
            c = r.choice(conns)
            t = r.choice(tabs)
            k = r.choice(keys[t])
            had = M.get(t, {}).get(k)
            hc = gen.size_class(len(had)) if had is not None else "-"
            op = r.choices(["put", "get", "head", "del", "deltab", "bulk", "gone"], [38, 34, 8, 12, .8, 3, 4])[0]
            log.append((op, short(t), short(k), hc))
            exp = None
            if op == "put":
                v = gen.data((seed, i), gen.size(r, 0) if small else gen.size(r))
                if r.random() < .05:
                    v = b"\0" * len(v)
                ch = gen.cuts(r, len(v) + 80) if r.random() < .3 else None
                c.put(t, k, v, chunks=ch)
                M.setdefault(t, {})[k] = v
                exp = gen.size_class(len(v))
            elif op == "get":
                v = c.get(t, k)
                if v != had:
                    bad(log, t, k, had, v)
                exp = v is not None
            elif op == "head":
                v = c.head(t, k)
                if v != (len(had) if had is not None else None):
                    raise Violation("HEAD reports %r for a value of %r" % (v, hc), key="head-length", detail=repr(log[-30:]))
                exp = v is not None
            elif op == "del":
                d = c.delete(t, k)
                if d != (had is not None):
                    raise Violation("DELETE of a key answered %s while it was %s" % (d, "stored" if had is not None else "not stored"),
                                    key="delete-outcome", detail=repr(log[-30:]))
                if d:
                    drop(M, t, k)
                exp = d
            elif op == "deltab":
                d = c.delete(t)
                if d != (t in M):
                    raise Violation("DELETE of a table answered %s while it was %s" % (d, "there" if t in M else "not there"),
                                    key="delete-table-outcome", detail=repr(log[-30:]))
                M.pop(t, None)
                exp = d
            elif op == "bulk":
                ks = r.sample(keys[t], min(len(keys[t]), r.randrange(1, 5)))
                ks = [x for x in ks if x.strip(b" \t\r\n") == x and len(x) < (600 if not s.small else 300)]
                c.bulk(t, ks)
                for x in ks:
                    drop(M, t, x)
                exp = len(ks)
            else:
                k = b"never-" + gen.name(r, "a")
                v = c.get(t, k)
                if v is not None:
                    raise Violation("a key that was never stored returned %d bytes" % len(v), key="phantom", detail=repr(log[-30:]))
            obs.ev()
            obs.seen(op, exp, hc, len(k) > 100)
        # Everything once more
        for t in tabs:
            for k in keys[t]:
                had = M.get(t, {}).get(k)
                v = conns[0].get(t, k)
                if v != had:
                    bad(log, t, k, had, v)
                obs.ev()
        obs.count("stored_at_end", sum(len(x) for x in M.values()))
        obs.count("requests", sum(c.n for c in conns))
        obs.sample(dict(variant=variant, tables=len(tabs), last=[str(x) for x in log[-6:]]))
        s.stop()


def drop(M, t, k):
    if t in M:
        M[t].pop(k, None)
        if not M[t]:
            del M[t]


def bad(log, t, k, had, v):
    d = describe(had, v)
    raise Violation("GET returned %s" % d, key="wrong-value:" + re.sub("[0-9]+", "N", d),
                    detail="%r %r: %s\nlast operations: %r" % (short(t), short(k), d, log[-40:]))


def describe(had, v):
    if v is None:
        return "404 for a stored value of %d bytes" % len(had)
    if had is None:
        return "%d bytes for a key that is not stored" % len(v)
    if len(v) != len(had):
        return "%d bytes instead of %d" % (len(v), len(had))
    i = next(i for i in range(len(v)) if v[i] != had[i])
    return "wrong bytes from offset %d of %d" % (i, len(v))


def sizes(obs, seed, variant, part, parts, every):
    """Every size around the block and buffer sizes, in place of a value of another class"""
    r = rng("c01s", seed)
    szs = sorted(set(list(range(1, 40)) + list(range(4080, 4113)) + list(range(8185, 8200)) + list(range(16370, 16400)) + gen.EDGE + [131072, 1 << 20]))
    if not every:
        szs = sorted(set(szs + list(range(1, 9000))))
    with Server(variant) as s:
        c = Conn(s)
        for i, n in enumerate(szs):
            if i % parts != part:
                continue
            for before in r.sample([0, 10, 4096, 4097, 20000], 2):
                if before:
                    c.put("t", "k", gen.data(("b", i), before))
                c.put("t", "other", gen.data(("o", i), r.choice([100, 5000])))
                v = gen.data((seed, i), n)
                c.put("t", "k", v)
                if c.head("t", "k") != n:
                    raise Violation("HEAD length wrong for %d bytes" % n, key="head-length")
                g = c.get("t", "k")
                if g != v:
                    bad([("put", n, "after", before)], b"t", b"k", v, g)
                g = c.get("t", "other")
                if g is None or len(g) not in (100, 5000):
                    raise Violation("another key was changed", key="other-key")
                obs.ev(3)
                obs.seen("size", n, before)
            if r.random() < .3:
                c.delete("t", "k")
        s.stop()


def many(obs, seed, variant, n):
    """A large number of keys: growth of the tables, automatic collections and saves in between"""
    r = rng("c01m", seed)
    with Server(variant) as s:
        c = Conn(s)
        seen, keys = set(), []
        from vlib.murmur import murmur32
        i = 0
        while len(keys) < n:
            k = b"k%d" % i
            i += 1
            h = murmur32(k)
            if h not in seen:
                seen.add(h)
                keys.append(k)
        # pipelined in batches
        for b in range(0, n, 200):
            ks = keys[b:b + 200]
            c.p.pending += ["PUT"] * len(ks)
            c.send(b"".join(req("PUT", path(b"t%d" % (len(k) % 2), k), (), b"value of " + k) for k in ks))
            for k in ks:
                expect(c.recv(), "PUT", 200, b"OK\r\n")
        order = keys[:]
        r.shuffle(order)
        gone = set(order[:n // 3])
        for b in range(0, n, 200):
            ks = [k for k in order[b:b + 200] if k in gone]
            if not ks:
                continue
            c.p.pending += ["DELETE"] * len(ks)
            c.send(b"".join(req("DELETE", path(b"t%d" % (len(k) % 2), k)) for k in ks))
            for k in ks:
                if not deleted_of(c.recv()):
                    raise Violation("DELETE of a stored key answered 404", key="delete-outcome")
        for b in range(0, n, 200):
            ks = order[b:b + 200]
            c.p.pending += ["GET"] * len(ks)
            c.send(b"".join(req("GET", path(b"t%d" % (len(k) % 2), k)) for k in ks))
            for k in ks:
                v = value_of(c.recv())
                had = None if k in gone else b"value of " + k
                if v != had:
                    bad([("many", n)], b"t", k, had, v)
                obs.ev()
        obs.seen("many", n)
        obs.count("keys", n)
        s.stop()


def thinning(obs, seed, variant, n, rounds):
    """Most of many small values are deleted, at last those stored last, in about the order of their places: the others stay as they are"""
    r = rng("c01t", seed)
    with Server(variant, unix=True) as s:
        c = Conn(s)
        for rnd in range(rounds):
            keys = gen.names(r, n + r.randrange(100), ["n"])
            val = lambda k: b"%d " % rnd + k + b"." * (len(k) * 37 % 4000)

            def each(method, ks):
                for a in range(0, len(ks), 50):
                    part = ks[a:a + 50]
                    c.p.pending += [method] * len(part)
                    c.send(b"".join(req(method, path(b"t", k), (), val(k) if method == "PUT" else None) for k in part))
                    for k in part:
                        yield k, c.recv()
            for k, x in each("PUT", keys):
                expect(x, "PUT", 200, b"OK\r\n")
            tail = keys[-60:]
            first = keys[:-60]
            r.shuffle(first)
            stay = first[:r.randrange(0, 4)]
            last = tail[::-1]
            for a in range(0, len(last) - 4, 2):
                w = last[a:a + 4]
                r.shuffle(w)
                last[a:a + 4] = w
            if rnd % 3 == 2:
                r.shuffle(last)
            order = first[len(stay):] + last[:r.randrange(30, 60)]
            left = set(keys)
            many = first[len(stay):]
            few = order[len(many):]
            for b in [many[a:a + 60] for a in range(0, len(many), 60)] + [few[a:a + 3] for a in range(0, len(few), 3)]:
                for k, x in each("DELETE", b):
                    if not deleted_of(x):
                        raise Violation("DELETE of a stored key answered 404", key="delete-outcome")
                    left.discard(k)
                some = [k for k in tail if k in left] + stay
                for k, x in each("GET", some):
                    v = value_of(x)
                    if v != val(k):
                        bad([("thinning", len(left))], b"t", k, val(k), v)
                    obs.ev()
            for k, x in each("PUT", [k for k in order if r.random() < .2]):
                expect(x, "PUT", 200, b"OK\r\n")
                left.add(k)
            for k, x in each("GET", keys):
                v = value_of(x)
                if v != (val(k) if k in left else None):
                    bad([("thinning", len(left))], b"t", k, val(k) if k in left else None, v)
                obs.ev()
            obs.seen("thinning", rnd % 3, len(stay), len(left) // 20)
            c.delete("t")
        s.stop()


def each(c, reqs, batch=200):
    """Pipelined: (method, table, key, value) -> the same with the response"""
    for a in range(0, len(reqs), batch):
        part = reqs[a:a + batch]
        c.p.pending += [x[0] for x in part]
        c.send(b"".join(req(m, path(t, k), (), v) for m, t, k, v in part))
        for x in part:
            yield x, c.recv()


def far(obs, seed, variant, n):
    """A block file of more than 4 GiB (with large blocks, it is sparse): the places of the values in it are beyond 32 bits"""
    r = rng("c01f", seed)
    from vlib.murmur import murmur32
    with Server(variant, unix=True) as s:
        c = Conn(s)
        seen, keys = set(), []
        i = 0
        while len(keys) < n:
            k = b"f%d" % i
            i += 1
            h = murmur32(k)
            if h not in seen:
                seen.add(h)
                keys.append(k)
        val = {k: b"far value of %s %s" % (k, b"." * (len(k) * i % 90)) for i, k in enumerate(keys)}

        def get(ks):
            for x, y in each(c, [("GET", b"far", k, None) for k in ks]):
                v = value_of(y)
                if v != val.get(x[2]):
                    bad([("far", n)], b"far", x[2], val.get(x[2]), v)
                obs.ev()
        for x, y in each(c, [("PUT", b"far", k, val[k]) for k in keys]):
            expect(y, "PUT", 200, b"OK\r\n")
        big = os.path.getsize(s.db + "/blockfile.db")
        obs.count("block_file_mib", big >> 20)
        obs.seen("far", big > 1 << 31, big > 1 << 32)
        order = keys[:]
        r.shuffle(order)
        get(order)
        # places that are used again
        for x, y in each(c, [("DELETE", b"far", k, None) for k in order[:n // 3]]):
            if not deleted_of(y):
                raise Violation("DELETE of a stored key answered 404", key="delete-outcome")
            del val[x[2]]
        again = order[:n // 6]
        for k in again:
            val[k] = b"again " + k + b"," * r.randrange(200)
        for x, y in each(c, [("PUT", b"far", k, val[k]) for k in again]):
            expect(y, "PUT", 200, b"OK\r\n")
        get(keys)
        s.stop()


def huge(obs, seed, sizes):
    """The largest values: 2 GiB"""
    unit = gen.data(seed, 1 << 20)
    if shutil.disk_usage(scratch_base()).free < 6 << 30:
        obs.count("huge_skipped")
        return

    def piece(a, n):
        """n bytes of the value from a on; every MiB differs"""
        out = []
        while n > 0:
            i, o = divmod(a, len(unit))
            m = min(n, len(unit) - o)
            if o < 8:
                h = (b"%08d" % i)[o:o + m]
                out.append(h)
                out.append(unit[o + len(h):o + m])
            else:
                out.append(unit[o:o + m])
            a += m
            n -= m
        return b"".join(out)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        c.put("h", "small", b"small")
        for n in sizes:
            c.p.pending.append("PUT")
            c.send(req("PUT", "/h/huge", [("Content-Length", n)]))
            a = 0
            while a < n:
                m = min(1 << 20, n - a)
                c.send(piece(a, m))
                a += m
            expect(c.recv(), "PUT", 200, b"OK\r\n")
            if c.head("h", "huge") != n:
                raise Violation("HEAD length wrong for %d bytes" % n, key="head-length")
            st = c.stats()
            if st["bytes"] != n + 5:
                raise Violation("%d bytes are reported with %d stored" % (st["bytes"], n + 5), key="huge-stats")
            # read without the parser, it would keep all
            c.send(req("GET", "/h/huge"))
            buf, a = bytearray(), None
            while a is None or a < n:
                d = c.s.recv(1 << 20)
                if not d:
                    raise Violation("the connection ended after %s of %d bytes" % (a, n), key="huge-cut")
                if a is None:
                    buf += d
                    x = parse_head(buf)
                    if x is None:
                        continue
                    if x[0] != 200 or x[1].get("content-length") != str(n):
                        raise Violation("GET of %d bytes: %r" % (n, x), key="huge-head")
                    d, a = bytes(buf[x[2]:]), 0
                if a + len(d) > n or d != piece(a, len(d)):
                    raise Violation("wrong bytes within %d..%d of %d" % (a, a + len(d), n), key="huge-value")
                a += len(d)
            if c.get("h", "small") != b"small":
                raise Violation("another key was changed", key="other-key")
            obs.ev(3)
            obs.seen("huge", n)
        if not c.delete("h", "huge"):
            raise Violation("DELETE of a stored key answered 404", key="delete-outcome")
        s.stop()
