"""C11: listings against the reference set of keys, windows as partitions, listings during changes against the intervals in which keys were stored"""
import time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one listing (or one series of windows) compared with the set of keys. Distinct and non-trivial: combinations of number of keys (log), "
        "start and limit relative to the total, size of the windows, and for listings during changes the kinds of changes, whether the table grew or "
        "vanished and how much of the output was still to come when it was changed.")
ASSUME = ["a key whose first upload is in progress may or may not be named", "names contain no line ends (they could not be told apart in the listing)"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 160):
        out.append(("windows", dict(seed="%d-%d" % (seed, i), variant=["asan", "rel", "dbg", "asan:BUFFER_SIZE=1024"][i % 4], rounds=14 if q else 60)))
    for i in range(24 if q else 240):
        out.append(("during", dict(seed="%d-c%d" % (seed, i), variant=["asan", "dbg", "rel"][i % 3], rounds=12 if q else 50)))
    for i in range(8 if q else 60):
        out.append(("storm", dict(seed="%d-s%d" % (seed, i), variant=["asan", "rel"][i % 2], steps=1500 if q else 8000)))
    out.append(("large", dict(seed="%d-l" % seed, n=30000 if q else 200000)))
    for i in range(2 if q else 8):
        out.append(("bulky", dict(seed="%d-b%d" % (seed, i), variant=["rel", "asan"][i % 2], n=6000 if q else 20000)))
    return out


class Used:
    """Connections with a past: what was done on one before must not show in a listing"""

    def __init__(self, s, r, stored=None):
        self.s, self.r, self.n = s, r, 0
        self.held = NB(s)
        self.held.queue(req("PUT", b"/held/h", [("Content-Length", 100)]) + b"x" * 40)
        self.held.push()
        barrier(Conn(s), 1)

    def conn(self):
        r = self.r
        c = Conn(self.s)
        for i in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            x = r.choice(["held", "held", "heldget", "put", "file", "get", "getfile", "head", "miss", "del", "bulk", "stats", "nolist", "gc", "ttl"])
            v = b"v" * (5000 if x == "file" else r.randrange(1, 300))
            if x == "held":
                c.put(b"held", b"h", b"w" * r.choice([1, 7, 100, 5000, 20000]), ttl=r.choice([None, 5, 100000]))
            elif x == "heldget":
                if c.get(b"held", b"h") is not None:
                    raise Violation("the key of an upload in progress is answered", key="held-get")
            elif x in ("put", "file"):
                c.put(b"aside", b"a%d" % r.randrange(4), v)
            elif x == "ttl":
                c.put(b"aside", b"a%d" % r.randrange(4), v, ttl=100000)
            elif x in ("get", "getfile"):
                c.get(b"aside", b"a%d" % r.randrange(4))
            elif x == "head":
                c.head(b"aside", b"a%d" % r.randrange(4))
            elif x == "miss":
                c.get(b"nowhere", b"a")
            elif x == "del":
                c.delete(b"aside", b"a%d" % r.randrange(4))
            elif x == "bulk":
                c.bulk(b"aside", [b"a%d" % i for i in range(r.randrange(4))])
            elif x == "stats":
                c.stats()
            elif x == "gc":
                c.gc()
            elif x == "nolist":
                # a listing that is not: the connection goes on after the answer that the table does not exist
                y = c.do("GET", b"/nowhere", r.choice([[("X-Start", 5), ("X-Limit", 3)], [("X-Limit", 1)], [("X-Start", 100)]]))
                if y.status != 404:
                    raise Violation("the listing of a table that does not exist is answered %d" % y.status, key="listing-missing")
                if y.h("connection") != "Keep-Alive":
                    c.close()
                    c = Conn(self.s)
        return c

    def done(self):
        self.held.close()
        c = Conn(self.s)
        c.delete(b"aside")
        c.close()


def put_many(c, t, ks, v=b"v"):
    # A client that sends much more before it reads may not (the buffers of a unix socket are small)
    for a in range(0, len(ks), 30):
        b = ks[a:a + 30]
        c.p.pending += ["PUT"] * len(b)
        c.send(b"".join(req("PUT", path(t, k), (), v) for k in b))
        for _ in b:
            expect(c.recv(), "PUT", 200, b"OK\r\n")


def fail_keys(tag, l, ks, ent):
    miss, extra = set(ks) - set(l), set(l) - set(ks)
    raise Violation("%s: the listing of %d keys names %d: %d missing, %d not stored, %d repeated; X-Entries %d" % (
        tag, len(ks), len(l), len(miss), len(extra), len(l) - len(set(l)), ent),
        key="listing:%s:%d%d%d%d" % (tag, bool(miss), bool(extra), len(l) != len(set(l)), ent != len(ks)),
        detail="missing %r extra %r" % (sorted(miss)[:5], sorted(extra)[:5]))


def full(s, obs, t, ks, r, tag, used=None):
    st, l, ent, tot = listing(s, t, limit=r.choice([2147483647, 2147483647, 1000000]), conn=used and used.conn())
    obs.ev()
    if not ks:
        if st != 404 and (l or ent):
            fail_keys(tag, l, ks, ent)
        return 0
    if sorted(l) != sorted(ks) or ent != len(ks):
        fail_keys(tag, l, ks, ent)
    if tot < len(ks):
        raise Violation("X-Total %d is below the number of keys %d" % (tot, len(ks)), key="total-small")
    return tot


def windows_of(s, obs, t, ks, w, tag, used=None):
    got, start, n = [], 0, 0
    while True:
        st, l, ent, tot = listing(s, t, start=start, limit=w, conn=used.conn() if used and n < 8 else None)
        n += 1
        obs.ev()
        if st != 200 or ent != len(ks):
            raise Violation("%s: window %d+%d answered %d with X-Entries %d for %d keys" % (tag, start, w, st, ent, len(ks)), key="window-head")
        if len(l) > w:
            raise Violation("%s: a window with limit %d names %d keys" % (tag, w, len(l)), key="window-large")
        got += l
        start += w
        if start >= tot:
            break
    if sorted(got) != sorted(ks):
        fail_keys(tag + " (windows)", got, ks, len(ks))
    obs.seen(tag, "windows", len(ks).bit_length(), n.bit_length(), tot % w == 0)


def windows(obs, seed, variant, rounds):
    r = rng("c11", seed)
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        used = Used(s, r)
        tabs = gen.prefix_names(b"tabl") + [b"other"]
        M = {t: {} for t in tabs}
        for rnd in range(rounds):
            if rnd and r.random() < .15:
                used.done()
                c.close()
                s.stop()
                s.start()
                c, used = Conn(s), Used(s, r)
                for u in tabs:
                    full(s, obs, u, list(M[u]), r, "after a restart", used)
                obs.count("restarts")
            t = r.choice(tabs)
            ks = M[t]
            x = r.random()
            if x < .6:
                new = gen.names(r, r.choice([1, 2, 3, 10, 40, 200, 600]))
                from vlib.murmur import murmur32
                hs = {murmur32(k) for k in ks}
                new = [k for k in new if murmur32(k) not in hs]
                put_many(c, t, new)
                ks.update((k, b"v") for k in new)
            elif x < .85:
                for k in r.sample(sorted(ks), len(ks) * r.choice([1, 3, 9, 10]) // 10):
                    c.delete(t, k)
                    del ks[k]
            elif x < .9:
                c.delete(t)
                M[t] = ks = {}
            else:
                dk = [k for k in r.sample(sorted(ks), min(len(ks), 4)) if k.strip(b" \t\r\n") == k and len(k) < 600]
                if ks:
                    c.bulk(t, dk)
                for k in dk:
                    ks.pop(k, None)
            for u in tabs if r.random() < .3 else [t]:
                tot = full(s, obs, u, list(M[u]), r, "quiet", used)
                if not M[u]:
                    continue
                obs.seen("full", len(M[u]).bit_length())
                if tot <= 10000:
                    st, l, ent, _ = listing(s, u, conn=used.conn())
                    if sorted(l) != sorted(M[u]) or ent != len(M[u]):
                        fail_keys("no limit", l, list(M[u]), ent)
                windows_of(s, obs, u, list(M[u]), r.choice([1, 2, 3, 7, 16, 64, 1000, tot, tot + 1, max(1, tot - 1), max(1, tot // 2)])
                           if tot < 300 else r.choice([tot // 7, tot // 2, tot, tot - 1, 1 + tot // 3]), "quiet", used)
                # single windows
                for start, limit in ((tot, 10), (tot + 1, 2147483647), (2147483647, 2147483647), (2147483646, 1), (0, 0), (tot - 1, 1), (tot - 1, 100)):
                    st, l, ent, tot2 = listing(s, u, start=start, limit=limit, conn=used.conn())
                    obs.ev()
                    if st != 200 or tot2 != tot or ent != len(M[u]):
                        raise Violation("a window at %d of %d is answered %d %d %d" % (start, tot, st, ent, tot2), key="window-edge")
                    if len(l) > (0 if start >= tot else min(limit, tot - start)) or set(l) - set(M[u]):
                        raise Violation("a window of %d from %d of %d names %d keys" % (limit, start, tot, len(l)), key="window-edge-keys", detail=repr(l[:10]))
                    obs.seen("edge", start - tot if abs(start - tot) < 5 else "far", limit)
        st, l, ent, tot = listing(s, b"never")
        if st != 404:
            raise Violation("the listing of a table that does not exist is answered %d" % st, key="listing-missing")
        # windows with one of the two headers only
        for u in tabs:
            if M[u]:
                st, l, ent, tot = listing(s, u, limit=3, conn=used.conn())
                st, l2, ent, tot = listing(s, u, start=0, limit=3, conn=used.conn())
                st, l3, ent, tot = listing(s, u, start=5, conn=used.conn())
                st, l4, ent, tot = listing(s, u, start=5, limit=10000, conn=used.conn())
                if sorted(l) != sorted(l2) or sorted(l3) != sorted(l4):
                    raise Violation("the default of X-Start or X-Limit differs", key="defaults")
        used.done()
        barrier(c)
        st = c.stats()
        if st["keys"] != sum(len(x) for x in M.values()):
            raise Violation("listings changed the number of keys", key="listing-side-effect")
        s.stop()


class Slow:
    """A listing read slowly"""

    def __init__(self, s, t, start=None, limit=2147483647):
        self.nb = NB(s, rcvbuf=4096)
        self.nb.p.pending.append("GET")
        h = [("X-Limit", limit)] if limit is not None else []
        if start is not None:
            h.append(("X-Start", start))
        self.nb.queue(req("GET", path(t), h))
        while self.nb.out:
            self.nb.push()

    def read(self, n):
        """Read about n bytes of the response, leave the rest"""
        t0 = time.time()
        while len(self.nb.p.buf) < n and time.time() - t0 < .3 and not self.nb.p.eof:
            if not self.nb.pump(max(1, n - len(self.nb.p.buf))):
                time.sleep(.0002)

    def finish(self, s):
        t0 = time.time()
        while True:
            self.nb.pump()
            x = self.nb.p.next()
            if x is not None:
                break
            if self.nb.p.eof:
                time.sleep(.02)
                s.check()
                raise Violation("the connection ended within the headers of a listing", key="listing-cut")
            if time.time() - t0 > 20:
                s.check()
                raise Violation("a listing does not end", key="listing-hang", soft=True)
            time.sleep(.0005)
        self.nb.close()
        return parse_listing(x)


def during(obs, seed, variant, rounds):
    r = rng("c11d", seed)
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        c = Conn(s)
        ctl = Conn(s)
        for rnd in range(rounds):
            t = b"t%d" % rnd
            n = r.choice([1, 5, 30, 200, 700, 1500])
            ks = gen.names(r, n, ["a", "n", "l"] if n < 300 else ["a", "n"])
            put_many(c, t, ks)
            stored = set(ks)
            s.shm.set(sock_wlimit=r.choice([1, 7, 100, 5000]) if n < 100 else r.choice([100, 1000, 5000]))
            sl = Slow(s, t)
            barrier(ctl, r.choice([1, 1, 2, 3]))
            sl.read(r.choice([0, 100, 150, 300, 1000, 5000]))
            throughout, ever = set(stored), set(stored)
            kinds = set()
            from vlib.murmur import murmur32
            hs = {murmur32(k) for k in stored}
            for i in range(r.randrange(1, 12)):
                op = r.choice(["put", "grow", "grow", "del", "delmany", "over", "deltab", "partial", "gc", "bulk"])
                if op == "deltab" and r.random() < .7:
                    continue
                kinds.add(op)
                if op in ("put", "grow"):
                    new = [b"new%d-%d-%d" % (rnd, i, j) for j in range(1 if op == "put" else r.choice([20, 300, 2 * n]))]
                    new = [k for k in new if not (murmur32(k) in hs or hs.add(murmur32(k)))]
                    put_many(c, t, new)
                    stored |= set(new)
                    ever |= set(new)
                elif op in ("del", "delmany", "bulk"):
                    d = r.sample(sorted(stored), min(len(stored), 1 if op == "del" else 5 if op == "bulk" else len(stored) * 9 // 10))
                    if op == "bulk":
                        d = [k for k in d if len(k) < 600]
                        if not stored:
                            continue
                        c.bulk(t, d)
                    else:
                        for k in d:
                            c.delete(t, k)
                    stored -= set(d)
                    throughout -= set(d)
                elif op == "over" and stored:
                    # overwriting keeps a key stored
                    k = r.choice(sorted(stored))
                    c.put(t, k, b"again")
                elif op == "deltab":
                    c.delete(t)
                    stored, throughout = set(), set()
                elif op == "partial":
                    nb = NB(s)
                    k = b"part%d" % i
                    nb.queue(req("PUT", path(t, k), [("Content-Length", 50)]) + b"x")
                    nb.push()
                    barrier(ctl, 1)
                    ever.add(k)
                    nb.close()
                elif op == "gc":
                    c.gc()
            s.shm.set(sock_wlimit=0)
            st, l, ent, tot = sl.finish(s)
            obs.ev()
            miss, extra = throughout - set(l), set(l) - ever
            if st == 404:
                miss = throughout
            if miss or extra:
                raise Violation("a listing during changes (%s) misses %d of %d keys stored throughout it and names %d that were not stored" % (
                    ",".join(sorted(kinds)), len(miss), len(throughout), len(extra)), key="during:%d%d" % (bool(miss), bool(extra)),
                    detail="n=%d kinds=%s missing %r extra %r" % (n, kinds, sorted(miss)[:5], sorted(extra)[:5]))
            obs.seen("during", n, frozenset(kinds), len(stored) > 2 * n, not stored)
            obs.count("listings_during_changes")
            if not stored:
                full(s, obs, t, [], r, "after changes")
        s.stop()


def storm(obs, seed, variant, steps):
    """Many listings and changes on few tables in any interleaving"""
    r = rng("c11s", seed)
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        c = Conn(s)
        tabs = [b"s1", b"s2", b"s1x"]
        names = gen.names(r, 400, ["a", "n"])
        stored = {t: set() for t in tabs}
        lists = []  # (slow, table, throughout, ever)
        readers = []
        for i in range(steps):
            x = r.random()
            t = r.choice(tabs)
            if r.random() < .05 and stored[t]:
                # several clients are in the middle of reading one value
                k = r.choice(sorted(stored[t]))
                for j in range(r.choice([1, 2, 3, 4])):
                    nb = NB(s)
                    nb.queue(req("GET", path(t, k)) * r.choice([1, 3]))
                    nb.push()
                    readers.append(nb)
                barrier(c, 1)
                while len(readers) > 8:
                    readers.pop(r.randrange(len(readers))).close()
            if x < .5:
                k = r.choice(names)
                c.put(t, k, b"v" * r.choice([1, 1, 1, 4096, 5000, 60000]))
                stored[t].add(k)
                for l in lists:
                    if l[1] == t:
                        l[3].add(k)
            elif x < .7 and stored[t]:
                k = r.choice(sorted(stored[t]))
                if not c.delete(t, k):
                    raise Violation("a stored key could not be deleted", key="storm-delete")
                stored[t].discard(k)
                for l in lists:
                    if l[1] == t:
                        l[2].discard(k)
            elif x < .71:
                c.delete(t)
                stored[t] = set()
                for l in lists:
                    if l[1] == t:
                        l[2].clear()
            elif x < .85 and len(lists) < 6:
                s.shm.set(sock_wlimit=r.choice([0, 10, 200]))
                sl = Slow(s, t)
                # accepted and received at an unknown time from now on until it ends: what is stored from now on counts
                lists.append((sl, t, set(stored[t]), set(stored[t])))
                if r.random() < .7:
                    barrier(c, 1)
                    sl.read(r.choice([0, 60, 120, 400]))
            elif x < .95 and lists:
                sl, t, thr, ever = lists.pop(r.randrange(len(lists)))
                s.shm.set(sock_wlimit=r.choice([0, 0, 300]))
                st, l, ent, tot = sl.finish(s)
                obs.ev()
                miss = thr - set(l)
                extra = set(l) - ever
                if miss or extra:
                    raise Violation("a listing in a storm of changes misses %d of %d keys stored throughout it and names %d that were not stored" % (
                        len(miss), len(thr), len(extra)), key="storm:%d%d" % (bool(miss), bool(extra)))
                obs.seen("storm", len(thr).bit_length(), (len(ever) - len(thr)).bit_length(), len(lists))
            elif lists and r.random() < .3:
                sl = lists.pop()[0]
                sl.nb.close()  # abandoned
        for sl, t, thr, ever in lists:
            sl.nb.close()
        s.shm.set(sock_wlimit=0)
        while readers and r.random() < .8:
            readers.pop().close()
        for t in tabs:
            full(s, obs, t, list(stored[t]), r, "after the storm")
        s.stop()


def large(obs, seed, n):
    r = rng("c11l", seed)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        from vlib.murmur import murmur32
        seen = set()
        ks = [k for k in (b"large-%d" % i for i in range(n)) if not (murmur32(k) in seen or seen.add(murmur32(k)))]
        put_many(c, b"big", ks)
        tot = full(s, obs, b"big", ks, r, "large")
        st, l, ent, _ = listing(s, b"big")
        obs.ev()
        if st != 200 or ent != len(ks) or len(l) > 10000 or set(l) - set(ks) or len(set(l)) != len(l):
            raise Violation("listing without a limit", key="default-limit")
        # the default limit is the window 0..9999
        st, l2, _, _ = listing(s, b"big", start=0, limit=10000)
        if sorted(l) != sorted(l2):
            raise Violation("a listing without X-Limit differs from one with 10000", key="default-limit-2")
        windows_of(s, obs, b"big", ks, 10000, "large")
        windows_of(s, obs, b"big", ks, 8191, "large")
        s.stop()


def bulky(obs, seed, variant, n):
    """Long names: listings of many megabytes, also to a client that reads slowly"""
    r = rng("c11b", seed)
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        from vlib.murmur import murmur32
        seen = set()
        top = r.choice([900, 3000])
        ks = [b"%d-%s" % (i, b"x" * r.choice([r.randrange(top), top])) for i in range(n)]
        ks = [k for k in ks if not (murmur32(k) in seen or seen.add(murmur32(k)))]
        put_many(c, b"bulky", ks)
        full(s, obs, b"bulky", ks, r, "bulky")
        windows_of(s, obs, b"bulky", ks, 3000, "bulky")
        x = s.raw(rcvbuf=20000)
        x.sendall(b"GET /bulky HTTP/1.1\r\nX-Limit: 100000\r\n\r\n")
        got, end = [], time.time() + 60
        while time.time() < end:
            d = x.recv(r.choice([3000, 300000]))
            if not d:
                break
            got.append(d)
            if len(got) % 200 == 0:
                time.sleep(.01)
                c.get(b"t", b"k")
        x.close()
        got = b"".join(got)
        body = got[got.index(b"\r\n\r\n") + 4:]
        obs.ev()
        l = body.split(b"\r\n")
        if l.pop() != b"" or sorted(l) != sorted(ks):
            fail_keys("bulky, read slowly", l, ks, -1)
        obs.seen("bulky", top, len(body) >> 20)
        obs.count("listing_bytes", len(body))
        s.stop()
