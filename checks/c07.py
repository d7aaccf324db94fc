"""C07: the evicted set is compared with the prefix of the least recently used values that has to go"""
import struct
from collections import OrderedDict
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib import big, gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "rel:DB_LRU_EVERY=1000000", "asan:DB_LRU_EVERY=1000000"]
RULE = ("A case is one collection (requested or automatic) after which the surviving keys were compared with the order of last use. Distinct and "
        "non-trivial: combinations of limit, clear percentage, number of values evicted (log), last use by upload, GET or HEAD of the first "
        "survivor and the last victim, and whether values were in use (being downloaded, uploaded).")
ASSUME = ["the order of use of values used by one connection in sequence is the order of the requests"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(30 if q else 240):
        out.append(("evict", dict(seed="%d-%d" % (seed, i), variant=["asan", "rel", "dbg", "asan"][i % 4], rounds=20 if q else 80)))
    for i in range(6 if q else 40):
        out.append(("automatic", dict(seed="%d-a%d" % (seed, i), variant=["rel", "asan"][i % 2], n=1500 if q else 10000)))
    for i in range(4 if q else 20):
        out.append(("in_use", dict(seed="%d-u%d" % (seed, i), variant=["asan", "dbg"][i % 2])))
    for i in range(4 if q else 24):
        out.append(("exact", dict(seed="%d-x%d" % (seed, i), variant=["rel:DB_LRU_EVERY=1000000", "asan:DB_LRU_EVERY=1000000"][i % 2], rounds=60 if q else 300)))
    out.insert(0, ("over4g", dict(seed="%d-4g" % seed)))
    out.append(("over2g", dict(seed="%d-g" % seed)))
    return out


def clear_of(lru):
    return 0.2 if lru is None else lru / 100.0


class Lru:
    def __init__(self):
        self.o = OrderedDict()   # (t, k) -> (len, kind of last use)
        self.D = {}

    def put(self, t, k, v):
        self.o.pop((t, k), None)
        self.o[(t, k)] = [len(v), "put"]
        self.D[(t, k)] = v

    def use(self, t, k, how):
        x = self.o.pop((t, k))
        x[1] = how
        self.o[(t, k)] = x

    def drop(self, t, k):
        self.o.pop((t, k), None)
        self.D.pop((t, k), None)

    def size(self):
        return sum(x[0] for x in self.o.values())

    def M(self):
        m = {}
        for (t, k) in self.o:
            m.setdefault(t, {})[k] = self.D[(t, k)]
        return m


def judge(obs, L, present, limit, clear, tag, before=None, slack=0):
    """present: set of (t, k) found after a collection of a state described by L"""
    order = list(L.o)
    size0 = L.size()
    gone = [x for x in order if x not in present]
    extra = [x for x in present if x not in L.o]
    if extra:
        raise Violation("%s: %d keys are stored that should not be" % (tag, len(extra)), key="evict-extra")
    tol = 2 + limit * 1e-6
    if not gone:
        if size0 > limit + slack:
            raise Violation("%s: %d bytes stay stored with a limit of %d" % (tag, size0, limit), key="evict-none:" + tag)
        obs.seen(tag, "none", limit, clear)
        return []
    if size0 <= limit - tol:
        raise Violation("%s: %d values were evicted although only %d bytes of %d were stored" % (tag, len(gone), size0, limit), key="evict-needless:" + tag)
    n = len(gone)
    if order[:n] != gone:
        surv = [i for i, x in enumerate(order) if x in present]
        vic = [i for i, x in enumerate(order) if x not in present]
        raise Violation("%s: the value at position %d of the order of use was evicted while the one at %d, used earlier, was not" % (tag, max(vic), min(surv)),
                        key="evict-order:" + tag, detail="last used by: victim %r survivor %r" % (L.o[order[max(vic)]], L.o[order[min(surv)]]))
    need = size0 - limit + limit * clear
    freed = sum(L.o[x][0] for x in gone)
    if freed < need - tol and n < len(order):
        raise Violation("%s: %d bytes were evicted, %d are needed" % (tag, freed, need), key="evict-few:" + tag, detail="size %d limit %d clear %s" % (size0, limit, clear))
    last = L.o[gone[-1]][0]
    if freed - last > need + tol:
        raise Violation("%s: %d bytes were evicted, more than needed (%d) by more than a value" % (tag, freed, need), key="evict-many:" + tag,
                        detail="size %d limit %d clear %s" % (size0, limit, clear))
    obs.seen(tag, limit, clear, n.bit_length(), L.o[gone[-1]][1], L.o[order[n]][1] if n < len(order) else None)
    obs.count("values_evicted", n)
    return gone


def present_keys(s, tables):
    p = set()
    for t in tables:
        st, l, ent, tot = listing(s, t, limit=1000000)
        for k in l:
            p.add((t, k))
    return p


def evict(obs, seed, variant, rounds):
    """Collections on request; the limit is never exceeded before (automatic collections are made impossible by their rarity: a restart is not needed, the
    history stays below 50 uploads between requested collections)"""
    r = rng("c07", seed)
    limit = r.choice([1000, 5000, 20000, 100000, 1000000, 1000, 5000, 20000, 100000, (1 << 32) + r.choice([0, 1000, 20000]), (1 << 31) + 3000])
    lru = r.choice([None, None, 0, 1, 10, 50, 90, 100, 0.5, 12.5, 37.5])
    dbg = variant == "dbg"
    with Server(variant, max_size=limit, lru=lru, unix=r.random() < .5, shm=dict(sndbuf=4608)) as s:
        held = []

        def release(n):
            """at most n downloads stay in progress"""
            while len(held) > n:
                socks = s.nsock()
                held.pop(r.randrange(len(held))).close()
                s.wait(lambda: s.nsock() < socks)
        c = Conn(s)
        c2 = Conn(s)
        tabs = [b"a", b"b", b"cc"]
        L = Lru()
        clear = clear_of(lru)
        uploads = 0
        inuse = []
        ttls = r.random() < .6
        mx = max(2, min(limit, 1000000) // r.choice([2, 5, 20, 60]))
        names = gen.names(r, 60, ["a", "n"])
        for rnd in range(rounds):
            for i in range(r.randrange(5, 45)):
                op = r.choices(["put", "get", "head", "del", "miss", "failed", "hold"], [40, 25, 15, 4, 3, 1, 6])[0]
                t = r.choice(tabs)
                ks = [k for (tt, k) in L.o if tt == t]
                if op == "put":
                    k = r.choice(names)
                    v = gen.data((seed, rnd, i), r.randrange(1, mx) if r.random() < .8 else 1)
                    L0 = Lru()
                    L0.o, L0.D = OrderedDict(L.o), dict(L.D)
                    # the time to live (which never comes to an end here) does not matter
                    r.choice([c, c2]).put(t, k, v, ttl=r.choice([None, 100000]) if ttls else None)
                    uploads += 1
                    auto = dbg or uploads % 50 == 0
                    if auto:
                        # the collection happened during this upload: before the new value counted, with the old one removed
                        L0.drop(t, k)
                        p = present_keys(s, tabs) - {(t, k)}
                        for x in judge(obs, L0, p, limit, clear, "automatic", slack=0):
                            L.drop(*x)
                        obs.ev()
                        s.wait_flush()
                    L.put(t, k, v)
                elif op == "hold":
                    # a download that stays in progress: a use when it is requested
                    ks = [k for k in ks if len(L.D[(t, k)]) > 4096]
                    if ks:
                        k = r.choice(ks)
                        nb = NB(s, rcvbuf=4096)
                        nb.queue(req("GET", path(t, k)))
                        nb.push()
                        barrier(c, 1)
                        held.append(nb)
                        inuse.append((t, k))
                        L.use(t, k, op)
                    release(4)
                elif op in ("get", "head") and ks:
                    k = r.choice(ks)
                    if inuse and r.random() < .4 and inuse[-1] in L.o:
                        # one which is being downloaded
                        t, k = inuse[-1]
                    if op == "get":
                        if c.get(t, k) != L.D[(t, k)]:
                            raise Violation("wrong value with a size limit", key="lru-value")
                    elif c.head(t, k) != len(L.D[(t, k)]):
                        raise Violation("wrong HEAD with a size limit", key="lru-value")
                    L.use(t, k, op)
                elif op == "del" and ks:
                    k = r.choice(ks)
                    if not c.delete(t, k):
                        raise Violation("a value disappeared without a collection", key="lru-lost")
                    L.drop(t, k)
                elif op == "miss":
                    c.get(t, "not-there")
                elif op == "failed":
                    nb = NB(s)
                    socks = s.nsock()
                    nb.queue(req("PUT", path(t, b"failing"), [("Content-Length", 100)]) + b"xx")
                    nb.push()
                    barrier(c, 1)
                    nb.close()
                    s.wait(lambda: s.nsock() < socks)
                    uploads += 1
                    if dbg or uploads % 50 == 0:
                        p = present_keys(s, tabs)
                        for x in judge(obs, L, p, limit, clear, "automatic"):
                            L.drop(*x)
            c.gc()
            p = present_keys(s, tabs)
            for x in judge(obs, L, p, limit, clear, "requested"):
                L.drop(*x)
            obs.ev()
            st = c.stats()
            if st["bytes"] > limit:
                raise Violation("%d bytes are stored after a collection with a limit of %d" % (st["bytes"], limit), key="over-limit")
            release(r.choice([0, 2, 4]))
            s.wait_flush()
            if rnd % 4 == 0:
                release(0)
                M = L.M()
                check_stats(s, c, M, "after eviction")
                check_space(s, c, M, "after eviction")
        release(0)
        audit(s, c, L.M(), "after evictions")
        s.stop()


def exact(obs, seed, variant, rounds):
    """Values which fill the limit exactly: nothing is evicted up to it, and beyond it exactly as many as are needed"""
    r = rng("c07x", seed)
    size = r.choice([1, 10, 1000, 4096, 5000])
    n = r.choice([10, 20, 40])
    lru = r.choice([0, 10, 20, 50, 100, None])
    limit = n * size
    more = round(n * clear_of(lru))
    with Server(variant, max_size=limit, lru=lru, unix=r.random() < .5) as s:
        c = Conn(s)
        L = Lru()
        for rnd in range(rounds):
            want = n + r.choice([-1, 0, 0, 0, 0, 1, 1, 2, 5])
            i = 0
            while len(L.o) < want:
                k = b"%d-%d" % (rnd, i)
                i += 1
                v = gen.data((seed, k), size)
                c.put(b"x", k, v, ttl=r.choice([None, None, 100000]))
                L.put(b"x", k, v)
            while len(L.o) > want:
                t, k = r.choice(list(L.o))
                c.delete(t, k)
                L.drop(t, k)
            for _ in range(r.randrange(6)):
                t, k = r.choice(list(L.o))
                how = r.choice(["get", "head", "put"])
                if how == "put":
                    c.put(t, k, L.D[(t, k)])
                    L.put(t, k, L.D[(t, k)])
                else:
                    c.get(t, k) if how == "get" else c.head(t, k)
                    L.use(t, k, how)
            c.gc()
            p = present_keys(s, [b"x"])
            before = len(L.o)
            gone = judge(obs, L, p, limit, clear_of(lru), "filled exactly")
            exp = 0 if before <= n else min(before, before - n + more)
            obs.ev()
            obs.seen("exact", size, n, lru, want - n)
            if len(gone) != exp:
                raise Violation("with %d values of %d bytes, a limit of %d of them and %s%% to clear, %d are evicted instead of %d" % (before, size, n, lru, len(gone), exp), key="exact")
            for x in gone:
                L.drop(*x)
            s.wait_flush()
        audit(s, c, L.M(), "filled exactly")
        s.stop()


def automatic(obs, seed, variant, n):
    """Uploads only: the limit is kept without any request for a collection"""
    r = rng("c07a", seed)
    limit = r.choice([10000, 100000, 500000])
    vmax = r.choice([100, 1000, 5000])
    with Server(variant, max_size=limit, lru=r.choice([None, 5, 30]), unix=True) as s:
        c = Conn(s)
        top = 0
        since = 0
        recent = []
        un = {}
        for i in range(n):
            v = gen.data(i, r.randrange(1, vmax + 1)) if r.random() < .5 else b"x" * vmax
            k = r.randrange(n)
            un[k] = len(v)
            c.put("auto", "k%d" % k, v)
            recent = (recent + [len(v)])[-51:]
            if i % 5 == 0 or vmax == 5000:
                st = c.stats()
                top = max(top, st["bytes"])
                # at any time at most 50 uploads since the last collection
                if st["bytes"] > limit + sum(recent):
                    raise Violation("%d bytes are stored with a limit of %d although the last 50 uploads had only %d" % (st["bytes"], limit, sum(recent)), key="auto-over")
                obs.ev()
        # without eviction there would have been more than twice the limit
        if top <= limit // 2 and sum(un.values()) > 2 * limit:
            raise Violation("never more than %d bytes were kept with a limit of %d" % (top, limit), key="auto-under")
        obs.seen("auto", limit, vmax)
        obs.count("max_over_limit_permille", max(0, (top - limit) * 1000 // limit))
        s.stop()


def in_use(obs, seed, variant):
    """Values are evicted while they are being downloaded, listed or replaced"""
    r = rng("c07u", seed)
    limit = 200000
    with Server(variant, max_size=limit, unix=True, shm=dict(sndbuf=4608)) as s:
        c = Conn(s)
        for rnd in range(6):
            vals = {}
            for i in range(12):
                vals[b"k%d" % i] = gen.data((seed, rnd, i), r.choice([4000, 15000, 30000]))
                c.put("u", b"k%d" % i, vals[b"k%d" % i])
            p = present_keys(s, [b"u"])
            readers = []
            for (t, k) in sorted(p)[:6]:
                nb = NB(s)
                nb.p.pending.append("GET")
                nb.queue(req("GET", path(t, k)))
                nb.push()
                readers.append((nb, k))
            ups = []
            for i in range(2):
                nb = NB(s)
                d = req("PUT", "/u/up%d" % i, (), b"u" * 9000)
                nb.p.pending.append("PUT")
                nb.queue(d)
                nb.push(len(d) - 50)
                ups.append(nb)
            barrier(c)
            c.put("u", "fill", b"f" * 150000)
            c.put("u", "fill2", b"f" * 150000)
            c.gc()
            st = c.stats()
            # uploads in progress can not be evicted
            if st["bytes"] > limit + 2 * 9000:
                raise Violation("%d bytes stay stored with a limit of %d" % (st["bytes"], limit), key="inuse-over")
            for nb, k in readers:
                import time
                t0 = time.time()
                while True:
                    nb.pump()
                    x = nb.p.next()
                    if x is not None:
                        break
                    if nb.p.eof or time.time() - t0 > 15:
                        s.check()
                        raise Violation("a download stops when its value is evicted", key="inuse-download", soft=not nb.p.eof)
                if value_of(x) != vals[k]:
                    raise Violation("a download was changed by the eviction of its value", key="inuse-value")
                nb.close()
                obs.ev()
            for nb in ups:
                while nb.out:
                    nb.push()
                t0 = time.time()
                while True:
                    nb.pump()
                    x = nb.p.next()
                    if x is not None:
                        break
                    if nb.p.eof or time.time() - t0 > 15:
                        s.check()
                        raise Violation("an upload does not complete after a collection", key="inuse-upload", soft=True)
                expect(x, "PUT", 200, b"OK\r\n")
                nb.close()
            obs.seen("in-use", rnd, st["keys"])
            for t, k in present_keys(s, [b"u"]):
                v = c.get(t, k)
                if v is None or (k in vals and v != vals[k]):
                    raise Violation("a listed value is not returned", key="inuse-listed")
            M = {b"u": {k: c.get(t, k) for t, k in present_keys(s, [b"u"])}}
            if not M[b"u"]:
                M = {}
            audit(s, c, M, "after evictions of values in use", values=False)
            c.delete("u")
            audit(s, c, {}, "after evictions of values in use, all deleted")
        s.stop()


def over2g(obs, seed):
    """More than 2 GiB have to be evicted at once (sparse values: the uploads are cut, then the files are not written)"""
    with Server("rel", max_size=1500000000, lru=20, unix=True) as s:
        c = Conn(s)
        # two uploads that are only started (their length counts), then eviction of others has to cope with large numbers
        c.put("g", "a", b"a" * 100)
        nbs = []
        for i in range(2):
            nb = NB(s)
            nb.queue(req("PUT", "/g/big%d" % i, [("Content-Length", 1900000000)]) + b"x")
            nb.push()
            nbs.append(nb)
        barrier(c)
        c.gc()
        # everything that can be evicted may be; what must not happen is that nothing works any more
        c.put("g", "b", b"b" * 5000)
        if c.get("g", "b") != b"b" * 5000:
            raise Violation("a value is not stored while large uploads are in progress", key="over2g-value")
        socks = s.nsock()
        for nb in nbs:
            nb.close()
        s.wait(lambda: s.nsock() <= socks - 2)
        c.gc()
        if c.get("g", "b") != b"b" * 5000:
            raise Violation("a value was evicted although the limit is not exceeded", key="over2g-evicted")
        p = {k for t, k in present_keys(s, [b"g"])}
        audit(s, c, {b"g": {k: c.get("g", k) for k in p}}, "after large uploads")
        obs.ev()
        obs.seen("over2g")
        s.stop()


def over4g(obs, seed):
    """More than 4 GiB are stored, and more than 2 GiB are to be evicted"""
    if not big.room():
        obs.count("over4g_skipped")
        return
    r = rng("c07-4g", seed)
    limit, lru = r.choice([1000000000, 1 << 31, (1 << 32) + 5000]), r.choice([10, 20, 50])
    with Server("rel:DB_LRU_EVERY=1000000", max_size=limit, lru=lru, unix=True) as s:
        c = Conn(s)
        L = Lru()

        def put(k, n):
            expect(big.put_zeros(s, c, b"g", k, n), "PUT", 200, b"OK\r\n")
            L.o.pop((b"g", k), None)
            L.o[(b"g", k)] = [n, "put"]
        for i in range(3):
            put(b"s%d" % i, 1000 + i)
            put(b"big%d" % i, big.HUGE - i)
            put(b"m%d" % i, 5000 + i)
        # the order of use is made definite
        ks = [k for t, k in L.o]
        r.shuffle(ks)
        for k in ks:
            if c.head("g", k) != L.o[(b"g", k)][0]:
                raise Violation("HEAD of %r is not %d" % (k, L.o[(b"g", k)][0]), key="over4g-head")
            L.use(b"g", k, "head")
        st = c.stats()
        if st["bytes"] != L.size():
            raise Violation("%d bytes are reported with %d stored" % (st["bytes"], L.size()), key="over4g-stats")
        c.gc()
        p = present_keys(s, [b"g"])
        gone = judge(obs, L, p, limit, clear_of(lru), "over4g")
        for t, k in gone:
            L.drop(t, k)
        st = c.stats()
        if st["bytes"] != L.size() or st["keys"] != len(L.o):
            raise Violation("%d bytes are reported with %d stored, after an eviction" % (st["bytes"], L.size()), key="over4g-stats-after")
        c.gc()
        if L.size() <= limit and present_keys(s, [b"g"]) != p:
            raise Violation("values were evicted although the limit is not exceeded", key="over4g-again")
        obs.ev(len(gone) + 3)
        obs.seen("over4g", limit, lru, len(gone))
        s.stop()
