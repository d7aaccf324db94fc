"""C06: time to live under a virtual clock"""
import re, time
from vlib.srv import Server, Violation, Inconclusive
from vlib.http import *
from vlib.audit import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one GET, HEAD, collection or restart judged against the interval of instants at which the value may expire. Distinct and "
        "non-trivial: combinations of time to live, seconds to the expiry at the time of the read (-3..3, or further), how the value got its time "
        "to live, and what was done.")
ASSUME = ["the clock of the server is the system clock plus an offset set by the harness (it only moves forward)"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 200):
        out.append(("random_times", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3", "rel", "asan:BUFFER_SIZE=1024", "asan:BUFFER_SIZE=1024"][i % 6], n=350 if q else 1200)))
    for i in range(4 if q else 16):
        out.append(("edges", dict(seed="%d-e%d" % (seed, i), variant=["asan", "dbg", "asan:BUFFER_SIZE=1024"][i % 3])))
    for i in range(4 if q else 20):
        out.append(("collect", dict(seed="%d-c%d" % (seed, i), variant=["asan", "rel"][i % 2], n=[50, 300, 3000, 12000][i % 4])))
    out.append(("realtime", dict(seed="%d-r" % seed)))
    return out


def fl(us):
    return us // 1000000


class V:
    """A stored value: expires within [lo, hi] (None: never)"""

    def __init__(self, data, c0, c1, ttl):
        self.data, self.ttl = data, ttl
        self.lo, self.hi = (None, None) if not ttl else (fl(c0) + ttl, fl(c1) + ttl)

    def state(self, g0, g1):
        """may be returned, may be absent"""
        if self.lo is None:
            return True, False
        return not (fl(g0) > self.hi), fl(g1) > self.lo

    def ttl_ok(self, x, g0, g1):
        if self.lo is None:
            return x == 0
        return self.lo - fl(g1) <= x <= self.hi - fl(g0)


def put(s, c, M, t, k, data, ttl, hdr="X-Ttl", first=True):
    hs = [("Content-Length", len(data))]
    if ttl is not None:
        hs = [(hdr, ttl)] + hs if first else hs + [(hdr, ttl)]
    c0 = s.now()
    c.p.pending.append("PUT")
    c.send(c.placed(req("PUT", path(t, k), hs) + data, data))
    expect(c.recv(), "PUT", 200, b"OK\r\n")
    c1 = s.now()
    M[(t, k)] = V(data, c0, c1, ttl or 0)


def read(obs, s, c, M, t, k, method, tag):
    v = M.get((t, k))
    g0 = s.now()
    r = c.do(method, path(t, k))
    g1 = s.now()
    if r.status not in (200, 404):
        raise ProtocolError("%s: %r" % (method, r))
    may, mayabs = v.state(g0, g1) if v else (False, True)
    rel = None if not v or v.lo is None else max(-4, min(4, fl(g0) - v.lo))
    info = "ttl %s, stored at second %s, read at second %s..%s, expires at %s..%s" % (
        v and v.ttl, v and v.lo and v.lo - v.ttl, fl(g0), fl(g1), v and v.lo, v and v.hi)
    if r.status == 200:
        if not may:
            raise Violation("%s: %s returned a value %s" % (tag, method, "which has expired" if v else "that is not stored"), key="expired-returned" if v else "absent-returned", detail=info)
        if method == "GET" and r.body != v.data:
            raise Violation("%s: GET returned other bytes" % tag, key="ttl-value")
        x = int(r.h("x-ttl"))
        if not v.ttl_ok(x, g0, g1):
            raise Violation("%s: X-Ttl is %d" % (tag, x), key="ttl-header:%s" % ("none" if v.lo is None else "remaining"), detail=info)
        if method == "HEAD" and r.h("content-length") != str(len(v.data)):
            raise Violation("HEAD length", key="ttl-head-length")
    else:
        if not mayabs:
            raise Violation("%s: %s of a value which has not expired answered 404" % (tag, method), key="premature-expiry:" + tag, detail=info)
        if v:
            del M[(t, k)]
    obs.ev()
    obs.seen(tag, method, v and v.ttl, rel, r.status)
    if v and v.lo is not None:
        obs.count("reads_%s_expiry" % ("before" if r.status == 200 else "after"))
    return r


TTLS = [None, None, 0, 1, 1, 2, 2, 3, 5, 10, 60, 3600, 86400 * 30, 1 << 30]


def random_times(obs, seed, variant, n):
    r = rng("c06", seed)
    stall = r.random() < .5    # downloads take as long as the client likes
    with Server(variant, unix=r.random() < .5, shm=dict(sndbuf=4608) if stall else None) as s:
        if r.random() < .4:
            s.shm.set(epoll_cap_ms=0)
        c = Conn(s)
        tabs = gen.names(r, 2, ["a"], table=True)
        keys = gen.names(r, 8, ["a", "n"])
        M = {}
        for i in range(n):
            t, k = r.choice(tabs), r.choice(keys)
            op = r.choices(["put", "get", "head", "adv", "gc", "del", "burst", "slow"], [30, 36, 8, 20, 4, 3, 1, 2])[0]
            if op == "put":
                put(s, c, M, t, k, gen.data((seed, i), r.choice([5, 400, 4096, 5000])), r.choice(TTLS), r.choice(["X-Ttl", "x-ttl"]), r.random() < .6)
            elif op in ("get", "head"):
                read(obs, s, c, M, t, k, op.upper(), "random")
            elif op == "adv":
                live = [v for v in M.values() if v.lo is not None]
                if live and r.random() < .7:
                    v = r.choice(live)
                    # around its expiry
                    d = v.lo - s.now() / 1e6 + r.choice([-1.0, -.3, 0, .4, .9, 1.0, 1.2, 2.1])
                    if d > 0 and d < 1e6:
                        s.advance(d)
                else:
                    s.advance(r.choice([.1, .5, 1, 1, 2, 3, 30]))
            elif op == "gc":
                g0 = s.now()
                c.gc()
                st = c.stats()
                g1 = s.now()
                lo = sum(1 for v in M.values() if not v.state(g0, g1)[1])
                hi = sum(1 for v in M.values() if v.state(g0, g1)[0])
                if not lo <= st["keys"] <= hi:
                    raise Violation("after a collection %d keys are stored, %d..%d have not expired" % (st["keys"], lo, hi),
                                    key="collect-%s" % ("lost" if st["keys"] < lo else "kept"))
                obs.ev()
                obs.seen("gc", lo == hi, min(hi, 5))
            elif op == "del":
                g0 = s.now()
                d = c.delete(t, k)
                v = M.pop((t, k), None)
                if d and v is None:
                    raise Violation("DELETE of nothing answered 200", key="ttl-delete")
                if not d and v is not None and not v.state(g0, s.now())[1]:
                    raise Violation("DELETE of a value which has not expired answered 404", key="premature-expiry:delete")
            elif op == "burst":
                # enough uploads for an automatic collection
                for j in range(52):
                    put(s, c, M, b"burst", b"b%d" % (j % 7), b"x" * 10, r.choice([None, 1, 2, 100]))
            else:
                # a value which expires while it is being downloaded or uploaded
                nb = NB(s, rcvbuf=4096)
                big = gen.data((seed, i, "slow"), 300000 if stall else 5000)
                put(s, c, M, t, k, big, 2)
                v = M[(t, k)]
                g0 = s.now()
                s.shm.set(sock_wlimit=64)
                nb.p.pending.append("GET")
                nb.queue(req("GET", path(t, k)))
                nb.push()
                barrier(c, 1)
                got_g1 = s.now()
                s.advance(4)
                for _ in range(r.choice([0, 0, 1, 3])):
                    read(obs, s, c, M, t, k, r.choice(["GET", "HEAD"]), "while it is downloaded")
                g2 = s.now()
                c.gc()
                st = c.stats()
                g3 = s.now()
                lo = sum(1 for v_ in M.values() if not v_.state(g2, g3)[1])
                hi = sum(1 for v_ in M.values() if v_.state(g2, g3)[0])
                if not lo <= st["keys"] <= hi:
                    raise Violation("after a collection, during a download, %d keys are stored, %d..%d have not expired" % (st["keys"], lo, hi),
                                    key="gc-in-use-count")
                s.shm.set(sock_wlimit=0)
                t0 = time.time()
                while True:
                    nb.pump()
                    x = nb.p.next()
                    if x is not None:
                        break
                    if time.time() - t0 > 15 or nb.p.eof:
                        s.check()
                        raise Violation("a download of an expiring value does not complete", key="ttl-download", soft=True)
                if x.status == 200 and x.body != big:
                    raise Violation("a download of an expiring value was changed", key="ttl-download-value")
                if x.status == 404 and not v.state(g0, got_g1)[1]:
                    raise Violation("premature 404", key="premature-expiry:download")
                nb.close()
                read(obs, s, c, M, t, k, "GET", "after-download")
        for (t, k) in list(M):
            read(obs, s, c, M, t, k, "GET", "end")
        s.stop()


def edges(obs, seed, variant):
    """Each time to live read at each second around the expiry"""
    r = rng("c06e", seed)
    with Server(variant, unix=True) as s:
        c = Conn(s)
        M = {}
        for ttl in (1, 2, 3, 7, 100, 100000, 2147483647 - 1):
            for size in (10, 5000):
                for when in ("put", "over-none", "over-longer", "over-shorter", "over-to-none", "zero"):
                    k = b"k-%d-%d-%s" % (ttl, size, when.encode())
                    v = gen.data((seed, k), size)
                    if when == "over-none":
                        put(s, c, M, b"e", k, v[::-1], None)
                    elif when == "over-longer":
                        put(s, c, M, b"e", k, v[::-1], min(ttl + 50, 2147483647))
                    elif when in ("over-shorter", "over-to-none"):
                        put(s, c, M, b"e", k, v[::-1], 1)
                    put(s, c, M, b"e", k, v, None if when == "over-to-none" else 0 if when == "zero" else ttl)
        for step in (.2, .7, 1.0, .5, .5, 1, 1, 1, 1, 1, 1, 5, 84, 1, 1, 1, 1, 99900, 1, 1, 1, 1, 1, 1, 1000):
            for (t, k) in list(M):
                read(obs, s, c, M, t, k, r.choice(["GET", "HEAD"]), "edges")
            s.advance(step)
        s.stop()


def collect(obs, seed, variant, n):
    """Collections over many keys in several tables"""
    r = rng("c06c", seed)
    with Server(variant, unix=True) as s:
        c = Conn(s)
        M = {}
        ntab = r.choice([1, 3, 40, 150, 400])
        ks = gen.names(r, n, ["a", "n"]) if n <= 3000 else [b"c%d" % i for i in range(n)]
        from vlib.murmur import murmur32
        seen = set()
        ks = [k for k in ks if not (murmur32(k) in seen or seen.add(murmur32(k)))]
        for a in range(0, len(ks), 100):
            batch = ks[a:a + 100]
            c0 = s.now()
            sent = []
            for k in batch:
                t = b"t%d" % r.randrange(ntab)
                ttl = r.choice([0, 0, 1, 2, 5, 1000])
                d = b"v" + k if r.random() < .97 else gen.data(k, 4500)
                c.p.pending.append("PUT")
                sent.append((t, k, d, ttl))
            c.send(b"".join(req("PUT", path(t, k), [("X-Ttl", ttl)], d) for t, k, d, ttl in sent))
            for _ in batch:
                expect(c.recv(), "PUT", 200, b"OK\r\n")
            c1 = s.now()
            for t, k, d, ttl in sent:
                M[(t, k)] = V(d, c0, c1, ttl)
        for adv in (1.5, 3, 10):
            s.advance(adv)
            g0 = s.now()
            for i in range(3 + len(ks) // 4000):
                c.gc()
            st = c.stats()
            g1 = s.now()
            alive = {x: v for x, v in M.items() if not v.state(g0, g1)[1]}
            maybe = {x: v for x, v in M.items() if v.state(g0, g1)[0]}
            if not len(alive) <= st["keys"] <= len(maybe):
                raise Violation("after complete collections %d keys are stored, %d..%d have not expired" % (st["keys"], len(alive), len(maybe)),
                                key="collect-%s" % ("lost" if st["keys"] < len(alive) else "kept"))
            obs.ev()
            for (t, k) in r.sample(sorted(alive), min(len(alive), 200)):
                read(obs, s, c, M, t, k, "GET", "after-collect")
            M = {x: v for x, v in M.items() if x in maybe}
            obs.seen("collect", n, ntab, adv)
            s.wait_flush()
        D = {}
        for (t, k), v in M.items():
            D.setdefault(t, {})[k] = v.data
        audit(s, c, D, "after collections", values=n < 2000)
        s.stop()


def realtime(obs, seed):
    """Without any help of the harness: real clock, real timer"""
    with Server("rel", no_shim=True) as s:
        c = Conn(s)
        t0 = time.time()
        c.put("r", "a", b"1", ttl=1)
        c.put("r", "b", b"2", ttl=3)
        c.put("r", "c", b"3")
        t1 = time.time()
        while time.time() < t1 + 5.5:
            for k, ttl in (("a", 1), ("b", 3), ("c", None)):
                g0 = time.time()
                v = c.get("r", k)
                g1 = time.time()
                obs.ev()
                # the clock of the server may lag behind by its 5ms tick (allow for a loaded machine)
                if v is None and (ttl is None or int(g1) <= int(t0 - .01) + ttl - 0 and int(g1) <= int(t0) + ttl):
                    if ttl is None or g1 < t0 + ttl - .02:
                        raise Violation("a value was gone %.2fs after it was stored with a time to live of %s" % (g1 - t0, ttl), key="realtime-early")
                if v is not None and ttl is not None and g0 > t1 + ttl + 1.6:
                    raise Violation("a value with a time to live of %ds was returned after %.2fs" % (ttl, g0 - t1), key="realtime-late", soft=True)
                obs.seen("real", k, int(g0 - t0), v is None)
            time.sleep(.05)
        s.stop()
