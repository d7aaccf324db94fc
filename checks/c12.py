"""C12: everything observable before a clean stop is there after the next start, and nothing else"""
import os, signal, struct, time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng
from vlib.murmur import murmur32

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3"]
RULE = ("A case is one clean stop and start after which every value, absence, remaining time to live, counter, block, file and listing is compared with "
        "what was stored at the stop. Distinct and non-trivial: combinations of the signal, the kinds of requests in progress at the stop, the number of "
        "blocks and files stored, whether a background save was running, and the classes of names used.")
ASSUME = ["the order of eviction after a start is not specified"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 240):
        out.append(("cycles", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3", "rel"][i % 4], rounds=6 if q else 20)))
    for i in range(24 if q else 240):
        out.append(("under_load", dict(seed="%d-l%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3"][i % 3], rounds=4 if q else 12)))
    for i in range(4 if q else 24):
        out.append(("names", dict(seed="%d-n%d" % (seed, i), variant=["asan", "dbg"][i % 2])))
    for i in range(2 if q else 8):
        out.append(("many", dict(seed="%d-m%d" % (seed, i), n=6000 if q else 60000)))
    out.append(("many", dict(seed="%d-mm" % seed, n=90000)))     # more than 65536 blocks
    out.append(("far", dict(seed="%d-f" % seed, variant="rel:BLOCK_LENGTH=131072", n=34000)))
    out.append(("idle", dict(seed="%d-i" % seed, rounds=15 if q else 100)))
    out.append(("limits", dict(seed="%d-x" % seed)))
    return out


def ttl_of(c, t, k):
    r = c.do("HEAD", path(t, k))
    return None if r.status == 404 else int(r.h("x-ttl"))


def cycles(obs, seed, variant, rounds):
    r = rng("c12", seed)
    with Server(variant, unix=r.random() < .6, deep=r.choice([0, 0, 100, 250, 386]), shm=dict(sndbuf=4608)) as s:
        tabs = gen.names(r, r.randrange(1, 5), table=True)
        keys = gen.names(r, r.randrange(3, 30))
        M, E = {}, {}   # values, expiry times (absolute seconds: lowest, highest)
        now = lambda: s.now() / 1e6
        for rnd in range(rounds):
            c = Conn(s)
            for i in range(r.choice([0, 1, 10, 60, 150])):
                t, k = r.choice(tabs), r.choice(keys)
                x = r.random()
                if x < .65:
                    v = gen.data((seed, rnd, i), gen.size(r, .01))
                    ttl = r.choice([None, None, 0, 5, 100, 10 ** 6, 10 ** 9])
                    a = int(now())
                    c.put(t, k, v, ttl=ttl)
                    b = int(now())
                    M.setdefault(t, {})[k] = v
                    E.pop((t, k), None)
                    if ttl:
                        E[t, k] = (a + ttl, b + ttl)
                elif x < .9:
                    c.delete(t, k)
                    drop(M, t, k)
                elif x < .93:
                    c.delete(t)
                    M.pop(t, None)
                else:
                    c.gc()
            # what is in progress at the stop
            busy, what = [], set()
            for _ in range(r.choice([0, 0, 1, 3, 6])):
                nb = NB(s, rcvbuf=4096)
                t, k = r.choice(tabs), r.choice(keys)
                kind = r.choice(["put", "putline", "get", "listing", "partial-line", "delete-line"])
                if kind == "put":
                    n = r.choice([2, 4096, 4097, 60000])
                    nb.queue(req("PUT", path(t, k), [("X-Ttl", 5)] if r.random() < .3 else [], b"u" * n)[:-r.randrange(1, n + 1)])
                    drop(M, t, k)
                elif kind == "putline":
                    nb.queue(b"PUT " + path(t, k) + b" HTTP")
                    drop(M, t, k)
                elif kind == "get":
                    nb.queue(req("GET", path(t, k)))
                elif kind == "listing":
                    nb.queue(req("GET", path(t)))
                elif kind == "delete-line":
                    nb.queue(b"DELETE " + path(t, k) + b" HTTP/1.1\r\n")
                else:
                    nb.queue(b"PUT " + path(t, k)[:-1])
                while nb.out and s.alive():
                    nb.push()
                barrier(c)
                busy.append(nb)
                what.add(kind)
            saving = False
            if r.random() < .4:
                s.shm.set(child_delay_us=r.choice([0, 300, 3000]))
                c.gc()
                saving = bool(s.children())
                if r.random() < .5:
                    t, k = r.choice(tabs), r.choice(keys)
                    v = gen.data((seed, rnd, "s"), r.choice([10, 5000]))
                    if c.put(t, k, v) and (c.get(t, k) == v):
                        M.setdefault(t, {})[k] = v
                        E.pop((t, k), None)
            else:
                s.shm.set(child_delay_us=0)
            if r.random() < .3:
                c.close()
            sig = r.choice([signal.SIGTERM, signal.SIGINT])
            s.stop(sig)
            s.shm.set(child_delay_us=0)
            for nb in busy:
                nb.close()
            c.close()
            left = [f for f in os.listdir(s.db) if f.endswith(".temp")]
            if left:
                raise Violation("temporary files stay after a stop: %r" % left, key="temp-files")
            # time passes while it is down
            off = r.choice([0, 0, 0, 3, 10, 200])
            s.shm.set(clock_off_us=s.shm.get("clock_off_us") + off * 1000000)
            s.start()
            c = Conn(s)
            barrier(c)
            t1 = now()
            sure = {}
            for (t, k), (lo, hi) in list(E.items()):
                if k not in M.get(t, {}):
                    E.pop((t, k))
                    continue
                a = now()
                x = ttl_of(c, t, k)
                b = now()
                if x is None:
                    if int(b) <= lo:
                        raise Violation("a value is gone %.1fs before it expires" % (lo - b), key="expired-early", detail=repr((t, k, lo, hi, b)))
                    E.pop((t, k))
                    drop(M, t, k)
                else:
                    if int(a) > hi:
                        raise Violation("a value is returned %.1fs after it expired" % (a - hi), key="expired-late", detail=repr((t, k, lo, hi, a)))
                    if not lo - int(b) <= x <= hi - int(a):
                        raise Violation("the remaining time to live is %d instead of %d..%d after a restart" % (x, lo - int(b), hi - int(a)), key="ttl-after-restart", detail=repr((t, k)))
                obs.ev()
            for t in tabs:
                for k in keys:
                    if k in M.get(t, {}) and (t, k) not in E:
                        x = ttl_of(c, t, k)
                        if x is not None and x != 0:
                            raise Violation("a value without a time to live has %d after a restart" % x, key="ttl-appeared", detail=repr((t, k)))
            # those about to expire may do so during the audit
            soon = [tk for tk, (lo, hi) in E.items() if lo - now() < 20]
            for tk in soon:
                c.delete(*tk)
                drop(M, *tk)
                E.pop(tk)
            audit(s, c, M, "after a restart", gone=[(t, k) for t in tabs for k in keys], obs=obs, list_=r.random() < .5)
            obs.seen(sig, sorted(what), saving, min(nblocks(M), 8), min(nfiles(M), 5), off > 0)
            obs.count("restarts")
            c.close()
        s.stop()


def under_load(obs, seed, variant, rounds):
    """The stop hits clients in every phase of their requests"""
    r = rng("c12l", seed)
    with Server(variant, unix=r.random() < .6, shm=dict(sndbuf=4608)) as s:
        tabs = gen.names(r, r.randrange(1, 3), ["a", "x"], table=True)
        keys = gen.names(r, r.randrange(2, 6), ["a", "n", "b"])
        h = Hist(seed)
        for rnd in range(rounds):
            delay = r.choice([0, 0, 200, 1000])
            s.shm.set(child_delay_us=delay)
            ctl, base, mux, clients = run_storm(obs, s, r, h, r.choice([30, 120, 400]), tabs, keys, slow=r.random() < .5, maxq=r.choice([1, 2]),
                                                weights=dict(PUT=45, GET=30, HEAD=3, DELETE=12, DELTAB=r.choice([0, 2]), BULK=3),
                                                sizes=r.choice([(20, 4000), (3000, 6000), (20, 30000)]), gc=r.choice([0, .02, .1]), leave=True)
            ph = sorted(set((o.kind, o.phase) for c in clients for o in c.q[:1]))
            sig = r.choice([signal.SIGTERM, signal.SIGINT])
            running = bool(s.children())
            s.stop(sig)
            s.shm.set(child_delay_us=0)
            lost = settle_dead(mux, clients, h)
            ctl.close()
            obs.count("interrupted", len(lost))
            s.start()
            c = Conn(s)
            M = observe(c, h, tabs, keys)
            h.check()
            check_space(s, c, M, "restart under load", detail=h.dump(n=40))
            check_stats(s, c, M, "restart under load", detail=h.dump(n=40))
            check_listing(s, M, "restart under load", tabs)
            for o in lost:
                obs.seen(sig, o.kind, o.phase, (o.length or 0) > 4096, running)
            obs.ev(len(tabs) * len(keys))
            c.close()
        s.stop()


SPECIAL = [b"", b":", b"::", b"f:1", b"t:", b"t:x", b"b:0:1:0:0:", b"b:0:1:0:0:k", b"e:-1:5000:0:0:k", b"a:", b":a", b"%s", b"%n%n%n", b"%d:%u", b"\t", b"\r", b"a\r", b"\ra",
           b"/", b"//", b"a/b/c", b"../../x", b".", b"..", b"-1", b"0", b"\xff\xfe", b"\xc3\xbc", b"\x01", b"\x7f", b"x" * 255, b"x" * 256, b"x" * 1000, b"x" * 2040,
           b"x" * 2047, b"x" * 2048, b"x" * 2049, b"x" * 4095, b"x" * 4096, b"x" * 4097, b"x" * 8000, b"\0", b"a\0", b"a\0b", b"a\0c", b"\0\0", b"'", b'"', b"\\n", b"\\"]


def names(obs, seed, variant):
    """Every kind of name of keys and tables"""
    r = rng("c12n", seed)
    with Server(variant, unix=True) as s:
        M = {}
        ks = list(SPECIAL) + [bytes([b]) for b in range(256) if b not in b" \n"] + [b"k" + bytes([b]) for b in range(256) if b not in b" \n"]
        hs, keys = set(), []
        for k in ks:
            if murmur32(k) not in hs:
                hs.add(murmur32(k))
                keys.append(k)
        tabs = [b"plain", b""] + r.sample([t for t in SPECIAL if b"/" not in t and len(t) < 8000 and t], 8) + [bytes([b]) + b"T" for b in r.sample([b for b in range(1, 256) if b not in b" \n/"], 10)]
        c = Conn(s)
        for t in tabs:
            for k in keys if t == b"plain" else r.sample(keys, 12):
                v = gen.data((seed, t, k), r.choice([5, 20, 4096, 5000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
        audit(s, c, M, "names")
        for rnd in range(3):
            c.close()
            s.stop()
            s.start()
            c = Conn(s)
            audit(s, c, M, "names after a restart", obs=obs)
            for t in list(M):
                for k in r.sample(list(M[t]), max(1, len(M[t]) // 8)):
                    c.delete(t, k)
                    drop(M, t, k)
                obs.seen("name", t[:6], len(t))
        for k in keys:
            obs.seen("key", k[:4], len(k))
        for t in tabs:
            if t:
                c.delete(t)
            else:
                for k in M.get(t, {}):
                    c.delete(t, k)
        audit(s, c, {}, "names deleted after restarts")
        s.stop()


def many(obs, seed, n):
    r = rng("c12m", seed)
    with Server("rel", unix=True) as s:
        M = {}
        c = Conn(s)
        hs = {}
        for a in range(0, n, 50):
            b = []
            for i in range(a, a + 50):
                t = b"t%d" % r.choice([0, 1, 2, i, i % 97])
                k = b"k%d" % i
                if murmur32(k) in hs.setdefault(t, set()):
                    continue
                hs[t].add(murmur32(k))
                b.append((t, k, b"v%d" % i if i % 40 else gen.data(i, 4097 + i % 100)))
            c.p.pending += ["PUT"] * len(b)
            c.send(b"".join(req("PUT", path(t, k), (), v) for t, k, v in b))
            for t, k, v in b:
                expect(c.recv(), "PUT", 200, b"OK\r\n")
                M.setdefault(t, {})[k] = v
        for rnd in range(3):
            c.close()
            s.stop()
            s.start()
            c = Conn(s)
            st = check_stats(s, c, M, "many after a restart")
            check_space(s, c, M, "many after a restart", st=st)
            for t in r.sample(list(M), min(len(M), 200)) + [x for x in (b"t0", b"t1", b"t2") if x in M]:
                check_values(s, c, {t: dict(r.sample(list(M[t].items()), min(len(M[t]), 300)))}, "many after a restart")
                if rnd == 2:
                    check_listing(s, {t: M[t]}, "many after a restart")
                obs.ev()
            obs.seen("many", n, rnd)
            for t in r.sample(list(M), len(M) // 5):
                c.delete(t)
                del M[t]
        s.stop()


def far(obs, seed, variant, n):
    """A block file of more than 4 GiB (of large blocks, sparse)"""
    r = rng("c12f", seed)
    with Server(variant, unix=True) as s:
        hs, M = set(), {}
        for i in range(n):
            k = b"f%d" % i
            if murmur32(k) not in hs:
                hs.add(murmur32(k))
                M[k] = b"far %s %s" % (k, b"." * (i % 90))
        c = Conn(s)

        def each(method, ks):
            for a in range(0, len(ks), 200):
                b = ks[a:a + 200]
                c.p.pending += [method] * len(b)
                c.send(b"".join(req(method, path(b"far", k), (), M[k] if method == "PUT" else None) for k in b))
                for k in b:
                    yield k, c.recv()
        for k, x in each("PUT", list(M)):
            expect(x, "PUT", 200, b"OK\r\n")
        for rnd in range(2):
            size = os.path.getsize(s.db + "/blockfile.db")
            obs.count("block_file_mib", size >> 20)
            c.close()
            s.stop()
            s.start()
            c = Conn(s)
            st = c.stats()
            if st["keys"] != len(M) or st["bexist"] - st["bfree"] != len(M) or st["bytes"] != sum(map(len, M.values())):
                raise Violation("far: %d values of %d bytes are reported as %r after a restart" % (len(M), sum(map(len, M.values())), st), key="far-stats")
            ks = list(M)
            r.shuffle(ks)
            for k, x in each("GET", ks):
                if value_of(x) != M[k]:
                    raise Violation("far: a value changed by a restart: %r" % x, key="far-value")
                obs.ev()
            # what is stored next must not be placed over another value
            for k in r.sample(ks, n // 3):
                c.delete(b"far", k)
                del M[k]
            new = [b"n%d-%d" % (rnd, i) for i in range(n // 2)]
            new = [k for k in new if not (murmur32(k) in hs or hs.add(murmur32(k)))]
            for k in new:
                M[k] = b"new " + k
            for k, x in each("PUT", new):
                expect(x, "PUT", 200, b"OK\r\n")
            for k, x in each("GET", list(M)):
                if value_of(x) != M[k]:
                    raise Violation("far: a value changed after a restart: %r" % x, key="far-value-2")
                obs.ev()
            # free places everywhere in the file
            for k in r.sample(list(M), n // 5):
                c.delete(b"far", k)
                del M[k]
            obs.seen("far", rnd, size > 1 << 32)
        s.stop()


def idle(obs, seed, rounds):
    """Restarts without changes change nothing"""
    r = rng("c12i", seed)
    with Server("asan", unix=True) as s:
        c = Conn(s)
        M = {}
        for i in range(60):
            t, k, v = b"t%d" % (i % 3), b"k%d" % i, gen.data((seed, i), r.choice([10, 4096, 4097, 20000]))
            c.put(t, k, v)
            M.setdefault(t, {})[k] = v
        first = None
        for i in range(rounds):
            c.close()
            s.stop(r.choice([signal.SIGTERM, signal.SIGINT]))
            state = (sorted(os.path.relpath(f, s.db) for f in s.data_files()), sorted(open(os.path.join(s.db, "index.save"), "rb").read().split(b"\n")),
                     os.path.getsize(os.path.join(s.db, "blockfile.db")))
            if first is not None and state != first:
                raise Violation("a restart without changes changed what is stored on disk", key="idle-restart", detail=repr([a for a, b in zip(state, first) if a != b])[:3000])
            first = state
            s.start()
            c = Conn(s)
            audit(s, c, M, "idle restart", obs=obs)
            obs.seen("idle", i)
        s.stop()


def limits(obs, seed):
    """Other limits at the next start: nothing is lost until a collection, which keeps the limit"""
    r = rng("c12x", seed)
    with Server("asan", unix=True) as s:
        c = Conn(s)
        M = {b"t": {}}
        for i in range(100):
            v = gen.data((seed, i), 5000 if i % 5 == 0 else 500)
            c.put(b"t", b"k%d" % i, v)
            M[b"t"][b"k%d" % i] = v
        c.close()
        s.stop()
        s.max_size = 40000
        s.start()
        c = Conn(s)
        audit(s, c, M, "smaller limit", obs=obs)
        st = c.gc()
        M2 = {b"t": {k: v for k, v in M[b"t"].items() if c.head(b"t", k) is not None}}
        audit(s, c, M2, "smaller limit, collected", gone=[(b"t", k) for k in M[b"t"]], obs=obs)
        n = sum(len(v) for v in M2[b"t"].values())
        if n > 40000:
            raise Violation("%d bytes after a collection with a limit of 40000" % n, key="limit-after-restart")
        if n < 40000 * .8 - 5000:
            raise Violation("only %d bytes are left of %d by a collection to 80%% of 40000" % (n, 90000), key="limit-after-restart")
        c.close()
        s.stop()
        s.max_size = None
        s.start()
        c = Conn(s)
        audit(s, c, M2, "no limit again", obs=obs)
        obs.seen("limits", n)
        s.stop()
