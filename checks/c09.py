"""C09: blocks, data files and the size of the block file against what is stored; bounded space of long histories"""
import os, time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3"]
RULE = ("A case is one comparison of blocks in use, data files (number and sizes) and block file size with what is stored. Distinct and non-trivial: "
        "combinations of operation and size classes before and after, of the number of blocks and files left after storms, and of the kinds of long "
        "histories.")
ASSUME = ["the block file may keep as many blocks as were in use at the same time at any earlier time"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(12 if q else 120):
        out.append(("history", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3", "rel"][i % 4], n=500 if q else 3000)))
    for i in range(20 if q else 240):
        out.append(("after_storm", dict(seed="%d-s%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3"][i % 3], rounds=3 if q else 10)))
    for i in range(6 if q else 40):
        out.append(("waves", dict(seed="%d-w%d" % (seed, i), variant=["rel", "dbg", "asan"][i % 3], n=700 if q else 3000)))
    for kind in ("block", "file", "both"):
        out.append(("long_churn", dict(seed="%d-%s" % (seed, kind), kind=kind, n=70000 if kind == "file" else 40000 if q else 400000)))
    for i in range(2 if q else 8):
        out.append(("concurrent_churn", dict(seed="%d-c%d" % (seed, i), rounds=200 if q else 2000)))
    for i in range(4 if q else 20):
        out.append(("restarts", dict(seed="%d-r%d" % (seed, i), rounds=5 if q else 20, variant=["rel", "asan"][i % 2])))
    return out


def blockfile(s):
    try:
        return os.path.getsize(os.path.join(s.db, "blockfile.db"))
    except OSError:
        return 0


def check_blockfile(s, st, hw, where):
    sz = blockfile(s)
    if st["bexist"] > hw:
        raise Violation("%s: %d blocks exist although never more than %d were needed at a time" % (where, st["bexist"], hw), key="blocks-grow:" + where, detail=repr(st))
    if sz > st["bexist"] * BLOCK:
        raise Violation("%s: the block file has %d bytes for %d blocks" % (where, sz, st["bexist"]), key="blockfile-size:" + where)


def check_released(s, where):
    """A file that was removed occupies its space until it is closed"""
    held = lambda: [f for f in s.fds().values() if f.endswith(" (deleted)") and "/files/" in f]
    if not s.wait(lambda: not held(), 5):
        raise Violation("%s: %d removed data files are still open, their space is not released" % (where, len(held())), key="removed-open:" + where,
                        detail=repr(held()[:10]))


def history(obs, seed, variant, n):
    r = rng("c09", seed)
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        tabs = gen.names(r, 3, ["a", "x"], table=True)
        keys = gen.names(r, 5, ["a", "n"])
        M = {}
        hw = 0
        for i in range(n):
            t, k = r.choice(tabs), r.choice(keys)
            had = M.get(t, {}).get(k)
            hc = gen.size_class(len(had)) if had is not None else "-"
            op = r.choices(["put", "del", "deltab", "bulk", "partial", "expire", "get"], [50, 20, 2, 4, 8, 4, 6])[0]
            oc = None
            if op == "put":
                v = gen.data((seed, i), r.choice([1, 10, 4095, 4096, 4097, 4098, 8192, 8193, 20000, 70000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
                oc = len(v)
            elif op == "get":
                c.get(t, k)
            elif op == "del":
                c.delete(t, k)
                drop(M, t, k)
            elif op == "deltab":
                c.delete(t)
                M.pop(t, None)
            elif op == "bulk":
                ks = r.sample(keys, 2)
                c.bulk(t, ks)
                for x in ks:
                    drop(M, t, x)
            elif op == "partial":
                socks = s.nsock()
                nb = NB(s)
                oc = r.choice([1, 4096, 4097, 30000])
                d = req("PUT", path(t, k), (), b"p" * (oc + 1))
                nb.queue(d[:-1])
                nb.push()
                barrier(c, 1)
                act = r.choice(["", "del", "deltab", "over"])
                if act == "del":
                    c.delete(t, k)
                elif act == "deltab":
                    c.delete(t)
                    M.pop(t, None)
                elif act == "over":
                    c.put(t, k, b"ignored" * r.choice([1, 1000]))
                nb.close()
                if not s.wait(lambda: s.nsock() <= socks):
                    raise Violation("a closed connection stays open", key="hang:close", soft=True)
                drop(M, t, k)
                v = c.get(t, k)
                if v is not None:
                    if act != "over" or v not in (b"ignored", b"ignored" * 1000):
                        raise Violation("an interrupted upload left a value", key="c09-partial")
                    M.setdefault(t, {})[k] = v
                oc = (oc, act)
                hw = max(hw, nblocks(M) + 2)
            elif op == "expire":
                v = b"e" * r.choice([10, 5000])
                c.put(t, k, v, ttl=1)
                s.advance(2.2)
                if r.random() < .5:
                    c.get(t, k)
                else:
                    c.gc(), c.gc()
                drop(M, t, k)
                hw = max(hw, nblocks(M) + 1)
            hw = max(hw, nblocks(M) + 1)
            st = check_space(s, c, M, op, detail=str((t, k, hc, oc)))
            check_blockfile(s, st, hw, op)
            if i % 16 == 0:
                check_released(s, "sequential")
            obs.ev()
            obs.seen(op, hc, str(oc), t in M)
        for t in tabs:
            c.delete(t)
        check_released(s, "all deleted")
        audit(s, c, {}, "all deleted")
        s.stop()


def after_storm(obs, seed, variant, rounds):
    r = rng("c09s", seed)
    with Server(variant, unix=r.random() < .6, shm=dict(sndbuf=4608)) as s:
        tabs = gen.names(r, r.randrange(1, 4), ["a"], table=True)
        keys = gen.names(r, r.randrange(2, 6), ["a", "n"])
        h = Hist(seed)
        for rnd in range(rounds):
            c, _ = run_storm(obs, s, r, h, r.choice([100, 400, 800]), tabs, keys, slow=r.random() < .5,
                             weights=dict(PUT=45, GET=20, HEAD=2, DELETE=15, DELTAB=r.choice([0, 3, 8]), BULK=4),
                             sizes=r.choice([(20, 4000), (4000, 4200), (3000, 6000), (20, 30000)]), aborts=.05, finish=r.choice([0, .5, 1]))
            M = observe(c, h, tabs, keys)
            st = check_space(s, c, M, "after a storm", detail=h.dump(n=40))
            # at most one block per key, upload and download at a time
            check_blockfile(s, st, len(tabs) * len(keys) + 2 * 16 + 2, "after a storm")
            check_released(s, "after a storm")
            obs.ev()
            obs.seen("storm", nblocks(M), nfiles(M), st["bexist"])
            if r.random() < .4:
                for t in tabs:
                    for k in keys:
                        record_delete(c, h, t, k)
                check_space(s, c, {}, "after a storm, all deleted")
            c.close()
        h.check()
        s.stop()


def waves(obs, seed, variant, n):
    """Many values come and go in different orders"""
    r = rng("c09w", seed)
    with Server(variant, unix=True) as s:
        c = Conn(s)
        hw = 0
        for wave in range(4):
            m = r.randrange(n // 4, n)
            ks = [b"w%d-%d" % (wave, i) for i in range(m)]
            from vlib.murmur import murmur32
            seen = set()
            ks = [k for k in ks if not (murmur32(k) in seen or seen.add(murmur32(k)))]
            for a in range(0, len(ks), 100):
                b = ks[a:a + 100]
                c.p.pending += ["PUT"] * len(b)
                c.send(b"".join(req("PUT", path(b"t", k), (), b"value " + k) for k in b))
                for _ in b:
                    expect(c.recv(), "PUT", 200, b"OK\r\n")
            hw = max(hw, len(ks))
            st = check_space(s, c, {b"t": {k: b"value " + k for k in ks}}, "wave")
            check_blockfile(s, st, hw, "wave")
            order = r.choice(["fifo", "lifo", "random", "table", "half"])
            if order == "lifo":
                ks = ks[::-1]
            elif order == "random":
                r.shuffle(ks)
            if order == "table":
                c.delete("t")
            else:
                cut = len(ks) if order != "half" else len(ks) // 2
                for a in range(0, cut, 100):
                    b = ks[a:min(a + 100, cut)]
                    c.p.pending += ["DELETE"] * len(b)
                    c.send(b"".join(req("DELETE", path(b"t", k)) for k in b))
                    for _ in b:
                        if not deleted_of(c.recv()):
                            raise Violation("a stored value could not be deleted", key="wave-delete")
                if order == "half":
                    left = {b"t": {k: b"value " + k for k in ks[cut:]}}
                    st = check_space(s, c, left, "half wave")
                    check_values(s, c, {b"t": {k: v for k, v in list(left[b"t"].items())[::17]}}, "half wave")
                    c.delete("t")
            st = check_space(s, c, {}, "after a wave")
            check_blockfile(s, st, hw, "after a wave")
            obs.ev(4)
            obs.seen("wave", order, m // 100)
        s.stop()


def long_churn(obs, seed, kind, n):
    """One small working set overwritten for a long time: names of data files and block numbers are used again"""
    r = rng("c09l", seed)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        M = {b"t": {}}
        keys = [b"a"] if kind == "file" else [b"k%d" % i for i in range(5)]
        stay = gen.data(seed, 5000)
        c.put("stay", "file", stay)
        c.put("stay", "block", stay[:100])
        M[b"stay"] = {b"file": stay, b"block": stay[:100]}
        i = 0
        while i < n:
            b = []
            for j in range(40):
                k = r.choice(keys)
                v = b"%d." % i + b"x" * (4100 if kind == "file" or kind == "both" and r.random() < .5 else 50)
                b.append((k, v))
                i += 1
            c.p.pending += ["PUT"] * len(b)
            c.send(b"".join(req("PUT", path(b"t", k), (), v) for k, v in b))
            for k, v in b:
                expect(c.recv(), "PUT", 200, b"OK\r\n")
                M[b"t"][k] = v
            if i % 8000 < 40:
                st = audit(s, c, M, "long churn", list_=False)
                check_blockfile(s, st, len(keys) + 2, "long churn")
                obs.ev()
                obs.seen("churn", kind, i)
        audit(s, c, M, "after long churn")
        obs.count("uploads", i)
        c.delete("t"), c.delete("stay")
        audit(s, c, {}, "after long churn, all deleted")
        s.stop()


def concurrent_churn(obs, seed, rounds):
    """Bounded space although always some values are being read or uploaded when they are replaced"""
    r = rng("c09c", seed)
    with Server("asan", unix=True, shm=dict(sndbuf=4608, sock_wlimit=300)) as s:
        c = Conn(s)
        keys = [b"k%d" % i for i in range(6)]
        M = {b"t": {}}
        rd = []
        for i in range(rounds):
            for k in keys:
                v = b"%d" % i + b"y" * r.choice([20, 4000, 4092, 4092, 30000])
                c.put("t", k, v)
                M[b"t"][k] = v
            if len(rd) > 6:
                for nb in rd[:3]:
                    nb.close()
                rd = rd[3:]
            nb = NB(s, warm=True)
            nb.queue(req("GET", path(b"t", r.choice(keys))) if r.random() < .7 else req("PUT", path(b"t", b"up%d" % (i % 8)), [("Content-Length", 300)]) + b"x")
            nb.push()
            rd.append(nb)
            if i % 20 == 0:
                st = c.stats()
                check_blockfile(s, st, 6 + 8 + 8 + 10, "concurrent churn")
                obs.ev()
        socks = s.nsock()
        for nb in rd:
            nb.close()
        if not s.wait(lambda: s.nsock() <= socks - len(rd)):
            raise Violation("closed connections stay open", key="hang:close", soft=True)
        check_released(s, "after concurrent churn")
        audit(s, c, M, "after concurrent churn")
        obs.seen("concurrent", rounds, st["bexist"])
        s.stop()


def restarts(obs, seed, rounds, variant):
    """Space over repeated clean restarts with changes in between"""
    r = rng("c09r", seed)
    with Server(variant, unix=True) as s:
        M = {}
        keys = gen.names(r, 40, ["a", "n"])
        hw = 0
        for rnd in range(rounds):
            c = Conn(s)
            audit(s, c, M, "after a restart")
            # everything free or used exists
            for i in range(r.randrange(1, 120)):
                t, k = r.choice([b"t", b"u"]), r.choice(keys)
                if r.random() < .6:
                    v = gen.data((seed, rnd, i), r.choice([10, 4096, 5000]))
                    c.put(t, k, v)
                    M.setdefault(t, {})[k] = v
                else:
                    c.delete(t, k)
                    drop(M, t, k)
                hw = max(hw, nblocks(M) + 1)
            st = audit(s, c, M, "between restarts")
            check_blockfile(s, st, hw, "between restarts")
            obs.ev(2)
            obs.seen("restart", nblocks(M), nfiles(M))
            c.close()
            s.stop(r.choice([15, 2]))
            left = [f for f in os.listdir(s.db) if f.endswith(".temp")]
            if left:
                raise Violation("temporary files stay after a stop: %r" % left, key="temp-files")
            s.start()
        s.stop()
