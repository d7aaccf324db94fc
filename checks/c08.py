"""C08: the reported statistics against a reference after every operation, and against what is observably stored after storms"""
import time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import big, gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one comparison of the statistics with the reference: after each operation of a sequential history (keys, tables, bytes and the three "
        "counters), and in a quiet state after storms, evictions, expiry and interruptions. Distinct and non-trivial: combinations of operation, outcome, "
        "size class before and after, whether the table was created or vanished; for storms the numbers of keys and tables left.")
ASSUME = ["uploads that are rejected, interrupted or discarded, and deletes of a whole table, may or may not count in the counters of operations"]


def jobs(tier, seed):
    q = tier == "quick"
    out = [("huge", dict(seed="%d-h" % seed))]
    for i in range(16 if q else 160):
        out.append(("deltas", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3", "rel", "asan:BUFFER_SIZE=1024"][i % 5], n=700 if q else 4000)))
    for i in range(20 if q else 240):
        out.append(("after_storm", dict(seed="%d-s%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3", "asan:BUFFER_SIZE=1024"][i % 4], rounds=3 if q else 10)))
    out.append(("counters", dict(seed="%d-c" % seed, n=68000 if q else 150000)))
    for i in range(8 if q else 60):
        out.append(("limits", dict(seed="%d-l%d" % (seed, i), variant=["asan", "rel"][i % 2], rounds=12 if q else 60)))
    return out


def state(M):
    return (sum(len(t) for t in M.values()), sum(1 for t in M.values() if t), sum(len(v) for t in M.values() for v in t.values()))


def cmp(st, M, cnt, what, log):
    k, t, b = state(M)
    exp = dict(keys=k, tables=t, bytes=b)
    exp.update(cnt)
    for n, e in exp.items():
        lo, hi = e if isinstance(e, tuple) else (e, e)
        if not lo <= st[n] <= hi:
            raise Violation("after %s the statistics report %d %s instead of %s" % (what, st[n], n, e), key="stat:%s:%s" % (n, what), detail="%r\n%r" % (st, log[-20:]))


def deltas(obs, seed, variant, n):
    """Sequential history, statistics after every operation"""
    r = rng("c08", seed)
    with Server(variant, unix=r.random() < .5) as s:
        c, c2 = Conn(s), Conn(s)
        tabs = gen.names(r, 4, ["a", "x"], table=True)
        keys = gen.names(r, 6, ["a", "n", "l"])
        M, log = {}, []
        cnt = dict(inserts=0, gets=0, deletes=0)
        c.stats(), c2.stats()
        socks = s.nsock()
        for i in range(n):
            t, k = r.choice(tabs), r.choice(keys)
            had = M.get(t, {}).get(k)
            hc = gen.size_class(len(had)) if had is not None else "-"
            was_tab = t in M
            op = r.choices(["put", "get", "head", "del", "deltab", "bulk", "list", "partial", "rejected", "expire", "gc", "none", "double", "restart"],
                           [30, 16, 5, 16, 3, 4, 2, 5, 4, 3, 1, 2, 2, .6])[0]
            d = dict(inserts=(0, 0), gets=(0, 0), deletes=(0, 0))
            out = None
            if op == "put":
                v = gen.data((seed, i), gen.size(r, .01))
                c.put(t, k, v, ttl=r.choice([None, None, 0, 100000]))
                M.setdefault(t, {})[k] = v
                d["inserts"] = (1, 1)
                out = gen.size_class(len(v))
            elif op in ("get", "head"):
                x = c.get(t, k) if op == "get" else c.head(t, k)
                out = x is not None
                if out != (had is not None):
                    raise Violation("%s is %s" % (op, out), key="c08-read")
                d["gets"] = (int(out), int(out))
            elif op == "del":
                out = c.delete(t, k)
                drop(M, t, k)
                d["deletes"] = (int(had is not None),) * 2
            elif op == "deltab":
                out = len(M.pop(t, {}))
                c.delete(t)
                d["deletes"] = (0, max(1, out))
            elif op == "bulk":
                ks = [x for x in r.sample(keys, r.randrange(1, 4)) if len(x) < 600 and x.strip() == x]
                f = sum(1 for x in ks if x in M.get(t, {}))
                if r.random() < .3 and ks:
                    ks = ks + ks[:1]  # named twice, deleted once
                c.bulk(t, ks)
                for x in ks:
                    drop(M, t, x)
                d["deletes"] = (f, f)
                out = f
            elif op == "list":
                listing(s, t)
            elif op == "partial":
                nb = NB(s)
                cl = r.choice([10, 4096, 4097, 100000])
                nb.queue(req("PUT", path(t, k), [("Content-Length", cl)]) + b"x" * r.choice([0, 1, 9]))
                nb.push()
                barrier(c, 1)
                if r.random() < .3:
                    # deleted by someone else while being uploaded
                    (c.delete(t, k) if r.random() < .5 else c.delete(t))
                    d["deletes"] = (0, 1)
                    if t in M and c.stats()["keys"] < state(M)[0] - 1:
                        M.pop(t, None)
                    out = "deleted"
                    # which of both it was is observed
                    for kk in list(M.get(t, {})):
                        if kk != k and c.head(t, kk) is None:
                            drop(M, t, kk)
                    d["gets"] = (0, 100)
                nb.close(r.random() < .3)
                if not s.wait(lambda: s.nsock() <= socks):
                    raise Violation("a closed connection stays open", key="hang:close", soft=True)
                drop(M, t, k)
                d["inserts"] = (0, 1)
            elif op == "rejected":
                x = r.choice(["nolen", "zero", "text", "neg", "method", "tablput"])
                c3 = Conn(s)
                if x == "tablput":
                    c3.do("PUT", path(t), (), b"xx")
                elif x == "method":
                    c3.do("POST", path(t, k), (), b"xx")
                else:
                    c3.do("PUT", path(t, k), {"nolen": [], "zero": [("Content-Length", 0)], "text": [("Content-Length", "abc")], "neg": [("Content-Length", -5)]}[x])
                    drop(M, t, k)
                c3.close()
                if not s.wait(lambda: s.nsock() <= socks):
                    raise Violation("a closed connection stays open", key="hang:close", soft=True)
                if c.head(t, k) is None:
                    drop(M, t, k)
                elif k not in M.get(t, {}):
                    raise Violation("a rejected upload stored something", key="c08-rejected")
                d["inserts"] = (0, 1)
                d["gets"] = (0, 1)
                out = x
            elif op == "expire":
                v = b"expiring" * r.choice([1, 1000])
                c.put(t, k, v, ttl=1)
                M.setdefault(t, {})[k] = v
                cmp(c.stats(), M, {}, "put with ttl", log)
                s.advance(2.5)
                how = r.choice(["get", "gc", "head", "over", "del"])
                d["inserts"] = (1, 1)
                if how == "get":
                    c.get(t, k)
                elif how == "head":
                    c.head(t, k)
                elif how == "gc":
                    for _ in range(2):
                        c.gc()
                elif how == "del":
                    c.delete(t, k)
                    d["deletes"] = (0, 1)
                drop(M, t, k)
                if how == "over":
                    c.put(t, k, b"over")
                    M.setdefault(t, {})[k] = b"over"
                    d["inserts"] = (2, 2)
                out = how
            elif op == "gc":
                c.gc()
            elif op == "restart":
                c.close(), c2.close()
                s.stop()
                s.start()
                c, c2 = Conn(s), Conn(s)
                st = c2.stats()
                c.stats()
                socks = s.nsock()
                # the operations are counted from the start (or go on)
                cnt = {x: st[x] for x in cnt}
                obs.count("restarts")
            elif op == "none":
                c.get(b"no-such-table", k)
                c.delete(b"no-such-table", k)
                c.bulk(t, [b"no-such-key"]) if t in M else None
                c.do("GET", b"/no-such-table")
            elif op == "double":
                # replaced while the old value is being read
                c2.p.pending.append("GET")
                v = b"double" * r.choice([1, 900])
                c2.send(req("GET", path(t, k)))
                c.put(t, k, v)
                c2.recv()
                M.setdefault(t, {})[k] = v
                d["inserts"] = (1, 1)
                d["gets"] = (0, 1)
            log.append((op, t, k[:20], hc, out))
            st = (c2 if r.random() < .5 else c).stats()
            cmp(st, M, {x: (cnt[x] + d[x][0], cnt[x] + d[x][1]) for x in cnt}, op if out is None else "%s (%s)" % (op, out) if isinstance(out, str) else op, log)
            cnt = {x: st[x] for x in cnt}
            obs.ev()
            obs.seen(op, str(out), hc, was_tab, t in M)
        audit(s, c, M, "after a history")
        obs.sample(dict(variant=variant, last=[str(x) for x in log[-4:]]))
        s.stop()


def after_storm(obs, seed, variant, rounds):
    r = rng("c08s", seed)
    with Server(variant, unix=r.random() < .6, shm=dict(sndbuf=4608)) as s:
        tabs = gen.names(r, r.randrange(1, 4), ["a"], table=True)
        keys = gen.names(r, r.randrange(2, 6), ["a", "n"])
        h = Hist(seed)
        for rnd in range(rounds):
            c, _ = run_storm(obs, s, r, h, r.choice([100, 400, 800]), tabs, keys, slow=r.random() < .5,
                             weights=dict(PUT=40, GET=20, HEAD=3, DELETE=20, DELTAB=r.choice([0, 3, 8]), BULK=4),
                             sizes=r.choice([(20, 4000), (3000, 6000), (20, 30000)]), aborts=.04, finish=r.choice([0, .5, 1]))
            st0 = c.stats()
            M = observe(c, h, tabs, keys)
            check_stats(s, c, M, "after a storm")
            check_listing(s, M, "after a storm", tabs)
            if (st0["keys"], st0["bytes"]) != state(M)[::2]:
                raise Violation("reading changed the statistics", key="storm-read-changes")
            for t in list(M):
                for k in list(M[t]):
                    if r.random() < .4:
                        record_delete(c, h, t, k)
                        drop(M, t, k)
                        check_stats(s, c, M, "deleting after a storm")
                        obs.ev()
            obs.ev()
            obs.seen("storm", state(M)[:2], len(tabs), len(keys))
            c.close()
        h.check()
        c = Conn(s)
        for t in tabs:
            c.delete(t)
        audit(s, c, {}, "all tables deleted after a storm")
        s.stop()


def limits(obs, seed, variant, rounds):
    """Eviction and expiry with uploads and downloads in progress"""
    r = rng("c08l", seed)
    with Server(variant, max_size=r.choice([3000, 60000]), lru=r.choice([0, 20, 80]), unix=True) as s:
        c = Conn(s)
        keys = gen.names(r, 30, ["a", "n"])
        tabs = [b"l1", b"l2", b"l3"]
        c.stats()
        socks = s.nsock()
        for rnd in range(rounds):
            parts = []
            for i in range(r.randrange(0, 4)):
                nb = NB(s)
                nb.queue(req("PUT", path(r.choice(tabs), r.choice(keys)), [("Content-Length", r.choice([100, 4096, 50000]))]) + b"y")
                nb.push()
                parts.append(nb)
            for i in range(r.randrange(10, 60)):
                t, k = r.choice(tabs), r.choice(keys)
                x = r.random()
                if x < .7:
                    c.put(t, k, b"z" * r.choice([1, 100, 3000, 4097, 9000]), ttl=r.choice([None, None, 1, 3]))
                elif x < .8:
                    c.get(t, k)
                elif x < .9:
                    c.delete(t, k)
                elif x < .95:
                    c.gc()
                else:
                    s.advance(1.1)
            for nb in parts:
                nb.close()
            if not s.wait(lambda: s.nsock() <= socks):
                raise Violation("a closed connection stays open", key="hang:close", soft=True)
            # what is left, once everything expired is collected by reading
            for _ in range(2):
                c.gc()
            M = {}
            for t in tabs:
                for k in keys:
                    v = c.get(t, k)
                    if v is not None:
                        M.setdefault(t, {})[k] = v
            check_stats(s, c, M, "with a size limit")
            check_space(s, c, M, "with a size limit")
            obs.ev()
            obs.seen("limit", s.max_size, state(M)[:2], len(parts))
        for t in tabs:
            c.delete(t)
        audit(s, c, {}, "with a size limit, all deleted")
        s.stop()


def huge(obs, seed):
    """More than 4 GiB are stored"""
    if not big.room():
        obs.count("huge_skipped")
        return
    r = rng("c08h", seed)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        M = {}

        def compare(what):
            st = c.stats()
            obs.ev()
            obs.seen("huge", what, sum(M.values()) >> 30)
            if (st["keys"], st["tables"], st["bytes"]) != (len(M), len({t for t, k in M}), sum(M.values())):
                raise Violation("%s with %d keys of %d bytes the statistics report %r" % (what, len(M), sum(M.values()), st), key="huge-stats")

        def put(t, k, n):
            expect(big.put_zeros(s, c, t, k, n), "PUT", 200, b"OK\r\n")
            M[(t, k)] = n
            compare("put")
        put(b"g", b"small", 10)
        for i in range(3):
            put(r.choice([b"g", b"h"]), b"big%d" % i, big.HUGE - r.choice([0, 1, 4096, 100000]))
            put(b"g", b"m%d" % i, r.choice([1, 4096, 4097, 100000]))
        put(b"g", b"m1", 77)
        # overwrite, delete, cut
        t, k = next(x for x in M if x[1] == b"big1")
        put(t, k, 33)
        nb = NB(s)
        nb.queue(req("PUT", path(t, b"cut"), [("Content-Length", big.HUGE)]) + b"x")
        nb.push()
        s.wait(lambda: c.stats()["bytes"] > sum(M.values()))
        nb.close()
        s.wait(lambda: c.stats()["keys"] == len(M))
        compare("cut")
        c.close()
        s.stop()
        s.start()
        c = Conn(s)
        compare("restart")
        t, k = next(x for x in M if x[1] == b"big0")
        if not c.delete(t, k):
            raise Violation("DELETE of a stored value answered 404", key="huge-delete")
        del M[(t, k)]
        compare("delete")
        for t in {t for t, k in M}:
            c.delete(t)
        M.clear()
        compare("delete table")
        s.stop()


def counters(obs, seed, n):
    """More than 65536 keys, and of each operation"""
    r = rng("c08c", seed)
    with Server("rel", unix=r.random() < .5) as s:
        c = Conn(s)
        c.stats()
        tabs = [b"a", b"b", b"c"]
        at = dict(inserts=0, gets=0, deletes=0, keys=0, bytes=0)

        def run(what, reqs, status, **per):
            for a in range(0, len(reqs), 20):
                part = reqs[a:a + 20]
                c.p.pending += [what] * len(part)
                c.send(b"".join(part))
                for _ in part:
                    x = c.recv()
                    if x.status != status:
                        raise Violation("%s of %d is answered %d" % (what, len(reqs), x.status), key="counters-answer")
                for k, d in per.items():
                    at[k] += d * len(part)
                if a % 2000 == 0 or a + 20 >= len(reqs):
                    st = c.stats()
                    obs.ev()
                    obs.seen("counters", what, at["keys"] // 5000, at["gets"] // 5000)
                    bad = [k for k in at if st[k] != at[k]]
                    if bad or st["tables"] != (len(tabs) if at["keys"] > 20 else st["tables"]):
                        raise Violation("after many %s the statistics report %d %s instead of %d" % (what, st[(bad or ["tables"])[0]], (bad or ["tables"])[0], at.get((bad or ["tables"])[0], 3)),
                                        key="counters:" + (bad or ["tables"])[0], detail="%r %r" % (st, at))
        ks = [(tabs[i % 3], b"k%d" % i) for i in range(n)]
        run("PUT", [req("PUT", path(t, k), (), b"v" * 7) for t, k in ks], 200, inserts=1, keys=1, bytes=7)
        r.shuffle(ks)
        run("GET", [req("GET", path(t, k)) for t, k in ks], 200, gets=1)
        c.close()
        s.stop()
        s.start()
        c = Conn(s)
        at.update({k: v for k, v in c.stats().items() if k in ("inserts", "gets", "deletes")})
        for t, k in r.sample(ks, 300):
            if c.get(t, k) != b"v" * 7:
                raise Violation("after a restart with %d keys one of them has another value" % n, key="counters-restart")
        at["gets"] += 300
        run("DELETE", [req("DELETE", path(t, k)) for t, k in ks], 200, deletes=1, keys=-1, bytes=-7)
        audit(s, c, {}, "all of many deleted")
        s.stop()
