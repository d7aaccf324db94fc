"""C10: what deletes of keys, tables and lists of keys remove, with names that resemble each other and while they are in use"""
import time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one delete after which the complete contents were compared with the reference, or one operation of a concurrent history rich in deletes. "
        "Distinct and non-trivial: combinations of the kind of delete, number of keys removed and kept (log), relation of the names to others (prefix, "
        "extension, same key in another table), and what was using the deleted key or table (reader, uploader, listing) and how far it had got.")
ASSUME = ["an upload that is in progress during the delete may be effective or not, when it completes after the delete",
          "keys of BULK are trimmed of blanks (they are header values)"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 160):
        out.append(("names", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"][i % 4], n=220 if q else 1200)))
    for i in range(24 if q else 240):
        out.append(("in_use", dict(seed="%d-u%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3"][i % 3], rounds=14 if q else 60)))
    for i in range(20 if q else 240):
        out.append(("storm", dict(seed="%d-s%d" % (seed, i), variant=["asan", "dbg", "asan:DB_LRU_EVERY=3", "asan:BUFFER_SIZE=1024"][i % 4], steps=1000 if q else 5000)))
    out.append(("large", dict(seed="%d-l" % seed, n=20000 if q else 150000)))
    for i in range(4 if q else 24):
        out.append(("bulk_long", dict(seed="%d-b%d" % (seed, i), variant=["asan", "asan:BUFFER_SIZE=1024"][i % 2], rounds=16 if q else 120)))
    return out


def names(obs, seed, variant, n):
    """Sequential, few names that are prefixes, extensions and case variants of each other; everything compared after each delete"""
    r = rng("c10", seed)
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        base = gen.name(r, "a")[:6]
        tabs = [base, base + b"x", base[:-1] or b"q", base.swapcase(), base + b"%2f", base[::-1]]
        tabs = sorted(set(tabs))[:5]
        kb = gen.name(r, "a")[:6]
        keys = sorted({kb, kb + b"/", b"/" + kb, kb + b"/" + kb, kb[:-1] or b"z", kb + kb, kb.swapcase(), base, b"0", b"00", kb + b"?x=1",
                       # names end (and begin) with bytes that are neither letters nor blanks
                       kb + r.choice([b"\xc3\xa9", b"\xff", b"\x80"]), kb + r.choice([b"\x01", b"\x7f", b"\x0b"]), r.choice([b"\xe2\x82\xac", b"\x02", b"\x85"]) + kb})
        M = {}
        for i in range(n):
            for _ in range(r.choice([0, 1, 3, 12])):
                t, k = r.choice(tabs), r.choice(keys)
                v = gen.data((seed, i, _), r.choice([5, 30, 4096, 5000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            t, k = r.choice(tabs), r.choice(keys)
            if r.random() < .012:
                # the same with what was loaded
                c.close()
                s.stop()
                s.start()
                c = Conn(s)
                obs.count("restarts")
            before = sum(len(x) for x in M.values())
            op = r.choices(["key", "table", "bulk", "absent", "again"], [5, 2, 3, 1, 1])[0]
            if op == "key":
                d = c.delete(t, k)
                if d != (k in M.get(t, {})):
                    raise Violation("DELETE of a key %s is answered %s" % ("not stored" if d else "stored", d), key="outcome")
                drop(M, t, k)
            elif op == "table":
                d = c.delete(t)
                if d != (t in M):
                    raise Violation("DELETE of a table %s is answered %s" % ("not stored" if d else "stored", d), key="table-outcome")
                M.pop(t, None)
            elif op == "bulk":
                ks = r.choices(keys, k=r.randrange(1, 8))
                r_ = c.do(r.choice(["BULK", "PURGE"]), path(t), [(r.choice(["X-Delete", "x-delete"]), x) for x in ks])
                if t in M:
                    expect(r_, "BULK", 200, b"BULK OK\r\n")
                for x in ks:
                    drop(M, t, x)
            elif op == "absent":
                c.delete(t + b"-absent")
                c.delete(t, k + b"-absent")
                c.delete(t, b"")
                c.bulk(t, [k + b"-absent"]) if t in M else None
            else:
                if t in M:
                    c.delete(t)
                    M.pop(t)
                v = b"again%d" % i
                c.put(t, k, v)
                M[t] = {k: v}
                c.delete(t, k)
                M.pop(t)
                if c.delete(t, k) or c.delete(t):
                    raise Violation("a table with no keys is there", key="empty-table")
            after = sum(len(x) for x in M.values())
            obs.ev()
            obs.seen(op, (before - after).bit_length(), after.bit_length(), len(M), len(M.get(t, {})))
            check_values(s, c, M, "after " + op, gone=[(t_, k_) for t_ in tabs for k_ in keys])
            if i % 5 == 0:
                audit(s, c, M, "after deletes", values=False)
        s.stop()


class User:
    """Something using a key or table of the server, stopped at some point"""

    def __init__(self, s, kind, t, k, M, r, i):
        self.kind, self.t, self.k = kind, t, k
        nb = self.nb = NB(s)
        self.v = None
        if kind == "read":
            self.v = M[t][k]
            nb.p.pending.append("GET")
            nb.queue(req("GET", path(t, k)))
            nb.push()
        elif kind == "upload":
            self.v = gen.data(("up", i, k), r.choice([5, 4096, 5000, 20000]))
            d = req("PUT", path(t, k), (), self.v)
            nb.p.pending.append("PUT")
            nb.queue(d)
            cut = r.choice([len(d) - len(self.v), len(d) - len(self.v) + 1, len(d) - 1, d.index(b"\r\n") + 2, d.index(b"HTTP"), d.index(b"\r\n") - 2])
            self.cut = cut
            t0 = time.time()
            while cut > 0 and time.time() - t0 < 20:
                cut -= nb.push(cut)
        elif kind == "list":
            nb.p.pending.append("GET")
            nb.queue(req("GET", path(t)))
            nb.push()
        elif kind == "bulkline":
            d = req("BULK", path(t), [("X-Delete", k), ("X-Delete", b"second")])
            nb.p.pending.append("BULK")
            nb.queue(d)
            nb.push(d.index(b"\r\n") + 2 + r.choice([0, 3, 12]))
        elif kind == "half":
            # a table that is looked up, with the key still to come
            d = req("PUT", path(t, k), (), b"half")
            self.v = b"half"
            nb.p.pending.append("PUT")
            nb.queue(d)
            nb.push(d.index(path(t)) + len(path(t)) + 1)

    def finish(self, s):
        t0 = time.time()
        nb = self.nb
        while True:
            nb.push()
            nb.pump()
            x = nb.p.next()
            if x is not None:
                return x
            if nb.p.eof:
                time.sleep(.02)
                s.check()
                raise Violation("%s was cut off by a delete" % self.kind, key="cut:" + self.kind)
            if time.time() - t0 > 20:
                s.check()
                raise Violation("%s does not end after a delete" % self.kind, key="hang:" + self.kind, soft=True)


def in_use(obs, seed, variant, rounds):
    r = rng("c10u", seed)
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        c = Conn(s)
        tabs = [b"tab", b"tabl"]
        keys = [b"k%d" % i for i in range(5)]
        M = {}
        for i in range(rounds):
            s.shm.set(sock_wlimit=r.choice([100, 1000]))
            for t in tabs:
                for k in keys:
                    if r.random() < .7:
                        v = gen.data((seed, i, t, k), r.choice([30, 4000, 5000, 40000]))
                        c.put(t, k, v)
                        M.setdefault(t, {})[k] = v
            users = []
            allowed = {}  # (t, k) -> values of uploads in progress
            for j in range(r.randrange(1, 5)):
                t, k = r.choice(tabs), r.choice(keys)
                kind = r.choice(["read", "read", "upload", "upload", "list", "bulkline", "half"])
                if kind == "read" and k not in M.get(t, {}):
                    kind = "upload"
                u = User(s, kind, t, k, M, r, (i, j))
                users.append(u)
                barrier(c, 1)
                if kind in ("upload", "half"):
                    allowed.setdefault((t, k), []).append(u.v)
                    # the old value is gone or not, depending on how far it got
                    if c.get(t, k) is None:
                        drop(M, t, k)
            gone = set()
            acts = []
            for j in range(r.randrange(1, 4)):
                t, k = r.choice(tabs), r.choice(keys)
                a = r.choice(["table", "table", "key", "bulk", "all"])
                acts.append(a)
                if a == "table":
                    c.delete(t)
                    gone |= {(t, x) for x in keys}
                    M.pop(t, None)
                elif a == "key":
                    c.delete(t, k)
                    gone.add((t, k))
                    drop(M, t, k)
                elif a == "bulk":
                    c.do("BULK", path(t), [("X-Delete", x) for x in keys[:3]])
                    gone |= {(t, x) for x in keys[:3]}
                    for x in keys[:3]:
                        drop(M, t, x)
                else:
                    for x in keys:
                        c.delete(t, x)
                        drop(M, t, x)
                        gone.add((t, x))
                for (t_, k_) in gone:
                    v = c.get(t_, k_)
                    if v is not None and k_ not in M.get(t_, {}):
                        raise Violation("a deleted key returns %d bytes while %s are in progress" % (len(v), [u.kind for u in users]),
                                        key="deleted-visible", detail=str(acts))
                # stored again at once
                again = r.choice(["", "key", "many"])
                for x in {"": [], "key": [k], "many": keys}[again]:
                    if (t, x) in allowed:
                        continue  # being uploaded by someone else, judged at the end
                    v = b"again-%d-%d" % (i, j) * r.choice([1, 600])
                    c.put(t, x, v)
                    M.setdefault(t, {})[x] = v
                    if c.get(t, x) != v:
                        raise Violation("a key stored after its delete does not return its value", key="again", detail="%s %s" % (acts, [u.kind for u in users]))
                acts.append(again)
            s.shm.set(sock_wlimit=0)
            r.shuffle(users)
            for u in users:
                if r.random() < .25:
                    u.nb.close(False)
                    continue
                x = u.finish(s)
                if u.kind == "read":
                    g = value_of(x)
                    if g != u.v:
                        raise Violation("a download in progress returned %s when its value was deleted" % (None if g is None else len(g)), key="read-changed")
                elif u.kind in ("upload", "half"):
                    expect(x, "PUT", 200, b"OK\r\n")
                elif u.kind == "bulkline":
                    expect(x, "BULK", 200, b"BULK OK\r\n")
                    for kk in (u.k,):
                        if c.get(u.t, kk) is None:
                            drop(M, u.t, kk)
                elif u.kind == "list":
                    st, l, e, tot = parse_listing(x)
                    if set(l) - set(keys) - {b"second"}:
                        raise Violation("a listing names keys never stored", key="list-foreign")
                u.nb.close()
            c.stats()
            s.wait(lambda: s.nsock() <= 3 + 2, 2)
            time.sleep(.002)
            barrier(c, 2)
            for (t, k), vs in allowed.items():
                v = c.get(t, k)
                if v is not None and v not in vs and v != M.get(t, {}).get(k):
                    raise Violation("a key that was deleted during an upload returns %d bytes that are neither the upload nor stored after it" % len(v), key="upload-foreign")
                if v is None:
                    drop(M, t, k)
                else:
                    M.setdefault(t, {})[k] = v
            # BULK of a user which was closed may or may not have been processed: only complete requests are
            check_values(s, c, M, "after deletes in use", gone=[(t, k) for t in tabs for k in keys if (t, k) not in allowed])
            audit(s, c, M, "after deletes in use", values=False, detail=str(acts))
            obs.ev(len(acts))
            obs.seen(tuple(sorted(u.kind for u in users)), tuple(acts))
            obs.count("in_use", len(users))
        s.stop()


def storm(obs, seed, variant, steps):
    r = rng("c10s", seed)
    h = Hist(seed)
    with Server(variant, unix=r.random() < .6, shm=dict(sndbuf=4608)) as s:
        tabs = gen.prefix_names(b"abc")[:r.randrange(1, 4)]
        keys = gen.prefix_names(b"key")[:r.randrange(1, 4)]
        c, _ = run_storm(obs, s, r, h, steps, tabs, keys, slow=r.random() < .6, maxq=r.choice([1, 1, 3]),
                         weights=dict(PUT=36, GET=20, HEAD=2, DELETE=20, DELTAB=r.choice([3, 10, 20]), BULK=10),
                         sizes=r.choice([(20, 4000), (3000, 6000), (20, 30000)]), aborts=.03, finish=r.choice([.5, 1]))
        M = observe(c, h, tabs, keys)
        obs.ev(h.check())
        audit(s, c, M, "after a storm of deletes", values=False, detail=h.dump(n=40))
        # deleted and stored again
        for t in tabs:
            c.delete(t)
        audit(s, c, {}, "after a storm, all deleted")
        for t in tabs:
            for k in keys:
                c.put(t, k, b"new " + t + k)
        audit(s, c, {t: {k: b"new " + t + k for k in keys} for t in tabs}, "after a storm, all stored again")
        s.stop()


def large(obs, seed, n):
    """Tables with many keys: deleted in one go, in parts, and by BULK"""
    r = rng("c10l", seed)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        from vlib.murmur import murmur32
        for how in ("table", "keys", "bulk"):
            seen = set()
            ks = [k for k in (b"%s-%d" % (how.encode(), i) for i in range(n if how == "table" else n // 4)) if not (murmur32(k) in seen or seen.add(murmur32(k)))]
            M = {b"keep": {}}
            for t in (b"large", b"keep"):
                for a in range(0, len(ks), 100):
                    b = ks[a:a + 100]
                    c.p.pending += ["PUT"] * len(b)
                    c.send(b"".join(req("PUT", path(t, k), (), b"v" + k) for k in b))
                    for _ in b:
                        expect(c.recv(), "PUT", 200, b"OK\r\n")
            M = {b"keep": {k: b"v" + k for k in ks}, b"large": {k: b"v" + k for k in ks}}
            if how == "table":
                c.delete("large")
                del M[b"large"]
            else:
                d = r.sample(ks, len(ks) // 2)
                for a in range(0, len(d), 50):
                    if how == "bulk":
                        c.bulk("large", d[a:a + 50])
                    else:
                        for k in d[a:a + 50]:
                            c.delete("large", k)
                for k in d:
                    drop(M, b"large", k)
            audit(s, c, M, "large " + how, values=False)
            for k in r.sample(ks, 300):
                for t in (b"large", b"keep"):
                    if c.get(t, k) != M.get(t, {}).get(k):
                        raise Violation("wrong contents after deletes in large tables", key="large-value:" + how)
                obs.ev(2)
            obs.seen("large", how)
            c.delete("large"), c.delete("keep")
            audit(s, c, {}, "large, all deleted")
        s.stop()


def bulk_long(obs, seed, variant, rounds):
    """BULK and single deletes with many names, in pieces or all at once, so that names lie at all places of the server's buffer"""
    r = rng("c10b", seed)
    with Server(variant) as s:
        c = Conn(s)
        for rnd in range(rounds):
            ks = [k for k in gen.names(r, r.choice([1, 2, 50, 400]), ["a", "n"]) if len(k) < 500] or [b"one"]
            for a in range(0, len(ks), 50):
                b = ks[a:a + 50]
                c.p.pending += ["PUT"] * len(b)
                c.send(b"".join(req("PUT", path(b"b", k), (), b"v" + k) for k in b))
                for _ in b:
                    expect(c.recv(), "PUT", 200, b"OK\r\n")
            M = {b"b": {k: b"v" + k for k in ks}}
            d = r.sample(ks, r.randrange(1, len(ks) + 1))
            hs = []
            for k in d:
                if r.random() < .2:
                    hs.append(("X-Other", "x" * r.randrange(1, 50)))
                hs.append(("X-Delete", k))
                if r.random() < .1:
                    hs.append(("X-Delete", "absent%d" % r.randrange(1000)))
            # requests before it move it through the buffer
            lead = r.choice([0, 0, 1, 30, 300])
            data = b"".join(req("GET", path(b"b", b"-none-" + b"x" * r.randrange(40))) for _ in range(lead))
            c.p.pending += ["GET"] * lead
            one = r.random() < .25
            if one:
                data += b"".join(req("DELETE", path(b"b", k)) for k in d)
                c.p.pending += ["DELETE"] * len(d)
            else:
                data += req("BULK", "/b", hs)
                c.p.pending.append("BULK")
            c.send(data, gen.cuts(r, len(data)) if r.random() < .4 else None)
            for _ in range(lead):
                expect(c.recv(), "GET", 404, NOTFOUND)
            for _ in d if one else "B":
                expect(c.recv(), "DELETE" if one else "BULK", 200, b"DELETED\r\n" if one else b"BULK OK\r\n")
            for k in d:
                drop(M, b"b", k)
            audit(s, c, M, "BULK", gone=[(b"b", k) for k in ks], list_=True)
            obs.ev()
            obs.seen("bulk", len(d).bit_length(), len(ks).bit_length())
            c.delete("b")
        s.stop()
