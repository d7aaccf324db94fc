"""C18: names are computed so that their hashes are equal (or adjacent), and every operation on families of such keys and tables is compared with a model, one
by one, in concurrent histories and over restarts"""
import os, signal, time
from vlib.srv import Server, Violation, Inconclusive
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib.murmur import murmur32, collide
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one answer about a name of which another one with an equal hash existed at some time. Distinct and non-trivial: (operation, whether the key itself "
        "and whether one with the same hash is stored, how the two differ: length, NUL, prefix, any), (table operation, place in the cluster of tables, gaps before it), "
        "before and after a restart, and the overlaps of concurrent histories.")
ASSUME = ["names are chosen for the hash MurmurHash3_x86_32 with seed 13; with another hash function the check is still right but sees no collisions"]
TABBYTES = bytes(b for b in gen.KEYBYTES if b != ord("/"))


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(36 if q else 180):
        out.append(("keys", dict(seed="%d-k%d" % (seed, i), variant=["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"][i % 4], steps=700 if q else 4000)))
    for i in range(36 if q else 180):
        out.append(("tables", dict(seed="%d-t%d" % (seed, i), variant=["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"][i % 4], steps=600 if q else 4000)))
    for i in range(36 if q else 240):
        out.append(("concurrent", dict(seed="%d-c%d" % (seed, i), variant=["asan", "dbg", "rel"][i % 3], steps=500 if q else 2500)))
    return out


def family(r, target, n, alpha, kinds=None):
    """n different names with the hash target"""
    out = []
    base = None
    while len(out) < n:
        kind = r.choice(kinds or ["any", "any", "samelen", "prefix", "nul", "nul2", "long"])
        a = r.choice([gen.ALNUM, gen.ALNUM, alpha])
        if kind == "nul":
            v = collide(r, target, a, prefix=b"n\0" + bytes(r.choice(gen.ALNUM) for _ in range(2)), length=12)
        elif kind == "nul2":
            v = collide(r, target, a, prefix=b"same\0\0\0\0", length=16)
        elif kind == "prefix" and out:
            v = collide(r, target, a, prefix=r.choice(out))
        elif kind == "samelen" and out:
            v = collide(r, target, a, length=max(8, len(r.choice(out))))
        elif kind == "long":
            v = collide(r, target, a, prefix=b"L" * r.choice([200, 1000] if gen.MAXNAME > 1100 else [100, 250]))
        else:
            v = collide(r, target, a)
        if v not in out and len(v) < min(3000, gen.MAXNAME):
            out.append(v)
    return out


def differ(a, b):
    if len(a) != len(b):
        return "prefix" if a.startswith(b) or b.startswith(a) else "length"
    return "nul" if a.split(b"\0")[0] == b.split(b"\0")[0] else "bytes"


def fail(what, t, k, key, fam, log):
    raise Violation(what, key=key, detail="table %r key %r, names with this hash: %r\n%s" % (t, k, fam, "\n".join(log[-30:])))


class Model:
    """{table: {hash: (key, value, expires)}}"""

    def __init__(self):
        self.t = {}
        self.short = set()      # stored for 100 s

    def expire(self):
        for t, k in self.short:
            self.delete(t, k)
        self.short = set()

    def get(self, t, k, now=0):
        e = self.t.get(t, {}).get(murmur32(k))
        return e[1] if e and e[0] == k else None

    def other(self, t, k):
        e = self.t.get(t, {}).get(murmur32(k))
        return e[0] if e and e[0] != k else None

    def put(self, t, k, v):
        self.t.setdefault(t, {})[murmur32(k)] = (k, v)

    def delete(self, t, k):
        if self.get(t, k) is None:
            return False
        del self.t[t][murmur32(k)]
        if not self.t[t]:
            del self.t[t]
        return True

    def plain(self):
        return {t: {k: v for k, v in ks.values()} for t, ks in self.t.items()}


def one(obs, s, c, r, m, t, k, fam, log, place=None, op=None, u=[0]):
    """One operation on one name"""
    op = op or r.choice(["PUT", "PUT", "PUT", "GET", "GET", "HEAD", "DELETE", "BULK"])
    had, other = m.get(t, k), m.other(t, k)
    u[0] += 1
    log.append("%s %r/%r (stored: %s, same hash: %r)" % (op, t, k[:60], had is not None and len(had), other and other[:60]))
    obs.ev()
    if other or place is not None:
        obs.seen(op, had is not None, other is not None, other and differ(k, other), place)
    if op == "PUT":
        v = gen.data(("c18", u[0], k), r.choice([1, 10, 100, 4096, 4097, 9000]))
        ttl = r.choice([None, None, 100, 1000000])
        c.put(t, k, v, ttl)
        m.put(t, k, v)
        m.short.discard((t, other))
        (m.short.add if ttl == 100 else m.short.discard)((t, k))
    elif op == "GET":
        g = c.get(t, k)
        if g != had:
            whose = [kk for ks in m.t.values() for kk, vv in ks.values() if vv == g]
            fail("GET returned %s%s" % (diff(had, g) if had is not None or g is not None else "", ", the value of %r" % whose[0][:60] if whose else ""), t, k,
                 "get:%s:%s" % ("missing" if g is None else "wrong" if had is not None else "foreign", bool(other)), fam, log)
    elif op == "HEAD":
        n = c.head(t, k)
        if n != (None if had is None else len(had)):
            fail("HEAD reports %r instead of %r" % (n, had and len(had)), t, k, "head:%s" % bool(other), fam, log)
    elif op == "DELETE":
        if c.delete(t, k) != (had is not None):
            fail("DELETE answered %s" % ("404 for a stored key" if had is not None else "200 for a key that is not stored"), t, k, "delete:%s" % bool(other), fam, log)
        m.delete(t, k)
    else:
        if not m.t.get(t):
            return
        ks = [k] + [r.choice(fam) for _ in range(r.randrange(2))]
        c.bulk(t, ks)
        for x in ks:
            m.delete(t, x)


def keys(obs, seed, variant, steps):
    r = rng("c18k", seed)
    log = []
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        m = Model()
        tabs = gen.names(r, r.choice([1, 1, 3]), ["a"], table=True)
        fams = [family(r, r.randrange(1 << 32), r.randrange(2, 6), gen.KEYBYTES) for _ in range(r.choice([1, 2, 6]))]
        where = "keys with equal hashes"
        for i in range(steps):
            fam = r.choice(fams)
            one(obs, s, c, r, m, r.choice(tabs), r.choice(fam), fam, log)
            x = r.random()
            if x < .01:
                t = r.choice(tabs)
                if c.delete(t) != bool(m.t.get(t)):
                    fail("DELETE of a table with %d keys answered the contrary" % len(m.t.get(t, {})), t, b"", "delete-table", fams, log)
                m.t.pop(t, None)
                log.append("DELETE %r" % t)
            elif x < .02:
                c.gc()
            elif x < .03:
                s.advance(102)
                m.expire()
                if r.random() < .5:
                    # (whether DELETE of an expired value answers 200 or 404 is left open)
                    one(obs, s, c, r, m, r.choice(tabs), r.choice(fam), fam, log, op=r.choice(["GET", "HEAD", "PUT"]))
                c.gc()
                log.append("102 s pass")
                obs.seen("expiry", len(fams))
            elif x < .06:
                # audit of everything
                gone = [(t, k) for t in tabs for f in fams for k in f if m.get(t, k) is None]
                audit(s, c, m.plain(), where, gone=gone, detail="\n".join(log[-20:]), obs=obs)
                obs.count("audits")
            elif x < .07:
                c.close()
                if r.random() < .7:
                    s.stop()
                else:
                    with Conn(s) as d:
                        s.wait_flush()
                        f = s.shm.get("forks")
                        d.gc()
                        s.wait(lambda: s.shm.get("forks") > f, 5)
                        s.wait_flush()
                    s.kill()
                s.start()
                c = Conn(s)
                log.append("restart")
                obs.seen("restart", sum(len(x) for x in m.t.values()) > 3)
                obs.count("restarts")
                gone = [(t, k) for t in tabs for f in fams for k in f if m.get(t, k) is None]
                audit(s, c, m.plain(), where + " after a restart", gone=gone, detail="\n".join(log[-20:]), obs=obs)
        obs.count("operations", steps)
        c.close()
        s.stop()


def cluster(r):
    """Tables whose hashes are equal or next to each other, and some others"""
    h = r.randrange(1 << 32) if r.random() < .9 else 0xfffffffe
    out = []
    for _ in range(r.randrange(2, 9)):
        d = r.choice([0, 0, 0, 1, 1, 2, 3])
        n = family(r, (h + d) & 0xffffffff, 1, TABBYTES)[0]
        if n not in [x for _, x in out]:
            out.append((d, n))
    return out


def tables(obs, seed, variant, steps):
    r = rng("c18t", seed)
    log = []
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        m = Model()
        cl = cluster(r)
        tabs = [n for _, n in cl] + gen.names(r, 2, ["a"], table=True)
        off = {n: d for d, n in cl}
        ks = gen.names(r, 3, ["a"]) + family(r, r.randrange(1 << 32), 2, gen.KEYBYTES, ["any"])
        where = "tables with equal hashes"
        for i in range(steps):
            t, k = r.choice(tabs), r.choice(ks)
            place = (off.get(t, -1), tuple(sorted(off[x] for x in m.t if x in off))[:5], t in m.t)
            x = r.random()
            if x < .75:
                one(obs, s, c, r, m, t, k, ks, log, place)
            elif x < .9:
                log.append("DELETE %r" % t)
                if c.delete(t) != (t in m.t):
                    fail("DELETE of a table with %d keys answered the contrary" % len(m.t.get(t, {})), t, b"", "delete-table", tabs, log)
                m.t.pop(t, None)
                obs.ev()
                obs.seen("DELTAB", place)
            elif x < .97:
                st, l, ent, tot = listing(s, t)
                want = sorted(kk for kk, _ in m.t.get(t, {}).values())
                if sorted(l) != want or (want and ent != len(want)):
                    fail("a listing names %r instead of %r" % (sorted(l), want), t, b"", "listing", tabs, log)
                obs.ev()
                obs.seen("LIST", place)
            elif x < .985:
                gone = [(a, b) for a in tabs for b in ks if m.get(a, b) is None]
                audit(s, c, m.plain(), where, gone=gone, detail="\n".join(log[-20:]), obs=obs)
                obs.count("audits")
            else:
                c.close()
                s.stop()
                s.start()
                c = Conn(s)
                log.append("restart")
                obs.count("restarts")
                obs.seen("restart", place)
                gone = [(a, b) for a in tabs for b in ks if m.get(a, b) is None]
                audit(s, c, m.plain(), where + " after a restart", gone=gone, detail="\n".join(log[-20:]), obs=obs)
        obs.count("operations", steps)
        for t in list(m.t):
            c.delete(t)
        audit(s, c, {}, where + ", all deleted", gone=[(a, b) for a in tabs for b in ks], obs=obs)
        c.close()
        s.stop()


def concurrent(obs, seed, variant, steps):
    r = rng("c18c", seed)
    h = Hist(seed)
    slow = r.random() < .5
    with Server(variant, unix=r.random() < .5, shm=dict(sndbuf=4608) if slow else None) as s:
        tabs = [n for _, n in cluster(r)][:4] if r.random() < .6 else gen.names(r, 2, ["a"], table=True)
        fams = [family(r, r.randrange(1 << 32), r.randrange(2, 4), gen.KEYBYTES) for _ in range(r.choice([1, 2, 3]))]
        ks = [k for f in fams for k in f] + gen.names(r, 1, ["a"])
        for t in tabs:
            for f in fams:
                for k in f:
                    h.alias[(t, k)] = [x for x in f if x != k]
        ctl, _ = run_storm(obs, s, r, h, steps, tabs, ks, slow, sizes=r.choice([(20, 4000), (20, 9000)]), maxq=r.choice([1, 3]))
        M = observe(ctl, h, tabs, ks)
        obs.ev(h.check())
        for t in tabs:
            for f in fams:
                both = [k for k in f if k in M.get(t, {})]
                if len(both) > 1:
                    raise Violation("two keys with equal hashes are stored in one table", key="both", detail=repr(both))
        audit(s, ctl, M, "after a concurrent history of names with equal hashes")
        ctl.close()
        s.stop()
        if r.random() < .5:
            s.start()
            with Conn(s) as c:
                gone = [(a, b) for a in tabs for b in ks if b not in M.get(a, {})]
                audit(s, c, M, "after a concurrent history of names with equal hashes and a restart", gone=gone)
            obs.count("restarts")
            s.stop()
