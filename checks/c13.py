"""C13: the server (or its background save) is killed at every kind of file operation, at every step of scripted histories and at random
moments of random ones; what the next start serves is compared with the saves and uploads there were"""
import os, signal, time
from vlib.srv import Server, Violation, Inconclusive
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng
from vlib.murmur import murmur32

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "rel:DB_LRU_EVERY=3"]
RULE = ("A case is one start after a kill: every key is read and compared with what was stored at the instants of the saves, and the blocks, files, "
        "counters and listings with what is served. Distinct and non-trivial: combinations of the process killed, the operation it was killed at, the "
        "moment (before, within, after it), the phase (serving, saving, stopping, starting) and whether the start was blank.")
ASSUME = ["a kill does not lose what was written to the page cache (no power failure)",
          "a save is known to be complete when its process ended by itself"]
KEYS = [b"k%d" % i for i in range(6)]
TABS = [b"t", b"uu"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 200):
        out.append(("points", dict(seed="%d-%d" % (seed, i), variant=["rel", "rel", "asan", "asan"][i % 4], limit=40 if q else 400)))
    for i in range(8 if q else 60):
        out.append(("starting", dict(seed="%d-s%d" % (seed, i), variant=["rel", "asan"][i % 2], limit=20 if q else 200)))
    for i in range(24 if q else 240):
        out.append(("at_random", dict(seed="%d-r%d" % (seed, i), variant=["asan:DB_LRU_EVERY=3", "rel:DB_LRU_EVERY=3", "asan", "dbg"][i % 4], rounds=4 if q else 15)))
    for i in range(6 if q else 40):
        out.append(("save_survives", dict(seed="%d-o%d" % (seed, i), rounds=4 if q else 12)))
    for i in range(4 if q else 30):
        out.append(("save_killed", dict(seed="%d-k%d" % (seed, i), limit=14 if q else 80)))
    for i in range(12 if q else 100):
        out.append(("lives", dict(seed="%d-l%d" % (seed, i), variant=["rel", "asan"][i % 2] + ["", ":DB_LRU_EVERY=1000000"][i // 2 % 2], n=30 if q else 150)))
    for i in range(4 if q else 24):
        out.append(("reuse", dict(seed="%d-u%d" % (seed, i), variant=["rel", "asan"][i % 2] + ":DB_LRU_EVERY=1000000", n=5 if q else 40)))
    for i in range(3 if q else 12):
        out.append(("large", dict(seed="%d-g%d" % (seed, i), variant=["rel", "rel", "asan"][i % 3] + ":DB_LRU_EVERY=1000000", n=12000, mode=["never", "partial", "corrupt"][i % 3])))
    return out


class Script:
    """A deterministic history and what may be found after it was cut off anywhere"""

    def __init__(self, s, seed, n=22):
        self.s, self.r, self.n, self.seed = s, rng("c13", seed), n, seed
        self.M = {}
        self.snaps = [({}, True)]        # state at each save, known to be complete
        self.touched = set()             # since the last complete one
        self.later = [set()]             # keys touched after each save
        self.step = "start"
        self.active = set()              # keys being uploaded by a held connection

    def touch(self, t, k):
        for x in self.later:
            x.add((t, k))

    def run(self, c, held):
        """Raises whatever when the server dies"""
        r, s = self.r, self.s
        for i in range(self.n):
            t, k = r.choice(TABS), r.choice(KEYS)
            x = r.random()
            sz = r.choice([30, 200, 4096, 4097, 6000, 20000])
            if x < .5:
                self.step = "put-file" if sz > 4096 else "put-block"
                v = gen.data((self.seed, i), sz)
                self.touch(t, k)
                drop(self.M, t, k)
                c.put(t, k, v, ttl=r.choice([None, None, 100000]))
                self.M.setdefault(t, {})[k] = v
            elif x < .62:
                self.step = "delete"
                self.touch(t, k)
                c.delete(t, k)
                drop(self.M, t, k)
                self.active.discard((t, k))
            elif x < .66:
                self.step = "deltab"
                for kk in KEYS:
                    self.touch(t, kk)
                c.delete(t)
                self.M.pop(t, None)
                self.active = set(a for a in self.active if a[0] != t)
            elif x < .76:
                self.step = "upload"
                self.touch(t, k)
                if len(held) < 4 and (t, k) not in self.active:
                    nb = Conn(s)
                    nb.get(b"warm", b"up")     # it is accepted by now
                    nb.send(req("PUT", path(t, k), (), b"h" * sz)[:-r.randrange(1, sz)])
                    barrier(c, 1)
                    held.append((nb, t, k))
                    self.active.add((t, k))
                    drop(self.M, t, k)
            elif x < .8 and held:
                self.step = "interrupted"
                nb, t, k = held.pop(0)
                self.touch(t, k)
                self.active.discard((t, k))
                n = s.nsock()
                nb.close()
                s.wait(lambda: s.nsock() < n, 5)
                barrier(c, 1)
            else:
                wait = r.random() < .6
                self.step = "save" if wait else "save-meanwhile"
                snap = {t: dict(ks) for t, ks in self.M.items()}
                s.wait_flush()
                f = s.shm.get("forks")
                self.snaps.append((snap, False))
                self.later.append(set())
                c.gc()
                if s.shm.get("forks") == f:
                    raise Inconclusive("no save was started: %s %s %s %s" % (s.shm.get("killed"), s.alive(), s.children(), s.tail()[-300:]))
                if wait:
                    s.wait_flush()
                    if s.shm.get("killed"):
                        raise OSError("killed")
                    self.snaps[-1] = (snap, True)
            # uploads of keys being uploaded elsewhere are discarded: forget about those keys
            for ht, hk in self.active:
                drop(self.M, ht, hk)

    def judge(self, got, where, detail, may_be_blank):
        """got: {table: {key: value}}"""
        last = max(i for i, (_, done) in enumerate(self.snaps) if done)
        blank = not any(got.values())
        why = []
        for i in range(last, len(self.snaps)):
            snap = self.snaps[i][0]
            bad = None
            for t in TABS:
                for k in KEYS:
                    v, w = got.get(t, {}).get(k), snap.get(t, {}).get(k)
                    if v is not None and v != w:
                        bad = "%r/%r: %s compared with save %d" % (t, k, diff(w, v), i)
                    elif v is None and w is not None and (t, k) not in self.later[i]:
                        bad = "%r/%r is missing, it was stored at save %d and not changed since" % (t, k, i)
                    if bad:
                        break
                if bad:
                    break
            if not bad:
                return blank
            why.append(bad)
        if blank and may_be_blank:
            return True
        raise Violation("%s: what is served after the crash is not the state at any save that may have been the last: %s" % (where, why[0]), key="crash-state:" + where,
                        detail="%s\n%s\ncomplete: %r, blank: %r" % (detail, "\n".join(why), [d for _, d in self.snaps], blank))


def blank_excused(s):
    """Had the last save which was started begun to replace the files of the one before, and not ended?"""
    log = s.shm.oplog()
    l = []
    for b in log:
        if b == 5:
            l = []
        elif b >> 4:
            l.append(b & 15)
    return 3 in l or 4 in l


def serve(s, c, M, seed, where):
    """The restarted server works as a fresh one"""
    r = rng("c13w", seed)
    for i in range(14):
        t, k = r.choice(TABS), r.choice(KEYS)
        if r.random() < .7:
            v = gen.data((seed, "w", i), r.choice([50, 4096, 4097, 9000]))
            c.put(t, k, v)
            M.setdefault(t, {})[k] = v
        else:
            c.delete(t, k)
            drop(M, t, k)
    audit(s, c, M, where)


def collect(s, c):
    M = {}
    for t in TABS:
        for k in KEYS:
            v = c.get(t, k)
            if v is not None:
                M.setdefault(t, {})[k] = v
    return M


def guard(s, fn):
    """Runs fn, -> True when the server was killed by the shim meanwhile"""
    try:
        fn()
    except (Violation, OSError) as e:
        if s.shm.get("killed"):
            return True
        if isinstance(e, Violation):
            raise
        s.check()
        raise
    return bool(s.shm.get("killed"))


def after_crash(obs, s, sc, where, detail, may_be_blank, seed, full=True):
    s.kill()
    s.shm.set(k_role=0, k_at=0, killed=0, child_delay_us=0)
    s.start()
    c = Conn(s)
    M = collect(s, c)
    blank = sc.judge(M, where, detail, may_be_blank)
    audit(s, c, M, "after a crash", detail=detail)
    obs.ev(len(TABS) * len(KEYS))
    obs.count("crashes")
    if blank:
        obs.count("blank_starts")
    if full:
        serve(s, c, M, seed, "after a crash and more")
        c.close()
        s.stop()
        s.start()
        c = Conn(s)
        audit(s, c, M, "after a crash and a clean restart")
    c.close()
    s.kill()
    return blank


OPNAMES = ["open", "write", "trunc", "rename", "unlink", "fork", "sync", "copy", "openrd", "pread"]


def points(obs, seed, variant, limit):
    """Every file operation of the server and of its saves, in a scripted history which ends with a clean stop"""
    r = rng("c13p", seed)

    def once(k_role=0, k_at=0, k_phase=0, delay=0):
        s = Server(variant, unix=True, shm=dict(child_delay_us=delay))
        sc = Script(s, seed)
        held = []
        base = s.shm.get("ops0")
        s.shm.set(k_role=k_role, k_at=k_at + (base if k_role == 1 else 0), k_phase=k_phase)
        c = Conn(s)
        phase = ["serving"]

        def go():
            sc.run(c, held)
            phase[0] = "stopping"
            s.wait_flush()
            snap = {t: dict(ks) for t, ks in sc.M.items()}
            sc.snaps.append((snap, False))
            sc.later.append(set())
            s.stop()
            sc.snaps[-1] = (snap, True)
        dead = guard(s, go)
        for nb, _, _ in held:
            nb.close()
        c.close()
        return s, sc, dead, base, phase[0]
    s, sc, dead, base, ph = once()
    n0, n1 = s.shm.get("ops0") - base, s.shm.get("ops1")
    log = s.shm.oplog()
    s.kill()
    s.start()
    with Conn(s) as c:
        audit(s, c, sc.M, "uninterrupted")
    s.close()
    obs.count("server_ops", n0)
    obs.count("child_ops", n1)
    l0 = [b & 15 for b in log if not b >> 4][base:]
    l1 = [b & 15 for b in log if b >> 4]
    pts = []
    for role, l in ((1, l0), (2, l1)):
        for i, op in enumerate(l):
            for p in (0, 1, 2) if op in (1, 7) else (0, 1):
                pts.append((role, i + 1, p, op))
    r.shuffle(pts)
    # every kind first
    kinds, first, rest = set(), [], []
    for p in pts:
        kk = (p[0], p[2], p[3])
        (rest if kk in kinds else first).append(p)
        kinds.add(kk)
    for n, (role, at, p, op) in enumerate((first + rest)[:limit]):
        s, sc, dead, base, ph = once(role, at, p, r.choice([0, 0, 500]))
        if not dead:
            s.close()
            obs.count("not_reached")
            continue
        s.wait_dead(10)
        where = "killed %s %s" % (("before", "after", "within")[p], OPNAMES[op])
        detail = "%s of %s, operation %d, while %s, step %s" % (where, ("server", "save")[role - 1], at, ph, sc.step)
        blank = after_crash(obs, s, sc, where, detail, blank_excused(s) and not sc.snaps[-1][1], (seed, n), full=n % 3 == 0)
        obs.seen(role, p, op, ph, sc.step, blank)
        obs.sample(detail)
        s.close()


def starting(obs, seed, variant, limit):
    """Killed while it starts, from a save, from nothing and from a crash: the start after that has everything"""
    r = rng("c13s", seed)
    s = Server(variant, unix=True)
    sc = Script(s, seed, n=r.choice([8, 20, 30]))
    held = []
    c = Conn(s)
    sc.run(c, held)
    for nb, _, _ in held:
        nb.close()
    s.wait_flush()
    mode = r.choice(["clean", "crash", "crash"])
    if mode == "clean":
        snap = {t: dict(ks) for t, ks in sc.M.items()}
        c.close()
        s.stop()
        sc.snaps.append((snap, True))
        sc.later.append(set())
    else:
        sc.snaps = [(m, True) for m, _ in sc.snaps]
        s.kill()
    # how many operations does a start have?
    s.start()
    n = s.shm.get("ops0")
    log = [b & 15 for b in s.shm.oplog() if not b >> 4][:n]
    s.kill()
    pts = [(i + 1, p, op) for i, op in enumerate(log) for p in ((0, 1, 2) if op in (1, 7) else (0, 1))]
    r.shuffle(pts)
    for at, p, op in pts[:limit]:
        s.shm.set(k_role=1, k_at=at, k_phase=p)
        s.start()
        if not s.shm.get("killed"):
            obs.count("not_reached")
            s.kill()
            continue
        s.kill()
        where = "killed while starting"
        detail = "%s %s %d, %s" % (where, OPNAMES[op], at, mode)
        s.shm.set(k_role=0, k_at=0, killed=0)
        s.start()
        c = Conn(s)
        M = collect(s, c)
        sc.judge(M, where, detail, False)
        audit(s, c, M, where, detail=detail)
        obs.ev(len(TABS) * len(KEYS))
        obs.seen("start", op, p, mode, nblocks(M), nfiles(M))
        obs.count("crashes")
        c.close()
        s.kill()
    s.close()


def at_random(obs, seed, variant, rounds):
    """SIGKILL at any time of random concurrent histories, again and again on the same files"""
    r = rng("c13r", seed)
    with Server(variant, unix=r.random() < .7, shm=dict(sndbuf=4608)) as s:
        tabs = gen.names(r, r.randrange(1, 3), ["a"], table=True)
        keys = gen.names(r, r.randrange(2, 6), ["a", "n"])
        h = Hist(seed)
        for rnd in range(rounds):
            s.shm.set(child_delay_us=r.choice([0, 0, 100, 1000]))
            ctl, base, mux, clients = run_storm(obs, s, r, h, r.choice([30, 120, 300]), tabs, keys, slow=r.random() < .3,
                                                weights=dict(PUT=50, GET=15, HEAD=3, DELETE=12, DELTAB=r.choice([0, 2]), BULK=3),
                                                sizes=r.choice([(20, 4000), (3000, 6000), (20, 30000)]), gc=r.choice([0, .02, .1]), leave=True)
            if r.random() < .5:
                time.sleep(r.random() * .01)
            ph = sorted(set((o.kind, o.phase) for c in clients for o in c.q[:1]))
            saving = bool(s.children())
            s.kill()
            s.shm.set(child_delay_us=0)
            lost = settle_dead(mux, clients, h)
            ctl.close()
            s.start()
            c = Conn(s)
            M = {}
            for t in tabs:
                for k in keys:
                    v = c.get(t, k)
                    if v is None:
                        continue
                    M.setdefault(t, {})[k] = v
                    p = h.puts[h.identify(v)]
                    if (p.table, p.key) != (t, k):
                        raise Violation("after a crash %r/%r has a value uploaded to %r/%r" % (t, k, p.table, p.key), key="other-keys-value", detail=repr(p))
                    if p.sent > (1 << 50):
                        raise Violation("after a crash a key has the value of an upload which was never complete", key="incomplete-after-crash", detail=repr(p))
                    obs.ev()
            audit(s, c, M, "after a crash", detail=h.dump(n=40))
            check_listing(s, M, "after a crash", tabs)
            obs.seen(ph, saving, not M)
            obs.count("crashes")
            # a new history begins with what is there
            h2 = Hist("%s-%d" % (seed, rnd))
            h2.used = set(h.used)
            h2.values.update(h.values), h2.bylen.update(h.bylen), h2.puts.update(h.puts)
            h2.t = h.t + 10
            h2.new = _numbered(h2, 1000000 * (rnd + 1))
            for t in tabs:
                for k in keys:
                    v = M.get(t, {}).get(k)
                    if v is None:
                        o = h2.new("DELETE", t, k)
                        o.sent = h2.tick()
                        o.status = 404
                        o.end = h2.tick()
                    else:
                        o = h2.new("PUT", t, k)
                        o.uid, o.length = h.bylen[len(v)], len(v)
                        o.sent = h2.tick()
                        o.end, o.status = h2.tick(), 200
                        h2.puts[o.uid] = o
            h = h2
            ctl2, _ = run_storm(obs, s, r, h, 60, tabs, keys, gc=0, aborts=0)
            M = observe(c, h, tabs, keys)
            h.check()
            check_space(s, c, M, "after a crash and more", detail=h.dump(n=40))
            check_stats(s, c, M, "after a crash and more")
            ctl2.close()
            c.close()


def lives(obs, seed, variant, n):
    """Many short lives on the same files: a few changes, of the keys changed last, and the end, seldom with a save"""
    r = rng("c13l", seed)
    tabs, keys = TABS[:r.choice([1, 1, 2])], KEYS[:r.choice([1, 2, 3, 6])]
    often = r.choice([3, 9])
    with Server(variant, unix=True) as s:
        c = Conn(s)
        M, recent, uid = {}, [], 0
        for life in range(n):
            sc = Script(s, seed)
            sc.snaps, sc.later = [({t: dict(ks) for t, ks in M.items()}, True)], [set()]
            held, active, did = [], set(), []
            for i in range(r.choice([1, 1, 2, 3, 5])):
                t, k = r.choice(recent[-3:]) if recent and r.random() < .6 else (r.choice(tabs), r.choice(keys))
                if (t, k) in active:
                    continue
                x, uid = r.random(), uid + 1
                if x < .2:
                    # again and again
                    size = r.choice([3000, 5000, 6000])
                    for j in range(r.choice([1, 2, 3, 5, 9, 14])):
                        uid += 1
                        v = gen.data((seed, uid), size + r.choice([0, 0, 1, 300]))
                        c.put(t, k, v)
                    M.setdefault(t, {})[k] = v
                    did.append("repeat")
                elif x < .5:
                    old = sc.snaps[0][0].get(t, {}).get(k)
                    v = gen.data((seed, uid), len(old) if old and r.random() < .3 else r.choice([10, 3000, 4096, 4097, 5000, 9000]))
                    c.put(t, k, v)
                    M.setdefault(t, {})[k] = v
                    did.append("put-file" if len(v) > 4096 else "put-block")
                elif x < .75:
                    # an upload that is not completed
                    b = Conn(s)
                    b.get(b"warm", b"up")
                    v = gen.data((seed, uid), r.choice([10, 3000, 4097, 9000]))
                    b.send(req("PUT", path(t, k), (), v)[:-r.randrange(1, len(v))])
                    barrier(c, 1)
                    held.append(b)
                    active.add((t, k))
                    drop(M, t, k)
                    did.append("part-file" if len(v) > 4096 else "part-block")
                else:
                    c.delete(t, k)
                    drop(M, t, k)
                    did.append("delete")
                sc.touch(t, k)
                recent.append((t, k))
            end = r.choice(["kill"] * often + ["save", "save-kill", "stop"])
            if end.startswith("save"):
                c.gc()
                s.wait_flush()
                sc.snaps, sc.later = [({t: dict(ks) for t, ks in M.items()}, True)], [set()]
            if end == "stop":
                sc.snaps, sc.later = [({t: dict(ks) for t, ks in M.items()}, True)], [set()]
                s.stop()
            elif end != "save":
                s.kill()
            for b in held:
                b.close()
            if end == "save":
                n0 = len(held)
                s.wait(lambda: s.nsock() <= 1, 5) if n0 else None
                barrier(c, 1)
                continue
            c.close()
            s.start()
            c = Conn(s)
            M = collect(s, c)
            detail = "life %d: %r, then %s" % (life, did, end)
            sc.judge(M, "short lives", detail, False)
            audit(s, c, M, "after a crash", detail=detail)
            obs.seen("lives", tuple(did), end)
            obs.ev(len(tabs) * len(keys))
            obs.count("crashes")
        c.close()


def reuse(obs, seed, variant, n):
    """After one save, some of the saved keys are changed and the server is killed; then life after life, with no further save, 1, 2, 3, ...
    uploads of one of these keys: never may a key of the save be served with anything but what was saved for it"""
    r = rng("c13u", seed)
    for case in range(n):
        with Server(variant, unix=True) as s:
            c = Conn(s)
            M, uid = {}, 0
            keys = [(TABS[0], b"k%d" % i) for i in range(r.choice([1, 1, 2, 3]))]
            for i in range(r.choice([1, 2, 3, 6, 12])):
                t, k = r.choice(keys)
                uid += 1
                v = gen.data((seed, case, uid), r.choice([4097, 5000, 5000, 9000, 200]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            c.gc()
            s.wait_flush()
            sc = Script(s, seed)
            sc.snaps, sc.later = [(M, True)], [set(keys)]
            did = []
            for t, k in r.sample(keys, r.randrange(1, len(keys) + 1)):
                x = r.choice(["delete", "delete", "overwrite", "part"])
                did.append(x)
                if x == "delete":
                    c.delete(t, k)
                elif x == "overwrite":
                    c.put(t, k, gen.data((seed, case, k, "o"), r.choice([10, 5000])))
                else:
                    b = Conn(s)
                    b.get(b"warm", b"up")
                    b.send(req("PUT", path(t, k), (), gen.data((seed, case, k, "p"), 6000))[:-r.randrange(1, 6000)])
                    barrier(c, 1)
                    b.close()
            c.close()
            s.kill()
            t, k = r.choice(keys)
            for j in range(1, r.choice([4, 8, 14])):
                s.start()
                c = Conn(s)
                collect(s, c) if r.random() < .3 else None
                for i in range(j):
                    uid += 1
                    c.put(t, k, gen.data((seed, case, "n", uid), r.choice([4097, 4500, 5000, 6000, 9000])))
                c.close()
                s.kill()
                s.start()
                c = Conn(s)
                got = collect(s, c)
                detail = "%r, then %d uploads of %r" % (did, j, k)
                sc.judge(got, "uploads between two crashes", detail, False)
                audit(s, c, got, "after a crash", detail=detail)
                c.close()
                s.kill()
                obs.seen("reuse", tuple(did), j, len(keys))
                obs.ev(len(keys))
                obs.count("crashes", 2)


def large(obs, seed, variant, n, mode):
    """The end of a server with many blocks, of which little or nothing was saved, and as many again after it"""
    r = rng("c13g", seed)
    with Server(variant, unix=True) as s:
        c = Conn(s)
        M, hs, most = {}, set(), 0

        def each(method, ks):
            for a in range(0, len(ks), 200):
                b = ks[a:a + 200]
                c.p.pending += [method] * len(b)
                c.send(b"".join(req(method, path(b"far", k), (), M[k] if method == "PUT" else None) for k in b))
                for k in b:
                    yield k, c.recv()

        def put(tag, n):
            ks = []
            for i in range(n):
                k = b"%s%d" % (tag, i)
                h = murmur32(k)
                if h not in hs:
                    hs.add(h)
                    ks.append(k)
                    M[k] = b"%s: %s%s" % (k, tag, b"." * (i % 70 + (4000 if i % 50 == 0 else 0)))
            for k, x in each("PUT", ks):
                expect(x, "PUT", 200, b"OK\r\n")
            nonlocal most
            most = max(most, len(M))

        def verify(where):
            # what was stored last comes first
            for k, x in each("GET", list(M)[::-1]):
                if value_of(x) != M[k]:
                    raise Violation("%s: GET returned %s" % (where, diff(M[k], value_of(x))), key="large-value:" + where, detail=repr(k))
                obs.ev()
            st = check_space(s, c, {b"far": M}, where)
            check_stats(s, c, {b"far": M}, where, st=st)
            size = os.path.getsize(s.db + "/blockfile.db")
            if st["bexist"] > most:
                raise Violation("%s: %d blocks exist although never more than %d were needed at a time" % (where, st["bexist"], most), key="large-grow:" + where)
            if size > st["bexist"] * BLOCK:
                raise Violation("%s: the block file has %d bytes for %d blocks" % (where, size, st["bexist"]), key="large-file:" + where)
            return st

        def again(kill):
            nonlocal c
            c.close()
            s.kill() if kill else s.stop()
            s.start()
            c = Conn(s)
        base = []
        if mode == "partial":
            put(b"s", 700)
            c.gc()
            s.wait_flush()
            base = list(M)
        put(b"a", n)
        if mode == "corrupt":
            c.gc()
            s.wait_flush()
            c.close()
            s.kill()
            os.unlink(os.path.join(s.db, "index.save"))
            s.start()
            c = Conn(s)
        else:
            again(True)
        for k in [k for k in M if k not in base]:
            del M[k]
        hs = set(murmur32(k) for k in M)
        st = verify("after a crash of a large server")
        obs.count("crashes")
        for life in range(2):
            put(b"b%d-" % life, n // 2 + r.randrange(3000) if life else n + r.randrange(-3000, 3000))
            verify("after a crash of a large server and more")
            for k in r.sample(list(M), n // 6):
                c.delete(b"far", k)
                del M[k]
            again(False)
            verify("after a crash of a large server and a clean restart")
        obs.seen("large", mode, st["bexist"] // 1000)


def _numbered(h, base):
    from vlib.hist import Op

    def new(kind, table, key, conn=None):
        o = Op(base + len(h.ops), kind, table, key, conn, h.tick())
        h.ops.append(o)
        return o
    return new


def wait_gone(p, timeout=10):
    t0 = time.time()
    while time.time() - t0 < timeout:
        try:
            if open("/proc/%d/stat" % p).read().rsplit(")", 1)[1].split()[0] == "Z":
                return
        except OSError:
            return
        time.sleep(.005)


def save_survives(obs, seed, rounds):
    """Only the server is killed while a save runs, and started again at once"""
    r = rng("c13o", seed)
    for rnd in range(rounds):
        with Server("rel", unix=True) as s:
            sc = Script(s, "%s-%d" % (seed, rnd), n=r.choice([12, 25]))
            held = []
            c = Conn(s)
            sc.run(c, held)
            s.wait_flush()
            sc.snaps = [(m, True) for m, _ in sc.snaps]
            s.shm.set(child_delay_us=r.choice([100, 1000, 4000]))
            sc.snaps.append(({t: dict(ks) for t, ks in sc.M.items()}, False))
            sc.later.append(set())
            c.gc()
            time.sleep(r.random() * r.choice([.001, .01, .05]))
            kids = list(s.children())
            os.kill(s.proc.pid, signal.SIGKILL)
            s.proc.wait()
            for nb, _, _ in held:
                nb.close()
            c.close()
            excused = blank_excused(s)
            s.start()
            c = Conn(s)
            M = collect(s, c)
            sc.judge(M, "killed while a save runs", "save processes %r" % kids, excused or blank_excused(s))
            audit(s, c, M, "killed while a save runs")
            if r.random() < .5:
                # a save of the new server meanwhile
                v = gen.data((seed, rnd, "n"), 300)
                c.put(TABS[0], b"new", v)
                c.gc()
                s.wait_flush()
                for p in kids:
                    wait_gone(p)
                c.close()
                s.kill()
                s.start()
                c = Conn(s)
                got = collect(s, c)
                v2 = c.get(TABS[0], b"new")
                if v2 is not None:
                    got.setdefault(TABS[0], {})[b"new"] = v2
                M.setdefault(TABS[0], {})[b"new"] = v
                if got != M:
                    raise Violation("a save right after a restart while the save of the killed server was running is damaged", key="orphan-save",
                                    detail=repr([(t, k) for t in TABS for k in KEYS + [b"new"] if got.get(t, {}).get(k) != M.get(t, {}).get(k)]))
                audit(s, c, M, "saved right after a restart")
                c.delete(TABS[0], b"new")
                drop(M, TABS[0], b"new")
            serve(s, c, M, (seed, rnd), "killed while a save runs and more")
            for p in kids:
                wait_gone(p)
            s.shm.set(child_delay_us=0)
            c.gc()
            s.wait_flush()
            audit(s, c, M, "killed while a save runs, and saved")
            c.close()
            s.kill()
            s.start()
            with Conn(s) as c:
                audit(s, c, M, "killed while a save runs, saved and killed", obs=obs)
            obs.seen("survivor", bool(kids), rnd % 4, nblocks(M))
            obs.count("crashes", 2)


def save_killed(obs, seed, limit):
    """Only the save is killed: the server goes on as if nothing happened, and the next save works"""
    r = rng("c13k", seed)
    s = Server("asan", unix=True, shm=dict(k_only=1))
    c = Conn(s)
    M = {}
    serve(s, c, M, seed, "before")
    c.gc()
    s.wait_flush()
    n = s.shm.get("ops1")
    for i in range(limit):
        at, p = r.randrange(1, n + 1), r.choice([0, 1, 2])
        before = {t: dict(ks) for t, ks in M.items()}
        base = s.shm.get("ops1")
        s.shm.set(k_role=2, k_at=base + at, k_phase=p, killed=0)
        c.gc()
        s.wait_flush()
        killed = s.shm.get("killed")
        s.shm.set(k_role=0, k_at=0, killed=0)
        audit(s, c, M, "a save was killed")
        kids = s.children()
        if kids:
            raise Violation("%d save processes are left" % len(kids), key="zombies", detail=repr(kids))
        serve(s, c, M, (seed, i), "a save was killed and more")
        ok = r.random() < .6
        if ok:
            f = s.shm.get("forks")
            c.gc()
            if s.shm.get("forks") == f:
                raise Violation("no more saves after one was killed", key="no-more-saves")
            s.wait_flush()
        c.close()
        s.kill()
        s.start()
        c = Conn(s)
        got = collect(s, c)
        if ok and got != M:
            raise Violation("a crash after a completed save lost something although nothing changed since", key="crash-after-save",
                            detail=repr([(t, k) for t in TABS for k in KEYS if got.get(t, {}).get(k) != M.get(t, {}).get(k)]))
        for t in got:
            for k, v in got[t].items():
                if v not in (before.get(t, {}).get(k), M.get(t, {}).get(k)):
                    raise Violation("a crash after a killed save returns a wrong value", key="crash-after-killed-save", detail=repr((t, k, len(v))))
        M = got
        audit(s, c, M, "a save was killed and the server", obs=obs)
        obs.seen("save-killed", at, p, bool(killed), ok)
        obs.count("crashes", 2)
    s.close()
