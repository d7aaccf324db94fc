"""C24: saves are made while requests go on, with saving processes of all speeds; the processes and files are watched, the responses are
compared with a model, and a second server is started on a copy of what was saved and compared with the model at the instant of the save"""
import os, shutil, signal, time
from vlib.srv import Server, Violation, Inconclusive, mkscratch, rmscratch
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
QUIET = ["asan:DB_LRU_EVERY=1000000", "rel:DB_LRU_EVERY=1000000"]
AUTO = ["asan:DB_LRU_EVERY=3", "rel:DB_LRU_EVERY=3"]
VARIANTS = ["rel", "asan"] + QUIET + AUTO
RULE = ("A case is one key of one save, read from a second server on a copy of the saved files and compared with the instant of the save, or one "
        "response while a save runs. Distinct and non-trivial: combinations of how the save was requested, the speed of the saving process, the kinds "
        "of operations while it ran, and the numbers of blocks and files concerned.")
ASSUME = ["what is saved is what a server of the same build starts with from the files of the completed save",
          "the saving process is slowed down at its file operations"]
TABS = [b"t", b"uu", b"v3"]
KEYS = [b"k%d" % i for i in range(7)]
FILES = {"blockfile.db", "blockfile.db.save", "index.save", "files"}


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(32 if q else 320):
        out.append(("instants", dict(seed="%d-%d" % (seed, i), variant=QUIET[i % 2], rounds=8 if q else 40)))
    for i in range(32 if q else 240):
        out.append(("storms", dict(seed="%d-s%d" % (seed, i), variant=QUIET[i % 2], rounds=5 if q else 25)))
    for i in range(16 if q else 160):
        out.append(("automatic", dict(seed="%d-a%d" % (seed, i), variant=AUTO[i % 2], rounds=6 if q else 40)))
    for i in range(8 if q else 60):
        out.append(("slow", dict(seed="%d-w%d" % (seed, i), variant=QUIET[i % 2], rounds=2 if q else 8)))
    for i in range(8 if q else 60):
        out.append(("many", dict(seed="%d-m%d" % (seed, i), variant=["rel", "asan"][i % 2], n=300 if q else 3000)))
    for i in range(12 if q else 80):
        out.append(("quiet", dict(seed="%d-q%d" % (seed, i), variant=QUIET[i % 2], rounds=4 if q else 20)))
        out.append(("stopping", dict(seed="%d-e%d" % (seed, i), variant=QUIET[i % 2], rounds=4 if q else 20)))
    return out


def running(s):
    return sorted(p for p, st in s.children().items() if st != "Z")


def watch(s):
    """-> the processes which save; at most one"""
    k = running(s)
    if len(k) > 1:
        k = sorted(set(k) & set(running(s)))
        if len(k) > 1:
            raise Violation("%d saves run at the same time" % len(k), key="two-saves")
    return k


def turned(s):
    """Signals sent before have been handled"""
    t = s.shm.get("turns")
    s.wait(lambda: s.shm.get("turns") > t + 3, 10)


def settled(s, where, timeout=30):
    """After the save there is no process and no temporary file"""
    if not s.wait_flush(timeout):
        k = s.children()
        z = [p for p in k if k[p] == "Z"]
        raise Violation("%s: %s" % (where, "%d ended saving processes were not waited for" % len(z) if z else "the saving process does not end"),
                        key="process-left:" + ("zombie" if z else "running"), soft=not z, detail=repr(k))
    left = set(os.listdir(s.db)) - FILES
    if left:
        # of a save which a signal sent before has started only now?
        turned(s)
        s.wait_flush(timeout)
        left &= set(os.listdir(s.db)) - FILES
    if left:
        raise Violation("%s: temporary files are left: %s" % (where, sorted(left)), key="temporary-file:" + where)


def saved(s, variant):
    """-> what a server started on a copy of the saved files serves"""
    d = mkscratch()
    try:
        db = os.path.join(d, "db")
        os.mkdir(db)
        for n in ("index.save", "blockfile.db.save"):
            if not os.path.exists(os.path.join(s.db, n)):
                raise Violation("a completed save has no %s" % n, key="save-incomplete")
            shutil.copy(os.path.join(s.db, n), db)
        shutil.copytree(os.path.join(s.db, "files"), os.path.join(db, "files"))
        with Server(variant, db=db, unix=True, mon=False, shm=dict(clock_off_us=s.shm.get("clock_off_us"))) as s2:
            with Conn(s2) as c:
                return {(t, k): v for t in TABS for k in KEYS for v in [c.get(t, k)] if v is not None}
    finally:
        rmscratch(d)


class Model:
    """What is stored, and what was at each save"""

    def __init__(self, s, c, seed):
        self.s, self.c, self.seed = s, c, seed
        self.M, self.n = {}, 0
        self.at = None           # what was stored at the last save
        self.touched = None      # since then
        self.ran = set()         # kinds of operations while it ran
        self.held = []           # (connection, table, key, value, bytes left, mocked)
        self.users = []          # connections in the middle of a request for a key or table

    def touch(self, t, k):
        if self.touched is not None:
            self.touched.add((t, k))

    def mark(self):
        self.at, self.touched, self.ran = dict(self.M), set(), set()

    def value(self, size):
        self.n += 1
        return gen.data((self.seed, self.n), size)

    def size(self, r):
        return r.choice([12, 300, 300, 4096, 4096, 4097, 7000, 20000])

    def use(self, r):
        """Requests that name a key or table, but do not end: these are in use when the database is saved"""
        for _ in range(r.choice([0, 1, 2, 6])):
            t, k = r.choice(TABS), r.choice(KEYS)
            x = self.s.raw()
            x.sendall(r.choice([req(r.choice(["GET", "GET", "HEAD", "DELETE"]), path(t, k)), req(r.choice(["GET", "DELETE", "BULK"]), path(t))])[:-r.randrange(1, 5)])
            self.users.append(x)
        while self.users and (len(self.users) > 8 or r.random() < .3):
            self.users.pop(r.randrange(len(self.users))).close()
        if self.users:
            self.ran.add("use")
        barrier(self.c, 1)

    def op(self, r, ttl=None):
        c, t, k = self.c, r.choice(TABS), r.choice(KEYS)
        ttl = ttl or r.choice([None, None, 5000, 10 ** 8])
        x = r.random()
        busy = any((h[1], h[2]) == (t, k) and not h[5] for h in self.held)
        if x < .42:
            kind, v = "put", self.value(self.size(r))
            self.touch(t, k)
            c.put(t, k, v, ttl=ttl)
            if not busy:
                self.M[t, k] = v
        elif x < .58:
            kind = "delete"
            self.touch(t, k)
            r_ = c.delete(t, k)
            self.M.pop((t, k), None)
            self.held = [h[:5] + ((True,) if (h[1], h[2]) == (t, k) else h[5:]) for h in self.held]
        elif x < .63:
            kind = "deltab"
            for kk in KEYS:
                self.touch(t, kk)
                self.M.pop((t, kk), None)
            c.delete(t)
            self.held = [h[:5] + ((True,) if h[1] == t else h[5:]) for h in self.held]
        elif x < .68:
            kind = "bulk"
            ks = r.sample(KEYS, 2)
            for kk in ks:
                self.touch(t, kk)
                self.M.pop((t, kk), None)
            c.bulk(t, ks)
            self.held = [h[:5] + ((True,) if h[1] == t and h[2] in ks else h[5:]) for h in self.held]
        elif x < .78:
            kind = "begin"
            if len(self.held) < 4 and not busy:
                v = self.value(self.size(r))
                nb = Conn(self.s)
                nb.get(b"warm", b"up")
                left = r.randrange(1, len(v))
                nb.send(req("PUT", path(t, k), [("X-Ttl", ttl)] if ttl else (), v)[:-left])
                barrier(c, 1)
                self.touch(t, k)
                self.M.pop((t, k), None)
                self.held.append((nb, t, k, v, left, False))
        elif x < .88 and self.held:
            nb, t, k, v, left, dead = self.held.pop(r.randrange(len(self.held)))
            if r.random() < .7:
                kind = "end"
                nb.send(v[len(v) - left:])
                expect(nb.recv("PUT"), "PUT", 200, b"OK\r\n")
                if not dead:
                    # deleted by something meanwhile: it is not stored
                    self.touch(t, k)
                    self.M[t, k] = v
                nb.close()
            else:
                kind = "break"
                n = self.s.nsock()
                nb.close()
                self.s.wait(lambda: self.s.nsock() < n, 5)
                barrier(c, 1)
                self.touch(t, k)
        else:
            kind = "get"
            got = c.get(t, k)
            want = self.M.get((t, k))
            if got != want:
                raise Violation("%sGET returned %s" % ("while a save runs " if running(self.s) else "", diff(want, got)), key="value-while-saving")
        self.ran.add(kind)
        return kind

    def finish(self):
        for nb, t, k, v, left, dead in self.held:
            n = self.s.nsock()
            nb.close()
            self.s.wait(lambda: self.s.nsock() < n, 5)
        self.held = []
        for x in self.users:
            x.close()
        self.users = []
        barrier(self.c, 1)

    def compare(self, got, where, obs, detail=""):
        for t in TABS:
            for k in KEYS:
                obs.ev()
                v, w = got.get((t, k)), self.at.get((t, k))
                if v is None and w is not None and (t, k) not in self.touched:
                    raise Violation("%s: a value of %d bytes is not in the save, and it was not changed since" % (where, len(w)), key="lost:" + where, detail=detail)
                if v is not None and v != w:
                    raise Violation("%s: what was saved is not what was stored at the save: %s" % (where, diff(w, v)), key="not-the-instant:" + where,
                                    detail="%r %r %s" % (t, k, detail))

    def tables(self):
        m = {}
        for (t, k), v in self.M.items():
            m.setdefault(t, {})[k] = v
        return m


def request_save(s, c, how, m):
    """Asks for a save. -> True when one was started, at this instant"""
    before = watch(s)
    f = s.shm.get("forks")
    if how == "gc":
        c.gc()
    else:
        t = s.shm.get("turns")
        s.sendsig(signal.SIGUSR1)
        # handled in one of the next turns
        s.wait(lambda: s.shm.get("forks") > f or s.shm.get("turns") > t + 3, 10)
        barrier(c, 1)
    new = s.shm.get("forks") - f
    if new > 1:
        raise Violation("one request started %d saves" % new, key="several-saves")
    after = watch(s)
    if new and before and set(before) & set(after):
        raise Violation("a save was started while another one runs", key="two-saves")
    if not new and not before and m.at != m.M:
        # the one before may just have been gone
        raise Violation("no save was started although none is running", key="no-save:" + how)
    return new == 1


def instants(obs, seed, variant, rounds):
    """Known contents at the instant of the save, anything after it while it runs"""
    r = rng("c24i", seed)
    with Server(variant, unix=True) as s, Conn(s) as c:
        m = Model(s, c, seed)
        for rnd in range(rounds):
            for i in range(r.choice([2, 8, 25])):
                m.op(r)
            settled(s, "before a save")
            m.use(r)
            delay = r.choice([0, 40, 400, 2500])
            s.shm.set(child_delay_us=delay)
            how = r.choice(["gc", "gc", "signal"])
            if request_save(s, c, how, m):
                m.mark()
            elif m.at is None:
                continue
            n = r.choice([0, 3, 10, 30])
            nsaves = 1
            for i in range(n):
                m.op(r)
                obs.ev()
                if r.random() < .1 and request_save(s, c, r.choice(["gc", "signal"]), m):
                    m.mark()
                    nsaves += 1
                watch(s)
            still = bool(watch(s))
            settled(s, "after a save")
            got = saved(s, "rel" if r.random() < .6 else "asan")
            m.compare(got, "a save by " + how, obs, "round %d, delay %d, %d operations meanwhile, %d saves, still running: %r" % (rnd, delay, n, nsaves, still))
            obs.seen(how, delay, still, nsaves > 1, tuple(sorted(m.ran)), sum(len(v) <= 4096 for v in m.at.values()) // 3, len(m.touched) // 4)
            obs.count("saves", nsaves)
            obs.count("still_running_at_the_end", still)
        m.finish()
        s.shm.set(child_delay_us=0)
        audit(s, c, m.tables(), "after the saves", obs=obs)


def storms(obs, seed, variant, rounds):
    """Saves in the middle of concurrent requests: what is saved is what a read at that moment could have returned"""
    r = rng("c24s", seed)
    with Server(variant, unix=r.random() < .7, shm=dict(sndbuf=4608)) as s:
        h = Hist(seed)
        for rnd in range(rounds):
            steps = r.choice([40, 120, 250])
            delay = r.choice([40, 300, 1500])
            nt, nk = r.randrange(1, 3), r.randrange(2, 7)
            tabs, keys = TABS[:nt], KEYS[:nk]
            at = r.randrange(5, steps)
            save = []
            settled(s, "before a save")

            def hook(step, ctl):
                if step == at:
                    s.shm.set(child_delay_us=delay)
                    f = s.shm.get("forks")
                    b = h.tick()
                    ctl.gc()
                    save.append((b, h.tick()))
                    if s.shm.get("forks") == f:
                        raise Violation("no save was started although none is running", key="no-save:storm")
                elif save and step % 7 == 0:
                    watch(s)
            ctl, _ = run_storm(obs, s, r, h, steps, tabs, keys, slow=r.random() < .3,
                               weights=dict(PUT=50, GET=20, HEAD=2, DELETE=14, DELTAB=r.choice([0, 2]), BULK=3),
                               sizes=r.choice([(20, 4000), (3000, 5000), (20, 20000)]), gc=0, hook=hook, finish=r.choice([1, .6]))
            still = bool(watch(s))
            settled(s, "after a save in a storm")
            got = saved(s, "rel")
            b, e = save[0]
            alive = [o for o in h.ops if o.end > b]
            for t in tabs:
                for k in keys:
                    v = got.get((t, k))
                    obs.ev()
                    if v is None and any(o.kind not in ("GET", "HEAD") for o in h.touching(t, k) if o in alive):
                        continue     # changed since
                    g = h.new("GET", t, k)
                    g.start = g.sent = b
                    g.end = e
                    if v is None:
                        g.status = 404
                    else:
                        g.status = 200
                        g.uid = h.identify(v)
                        g.length = len(v)
            for (t, k), v in got.items():
                if (t not in tabs or k not in keys) and h.puts[h.identify(v)].key != k:
                    raise Violation("the save has a value of another key", key="other-keys-value")
            h.check()
            obs.seen("storm", delay, still, nt, nk, len(got))
            obs.count("saves")
            # begin anew
            for t in TABS:
                ctl.delete(t)
            ctl.close()
            h = Hist("%s-%d" % (seed, rnd))


def automatic(obs, seed, variant, rounds):
    """Saves which begin by themselves, some values expire"""
    r = rng("c24a", seed)
    with Server(variant, unix=True, max_size=r.choice([None, 60000])) as s, Conn(s) as c:
        vals, n = {}, 0      # (table, key): value
        exp = {}
        cand = []            # contents which the last save may have
        touched = set()
        for rnd in range(rounds):
            s.shm.set(child_delay_us=r.choice([0, 60, 600]))
            for i in range(r.choice([10, 40])):
                t, k = r.choice(TABS), r.choice(KEYS)
                before = dict(vals)
                f = s.shm.get("forks")
                k0 = watch(s)
                x = r.random()
                if x < .75:
                    n += 1
                    v = gen.data((seed, n), r.choice([50, 4096, 4097, 9000]))
                    ttl = r.choice([None, None, None, 2, 5])
                    c.put(t, k, v, ttl=ttl)
                    vals[t, k] = v
                    exp[t, k] = ttl
                elif x < .9:
                    c.delete(t, k)
                    vals.pop((t, k), None)
                else:
                    s.advance(r.choice([.5, 1.5]))
                mid = dict(before)
                mid.pop((t, k), None)
                if s.shm.get("forks") > f:
                    k1 = watch(s)
                    if k0 and set(k0) & set(k1):
                        raise Violation("a save was started while another one runs", key="two-saves")
                    cand = [before, mid, dict(vals)]
                    touched = set()
                    obs.count("saves")
                touched.add((t, k))
                # without a limit only what may have expired can be gone
                got = c.get(t, k)
                obs.ev()
                if got is not None and got != vals.get((t, k)):
                    raise Violation("GET returned %s" % diff(vals.get((t, k)), got), key="value-while-saving")
                if got is None and vals.get((t, k)) is not None and s.max_size is None and exp.get((t, k)) is None:
                    raise Violation("GET returned %s" % diff(vals.get((t, k)), got), key="value-while-saving")
                if got is None:
                    vals.pop((t, k), None)
            still = bool(watch(s))
            settled(s, "after a save by itself")
            if not cand:
                continue
            got = saved(s, "rel")
            why = []
            for m in cand:
                bad = None
                for kk in set(got) | set(m):
                    obs.ev()
                    if kk in got and got[kk] != m.get(kk):
                        bad = "%r: %s" % (kk, diff(m.get(kk), got[kk]))
                    elif kk not in got and kk not in touched and exp.get(kk) is None and s.max_size is None:
                        bad = "%r: %s" % (kk, diff(m[kk], None))
                    if bad:
                        break
                if not bad:
                    break
                why.append(bad)
            else:
                raise Violation("a save by itself is not what was stored when it was made: %s" % why[0].split(": ", 1)[1], key="not-the-instant:automatic", detail="\n".join(why))
            obs.seen("auto", still, rnd % 4, len(got) // 3, s.max_size)


def slow(obs, seed, variant, rounds):
    """Every kind of request is answered while one and the same save goes on, and no other is begun"""
    r = rng("c24w", seed)
    with Server(variant, unix=r.random() < .5) as s, Conn(s) as c:
        m = Model(s, c, seed)
        for rnd in range(rounds):
            for i in range(20):
                m.op(r)
            settled(s, "before a save")
            s.shm.set(child_delay_us=150000)
            if not request_save(s, c, r.choice(["gc", "signal"]), m):
                raise Inconclusive("no save")
            m.mark()
            kid = watch(s)
            f = s.shm.get("forks")
            t0 = time.time()
            done = []

            def go(name, fn):
                x = fn()
                done.append(name)
                if watch(s) != kid:
                    raise Violation("a request (%s) was answered only when the save had ended" % name, key="waits-for-save:" + name, soft=True,
                                    detail="%.3fs after its begin, answered before: %r" % (time.time() - t0, done))
                obs.ev()
                return x
            if not kid:
                raise Violation("the request for a save was answered only when it had ended", key="waits-for-save:request", soft=True)
            others = [Conn(s) for i in range(3)]
            for i in range(4):
                for o in [c] + others:
                    m.c = o
                    go("operation", lambda: m.op(r))
                go("stats", c.stats)
                go("gc", c.gc)
                go("listing", lambda: listing(s, r.choice(TABS)))
                go("head", lambda: c.head(r.choice(TABS), r.choice(KEYS)))

                def mon():
                    with Conn(s, mon=True) as x:
                        x.do("GET", "/")
                go("monitoring", mon)
                s.sendsig(signal.SIGUSR1)
                go("new connection", lambda: Conn(s).get(b"no", b"such"))
            m.c = c
            if s.shm.get("forks") != f:
                raise Violation("%d saves were started while one runs" % (s.shm.get("forks") - f), key="two-saves")
            for o in others:
                o.close()
            obs.count("answered_during_one_save", len(done))
            turned(s)
            s.shm.set(child_delay_us=0)
            settled(s, "after a slow save")
            if s.shm.get("forks") == f:
                m.compare(saved(s, "rel"), "a slow save", obs)
            obs.seen("slow", tuple(sorted(m.ran)), rnd, sum(len(v) <= 4096 for v in m.at.values()))
        m.finish()


def many(obs, seed, variant, n):
    """A great number of saves in a row, all ends of processes coincide with everything else"""
    r = rng("c24m", seed)
    with Server(variant, unix=True) as s, Conn(s) as c:
        M = {}
        c.gc()
        settled(s, "after the first save")
        fds = s.nfds()
        for i in range(n):
            x = r.random()
            t, k = r.choice(TABS), r.choice(KEYS)
            if x < .35:
                c.gc()
            elif x < .7:
                s.sendsig(signal.SIGUSR1)
            elif x < .9:
                v = gen.data((seed, i), r.choice([100, 5000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            else:
                g = c.get(t, k)
                if g != M.get(t, {}).get(k):
                    raise Violation("while saves run GET returned %s" % diff(M.get(t, {}).get(k), g), key="value-while-saving")
            obs.ev()
            if r.random() < .3:
                watch(s)
            if i % 100 == 50:
                s.shm.set(child_delay_us=r.choice([0, 0, 20]))
            if r.random() < .1:
                time.sleep(r.random() * .003)
        barrier(c)
        turned(s)
        settled(s, "after many saves")
        if s.nfds() > fds + len(M):
            raise Violation("%d descriptors are open after many saves, %d before" % (s.nfds(), fds), key="descriptors")
        obs.count("saves", s.shm.get("forks"))
        obs.seen("many", s.shm.get("forks") // 10)
        audit(s, c, M, "after many saves", obs=obs)
        # and the last one was made
        c.gc()
        settled(s, "after the last save")
        got = saved(s, "rel")
        if got != {(t, k): v for t in M for k, v in M[t].items()}:
            raise Violation("the save after many others is not what is stored", key="not-the-instant:many")


def quiet(obs, seed, variant, rounds):
    """The signal for a save comes while there are no requests at all, with and without idle connections"""
    r = rng("c24q", seed)
    with Server(variant, unix=r.random() < .5, mon=r.random() < .5) as s:
        c = Conn(s)
        m = Model(s, c, seed)
        p = os.path.join(s.db, "index.save")
        ident = lambda: (lambda st: (st.st_ino, st.st_mtime_ns))(os.stat(p)) if os.path.exists(p) else None
        for rnd in range(rounds):
            m.c = c = c or Conn(s)
            for i in range(r.choice([3, 15])):
                m.op(r)
            m.finish()
            settled(s, "before a save")
            m.mark()
            idle = r.random() < .5
            if not idle:
                c.close()
                c = None
                s.wait(lambda: s.nsock() == 0, 5)
            time.sleep(r.choice([0, .05, .3]))
            was, f = ident(), s.shm.get("forks")
            n = r.choice([1, 1, 3])
            for i in range(n):
                s.sendsig(signal.SIGUSR1)
            if not s.wait(lambda: s.shm.get("forks") > f and ident() not in (was, None), 10):
                s.check()
                raise Violation("the signal for a save is not obeyed within 10 s while no requests come", key="no-save:quiet", soft=True,
                                detail="%d connections, %d signals" % (idle, n))
            turned(s)
            settled(s, "after a save without requests")
            m.compare(saved(s, "rel"), "a save without requests", obs)
            obs.count("saves", s.shm.get("forks") - f)
            obs.seen("quiet", idle, n, len(m.at))
        m.c = c = c or Conn(s)
        audit(s, c, m.tables(), "after saves without requests", obs=obs)


def group(s):
    """Processes of the session of the server"""
    r = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                d = open("/proc/%s/stat" % p).read()
            except OSError:
                continue
            d = d[d.rindex(")") + 2:].split()
            if int(d[3]) == s.proc.pid and d[0] != "Z":
                r.append(int(p))
    return r


def stopping(obs, seed, variant, rounds):
    """The server is stopped while a save runs: nothing is left of it, and the start after has everything"""
    r = rng("c24e", seed)
    with Server(variant, unix=True) as s:
        c = Conn(s)
        m = Model(s, c, seed)
        for rnd in range(rounds):
            for i in range(r.choice([3, 15])):
                m.op(r)
            settled(s, "before a save")
            delay = r.choice([100, 1500, 10000])
            s.shm.set(child_delay_us=delay)
            request_save(s, c, r.choice(["gc", "signal"]), m)
            for i in range(r.choice([0, 2, 8])):
                m.op(r)
            m.finish()
            kid = watch(s)
            s.sendsig(r.choice([signal.SIGTERM, signal.SIGINT]))
            try:
                s.proc.wait(40)
            except Exception:
                raise Violation("the server does not end while a save runs", key="stop-timeout", soft=True)
            if s.proc.returncode != 0:
                s.stop()
            t0 = time.time()
            while group(s) and time.time() - t0 < 5:
                time.sleep(.005)
            g = group(s)
            if g:
                raise Violation("%d processes are left after the stop" % len(g), key="process-left:stop", soft=True)
            left = set(os.listdir(s.db)) - FILES
            if left:
                raise Violation("temporary files are left after a stop while a save ran: %s" % sorted(left), key="temporary-file:stop")
            s.check_san()
            s.shm.set(child_delay_us=0)
            s.kill()
            s.start()
            c.close()
            c = Conn(s)
            m.s, m.c, m.at, m.touched = s, c, None, None
            audit(s, c, m.tables(), "after a stop while a save ran", obs=obs)
            obs.seen("stop", delay, bool(kid), rnd, len(m.M) // 3)
            obs.count("stops_during_a_save", bool(kid))
        c.close()
