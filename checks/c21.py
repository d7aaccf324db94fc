"""C21: termination signals at every kind of instant and in every state; exit status, time, what the next start serves, PID files, daemons"""
import ctypes, os, re, signal, socket, subprocess, time
from vlib.srv import Server, Violation, Inconclusive, _libc, free_port, mkscratch, rmscratch
from vlib import build
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "rel:DB_LRU_EVERY=3"]
RULE = ("A case is one stop (with a start after it) or one PID file read. Distinct and non-trivial: combinations of the signal, what connections, uploads, downloads, "
        "monitoring clients and saves were doing when it came, the way it was run and the build.")
ASSUME = ["the signal comes after the server began to serve", "a second signal forces the end (documented) and is not sent while the first is handled",
          "bounded time: %d s beyond what a running save needs" % 25]
TABS = [b"t", b"uu"]
KEYS = [b"k%d" % i for i in range(8)]
BOUND = 25


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(10 if q else 100):
        out.append(("instants", dict(seed="%d-%d" % (seed, i), variant=["rel", "asan", "dbg", "rel:DB_LRU_EVERY=3"][i % 4], limit=24 if q else 250)))
    for i in range(16 if q else 160):
        out.append(("states", dict(seed="%d-s%d" % (seed, i), variant=["asan", "rel", "dbg", "asan:DB_LRU_EVERY=3"][i % 4], rounds=6 if q else 30)))
    for i in range(8 if q else 80):
        out.append(("storms", dict(seed="%d-c%d" % (seed, i), variant=["asan:DB_LRU_EVERY=3", "rel", "dbg"][i % 3], rounds=4 if q else 15)))
    for i in range(3 if q else 12):
        out.append(("daemons", dict(seed="%d-d%d" % (seed, i), rounds=3 if q else 12)))
    for i in range(3 if q else 12):
        out.append(("pidfiles", dict(seed="%d-p%d" % (seed, i), rounds=6 if q else 40)))
    for i in range(6 if q else 40):
        out.append(("handover", dict(seed="%d-h%d" % (seed, i), variant=["rel", "asan"][i % 2], rounds=6 if q else 30)))
    for i in range(2 if q else 10):
        out.append(("refused", dict(seed="%d-r%d" % (seed, i))))
    return out


def ended(obs, s, what, bound=BOUND, pidfile=None, t0=None):
    """The server ends by itself with status 0 and leaves nothing behind"""
    t0 = t0 or time.time()
    if not s.wait_dead_quiet(bound):
        st = s.stack()
        raise Violation("%s: the server did not end within %d s" % (what, bound), key="stop-hangs", soft=True, detail=st)
    dt = time.time() - t0
    s.check_san()
    if s.rc != 0:
        raise Violation("%s: ended with %s" % (what, s.rcname()), key="status:" + s.rcname(), detail=s.tail())
    left = group(s.proc.pid)
    if left:
        raise Violation("%s: processes are left: %r" % (what, left), key="processes-left")
    tmp = [f for f in os.listdir(s.db) if f.endswith(".temp")]
    if tmp:
        raise Violation("%s: %r is left" % (what, tmp), key="temp-left")
    if pidfile and os.path.exists(pidfile):
        raise Violation("%s: the PID file is left" % what, key="pid-left")
    obs.count("stops")
    obs.count("max_stop_ms", int(dt * 1000))
    return dt


def group(pgid):
    r = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                d = open("/proc/%s/stat" % p).read()
                d = d[d.rindex(")") + 2:].split()
                if int(d[2]) == pgid and d[0] != "Z":
                    r.append((p, d[0]))
            except (OSError, ValueError):
                pass
    return r


class S(Server):
    def wait_dead_quiet(self, timeout):
        """like wait_dead but without ending the processes of the group"""
        try:
            self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return False
        self.rc = self.proc.returncode
        return True


def either(got, t, k, vals, what):
    v = got.get(t, {}).get(k)
    if v not in vals:
        raise Violation("%s: %r/%r has %s, admissible: %s" % (what, t, k, "nothing" if v is None else "%d bytes (%s)" % (len(v), diff(next((x for x in vals if x is not None), None), v)),
                        [None if x is None else len(x) for x in vals]), key="content:" + re.sub("[0-9]+", "N", what))


def collect(c):
    M = {}
    for t in TABS:
        for k in KEYS:
            v = c.get(t, k)
            if v is not None:
                M.setdefault(t, {})[k] = v
    return M


def space(s, c, M, what):
    check_stats(s, c, M, what)
    check_space(s, c, M, what)
    check_listing(s, M, what, TABS)


class Over(Exception):
    pass


def instants(obs, seed, variant, limit):
    """The signal comes at the n-th point (call) of a scripted history"""
    r0 = rng("c21", seed)
    total = None
    s = S(variant, unix=r0.random() < .6, args=None)
    pid = os.path.join(s.dir, "pid")
    for n in range(limit + 1):
        if n:
            s.start()
        r = rng("c21i", seed)     # the same history each time
        sig = r0.choice([signal.SIGTERM, signal.SIGINT])
        N = (1 << 30) if total is None else r0.randrange(1, total)
        c = Conn(s)
        c.get(b"warm", b"up")
        mon = Conn(s, mon=True)
        mon.send(b"GET /conn HTTP/1.1\r\n\r\n")
        M = {}
        got0 = collect(c)         # what the round before left
        if n:
            for t in TABS:
                for k in KEYS:
                    either(got0, t, k, after[(t, k)], "stopped at an instant")
            space(s, c, got0, "stopped at an instant")
            obs.ev(len(TABS) * len(KEYS))
        for t in TABS:
            c.delete(t)
        s.shm.set(term_sig=sig, term_at=N)
        after = {(t, k): [None] for t in TABS for k in KEYS}
        step = "begin"
        held = []
        ever = set()

        def op(kind, t, k, v=None):
            """one request, which may remain unanswered when the server ends"""
            try:
                if kind == "PUT":
                    c.put(t, k, v)
                elif kind == "DELETE":
                    c.delete(t, k)
                elif kind == "GET":
                    g = c.get(t, k)
                    if g != M.get(t, {}).get(k):
                        raise Violation("GET returned %s" % diff(M.get(t, {}).get(k), g), key="get")
                elif kind == "LIST":
                    listing(s, t)
                elif kind == "GC":
                    c.gc()
            except Violation as e:
                if e.key in ("closed-without-response", "conn-broken-send", "get") or e.key.startswith("server-died"):
                    if s.shm.get("term_at") == 0 and e.key != "get":
                        raise Over()
                raise
            except OSError:
                if s.shm.get("term_at") == 0:
                    raise Over()
                raise
        dead = False
        try:
            for i in range(34):
                t, k = r.choice(TABS), r.choice(KEYS)
                x = r.random()
                # the end of an interrupted upload is noticed at some later time
                busy = ever
                if x < .5:
                    step = "PUT"
                    v = gen.data((seed, n, i), r.choice([30, 300, 4096, 4097, 20000]))
                    prev = after[(t, k)]
                    if (t, k) in busy:
                        continue
                    after[(t, k)] = prev + [None, v]
                    op("PUT", t, k, v)
                    after[(t, k)] = [v]
                    M.setdefault(t, {})[k] = v
                elif x < .6:
                    step = "DELETE"
                    if (t, k) in busy:
                        continue
                    after[(t, k)] = after[(t, k)] + [None]
                    op("DELETE", t, k)
                    after[(t, k)] = [None]
                    drop(M, t, k)
                elif x < .72:
                    step = "GET"
                    op("GET", t, k)
                elif x < .77:
                    step = "LIST"
                    op("LIST", t, k)
                elif x < .82:
                    step = "GC"
                    op("GC", t, k)
                elif x < .94 and len(held) < 3 and (t, k) not in busy:
                    step = "upload"
                    after[(t, k)] = after[(t, k)] + [None]
                    try:
                        nb = Conn(s)
                        nb.get(b"warm", b"up")
                        nb.send(req("PUT", path(t, k), (), b"z" * r.choice([100, 5000]))[:-r.randrange(1, 90)])
                    except (Violation, OSError):
                        if s.shm.get("term_at") == 0:
                            raise Over()
                        raise
                    held.append((nb, t, k))
                    ever.add((t, k))
                    op("GET", b"warm", b"up")
                    op("GET", b"warm", b"up")
                    drop(M, t, k)
                elif held:
                    step = "interrupted"
                    h = held.pop(0)
                    h[0].close()
        except Over:
            dead = True
        if total is None:
            total = (1 << 30) - s.shm.get("term_at")
            if total < 100:
                raise Inconclusive("only %d points" % total)
            obs.count("max_points", total)
        if not dead and s.shm.get("term_at") > 0:
            s.shm.set(term_at=0)
            s.sendsig(sig)
        ended(obs, s, "signal at an instant")
        s.shm.set(term_at=0)
        for h in held:
            h[0].close()
        c.close()
        mon.close()
        obs.ev()
        obs.seen("instant", int(sig), step, dead, min(len(held), 2), N * 40 // total)
    s.start()
    with Conn(s) as c:
        got0 = collect(c)
        for t in TABS:
            for k in KEYS:
                either(got0, t, k, after[(t, k)], "stopped at an instant")
        space(s, c, got0, "stopped at an instant")
    s.close()


def states(obs, seed, variant, rounds):
    """Connections of all kinds in all states, then the signal"""
    r = rng("c21s", seed)
    unix = r.random() < .5
    s = S(variant, unix=unix, shm=dict(sndbuf=4608))
    M = {}
    for rnd in range(rounds):
        if rnd:
            s.start()
        c = Conn(s)
        got = collect(c)
        if got != {t: M[t] for t in M if t in TABS}:
            bad = [(t, k) for t in TABS for k in KEYS if got.get(t, {}).get(k) != M.get(t, {}).get(k)]
            t, k = bad[0]
            raise Violation("after a stop and a start: %s" % diff(M.get(t, {}).get(k), got.get(t, {}).get(k)), key="content", detail=repr((bad, kinds)))
        space(s, c, M, "after a stop and a start")
        obs.ev(len(TABS) * len(KEYS))
        for i in range(r.randrange(4, 20)):
            t, k = r.choice(TABS), r.choice(KEYS)
            if r.random() < .8:
                v = gen.data((seed, rnd, i), r.choice([20, 4096, 4097, 30000, 200000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            else:
                c.delete(t, k)
                drop(M, t, k)
        c.put(b"big", b"b", b"B" * 300000)
        M[b"big"] = {b"b": b"B" * 300000}
        pool = ["idle", "used", "part", "headers", "upload-block", "upload-file", "download", "pipelined", "listing", "mon-idle", "mon", "mon-stalled", "mon-part",
                "halfclosed", "closing", "unread-close", "fresh"]
        kinds = sorted(r.sample(pool, r.randrange(1, 6)))
        save = r.choice([None, "fast", "slow", "usr1"])
        conns = []
        for kind in kinds:
            for _ in range(r.randrange(1, 4)):
                mon = kind.startswith("mon")
                n = Conn(s, mon=mon, rcvbuf=4096 if kind in ("download", "listing", "mon-stalled", "pipelined") else None)
                conns.append(n)
                t, k = r.choice(TABS), r.choice(KEYS)
                if kind != "fresh" and not mon:
                    n.get(b"warm", b"up")
                if kind == "used":
                    n.get(t, k)
                elif kind == "part":
                    n.send(b"GET /t/k"[:r.randrange(1, 8)])
                elif kind == "headers":
                    n.send(b"BULK /t HTTP/1.1\r\nX-Delete: nok")
                elif kind.startswith("upload"):
                    sz = 3000 if kind == "upload-block" else 50000
                    d = req("PUT", path(t, k), (), b"u" * sz)
                    n.send(d[:len(d) - r.randrange(100, sz + 1)])
                    drop(M, t, k)
                elif kind == "download":
                    n.send(b"GET /big/b HTTP/1.1\r\n\r\n" * r.choice([1, 3]))
                elif kind == "pipelined":
                    n.send(b"GET /big/b HTTP/1.1\r\n\r\nHEAD /t/k1 HTTP/1.1\r\n\r\n" * 30)
                elif kind == "listing":
                    n.send(b"GET /t HTTP/1.1\r\n\r\n")
                elif kind == "mon":
                    n.send(b"GET /conn HTTP/1.1\r\n\r\n")
                elif kind == "mon-stalled":
                    n.send(b"GET /conn HTTP/1.1\r\n\r\n")
                elif kind == "mon-part":
                    n.send(b"GET /co")
                elif kind == "halfclosed":
                    n.send(b"GET /big/b HTTP/1.1\r\n\r\n")
                    n.s.shutdown(socket.SHUT_WR)
                elif kind == "closing":
                    n.send(b"BAD\r\n\r\n")
                elif kind == "unread-close":
                    n.send(b"GET /big/b HTTP/1.1\r\n\r\n")
                    n.close()
        barrier(c, 2)
        time.sleep(r.choice([0, 0, .003, .03]))
        extra = 0
        s.wait_flush()
        if save:
            d = {"fast": 0, "slow": r.choice([1000, 4000, 20000]), "usr1": r.choice([0, 1000, 5000])}[save]
            s.shm.set(child_delay_us=d)
            if save == "usr1":
                s.sendsig(signal.SIGUSR1)
            else:
                c.gc()
            if d:
                extra = 20
            time.sleep(r.random() * .01)
        running = bool(s.children())
        # what the server itself does to files at the end is interleaved with a running save
        own = r.choice([0, 0, 1000, 4000]) if save else 0
        sig = r.choice([signal.SIGTERM, signal.SIGINT])
        t0 = time.time()
        s.shm.set(fsop_delay_us=own)
        s.sendsig(sig)
        if r.random() < .3:
            # clients which go on meanwhile
            for n in conns:
                try:
                    n.s.setblocking(False)
                    n.s.send(b"GET /t/k1 HTTP/1.1\r\n\r\n")
                except (OSError, AttributeError):
                    pass
        dt = ended(obs, s, "%s with %s%s" % (sig.name, ",".join(kinds), " while saving" if running else ""), BOUND + extra, t0=t0)
        s.shm.set(child_delay_us=0, fsop_delay_us=0)
        for n in conns:
            n.close()
        c.close()
        obs.ev()
        for kd in kinds:
            obs.seen("state", kd, int(sig), save, running, variant, unix)
        obs.sample("%s: %s, save %s running %s: %.0f ms" % (sig.name, kinds, save, running, dt * 1000))
    s.close()


def storms(obs, seed, variant, rounds):
    """The signal comes while many clients are active. What was answered is there after the next start"""
    r = rng("c21c", seed)
    s = S(variant, unix=r.random() < .6, shm=dict(sndbuf=4608))
    tabs = gen.names(r, r.randrange(1, 3), ["a"], table=True)
    keys = gen.names(r, r.randrange(2, 6), ["a", "n"])
    for rnd in range(rounds):
        if rnd:
            s.start()
        h = Hist("%s-%d" % (seed, rnd))
        s.shm.set(child_delay_us=r.choice([0, 0, 200]))
        with Conn(s) as c:
            for t in tabs:
                c.delete(t)
        ctl, base, mux, clients = run_storm(obs, s, r, h, r.choice([40, 150, 300]), tabs, keys, slow=r.random() < .4,
                                            weights=dict(PUT=50, GET=18, HEAD=3, DELETE=12, DELTAB=r.choice([0, 2]), BULK=3),
                                            sizes=r.choice([(20, 4000), (3000, 6000), (20, 30000)]), gc=r.choice([0, .02]), leave=True)
        if r.random() < .6:
            # in the middle of what follows
            s.shm.set(term_sig=signal.SIGTERM, term_at=r.randrange(1, 400))
            end = time.time() + 5
            while s.alive() and time.time() < end and s.shm.get("term_at") > 0:
                for c in clients:
                    if not c.q and not c.c.out and not c.c.p.eof:
                        kind = r.choice(["PUT", "PUT", "GET"])
                        o, data, m = build_op(h, r, kind, r.choice(tabs), r.choice(keys), keys, r.randrange(20, 9000))
                        c.issue(o, data, m)
                    c.push(r.choice([None, 50]))
                mux.poll(0)
                for c in clients:
                    if not c.c.p.eof:
                        c.drain()
            if s.alive() and s.shm.get("term_at") > 0:
                s.shm.set(term_at=0)
                s.sendsig(signal.SIGTERM)
        else:
            s.sendsig(signal.SIGTERM)
        phases = sorted(set((o.kind, o.phase) for c in clients for o in c.q[:1]))
        ended(obs, s, "stopped while busy")
        s.shm.set(term_at=0, child_delay_us=0)
        lost = settle_dead(mux, clients, h)
        ctl.close()
        s.start()
        with Conn(s) as c:
            M = observe(c, h, tabs, keys)
            obs.ev(h.check())
            check_space(s, c, M, "stopped while busy", detail=h.dump(n=40))
            check_stats(s, c, M, "stopped while busy")
            check_listing(s, M, "stopped while busy", tabs)
        obs.count("interrupted", len(lost))
        obs.seen("storm", tuple(phases))
        s.stop()
    s.close()


def read_pid(p, timeout=10):
    t0 = time.time()
    while time.time() - t0 < timeout:
        try:
            d = open(p, "rb").read()
            if d.endswith(b"\n"):
                return d
        except OSError:
            pass
        time.sleep(.005)
    return None


def read_now(p):
    try:
        return open(p, "rb").read()
    except FileNotFoundError:
        return None


def handover(obs, seed, variant, rounds):
    """An instance is started over and over with the PID file (and the database) of one which stops, until it runs: from then on it has
    the PID file, and everything which was stored"""
    r = rng("c21h", seed)
    top = mkscratch()
    db = os.path.join(top, "db")
    pid = os.path.join(top, "the.pid")
    M = {}

    def new():
        x = S(variant, db=db, unix=True, start=False)
        b = x.argv
        x.opts = []
        x.argv = lambda: b() + ["-m", pid] + x.opts
        return x
    a = b = None
    try:
        a = new()
        a.start()
        for i in range(rounds):
            leave = "--leave-pid" in a.opts
            c = Conn(a)
            got = collect(c)
            if got != M:
                raise Violation("an instance started while another one stopped has other content", key="content",
                                detail=repr([(t, k) for t in TABS for k in KEYS if got.get(t, {}).get(k) != M.get(t, {}).get(k)]))
            space(a, c, M, "handed over")
            for j in range(r.randrange(1, 6)):
                t, k = r.choice(TABS), r.choice(KEYS)
                v = gen.data((seed, i, j), r.choice([20, 4096, 4097, 9000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            b = new()
            b.opts = ["--leave-pid"] if r.random() < .3 else []
            b.shm.set(fsop_delay_us=r.choice([0, 0, 1000, 10000, 40000]))
            a.shm.set(fsop_delay_us=r.choice([0, 2000, 10000, 30000]))
            early = r.random() < .3
            mine = a.proc.pid
            if not early:
                a.sendsig(r.choice([signal.SIGTERM, signal.SIGINT]))
            tries = 0
            t0 = time.time()
            while True:
                tries += 1
                try:
                    b.start()
                    break
                except Violation as e:
                    if e.key != "exit-at-start":
                        raise
                if time.time() - t0 > 30:
                    raise Violation("no instance can be started with the PID file of one which was ended", key="pid-kept", soft=True)
                if early:
                    early = False
                    if read_now(pid) != b"%d\n" % mine:
                        raise Violation("a refused instance changed the PID file", key="pid-content2")
                    a.sendsig(signal.SIGTERM)
                time.sleep(r.choice([0, 0, .002, .01]))
            ended(obs, a, "another instance waits for the end")
            c.close()
            b.shm.set(fsop_delay_us=0)
            for _ in range(3):
                d = read_now(pid)
                if d != b"%d\n" % b.proc.pid:
                    raise Violation("the PID file %s after an instance (%d) took over from another one (%d, --leave-pid: %r)" % (
                        "is missing" if d is None else "contains %r" % d, b.proc.pid, mine, leave), key="pid-handover")
                time.sleep(.01)
            obs.ev()
            obs.seen("handover", min(tries, 9), leave, b.opts == [])
            a.close()
            a, b = b, None
        a.stop()
    finally:
        for x in (a, b):
            if x:
                x.close()
        rmscratch(top)


STALE = [None, b"", b"1\n", b"99999999999999\n", b"x" * 100]


def pidfiles(obs, seed, rounds):
    """In the foreground, with and without --leave-pid, over files of before"""
    r = rng("c21p", seed)
    s = S("asan", unix=True)
    s.stop()
    pid = os.path.join(s.dir, "the.pid")
    M = {}
    for i in range(rounds):
        leave = r.random() < .4
        stale = r.choice(STALE)
        if stale is None:
            if os.path.exists(pid):
                os.unlink(pid)
        else:
            open(pid, "wb").write(stale)
        base = s.argv
        opts = ["-m" if r.random() < .5 else "--make-pid", pid] + (["--leave-pid"] if leave else [])
        r.shuffle(opts) if False else None
        s.argv = lambda: base() + opts
        s.start()
        s.argv = base
        d = read_pid(pid, 5)
        if d != b"%d\n" % s.proc.pid:
            raise Violation("the PID file contains %r, the process is %d" % (d, s.proc.pid), key="pid-content", detail="before: %r" % (stale,))
        c = Conn(s)
        M2 = collect(c)
        if M2 != M:
            raise Violation("wrong content after a restart", key="content")
        v = gen.data((seed, i), 500)
        c.put(TABS[0], KEYS[i % 8], v)
        M.setdefault(TABS[0], {})[KEYS[i % 8]] = v
        other = s2 = None
        if r.random() < .5:
            # the same PID file is requested by another instance
            s2 = S("asan", unix=True, start=False)
            b2 = s2.argv
            s2.argv = lambda: b2() + ["-m", pid]
            try:
                s2.start()
                raise Violation("a second instance started with the PID file of a running one", key="pid-not-locked")
            except Violation as e:
                if e.key != "exit-at-start":
                    raise
            s2.close()
            d = read_pid(pid, 1)
            if d != b"%d\n" % s.proc.pid:
                raise Violation("the PID file contains %r after a second instance was refused, the process is %d" % (d, s.proc.pid), key="pid-content2")
            if c.get(TABS[0], KEYS[i % 8]) != v:
                raise Violation("wrong value", key="content")
            obs.count("refused_instances")
        if r.random() < .5:
            # the save must not disturb the file
            c.gc()
            s.wait_flush()
            if read_pid(pid, 1) != b"%d\n" % s.proc.pid:
                raise Violation("the PID file changed", key="pid-content")
        mine = s.proc.pid
        s.shm.set(fsop_delay_us=r.choice([0, 1000, 5000]))
        s.sendsig(r.choice([signal.SIGTERM, signal.SIGINT]))
        ops, t0 = None, time.time()
        while s.proc.poll() is None and time.time() - t0 < BOUND:
            d = read_now(pid)
            if d is None and ops is None:
                ops = s.shm.get("ops0")
            elif d not in (None, b"%d\n" % mine):
                raise Violation("the PID file contains %r while %d stops" % (d, mine), key="pid-content-stopping")
            time.sleep(.0005)
        if ops is not None and s.shm.get("ops0") > ops:
            raise Violation("%d file operations after the PID file was removed" % (s.shm.get("ops0") - ops), key="pid-early")
        s.shm.set(fsop_delay_us=0)
        ended(obs, s, "with a PID file", pidfile=None if leave else pid, t0=t0)
        if leave:
            d = read_pid(pid, 1)
            if d != b"%d\n" % mine:
                raise Violation("the PID file contains %r in the end in spite of --leave-pid" % d, key="pid-leave")
        c.close()
        obs.ev()
        obs.seen("pid", leave, stale, s2 is not None)
    s.close()


def daemons(obs, seed, rounds):
    """As a daemon: the PID file names it, it serves, and it stops as in the foreground"""
    r = rng("c21d", seed)
    _libc.prctl(36, 1, 0, 0, 0)     # the daemon becomes a child of this process
    d = mkscratch()
    db = os.path.join(d, "db")
    os.mkdir(db)
    pidf = os.path.join(d, "pid")
    exe = build.build(["asan"])["asan"]
    M = {}

    class View:
        pass
    live = None
    try:
        for rnd in range(rounds):
            sock = os.path.join(d, "s%d" % rnd)
            leave = r.random() < .4
            stale = r.choice(STALE)
            if stale is None:
                if os.path.exists(pidf):
                    os.unlink(pidf)
            else:
                open(pidf, "wb").write(stale)
            opts = [["-r", db], ["-b", "u:" + sock], ["-m", pidf], ["-d"]] + ([["-o"]] if r.random() < .4 else []) + ([["--leave-pid"]] if leave else [])
            r.shuffle(opts)
            out = open(os.path.join(d, "out"), "ab")
            env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:log_path=%s/san:abort_on_error=1" % d, "UBSAN_OPTIONS": "log_path=%s/san" % d}
            p = subprocess.Popen([exe] + [x for o in opts for x in o], stdin=subprocess.DEVNULL, stdout=out, stderr=out, env=env, cwd=d)
            out.close()
            try:
                if p.wait(20) != 0:
                    raise Violation("starting a daemon ended with %d" % p.returncode, key="daemon-start")
            except subprocess.TimeoutExpired:
                p.kill()
                raise Violation("starting a daemon does not return", key="daemon-foreground", soft=True)
            t0 = time.time()
            while True:
                x = read_pid(pidf, 5)
                if x is None or (x != stale and re.fullmatch(rb"[0-9]+\n", x)) or time.time() - t0 > 10:
                    break
                time.sleep(.01)
            if x is None or not re.fullmatch(rb"[0-9]+\n", x):
                raise Violation("the PID file of a daemon contains %r" % x, key="daemon-pid-content", soft=True)
            pid = int(x)
            kids = kids_of(os.getpid())
            if pid not in kids or pid == p.pid:
                raise Violation("the PID file names %d, the daemon is %r" % (pid, kids), key="daemon-pid-wrong")
            live = pid
            if os.getsid(pid) == os.getsid(0):
                raise Violation("the daemon is in the session of the one who started it", key="daemon-session")
            s = View()
            s.addr = sock
            s.check = lambda: None
            s.raw = lambda mon=False, rcvbuf=None: connect(sock)
            t0 = time.time()
            while True:
                try:
                    connect(sock).close()
                    break
                except OSError:
                    if time.time() - t0 > 15:
                        raise Violation("the daemon does not serve", key="daemon-serves", soft=True)
                    time.sleep(.01)
            c = Conn(s)
            got = collect(c)
            if got != M:
                raise Violation("a daemon does not have what the one before stored", key="daemon-content")
            for i in range(12):
                t, k = r.choice(TABS), r.choice(KEYS)
                v = gen.data((seed, rnd, i), r.choice([30, 4096, 9000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            if r.random() < .5:
                c.gc()
            up = None
            if r.random() < .5:
                up = Conn(s)
                up.get(b"warm", b"up")
                up.send(req("PUT", path(TABS[0], KEYS[0]), (), b"q" * 6000)[:-9])
                barrier(c, 1)
                drop(M, TABS[0], KEYS[0])
            for t in TABS:
                for k in KEYS:
                    if c.get(t, k) != M.get(t, {}).get(k):
                        raise Violation("the daemon returns wrong values", key="daemon-content")
            obs.ev(len(TABS) * len(KEYS))
            sig = r.choice([signal.SIGTERM, signal.SIGINT])
            os.kill(pid, sig)
            t0 = time.time()
            while True:
                w, st = os.waitpid(pid, os.WNOHANG)
                if w == pid:
                    break
                if time.time() - t0 > BOUND:
                    raise Violation("the daemon does not end", key="daemon-stop", soft=True)
                time.sleep(.005)
            live = None
            if st != 0:
                san = "".join(open(os.path.join(d, f)).read()[:1500] for f in os.listdir(d) if f.startswith("san."))
                raise Violation("the daemon ended with status %d" % st, key="daemon-status", detail=san + open(os.path.join(d, "out")).read()[-1000:])
            if leave != os.path.exists(pidf):
                raise Violation("after the daemon ended its PID file %s" % ("is gone in spite of --leave-pid" if leave else "is left"), key="daemon-pid-after")
            c.close()
            if up:
                up.close()
            obs.count("stops")
            obs.ev()
            obs.seen("daemon", leave, stale, int(sig), up is not None, len(opts))
    finally:
        for k in kids_of(os.getpid()):
            try:
                if open("/proc/%d/cmdline" % k, "rb").read().startswith(exe.encode()):
                    os.kill(k, signal.SIGKILL)
                    os.waitpid(k, 0)
            except OSError:
                pass
        rmscratch(d)


def connect(path_):
    x = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    x.settimeout(20)
    try:
        x.connect(path_)
    except OSError:
        x.close()
        raise
    return x


def kids_of(pid):
    r = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                st = open("/proc/%s/stat" % p).read()
                if int(st[st.rindex(")") + 2:].split()[1]) == pid:
                    r.append(int(p))
            except (OSError, ValueError):
                pass
    return r


def refused(obs, seed):
    """A start that can't work ends with a failure status and damages nothing: address in use, PID file in use, unknown options"""
    r = rng("c21r", seed)
    s = S("asan", unix=False)
    c = Conn(s)
    v = gen.data(seed, 700)
    c.put(TABS[0], KEYS[0], v)
    d = mkscratch()
    os.mkdir(os.path.join(d, "db"))
    cases = {"address in use": ["-r", d + "/db", "-b", "%s:%d" % s.addr],
             "monitoring address in use": ["-r", d + "/db", "-b", "u:" + d + "/x", "-B", "%s:%d" % s.addr],
             "unknown option": ["-r", d + "/db", "-b", "u:" + d + "/x", "--no-such"],
             "missing argument": ["-b", "u:" + d + "/x", "-r"],
             "PID file in a missing directory": ["-r", d + "/db", "-b", "u:" + d + "/x", "-m", d + "/none/pid"],
             "address of another host": ["-r", d + "/db", "-b", "192.0.2.1:9999"],
             "an unusable directory": ["-r", d + "/no/such/db", "-b", "u:" + d + "/x"]}
    pid = d + "/pid"
    for n, args in cases.items():
        if "-m" not in args and r.random() < .8:
            args = args[:2] + [r.choice(["-m", "--make-pid"]), pid] + args[2:] if n != "missing argument" else ["-m", pid] + args
        p = subprocess.Popen([s.binary] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d,
                             env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:log_path=%s/san" % s.dir}, preexec_fn=lambda: _libc.prctl(1, signal.SIGKILL))
        try:
            rc = p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Violation("a start with %s does not end" % n, key="refuse:" + n, soft=True)
        if rc <= 0:
            raise Violation("a start with %s ended with %d" % (n, rc), key="refuse-status:" + n)
        if os.path.exists(pid):
            raise Violation("a start with %s leaves its PID file behind" % n, key="refuse-pid:" + n)
        if c.get(TABS[0], KEYS[0]) != v:
            raise Violation("a start with %s disturbed a running server" % n, key="refuse-disturbed:" + n)
        obs.ev()
        obs.seen("refused", n)
    c.close()
    s.stop()
    s.start()
    with Conn(s) as c:
        audit(s, c, {TABS[0]: {KEYS[0]: v}}, "after refused starts")
    s.close()
    rmscratch(d)
