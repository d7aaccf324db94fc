"""C19: the heap in use (mallinfo, read inside the server) and the open descriptors are sampled after every repetition of a workload which returns to the same
state; growth over the repetitions is a leak"""
import os, select, signal, socket, time
from vlib.srv import Server, Violation, Inconclusive, OPS
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["rel", "dbgrel"]
RULE = ("A case is one repetition of a workload after which heap and descriptors were compared with those after the repetitions before. Distinct and non-trivial: "
        "the kinds of workload (each repeats a different way to begin and end connections, uploads, downloads, listings, deletes, errors, monitoring, saves), per "
        "transport and build.")
ASSUME = ["memory comes from malloc; the level is mallinfo2().uordblks + hblkhd with thread caches switched off", "a workload is repeated in the same order, so that the same state is reached"]
SLACK = 100


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for n, kind in enumerate(sorted(KINDS)):
        for unix in (False, True):
            out.append(("cycles", dict(seed="%d" % seed, kind=kind, unix=unix, variant=["rel", "dbgrel"][(n + seed) % 5 == 0], n=24 if q else 120)))
    for i in range(8 if q else 80):
        out.append(("mixed", dict(seed="%d-m%d" % (seed, i), variant=["rel", "dbgrel"][i % 4 == 3], unix=i % 2 == 0, n=14 if q else 40, steps=150 if q else 300)))
    return out


class Level:
    """Samples of a quiet server"""

    def __init__(self, s, ctl, what):
        self.s, self.ctl, self.what = s, ctl, what
        barrier(ctl)
        self.socks, self.fds = s.nsock(), s.nfds()
        self.fdlist = s.fds()
        self.xs = []

    def sample(self):
        s = self.s
        s.wait_flush(20)
        if not s.wait(lambda: s.nsock() <= self.socks, 15):
            raise Violation("%s: %d connections stay open after their clients left" % (self.what, s.nsock() - self.socks), key="sockets:" + self.what, soft=True,
                            detail=repr(s.fds()))
        barrier(self.ctl)
        if not s.wait(lambda: s.nfds() <= self.fds, 3):
            extra = {f: t for f, t in s.fds().items() if self.fdlist.get(f) != t}
            raise Violation("%s: %d descriptors are left open" % (self.what, s.nfds() - self.fds), key="descriptors:" + self.what, detail=repr(extra))
        self.xs.append(s.live_bytes())

    def judge(self, obs):
        x = self.xs[3:]
        k = max(2, len(x) // 3)
        grow = min(x[-k:]) - max(x[:k])
        d = sorted(b - a for a, b in zip(x, x[1:]))
        obs.ev(len(x))
        obs.counts["max_spread_bytes"] = max(obs.counts.get("max_spread_bytes", 0), max(x) - min(x))
        if grow > SLACK and d[len(d) // 2] > 0:
            raise Violation("%s: the heap grows by %d bytes with every repetition" % (self.what, d[len(d) // 2]), key="heap:" + self.what, detail=repr(self.xs))


V = {n: gen.data(("c19", n), n) for n in (1, 100, 4096, 4097, 20000, 300000)}


def raw_send(s, data, wait=True, rst=False, mon=False, read=0):
    """Sends, waits until the server has taken it, closes"""
    x = s.raw(mon=mon)
    try:
        x.sendall(data)
    except OSError:
        pass
    if read:
        x.settimeout(.05)
        try:
            n = 0
            while n < read:
                d = x.recv(read - n)
                if not d:
                    break
                n += len(d)
        except OSError:
            pass
    elif wait:
        time.sleep(.002)
    if rst and x.family == socket.AF_INET:
        x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
    x.close()


def k_connect(s, c, r):
    xs = [s.raw() for _ in range(10)] + [s.raw(mon=True) for _ in range(5)]
    for x in xs:
        x.close()


def k_refused(s, c, r):
    """connections which the system has no room for (as beyond fs.epoll.max_user_watches): they end, nothing stays"""
    s.shm.set(epadd_fail=1)
    xs = [s.raw() for _ in range(6)] + [s.raw(mon=True) for _ in range(3)]
    for n, x in enumerate(xs):
        x.settimeout(15)
        try:
            x.sendall(b"GET /t/k HTTP/1.1\r\n\r\n")
            d = x.recv(100)
        except socket.timeout:
            raise Violation("a connection there is no room for is neither served nor ended", key="refused-hangs", soft=True)
        except OSError:
            d = b""
        if d:
            raise Violation("a connection there is no room for is answered with %r" % d, key="refused-answered")
    s.shm.set(epadd_fail=0)
    for x in xs:
        x.close()
    # the descriptors are used again
    with Conn(s) as d:
        d.put(b"t", b"refused", V[4097])
        if d.get(b"t", b"refused") != V[4097]:
            raise Violation("wrong value after connections were refused", key="value")


def k_read(s, c, r):
    with Conn(s) as d:
        for n, v in V.items():
            c.put(b"t", b"k%d" % n, v, ttl=(None, 1000)[n % 2])
            for _ in range(4):
                if d.get(b"t", b"k%d" % n) != v or d.head(b"t", b"k%d" % n) != len(v):
                    raise Violation("wrong value", key="value")
            d.get(b"t", b"none%d" % n)
            d.get(b"none", b"k")
            d.head(b"none", b"k")


def k_write(s, c, r):
    for rep in range(4):
        with Conn(s) as d:
            for n, v in V.items():
                d.put(b"t", b"k", v, ttl=(None, 1000)[rep % 2])
                d.put(b"t%d" % n, b"k%d" % rep, v, ttl=(None, 1000, None, 5)[rep])
            for n in V:
                d.delete(b"t%d" % n, b"k%d" % rep)
            d.delete(b"t", b"k")
            d.delete(b"t", b"k")
            d.delete(b"nope")


def k_interrupted(s, c, r):
    c.put(b"t", b"stay", V[100])
    for n in (100, 4096, 20000):
        data = req("PUT", path(b"t", b"i%d" % n), [("X-Ttl", 5)], V[n])
        h = data.index(b"\r\n\r\n") + 4
        for cut in (3, 8, 12, 17, h - 30, h - 2, h, h + 1, h + n // 2, len(data) - 1):
            raw_send(s, data[:cut], rst=cut % 2 == 0)
        for cut in (5, 12, 18, 24):
            raw_send(s, req("GET", path(b"t", b"i%d" % n))[:cut])
            raw_send(s, req("DELETE", path(b"t", b"i%d" % n))[:cut])
            raw_send(s, req("BULK", path(b"t"), [("X-Delete", b"abcdefg")] * 3)[:cut * 2])


def k_mocked(s, c, r):
    """uploads which are discarded as another one of the same key is in progress, or its table was deleted meanwhile"""
    for n in (100, 20000):
        a = NB(s)
        data = req("PUT", path(b"t", b"m"), (), V[n])
        a.queue(data[:-5])
        while a.out:
            a.push()
        time.sleep(.002)
        barrier(c)
        for m in (100, 4097):
            with Conn(s) as d:
                d.put(b"t", b"m", V[m])
            raw_send(s, req("PUT", path(b"t", b"m"), (), V[m])[:-3])
        c.delete(b"t", b"m")
        c.delete(b"t")
        if n == 100:
            a.queue(data[-5:])
            a.push()
            time.sleep(.002)
            barrier(c)
        a.close()


def k_delete_under(s, c, r):
    """tables deleted while being read, listed and uploaded to"""
    for i in range(40):
        c.put(b"t", b"%060d" % i, V[100])
    c.put(b"t", b"big", V[300000])
    down = NB(s, rcvbuf=4096)
    down.queue(req("GET", path(b"t", b"big")))
    down.push()
    lst = NB(s, rcvbuf=4096)
    lst.queue(req("GET", path(b"t")))
    lst.push()
    up = NB(s)
    up.queue(req("PUT", path(b"t", b"up"), (), V[20000])[:-10])
    up.push()
    half = NB(s)
    half.queue(b"PUT /t/ha")
    half.push()
    time.sleep(.003)
    barrier(c)
    c.put(b"t", b"big", V[4097])
    c.delete(b"t")
    c.put(b"t", b"again", V[100])
    c.delete(b"t")
    half.queue(b"lf HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc")
    half.push()
    time.sleep(.002)
    barrier(c)
    for x in (down, lst, up, half):
        x.close()


def k_listing(s, c, r):
    for i in range(100):
        c.put(b"t", b"%0100d" % i, V[1], ttl=(None, 1000)[i % 2])
    for _ in range(4):
        listing(s, b"t")
        listing(s, b"t", 10, 20)
        listing(s, b"t", 10000, 20)
        listing(s, b"none")
    raw_send(s, req("GET", path(b"t")), read=300)
    raw_send(s, req("GET", path(b"t")), read=3000, rst=True)
    raw_send(s, req("GET", path(b"t"), [("X-Start", 5)])[:-2])
    c.bulk(b"t", [b"%0100d" % i for i in range(90)] + [b"nope"])
    c.delete(b"t")


def k_download_cut(s, c, r):
    for n in (4096, 20000, 300000):
        c.put(b"t", b"k%d" % n, V[n], ttl=(None, 1000)[n % 2])
        for read in (0, 10, 200, 3000):
            raw_send(s, req("GET", path(b"t", b"k%d" % n)), read=read, rst=read % 20 == 0)
            raw_send(s, req("GET", path(b"t", b"k%d" % n)) * 20, read=read)
    # the value is replaced and deleted while a client reads it
    for n in (20000, 300000):
        x = NB(s, rcvbuf=4096)
        x.queue(req("GET", path(b"t", b"k%d" % n)))
        x.push()
        time.sleep(.002)
        c.put(b"t", b"k%d" % n, V[4097])
        c.delete(b"t", b"k%d" % n)
        t0 = time.time()
        x.p.pending.append("GET")
        while x.p.next() is None and time.time() - t0 < 5:
            x.pump()
        x.close()


ERRORS = [b"FOO /t/k HTTP/1.1\r\n\r\n", b"ABCDEFGHIJKLMNOP /t HTTP/1.1\r\n\r\n", b"GET nope HTTP/1.1\r\n\r\n", b"GET x\r\n\r\n", b"PUT /t/k HTTP/1.1\r\n\r\n", b"PUT /t HTTP/1.1\r\n\r\n",
          b"PUT /t/k HTTP/1.1\r\nContent-Length: x\r\n\r\n", b"PUT /t/k HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello", b"PUT /t/k HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n",
          b"PUT /t/k HTTP/1.1\r\nX-Ttl: x\r\nContent-Length: 5\r\n\r\nhello", b"BULK /t/k HTTP/1.1\r\n\r\n", b"ADMIN /t/k HTTP/1.1\r\n\r\n", b"ADMIN /x HTTP/1.1\r\n\r\n", b"PURGE / HTTP/1.1\r\n\r\n", b"HEAD / HTTP/1.1\r\n\r\n",
          b"HEAD /t HTTP/1.1\r\n\r\n", b"DELETE / HTTP/1.1\r\n\r\n", b"GET /t HTTP/1.1\r\nX-Start: -1\r\n\r\n", b"GET /t HTTP/1.1\r\nX-Limit: x\r\n\r\n",
          b"GET /" + b"a" * 20000, b"GET /t/" + b"b" * 20000, b"GET /t/k HTTP/1.1\r\nX: " + b"c" * 40000, b"PUT /t/k HTTP/1.1\r\n" + b"X: y\r\n" * 5000, b"\r\n\r\n\r\n", b"\0\0\0 \0\0 \r\n\r\n"]


def k_errors(s, c, r):
    c.put(b"t", b"k", V[100])
    for e in ERRORS:
        raw_send(s, e, read=20)
        raw_send(s, req("GET", path(b"t", b"k")) + e, read=400)
        raw_send(s, e[:-1])
    c.delete(b"t")


def k_monitor(s, c, r):
    xs = []
    for i in range(6):
        x = s.raw(mon=True)
        x.sendall(b"GET /conn HTTP/1.1\r\n\r\n")
        xs.append(x)
    for x in xs:
        x.settimeout(5)
        n = b""
        while not n.endswith(b"\n0\n"):
            n += x.recv(1000)
    s.advance(5.01)
    for x in xs[:2]:
        x.recv(10)
    for i in (3, 0, 5, 1, 2, 4):
        xs[i].close()
        if i == 5:
            s.advance(5.01)
    for e in (b"GET / HTTP/1.1\r\n\r\n", b"HEAD / HTTP/1.1\r\n\r\n", b"GET /x HTTP/1.1\r\n\r\n", b"GET /" + b"y" * 3000 + b" HTTP/1.1\r\n\r\n", b"PUT / HTTP/1.1\r\n\r\n", b"ABCDEFGHIJKLMN / H\r\n\r\n",
              b"GET x HTTP/1.1\r\n\r\n", b"GET /" + b"z" * 20000):
        raw_send(s, e, mon=True, read=10)
        raw_send(s, e[:-1], mon=True)
    raw_send(s, b"GET / HTTP/1.1\r\n\r\n" * 30, mon=True, read=10)


def k_stall(s, c, r):
    """clients of the monitoring port which the server disconnects"""
    xs = []
    for i in range(3):
        x = s.raw(mon=True)
        x.sendall(b"GET /conn HTTP/1.1\r\n\r\n")
        xs.append(x)
    xs[0].settimeout(5)
    xs[0].recv(1000)
    n = s.nsock()
    for i in range(25):
        s.advance(5.01)
    for x in xs:
        x.close()


def k_saves(s, c, r):
    c.put(b"t", b"a", V[100])
    c.put(b"t", b"b", V[20000])
    for i in range(3):
        s.wait_flush()
        f = s.shm.get("forks")
        if i % 2:
            s.sendsig(signal.SIGUSR1)
            s.wait(lambda: s.shm.get("forks") > f, 5)
        else:
            c.gc()
    c.delete(b"t", b"a")


def k_expiry(s, c, r):
    for i in range(20):
        c.put(b"t", b"e%d" % i, V[(1, 4096, 4097, 20000)[i % 4]], ttl=10)
    s.advance(12)
    for i in range(10):
        c.get(b"t", b"e%d" % i)
    c.gc()


def k_evict(s, c, r):
    for i in range(110):
        c.put(b"t%d" % (i % 3), b"e%d" % i, V[(4096, 4097, 20000)[i % 3]], ttl=(None, None, None, 1000)[i // 3 % 4])
    c.gc()
    for t in (b"t0", b"t1", b"t2"):
        c.delete(t)


def k_evict_read(s, c, r):
    """values removed by the limit while they are read"""
    xs = []
    for i in range(8):
        c.put(b"t", b"r%d" % i, V[300000])
        x = NB(s, rcvbuf=4096)
        x.queue(req("GET", path(b"t", b"r%d" % i)))
        x.push()
        xs.append(x)
    time.sleep(.003)
    barrier(c)
    c.gc()
    for x in xs:
        x.close()
    c.delete(b"t")


def k_faults(s, c, r):
    """uploads and downloads whose file operations fail"""
    c.put(b"t", b"old", V[20000])
    for op in ("open", "write", "trunc", "openrd"):
        for n in (100, 20000):
            s.shm.set(f_role=1, f_skip=r.choice([0, 0, 1]), f_count=3, f_errno=28, f_short=0, f_mask=1 << OPS[op])
            raw_send(s, req("PUT", path(b"t", b"f%d" % n), (), V[n]), read=5)
            raw_send(s, req("GET", path(b"t", b"old")), read=5)
            s.shm.set(f_mask=0)
    for op in ("fork", "rename", "sync", "copy"):
        s.shm.set(f_role=0, f_skip=0, f_count=2, f_errno=12, f_mask=1 << OPS[op])
        c.gc()
        s.wait_flush()
        s.shm.set(f_mask=0)
    c.delete(b"t")


def k_pipeline(s, c, r):
    with Conn(s) as d:
        batch = b""
        for i in range(20):
            batch += req("PUT", path(b"t", b"p%d" % i), (), V[(100, 4097)[i % 2]]) + req("GET", path(b"t", b"p%d" % i)) + req("DELETE", path(b"t", b"p%d" % i))
            d.p.pending += ["PUT", "GET", "DELETE"]
        d.send(batch)
        for i in range(60):
            d.recv()
    # answers nobody reads
    c.put(b"t", b"x", V[20000])
    raw_send(s, req("GET", path(b"t", b"x")) * 50, read=10)
    raw_send(s, req("GET", path(b"t", b"x")) * 50, rst=True)


def k_names(s, c, r):
    for i in range(8):
        k = b"k" * (200 + 900 * i)
        c.put(b"table" + b"t" * (100 * i), k, V[100])
        c.get(b"table" + b"t" * (100 * i), k)
        c.get(b"none" + b"t" * (100 * i), k)
        c.delete(b"table" + b"t" * (100 * i), k[:-1])
        c.bulk(b"table" + b"t" * (100 * i), [k, k, b"x" * 3000])


KINDS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("k_")}


def cycles(obs, seed, kind, unix, variant, n):
    r = rng("c19", seed, kind)
    size = dict(evict=1000000, evict_read=1000000).get(kind)
    sh = dict(sndbuf=4608) if kind in ("stall", "delete_under", "download_cut", "evict_read", "listing") else None
    unix = unix or kind == "stall"
    if kind == "stall":
        n = 8 if n < 50 else 30
    with Server(variant, unix=unix, max_size=size, shm=sh, env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0")) as s:
        c = Conn(s)
        c.put(b"keep", b"keep", V[100])
        what = "repeated " + kind
        base = s.nsock()
        lv = None
        for i in range(n):
            KINDS[kind](s, c, rng("c19r", seed, kind))
            if lv is None:
                s.wait_flush()
                s.wait(lambda: s.nsock() <= base, 5)
                lv = Level(s, c, what)
            lv.sample()
            s.check()
        lv.judge(obs)
        if size is None and c.get(b"keep", b"keep") != V[100]:
            raise Violation("a value is not returned any more", key="value")
        obs.seen(kind, unix, variant)
        obs.count("repetitions", n)
        c.close()
        s.stop()


def mixed(obs, seed, variant, unix, n, steps):
    """The same random history of many connections over and over"""
    slow = rng("c19x", seed).random() < .5
    with Server(variant, unix=unix, shm=dict(sndbuf=4608) if slow else None, env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0")) as s:
        c = Conn(s)
        lv = None
        for i in range(n):
            r = rng("c19m", seed)
            tabs, keys = gen.names(r, 2, ["a"], table=True), gen.names(r, 5, ["a", "n", "l"])
            ctl, _ = run_storm(obs, s, r, Hist(seed), steps, tabs, keys, slow, sizes=(20, 9000), maxq=2, aborts=.05, finish=.7)
            for t in tabs:
                listing(s, t)
                ctl.delete(t)
            ctl.close()
            if lv is None:
                time.sleep(.2)
                s.wait_flush()
                lv = Level(s, c, "a repeated history")
            lv.sample()
        lv.judge(obs)
        obs.seen("mixed", seed, slow, unix, variant)
        obs.count("repetitions", n)
        c.close()
        s.stop()
