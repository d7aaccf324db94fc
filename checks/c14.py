"""C14: coverage-guided hostile input on both ports, every cut point of every request against every disruption, limits of every field and
concurrent storms, under ASan, UBSan and the server's own assertions, with canary clients"""
import os, re, select, socket, time
from vlib.srv import Server, Violation, Inconclusive
from vlib.http import *
from vlib.hist import Hist
from vlib.storm import run_storm, observe
from vlib.audit import check_space
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["cov", "covrel", "covrel:BUFFER_SIZE=1024", "asan", "dbg", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one hostile exchange (a sequence of sends, reads, closes and clock steps on up to three connections) after which a canary value is read "
        "back on another connection. Distinct and non-trivial: pairs of consecutive code locations reached for the first time in a fuzzing job (reported "
        "as edges), and tuples (request, part it was cut in, disruptions, ending) for the systematic ones.")
ASSUME = ["memory is not exhausted (allocation failure is not injected)", "a sanitizer reports a violation only when it is executed"]

METH = [b"GET", b"PUT", b"HEAD", b"DELETE", b"BULK", b"PURGE", b"ADMIN", b"POST", b"get", b"G", b"", b"GETX", b"OPTION", b"OPTIONS", b"A" * 20]
URL = [b"/", b"/t", b"/t/k", b"/t/k2", b"/u/k", b"/u", b"/gc", b"//", b"/t/", b"//k", b"/t/k/x", b"t/k", b"*", b"/t/" + b"K" * 300, b"/" + b"T" * 500 + b"/k",
       b"/\0/\0", b"/t/%00", b"/t/\xff\xfe", b"/conn", b"/connx", b"/con", b"/x", b"/t /k", b"/t\t"]
HN = [b"Content-Length", b"X-Ttl", b"x-ttl", b"X-Limit", b"X-Start", b"x-limit", b"x-start", b"X-Delete", b"x-delete", b"Host", b"X", b"", b"content-length",
      b"Connection", b"Transfer-Encoding"]
NUM = [b"0", b"1", b"5", b"4095", b"4096", b"4097", b"8192", b"16384", b"65535", b"65536", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"-1", b"+1",
       b"", b" ", b"1 ", b"0x10", b"1e3", b"00000000000000000001", b"99999999999999999999", b"1,2", b"3600", b"k", b"k2", b"\0", b"12a"]
EOLS = [b"\r\n"] * 8 + [b"\n", b"\r", b"\r\r\n", b"\n\n", b""]
TOK = METH + URL + HN + NUM + [b"\r\n", b"\n", b"\r", b": ", b":", b" ", b"\r\n\r\n", b"HTTP/1.1", b"\0", b"/", b"GET /t/k HTTP/1.1\r\n\r\n",
                               b"PUT /t/k HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello", b"DELETE /t HTTP/1.1\r\n\r\n", b"GET /t HTTP/1.1\r\n\r\n"]
CANT = b"canary-table-2718"


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(8 if q else 32):
        out.append(("fuzz", dict(seed="%d-%d" % (seed, i), variant=["cov", "covrel", "covrel:BUFFER_SIZE=1024", "covrel"][i % 4], n=6000 if q else 120000, secs=22 if q else 600,
                                 unix=i % 2 == 0)))
    for i in range(8 if q else 32):
        out.append(("cuts", dict(seed="%d-c%d" % (seed, i), variant=["asan", "dbg"][i % 2], n=1600 if q else 10000, secs=15 if q else 300, part=i // 2 % 4, parts=4)))
    for i in range(6):
        out.append(("limits", dict(seed="%d-l%d" % (seed, i), variant=["asan", "dbg", "asan:BUFFER_SIZE=1024"][i % 3], n=400 if q else 3000, mon=i >= 4)))
    for i in range(24 if q else 200):
        out.append(("storm", dict(seed="%d-s%d" % (seed, i), variant=["asan", "dbg", "asan:BUFFER_SIZE=1024", "asan"][i % 4], steps=2500 if q else 4000)))
    return out


class Raw:
    """A non-blocking connection without any idea of the protocol"""

    def __init__(self, s, mon=False, warm=False):
        self.s = s.raw(mon=mon)
        self.got = 0
        self.eof = False
        self.mon = mon
        if warm:
            self.s.sendall(WARM)
            self.s.recv(4096)
        self.s.setblocking(False)

    def send(self, data):
        try:
            return self.s.send(data) if data else 0
        except BlockingIOError:
            return 0
        except OSError:
            self.eof = True
            return len(data)

    def read(self, limit=1 << 20):
        d = b""
        while len(d) < limit:
            try:
                x = self.s.recv(65536)
            except BlockingIOError:
                return d
            except OSError:
                x = b""
            if not x:
                self.eof = True
                return d
            d += x
        return d

    def close(self, rst=False):
        if rst and self.s.family == socket.AF_INET:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        self.s.close()


class Canary:
    def __init__(self, s, seed, keep=True):
        self.s, self.keep = s, keep
        self.c = Conn(s)
        self.vals = {b"small": gen.data((seed, "cs"), 700), b"block": gen.data((seed, "cb"), 4096), b"file": gen.data((seed, "cf"), 9001)}
        self.put()
        self.i = 0

    def put(self):
        for k, v in self.vals.items():
            self.c.put(CANT, k, v)

    def sing(self, what=None):
        """The server answers, and what others do has no effect here"""
        ks = sorted(self.vals)
        k = ks[self.i % 3]
        self.i += 1
        try:
            v = self.c.get(CANT, k)
        except Violation as e:
            e.detail = "%s\nafter %s" % (e.detail or "", what() if what else "")
            raise
        if v is None and not self.keep:
            self.c.put(CANT, k, self.vals[k])
        elif v != self.vals[k]:
            raise Violation("a value which was not touched is %s" % ("gone" if v is None else "damaged"), key="canary", detail=what() if what else "")


def settle(s, can, where, what=None):
    """Everything else is closed: no spinning, the space is consistent with the number of keys, and a restart finds the same"""
    t0 = time.time()
    s.wait_flush()
    can.sing(what)
    s.wait(lambda: s.nsock() <= can.base, 10)
    if s.nsock() > can.base:
        raise Violation("%d sockets are still open after all other connections were closed" % (s.nsock() - can.base), key="sockets-left", soft=True, detail=what() if what else "")
    can.sing(what)
    n0, t0 = s.shm.get("turns"), time.time()
    time.sleep(.15)
    n = (s.shm.get("turns") - n0) / (time.time() - t0)
    if n > 2000:
        raise Violation("the event loop spins (%d turns per second) without anything to do" % n, key="spinning", soft=True, detail=what() if what else "")
    st = can.c.stats()
    nf = len(s.data_files())
    if st["keys"] != st["bexist"] - st["bfree"] + nf:
        raise Violation("%d keys use %d blocks and %d files (%s)" % (st["keys"], st["bexist"] - st["bfree"], nf, where), key="space", detail=what() if what else "")
    return st


def generate(r):
    """One request, mostly well-formed"""
    m = r.choice(METH[:7]) if r.random() < .9 else r.choice(METH)
    u = r.choice(URL[:7]) if r.random() < .75 else r.choice(URL)
    if m == b"PUT" and r.random() < .8:
        u = r.choice([b"/t/k", b"/t/k2", b"/u/k"])
    out = m + b" " + u + b" " + r.choice([b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b""]) + r.choice(EOLS)
    body = b""
    if m == b"PUT":
        n = r.choice([1, 5, 300, 4096, 4097, 9000])
        out += b"Content-Length: %d" % n + r.choice(EOLS[:9])
        body = (b"v" * n)[:n if r.random() < .8 else r.randrange(n + 1)]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        out += r.choice(HN) + r.choice([b": ", b": ", b":", b""]) + r.choice(NUM) + r.choice(EOLS)
    return out + (b"\r\n" if r.random() < .95 else r.choice(EOLS)) + body


def havoc(r, d):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        x = r.randrange(9)
        n = len(d)
        a = r.randrange(n + 1)
        if x == 0 and n:
            d[r.randrange(n)] ^= 1 << r.randrange(8)
        elif x == 1 and n:
            d[r.randrange(n)] = r.choice(b"\r\n :/\0 09-AZaz\xff")
        elif x == 2:
            b = min(n, a + r.choice([1, 2, 5, 30]))
            del d[a:b]
        elif x == 3:
            b = min(n, a + r.choice([1, 4, 40, 400]))
            d[a:a] = d[a:b] * r.choice([1, 1, 2, 8])
        elif x in (4, 5):
            d[a:a] = r.choice(TOK)
        elif x == 6:
            d[a:a] = r.choice([b"A", b"\r", b"\n", b" ", b"/", b"0", b"9", b":", b"\0", b"a: b\r\n"]) * r.choice([3, 17, 100, 399, 400, 401, 511, 512, 513, 1023, 1024, 1025, 4095, 4097, 16383, 16384, 16385, 20000])
        elif x == 7:
            m = re.search(rb"[0-9]+", bytes(d[a:]))
            if m:
                d[a + m.start():a + m.end()] = r.choice(NUM)
        else:
            del d[r.randrange(n + 1):]
        if len(d) > 60000:
            del d[60000:]
    return bytes(d)


# A program is a list of steps: ("s", conn, bytes) ("c", conn, rst) ("h", conn) ("r", conn) ("t", seconds) ("g",) ("b",)
def fresh(r):
    p = []
    n = r.choice([1, 1, 2, 3])
    for _ in range(r.randrange(1, 7)):
        c = r.randrange(n)
        if r.random() < .12:
            c += 3                      # monitoring
        d = generate(r)
        if r.random() < .3:
            a = r.randrange(len(d) + 1)
            p += [("s", c, d[:a]), ("s", c, d[a:])]
        else:
            p.append(("s", c, d))
        if r.random() < .25:
            p.append(r.choice([("c", c, False), ("c", c, True), ("r", c), ("t", r.choice([1, 5, 3600])), ("g",), ("b",), ("h", c)]))
    return p


def mutate(r, p, corpus):
    p = list(p)
    for _ in range(r.choice([1, 1, 2, 4])):
        x = r.randrange(10)
        i = r.randrange(len(p)) if p else 0
        if not p or x == 0:
            p[i:i] = fresh(r)[:2]
        elif x <= 4:
            if p[i][0] == "s":
                p[i] = ("s", p[i][1], havoc(r, p[i][2]))
        elif x == 5:
            if p[i][0] == "s" and len(p[i][2]) > 1:
                a = r.randrange(1, len(p[i][2]))
                p[i:i + 1] = [("s", p[i][1], p[i][2][:a]), ("s", p[i][1], p[i][2][a:])]
        elif x == 6:
            p.insert(i, r.choice([("c", r.randrange(4), r.random() < .5), ("r", r.randrange(3)), ("t", r.choice([1, 2, 5, 6, 100000])), ("g",), ("b",), ("h", r.randrange(4))]))
        elif x == 7:
            del p[i]
        elif x == 8:
            q = r.choice(corpus)
            a = r.randrange(len(q) + 1)
            p = p[:i] + q[a:a + 4] + p[i:]
        else:
            j = r.randrange(len(p))
            p[i], p[j] = p[j], p[i]
    return p[:24]


def show(p):
    out = []
    for s in p:
        if s[0] == "s":
            d = re.sub(rb"(.)\1{40,}", lambda m: m.group(1) + b"{%d}" % len(m.group(0)), s[2][:4000], flags=re.S)
            out.append("%d< %r%s" % (s[1], d[:300], "" if len(d) <= 300 else "... %d bytes" % len(s[2])))
        else:
            out.append(repr(s))
    return "\n  ".join(out)


class Runner:
    def __init__(self, s, can):
        self.s, self.can = s, can
        self.conns = {}
        self.ticks = 0

    def conn(self, i):
        c = self.conns.get(i)
        if c is None:
            c = self.conns[i] = Raw(self.s, mon=i >= 3)
        return c

    def run(self, p):
        for st in p:
            if st[0] == "s":
                c = self.conn(st[1])
                d = st[2]
                for _ in range(20):
                    k = c.send(d)
                    d = d[k:]
                    if not d or c.eof:
                        break
                    if not k:
                        self.can.sing(lambda: show(p))
                        if not c.read():
                            break
            elif st[0] == "c":
                c = self.conns.pop(st[1], None)
                if c:
                    c.close(st[2])
            elif st[0] == "h":
                c = self.conns.get(st[1])
                if c:
                    try:
                        c.s.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
            elif st[0] == "r":
                c = self.conns.get(st[1])
                if c:
                    self.can.sing(lambda: show(p))
                    c.read()
            elif st[0] == "t":
                if self.ticks < 2000000000 and st[1] < 5000000:
                    self.ticks += st[1]
                    self.s.shm.set(clock_off_us=self.s.shm.get("clock_off_us") + st[1] * 1000000)
            elif st[0] == "g":
                self.can.c.gc()
            else:
                self.can.sing(lambda: show(p))
        self.can.sing(lambda: show(p))

    def finish(self, r):
        for i in list(self.conns):
            if r.random() < .7 or len(self.conns) > 12:
                c = self.conns.pop(i)
                if r.random() < .5:
                    c.read()
                c.close(r.random() < .2)
            elif i < 6:
                # lingers, other exchanges go on
                self.conns[6 + r.randrange(2, 30)] = self.conns.pop(i)


def fuzz(obs, seed, variant, n, secs, unix):
    r = rng("c14", seed)
    with Server(variant, unix=unix, max_size=None if r.random() < .7 else 60000) as s:
        can = Canary(s, seed, keep=s.max_size is None)
        can.base = s.nsock()
        run = Runner(s, can)
        last = []
        what = lambda: "the exchanges before:\n" + "\n--\n  ".join(show(p) for p in last[-4:])
        corpus = [fresh(r) for _ in range(3)]
        corpus.append([("s", 3, b"GET /conn HTTP/1.1\r\n\r\n"), ("t", 5), ("b",), ("t", 5), ("b",), ("c", 3, False)])
        corpus.append([("s", 0, b"PUT /t/k HTTP/1.1\r\nContent-Length: 10\r\n\r\nhel"), ("s", 1, b"DELETE /t HTTP/1.1\r\n\r\n"), ("s", 0, b"lo67890"), ("s", 1, b"GET /t HTTP/1.1\r\n\r\n"), ("b",)])
        seen = 0
        s.shm.take_cov()
        t0 = time.time()
        i = 0
        while i < n and time.time() - t0 < secs:
            i += 1
            p = fresh(r) if r.random() < .15 else mutate(r, r.choice(corpus[-40:] if r.random() < .5 else corpus), corpus)
            if i <= len(corpus) and i <= 5:
                p = corpus[i - 1]
            last.append(p)
            del last[:-6]
            try:
                run.run(p)
                s.check_san()
            except Violation as e:
                if "exchanges before" not in str(e.detail):
                    e.detail = "%s\n%s" % (str(e.detail or "")[:3500], what())
                raise
            run.finish(r)
            cov = s.shm.take_cov()
            new = cov & ~seen
            if new:
                seen |= cov
                corpus.append(p)
                obs.sample(show(p))
            obs.ev()
            if i % 250 == 0:
                for c in run.conns.values():
                    c.close()
                run.conns = {}
                settle(s, can, "after hostile input", what)
        for c in run.conns.values():
            c.close()
        run.conns = {}
        st = settle(s, can, "after hostile input", what)
        e = bin(seen).count("1")
        obs.count("max_edges", e)
        obs.count("corpus", len(corpus))
        for b, x in enumerate(seen.to_bytes(65536, "little")):
            if x:
                obs.seen("edge", b)
        can.c.close()
        s.stop()
        s.start()
        with Conn(s) as c:
            s2 = c.stats()
            nf = len(s.data_files())
            if s2["keys"] != s2["bexist"] - s2["bfree"] + nf or s2["keys"] > st["keys"]:
                raise Violation("after a restart: %r with %d files, before %r" % (s2, nf, st), key="space-restart", detail=what())
            if s.max_size is None:
                for k, v in can.vals.items():
                    if c.get(CANT, k) != v:
                        raise Violation("a value which was not touched is gone or damaged after a restart", key="canary-restart", detail=what())


# -- every cut point of every request, with other things happening there --
def kinds():
    big = b"z" * 9000
    return [("put-block", b"PUT /t/k HTTP/1.1\r\nContent-Length: 40\r\nX-Ttl: 50\r\n\r\n" + b"q" * 40),
            ("put-file", b"PUT /t/k HTTP/1.1\r\nContent-Length: 9000\r\n\r\n" + big),
            ("put-new", b"PUT /n/new HTTP/1.1\r\nContent-Length: 12\r\n\r\nabcdefghijkl"),
            ("get-block", b"GET /t/k HTTP/1.1\r\nHost: x\r\n\r\n"),
            ("get-file", b"GET /t/f HTTP/1.1\r\n\r\n"),
            ("head", b"HEAD /t/k HTTP/1.1\r\n\r\n"),
            ("delete", b"DELETE /t/k HTTP/1.1\r\n\r\n"),
            ("delete-file", b"DELETE /t/f HTTP/1.1\r\n\r\n"),
            ("deltab", b"DELETE /t HTTP/1.1\r\n\r\n"),
            ("list", b"GET /t HTTP/1.1\r\nX-Limit: 5\r\nX-Start: 1\r\n\r\n"),
            ("bulk", b"BULK /t HTTP/1.1\r\nX-Delete: k\r\nX-Delete: f\r\n\r\n"),
            ("stats", b"GET / HTTP/1.1\r\n\r\n"),
            ("gc", b"ADMIN /gc HTTP/1.1\r\n\r\n")]


DISRUPT = ["delete", "deltab", "overwrite", "overwrite-file", "gc", "save", "expire", "list", "fill", "bulk", "get", "new-tables", "half-put", "half-get", "half-del", "half-deltab", "half-list"]
ENDS = ["go", "go", "close", "half-close", "rst", "leave"]


def disrupt(s, can, d, held, i):
    c = can.c
    if d == "delete":
        c.delete(b"t", b"k")
        c.delete(b"t", b"f")
    elif d == "deltab":
        c.delete(b"t")
    elif d == "overwrite":
        c.put(b"t", b"k", b"other")
        c.put(b"t", b"f", b"w" * 4000)
    elif d == "overwrite-file":
        c.put(b"t", b"k", b"o" * 5000)
        c.put(b"t", b"f", b"o" * 7000)
    elif d == "gc":
        c.gc()
    elif d == "save":
        s.sendsig(10)
        barrier(c)
    elif d == "expire":
        s.shm.set(clock_off_us=s.shm.get("clock_off_us") + 200 * 1000000)
        time.sleep(.012)
        c.gc()
    elif d == "list":
        with Conn(s) as x:
            x.do("GET", "/t")
    elif d == "fill":
        for j in range(40):
            c.put(b"t", b"fill%d" % j, b"x")
    elif d == "bulk":
        c.bulk(b"t", [b"k", b"f", b"nokey"])
    elif d == "get":
        c.get(b"t", b"k")
        c.get(b"t", b"f")
    elif d == "new-tables":
        for j in range(20):
            c.put(b"tt%d" % j, b"a", b"1")
            c.delete(b"tt%d" % j)
    else:
        k = {"half-put": b"PUT /t/k HTTP/1.1\r\nContent-Length: 5000\r\n\r\nx", "half-get": b"GET /t/k HTTP/1.1\r\n", "half-del": b"DELETE /t/k HTTP/1.1\r\n",
             "half-deltab": b"DELETE /t HTTP/1.1\r\n", "half-list": b"GET /t HTTP/1.1\r\n"}[d]
        x = Raw(s, warm=True)
        x.send(k)
        barrier(c)
        held.append(x)


def cuts(obs, seed, variant, n, secs, part, parts):
    r = rng("c14c", seed)
    todo = []
    ks = kinds()
    for ki, (name, data) in enumerate(ks):
        eoh = data.index(b"\r\n\r\n") + 4
        pos = list(range(1, eoh + 1)) + [p for p in (eoh + 1, eoh + 39, eoh + 4095, eoh + 4096, eoh + 4097, eoh + 8999) if p < len(data)] + [len(data)]
        for p in pos:
            for d in DISRUPT:
                todo.append((ki, p, d))
    r.shuffle(todo)
    # every (kind, disruption) early
    first, rest, have = [], [], set()
    for t in todo:
        z = (t[0], t[2], "line" if t[1] <= ks[t[0]][1].index(b"\r\n") else "head" if t[1] < ks[t[0]][1].index(b"\r\n\r\n") + 4 else "body")
        (rest if z in have else first).append(t)
        have.add(z)
    first = [t for i, t in enumerate(first) if i % parts == part]
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        can = Canary(s, seed)
        can.base = s.nsock()
        t0 = time.time()
        recent = []
        what = lambda: "\n".join(recent[-6:])
        left = []
        for i, (ki, p, d) in enumerate((first + rest)[:n]):
            if time.time() - t0 > secs:
                break
            name, data = ks[ki]
            c = can.c
            c.put(b"t", b"k", b"first value", ttl=r.choice([None, 100]))
            c.put(b"t", b"f", b"F" * 30000)
            held = []
            end = r.choice(ENDS)
            ds = [d] + ([r.choice(DISRUPT)] if r.random() < .5 else []) + ([r.choice(DISRUPT)] if r.random() < .2 else [])
            recent.append("%s cut at %d: %s, %s" % (name, p, ds, end))
            x = Raw(s, warm=True)
            x.send(data[:p])
            barrier(c)
            for dd in ds:
                disrupt(s, can, dd, held, i)
            if end == "go" or end == "leave":
                x.send(data[p:])
                barrier(c)
                if r.random() < .5:
                    disrupt(s, can, r.choice(DISRUPT), held, i)
                if end == "go":
                    x.read()
                    x.send(b"GET /t/k HTTP/1.1\r\n\r\n")
                    barrier(c)
                    x.read()
            elif end == "half-close":
                x.s.shutdown(socket.SHUT_WR)
                barrier(c)
                x.read()
            x.close(end == "rst")
            r.shuffle(held)
            for h in held:
                if r.random() < .5:
                    h.send(b"\r\n")
                    barrier(c)
                h.close()
            barrier(c)
            can.sing(what)
            try:
                s.check_san()
            except Violation as e:
                e.detail = "%s\nafter %s" % (e.detail, what())
                raise
            obs.ev()
            obs.seen(name, "line" if p <= data.index(b"\r\n") else "head" if p < data.index(b"\r\n\r\n") + 4 else "body", tuple(ds), end)
            if i % 120 == 119:
                settle(s, can, "after interrupted requests", what)
        obs.sample(what())
        settle(s, can, "after interrupted requests", what)
        for t in (b"t", b"n", b"tt0"):
            can.c.delete(t)
        st = settle(s, can, "after interrupted requests and deletes", what)
        if st["keys"] != 3:
            raise Violation("%d keys are left of 3" % st["keys"], key="keys-left", detail=what())
        can.c.close()
        s.stop()


def limits(obs, seed, variant, n, mon):
    """Every field at and around every length that matters, at different offsets in the input buffer"""
    r = rng("c14l", seed)
    B = 1024 if "1024" in variant else 16384
    L = sorted(set([0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 398, 399, 400, 401, 402, 510, 511, 512, 513, B // 2, B - 40, B - 3, B - 2, B - 1, B, B + 1, B + 2,
                    2 * B - 1, 2 * B, 2 * B + 1, 65535, 65536, 70000] + [r.randrange(1, B + 200) for _ in range(12)]))

    def stream(f, l):
        if mon:
            return {"method": b"G" * l + b" / HTTP/1.1\r\n\r\n", "table": b"GET /" + b"c" * l + b" HTTP/1.1\r\n\r\n", "key": b"GET /conn" + b"/" * l + b" HTTP/1.1\r\n\r\n",
                    "version": b"GET / " + b"V" * l + b"\r\n\r\n", "hname": b"GET / HTTP/1.1\r\n" + b"H" * l + b": 1\r\n\r\n", "hvalue": b"GET / HTTP/1.1\r\nX: " + b"v" * l + b"\r\n\r\n",
                    "headers": b"GET / HTTP/1.1\r\n" + b"a: b\r\n" * (l // 6) + b"\r\n", "nl": b"\r\n" * (l // 2) + b"GET / HTTP/1.1\r\n\r\n",
                    "spaces": b" " * l + b"GET / HTTP/1.1\r\n\r\n"}.get(f, b"GET /conn HTTP/1.1\r\nX: " + b"9" * l + b"\r\n\r\n")
        put = b"PUT /t/k HTTP/1.1\r\n"
        return {"method": b"G" * l + b" /t/k HTTP/1.1\r\n\r\n",
                "table": b"PUT /" + b"t" * l + b"/k HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc",
                "table-only": r.choice([b"GET", b"DELETE", b"BULK", b"ADMIN"]) + b" /" + b"t" * l + b" HTTP/1.1\r\n\r\n",
                "key": r.choice([b"PUT", b"GET", b"DELETE"]) + b" /t/" + b"k" * l + b" HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc",
                "version": b"GET /t/k " + b"V" * l + b"\r\n\r\n",
                "hname": b"GET /t/k HTTP/1.1\r\n" + b"H" * l + b": 1\r\n\r\n",
                "hvalue": b"GET /t/k HTTP/1.1\r\nX: " + b"v" * l + b"\r\n\r\n",
                "headers": put + b"a: b\r\n" * (l // 6) + b"Content-Length: 3\r\n\r\nabc",
                "nl": b"\r\n" * (l // 2) + b"GET /t/k HTTP/1.1\r\n\r\n",
                "spaces": put + b"Content-Length: " + b" " * l + b"3\r\n\r\nabc",
                "trail": put + b"Content-Length: 3" + b" " * l + b"\r\n\r\nabc",
                "zeros": put + b"Content-Length: " + b"0" * l + b"3\r\n\r\nabc",
                "digits": put + b"Content-Length: " + b"1" * l + b"\r\n\r\nabc",
                "xdelete": b"BULK /t HTTP/1.1\r\nX-Delete: " + b"k" * l + b"\r\nX-Delete: k\r\n\r\n",
                "xdeletes": b"BULK /t HTTP/1.1\r\n" + b"X-Delete: k\r\n" * (l // 13) + b"\r\n",
                "colon": b"GET /t/k HTTP/1.1\r\n" + b":" * l + b"\r\n\r\n",
                "cr": b"GET /t/k HTTP/1.1" + b"\r" * l + b"\n" + b"\r" * l + b"\n",
                "lfs": put + b"\n" * l}[f]
    fields = ["method", "table", "table-only", "key", "version", "hname", "hvalue", "headers", "nl", "spaces", "trail", "zeros", "digits", "xdelete", "xdeletes", "colon", "cr", "lfs"]
    if mon:
        fields = ["method", "table", "key", "version", "hname", "hvalue", "headers", "nl", "spaces", "conn"]
    todo = [(f, l) for f in fields for l in L]
    r.shuffle(todo)
    with Server(variant, unix=True) as s:
        can = Canary(s, seed)
        can.base = s.nsock()
        recent = []
        what = lambda: "\n".join(recent[-6:])
        for f, l in todo[:n]:
            can.c.put(b"t", b"k", b"v")
            # so that the request begins anywhere in the buffer
            off = r.choice([0, 0, 1, B // 3, B - 50, B - 20, B - 8, B - 1, r.randrange(B)])
            x = Raw(s, mon=mon)
            pre = b""
            if off > 40:
                pre = req("HEAD", "/p/q") if not mon else b"HEAD / HTTP/1.1\r\n\r\n"
                pre += b"HEAD /p/q HTTP/1.1\r\nX: "[:4] and b""
                fill = off - len(pre)
                y = (b"HEAD /p/q HTTP/1.1\r\nX: %s\r\n\r\n" if not mon else b"HEAD / HTTP/1.1\r\nX: %s\r\n\r\n")
                k = min(fill - len(y) + 2, B // 2)
                pre += y % (b"f" * max(0, k))
            d = pre + stream(f, l)
            recent.append("%s of length %d at offset %d" % (f, l, len(pre)))
            chunk = r.choice([len(d), len(d), 1000, 37, B - 1])
            i = 0
            spins = 0
            while i < len(d) and not x.eof and spins < 50:
                k = x.send(d[i:i + chunk])
                i += k
                if not k:
                    spins += 1
                    can.sing(what)
                x.read()
                if chunk < 100 and i > 2000:
                    chunk = len(d)
            can.sing(what)
            can.sing(what)
            if not mon and r.random() < .5:
                x.send(b"GET /t/k HTTP/1.1\r\n\r\n")
                can.sing(what)
            x.read()
            x.close()
            try:
                s.check_san()
            except Violation as e:
                e.detail = "%s\nafter %s" % (e.detail, what())
                raise
            obs.ev()
            obs.seen("limit", f, l, mon, variant)
        settle(s, can, "after long fields", what)
        can.c.close()
        s.stop()


def storm(obs, seed, variant, steps):
    r = rng("c14s", seed)
    with Server(variant, unix=r.random() < .6, max_size=r.choice([None, None, 20000, 100000]), shm=dict(sndbuf=4608)) as s:
        tabs = gen.names(r, r.randrange(1, 3), ["a", "n"], table=True)
        keys = gen.names(r, r.randrange(1, 5), ["a", "n"])
        h = Hist(seed)
        ev = s.max_size is not None

        def hook(i, ctl):
            if i % 10 == 0:
                s.check_san()
            if r.random() < .01:
                s.sendsig(10)
        ctl, base = run_storm(obs, s, r, h, steps, tabs, keys, slow=r.random() < .5, weights=dict(PUT=34, GET=30, HEAD=4, DELETE=14, DELTAB=r.choice([1, 6, 12]), BULK=8),
                              sizes=r.choice([(20, 4000), (3000, 9000), (20, 60000)]), maxq=r.choice([1, 3]), aborts=r.choice([.01, .06]), gc=r.choice([0, .05]), hook=hook)
        s.wait(lambda: s.nsock() <= base, 10)
        barrier(ctl)
        st = ctl.stats()
        nf = len(s.data_files())
        if st["keys"] != st["bexist"] - st["bfree"] + nf:
            raise Violation("%d keys use %d blocks and %d files after a storm" % (st["keys"], st["bexist"] - st["bfree"], nf), key="space", detail=h.dump())
        if not ev:
            observe(ctl, h, tabs, keys)
            obs.ev(h.check())
        obs.ev()
        ctl.close()
        s.stop()
