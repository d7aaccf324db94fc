"""C04: the same request stream in many divisions; every response is compared with the one computed from a reference"""
import re, socket, time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import drop
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "asan:BUFFER_SIZE=1024", "rel"]
RULE = ("A case is one response compared with the expected one. Distinct and non-trivial: pairs of (request kind, way the stream was divided: "
        "cut position inside the request for the exhaustive cuts, style and read limit for the others, buffer size).")
ASSUME = ["after a request which is answered 400 the position in the stream is not specified (only such with a well-formed header section are used here)"]

METHODS = ["put", "putfile", "get", "head", "del", "deltab", "bulk", "stats", "gc", "miss", "putttl", "dup"]


MOCKS = ["mockput", "mockput", "mockget", "mockhead"]
HELD = b"held"


def hold(s, n):
    """A connection for each of n keys, in the middle of an upload"""
    out = []
    for i in range(n):
        c = NB(s)
        c.queue(req("PUT", path(HELD, b"h%d" % i), [("Content-Length", 100)]) + b"x" * 40)
        c.push()
        out.append(c)
    return out


class Script:
    """Requests with expectations: exp(resp) raises or returns"""

    def __init__(self, r, tag, n, maxv=9000, longkeys=True, kinds=None, held=0, blank=.12):
        """held: so many keys (of table HELD) are being uploaded by another connection all the time"""
        self.items = []
        self.M = {}
        self.r = r
        self.held = held
        self.blank = blank
        tabs = [b"s%s-%d" % (tag.encode(), i) for i in range(2)] + [b"S" + tag.encode()]
        keys = gen.names(r, 5, ["a", "n", "x"] + (["l"] if longkeys else []))
        if not longkeys:
            keys = [k[:40] for k in keys]
        for i in range(n):
            t, k = r.choice(tabs), r.choice(keys)
            m = r.choice(kinds or METHODS)
            if held and r.random() < .2:
                m = r.choice(MOCKS)
            had = self.M.get(t, {}).get(k)
            extra = []
            if r.random() < .4:
                extra = [r.choice([("Host", "localhost"), ("User-Agent", "x" * r.randrange(1, 120)), ("Accept", "*/*"), ("X-Foo", "a: b: c"),
                                   ("X-Empty", ""), ("Content-Type", "text/plain; q=\"\r".replace("\r", "")), ("X-Ttlx", "7"), ("Content-Lengt", "9"),
                                   ("Connection", "keep-alive")])]
            ver = r.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])
            if m in ("put", "putfile", "putttl", "dup"):
                size = r.randrange(1, 300) if m != "putfile" else r.choice([4096, 4097, maxv, r.randrange(min(300, maxv - 1), maxv)])
                size = min(size, maxv)
                v = self.body(size)
                hs = [("Content-Length", size)]
                ttl = 0
                if m == "putttl":
                    ttl = r.choice([0, 100, 100000, 2000000])
                    hs.append((r.choice(["X-Ttl", "x-ttl"]), ttl))
                hs += extra
                r.shuffle(hs)
                self.add("PUT", req("PUT", path(t, k), hs, None, ver) + v, fixed(200, b"OK\r\n"), m)
                self.M.setdefault(t, {})[k] = (v, ttl)
            elif m in ("get", "miss"):
                if m == "miss":
                    t = b"nothing-here"
                    had = None
                self.add("GET", req("GET", path(t, k), extra, None, ver), hit(had), m)
            elif m == "head":
                self.add("HEAD", req("HEAD", path(t, k), extra, None, ver), headhit(had), m)
            elif m == "del":
                self.add("DELETE", req("DELETE", path(t, k), extra, None, ver), fixed(200, b"DELETED\r\n") if had else fixed(404, NOTFOUND), m)
                drop(self.M, t, k)
            elif m == "deltab":
                self.add("DELETE", req("DELETE", path(t), extra, None, ver), fixed(200, b"DELETED\r\n") if t in self.M else fixed(404, NOTFOUND), m)
                self.M.pop(t, None)
            elif m == "bulk":
                ks = r.sample(keys, r.randrange(0, 4))
                hs = [(r.choice(["X-Delete", "x-delete"]), x) for x in ks] + extra
                r.shuffle(hs)
                self.add("BULK", req(r.choice(["BULK", "PURGE"]), path(t), hs, None, ver), fixed(200, b"BULK OK\r\n"), m)
                for x in ks:
                    drop(self.M, t, x)
            elif m == "stats":
                self.add("GET", req("GET", "/", extra, None, ver), self.count(), m)
            elif m == "gc":
                self.add("ADMIN", req("ADMIN", "/gc", extra, None, ver), self.count(), m)
            elif m == "mockput":
                # another upload of it is in progress: acknowledged and discarded
                v = self.body(min(maxv, r.choice([1, 40, 300, 4096, 4097, r.randrange(1, 40000)])))
                hs = [("Content-Length", len(v))] + ([("X-Ttl", 50)] if r.random() < .5 else []) + extra
                self.add("PUT", req("PUT", path(HELD, b"h%d" % r.randrange(held)), hs, None, ver) + v, fixed(200, b"OK\r\n"), m)
            elif m == "mockget":
                self.add("GET", req("GET", path(HELD, b"h%d" % r.randrange(held)), extra, None, ver), fixed(404, NOTFOUND), m)
            elif m == "mockhead":
                self.add("HEAD", req("HEAD", path(HELD, b"h%d" % r.randrange(held)), extra, None, ver), headhit(None), m)
        for t in tabs:
            self.tail(t)

    def count(self):
        return stats(sum(len(x) for x in self.M.values()) + self.held, len(self.M) + (self.held > 0))

    def tail(self, t):
        """leave a clean state for the next round"""
        self.add("DELETE", req("DELETE", path(t)), fixed(200, b"DELETED\r\n") if t in self.M else fixed(404, NOTFOUND), "deltab")
        self.M.pop(t, None)

    def body(self, n):
        r = self.r
        x = r.random()
        if x < .25:
            s = (b"GET /s/k HTTP/1.1\r\n\r\nDELETE /s HTTP/1.1\r\n\r\nPUT /s/a HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello\r\n\r\n" * (n // 60 + 1))[:n]
        elif x < .35:
            s = (b"\r\n" * n)[:n]
        elif x < .45:
            s = (b"\n" * n)[:n]
        elif x < .5:
            s = b"\0" * n
        else:
            s = r.randbytes(n)
        return s

    def add(self, method, data, exp, kind):
        if self.r.random() < self.blank:
            # empty lines before a request mean nothing
            data = self.r.choice([b"\r\n", b"\n", b"\r\n\r\n", b"\n\n\n", b"\r\n" * self.r.randrange(3, 40)]) + data
        self.items.append((method, data, exp, kind))

    def stream(self):
        return b"".join(i[1] for i in self.items)


def fixed(status, body):
    def f(r):
        return r.status == status and r.body == body and r.h("connection") == "Keep-Alive"
    f.what = "%d %r" % (status, body)
    return f


def ttl_ok(r, ttl):
    v = r.h("x-ttl")
    if v is None or not re.fullmatch("[0-9]+", v):
        return False
    return int(v) == 0 if ttl == 0 else ttl - 60 <= int(v) <= ttl + 1


def hit(had):
    if had is None:
        return fixed(404, NOTFOUND)
    v, ttl = had

    def f(r):
        return r.status == 200 and r.body == v and ttl_ok(r, ttl) and r.h("connection") == "Keep-Alive"
    f.what = "200 with %d bytes, ttl %d" % (len(v), ttl)
    return f


def headhit(had):
    def f(r):
        if had is None:
            return r.status == 404 and r.h("content-length") == "15"
        return r.status == 200 and r.h("content-length") == str(len(had[0])) and ttl_ok(r, had[1])
    f.what = "HEAD of %s" % (None if had is None else len(had[0]))
    return f


def stats(keys, tables):
    def f(r):
        d = parse_stats(r)
        return d["keys"] == keys and d["tables"] == tables
    f.what = "stats with %d keys, %d tables" % (keys, tables)
    return f


def judge(obs, it, resp, i, how, sc):
    if not it[2](resp):
        raise Violation("request %d (%s) was answered %r instead of %s when %s" % (i, it[3], resp, it[2].what, how[0]),
                        key="answer:%s:%s" % (it[3], resp.status), detail="%r\nprevious: %r" % (it[1][:300], [x[3] for x in sc.items[max(0, i - 8):i]]))
    obs.ev()


def play(obs, s, sc, how, chunks, conn=None, pause=None, ctl=None, fin=False, cut=None):
    """Send the stream in chunks (lengths), all ahead of the responses; then every response must arrive without further input.
    fin: the sending side is closed after it. cut: only so many bytes are sent, what they contain completely is answered"""
    c = conn or NB(s)
    data = sc.stream()
    if cut is not None:
        data = data[:cut]
        sc, whole, n = Script(sc.r, "", 0), sc, 0
        sc.items = []
        for it in whole.items:
            n += len(it[1])
            if n > cut:
                break
            sc.items.append(it)
    for it in sc.items:
        c.p.pending.append(it[0])
    if len(data) == 0:
        c.s.shutdown(socket.SHUT_WR)
        fin = None
    pos, got, ci = 0, 0, 0
    left = 0
    t0 = time.time()
    while got < len(sc.items) or fin or pos < len(data):
        moved = False
        if pos < len(data) and not c.out:
            if ci < len(chunks):
                n = chunks[ci]
                ci += 1
            else:
                n = len(data) - pos
            c.queue(data[pos:pos + n])
            pos += n
            while c.out:
                k = c.push()
                if k:
                    moved = True
                else:
                    break
            if pause and not c.out:
                pause()
        elif c.out:
            moved = c.push() > 0
        elif fin:
            c.s.shutdown(socket.SHUT_WR)
            fin = None
        if c.pump():
            moved = True
        while True:
            r = c.p.next()
            if r is None:
                break
            judge(obs, sc.items[got], r, got, how, sc)
            got += 1
            moved = True
            if got == len(sc.items):
                break
        if got == len(sc.items) and c.p.eof:
            break
        if moved:
            t0 = time.time()
        else:
            if c.p.eof and got < len(sc.items):
                time.sleep(.02)
                s.check()
                raise Violation("the connection was closed with request %d (%s) unanswered when %s" % (got, sc.items[got][3], how[0]),
                                key="closed:%s" % how[0], detail=repr(sc.items[got][1][:300]))
            if time.time() - t0 > 12:
                s.check()
                raise Violation("request %d (%s) of %d stays unanswered without further input when %s (all %d bytes sent: %s, %r received)" % (
                    got, sc.items[got][3], len(sc.items), how[0], len(data), pos >= len(data) and not c.out, bytes(c.p.buf[:60])),
                    key="unanswered:%s" % how[0], soft=True, detail=repr(sc.items[got][1][:300]))
            time.sleep(.0003)
    for i in range(2):
        c.pump()
    if fin is None:
        # the end follows
        while not c.p.eof:
            c.pump()
            if time.time() - t0 > 12:
                s.check()
                raise Violation("the connection stays open after the client closed its side when %s" % how[0], key="stays-open", soft=True)
            time.sleep(.0003)
    if c.p.buf:
        raise Violation("%d bytes more than the responses when %s" % (len(c.p.buf), how[0]), key="surplus", detail=repr(bytes(c.p.buf[:200])))
    if conn is None:
        c.close()


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i, m in enumerate(METHODS + ["mockput"]):
        out.append(("every_cut", dict(seed="%d-%s" % (seed, m), kind=m, variant=["asan", "asan:BUFFER_SIZE=1024", "dbg"][i % 3], full=not q)))
    for i in range(60 if q else 300):
        out.append(("pipelined", dict(seed="%d-%d" % (seed, i), variant=["asan", "asan:BUFFER_SIZE=1024", "dbg", "rel"][i % 4], n=30 if q else 60)))
    for i in range(4 if q else 20):
        out.append(("ended", dict(seed="%d-e%d" % (seed, i), variant=["asan", "dbg", "asan:BUFFER_SIZE=1024", "rel"][i % 4], full=not q)))
    for i in range(12 if q else 60):
        out.append(("boundary", dict(seed="%d-b%d" % (seed, i), variant=["asan:BUFFER_SIZE=1024", "asan:BUFFER_SIZE=1024", "asan"][i % 3], step=1 if not q else 2)))
    out.append(("discarded", dict(seed="%d-d" % seed)))
    return out


def every_cut(obs, seed, kind, variant, full):
    """Two requests, with a pause at each byte position (and pairs of positions)"""
    r = rng("c04", seed)
    with Server(variant, unix=r.random() < .5) as s:
        ctl = Conn(s)
        barrier(ctl)
        held = hold(s, 1 if kind in MOCKS else 0)
        barrier(ctl)
        sc = Script(r, "c", 6, 600, False, ["putttl", "put", kind, kind], len(held), .3)
        data = sc.stream()
        n = len(data)
        pts = list(range(1, n)) if full or n < 700 else sorted(r.sample(range(1, n), 700))
        ends, p = [], 0
        for it in sc.items:
            ends.append(p)
            p += len(it[1])

        def where(x):
            i = max(j for j, e in enumerate(ends) if e <= x)
            return sc.items[i][3], x - ends[i]
        for a in pts:
            play(obs, s, sc, ("cut at one position", a), [a], pause=lambda: barrier(ctl, 1))
            obs.seen(kind, where(a), variant)
        for _ in range(200 if not full else 2000):
            a, b = sorted(r.sample(range(1, n), 2))
            play(obs, s, sc, ("cut at two positions", a, b), [a, b - a], pause=lambda: barrier(ctl, 1))
        play(obs, s, sc, ("sent byte by byte",), [1] * n, pause=lambda: barrier(ctl, 1))
        for l in (1, 2, 3, 5):
            s.shm.set(sock_rlimit=l)
            play(obs, s, sc, ("read %d bytes at a time" % l,), [])
        for h in held:
            h.close()
        s.stop()


def pipelined(obs, seed, variant, n):
    r = rng("c04p", seed)
    small = "1024" in variant
    with Server(variant, unix=r.random() < .4) as s:
        ctl = Conn(s)
        held = hold(s, r.choice([0, 1, 3]))
        barrier(ctl)
        for rnd in range(14 if not small else 10):
            sc = Script(r, "p%d" % rnd, r.randrange(2, n), maxv=r.choice([500, 9000, 40000]), longkeys=not small, held=len(held))
            total = len(sc.stream())
            rl = r.choice([0, 0, 0, 1, 2, 7, 100, 1000, 4096])
            if rl and total / rl > 60000:
                rl = 100
            s.shm.set(sock_rlimit=rl)
            style = r.choice(["all at once", "random pieces", "one request at a time", "shifted", "small pieces", "buffer multiples"])
            if style == "all at once":
                ch = []
            elif style == "random pieces":
                ch = gen.cuts(r, total, "many")
            elif style == "one request at a time":
                ch = [len(i[1]) for i in sc.items]
            elif style == "shifted":
                d = r.choice([1, 2, 3, 10])
                ch = [d] + [len(i[1]) for i in sc.items]
            elif style == "small pieces":
                ch, left = [], min(total, 20000)
                while left > 0:
                    x = r.randrange(1, 60)
                    ch.append(x)
                    left -= x
            else:
                ch = [r.choice([16384, 16383, 1024, 1023])] * (total // 1000 + 1)
            pause = (lambda: barrier(ctl, 1)) if len(ch) < 80 and r.random() < .5 else None
            how = ("%s, reading at most %s" % (style, rl or "all"), )
            # the stream may be longer than the socket buffers hold: keep reading
            play(obs, s, sc, how, ch, pause=pause)
            # the same on one connection at a time, as requests with a wait for each response
            if r.random() < .3:
                c = Conn(s)
                for i, it in enumerate(sc.items):
                    c.p.pending.append(it[0])
                    c.send(it[1])
                    judge(obs, it, c.recv(), i, ("one after the other",), sc)
                c.close()
            obs.seen("p", style, rl, variant, pause is not None)
            for it in sc.items:
                obs.seen(it[3], style, rl, small)
            obs.count("streams")
            obs.count("bytes", total)
        for h in held:
            h.close()
        s.stop()


def boundary(obs, seed, variant, step):
    """A request whose every part in turn falls on the wrap-around of the input buffer"""
    r = rng("c04b", seed)
    size = 1024 if "1024" in variant else 16384
    with Server(variant, unix=True) as s:
        held = hold(s, 1)
        barrier(Conn(s))
        for rnd in range(3):
            sc = Script(r, "b", 5, 300, False, ["putttl", "put", "get", "bulk", "head"], 1, .5)
            n = len(sc.stream())
            for pad in range(0, min(n, 500) + 20, step):
                # a padding upload places what follows at a known distance from the end of the buffer
                want = size - pad
                p = Script(r, "b", 0)
                p.items = []
                hd = req("PUT", b"/pad/pad", [("Content-Length", "00000")], None)
                bl = want - len(hd)
                if bl <= 0:
                    continue
                hd = hd.replace(b"00000", b"%05d" % bl)
                p.items = [("PUT", hd + r.randbytes(bl), fixed(200, b"OK\r\n"), "pad")] + sc.items
                play(obs, s, p, ("wrapping around the end of the buffer",), r.choice([[], [], [want], [want - 1], [want + 1]]))
                obs.seen("wrap", pad, variant)
        for h in held:
            h.close()
        s.stop()


def ended(obs, seed, variant, full):
    """The client closes its sending side after (a part of) the stream: what it contains completely is answered, then the connection ends"""
    r = rng("c04e", seed)
    small = "1024" in variant
    with Server(variant, unix=r.random() < .5) as s:
        ctl = Conn(s)
        barrier(ctl)
        c = Conn(s)
        held = hold(s, r.choice([0, 2]))
        barrier(ctl)
        for rnd in range(25 if not full else 200):
            sc = Script(r, "e", r.randrange(1, 25), maxv=r.choice([300, 9000, 60000]), longkeys=not small, held=len(held))
            n = len(sc.stream())
            rl = r.choice([0, 0, 0, 100, 4096])
            s.shm.set(sock_rlimit=rl)
            style = r.choice(["whole", "pieces", "paused"])
            ch = [] if style == "whole" else gen.cuts(r, n, "few" if style == "paused" else "many")
            play(obs, s, sc, ("ended by the client, sent %s" % style,), ch, fin=True, pause=(lambda: barrier(ctl, 1)) if style == "paused" and len(ch) < 60 else None)
            obs.seen("ended", style, rl, variant)
            for it in sc.items:
                obs.seen("ended", it[3], style, rl)
        s.shm.set(sock_rlimit=0)
        for h in held:
            h.close()
        barrier(ctl)
        sc = Script(r, "e", 6, 200, False)
        n = len(sc.stream())
        for cut in (range(0, n + 1) if full else sorted(r.sample(range(0, n + 1), min(n, 250)))):
            play(obs, s, sc, ("ended by the client after %d bytes" % cut,), r.choice([[], [max(1, cut - 1)], [max(1, cut // 2)]]), fin=True, cut=cut)
            obs.seen("ended-at", cut, variant)
            for t in (b"se-0", b"se-1", b"Se"):
                c.delete(t)
        s.stop()


def discarded(obs, seed):
    """Uploads of many megabytes, stored and discarded, each with requests right behind it"""
    r = rng("c04d", seed)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        c.get(b"warm", b"up")
        held = hold(s, 1)
        barrier(c)
        zero = bytes(1 << 20)
        for i, n in enumerate([(1 << 16) + 5, (1 << 24) - 1, (1 << 24) + 3, (1 << 25) + r.randrange(1000), 3 << 24]):
            for kind in ("held", "own", "big"):
                # stored as a file, discarded (another connection uploads the key), replaces the last
                t, k = (HELD, b"h0") if kind == "held" else (b"disc", b"d%d" % (i if kind == "own" else 0))
                c.p.pending += ["PUT", "GET", "GET"]
                c.send(req("PUT", path(t, k), [("Content-Length", n)]))
                left = n
                while left:
                    m = min(left, len(zero))
                    left -= m
                    c.send(zero[:m] + (b"" if left else req("GET", b"/disc/none") + req("GET", b"/nowhere/none")))
                obs.ev(3)
                expect(c.recv(), "PUT", 200, b"OK\r\n")
                for _ in range(2):
                    expect(c.recv(), "GET", 404, NOTFOUND)
                obs.seen("discarded", kind, n)
                obs.count("bytes", n)
                x = c.head(t, k)
                if (x is None) != (kind == "held") or x is not None and x != n:
                    raise Violation("after an upload of %d bytes (%s) HEAD gives %r" % (n, kind, x), key="discarded:%s" % kind)
        held[0].queue(b"y" * 60)
        held[0].push()
        if not s.wait(lambda: c.get(HELD, b"h0") is not None):
            raise Violation("the upload whose key the discarded ones had is not stored", key="discarded-kept")
        if c.get(HELD, b"h0") != b"x" * 40 + b"y" * 60:
            raise Violation("the upload whose key the discarded ones had has another value", key="discarded-value")
        s.stop()
