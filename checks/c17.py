"""C17: every line of every monitoring client is judged against a virtual clock (number, earliest and latest time), while clients connect, leave, stall and
send other requests, and while the cache works, saves and stops"""
import re, select, signal, socket, time
from vlib.srv import Server, Violation, Inconclusive
from vlib.http import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["rel", "asan", "dbg", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one line (or header, or end of a stream, or answer to another request) of a monitoring client that was judged. Distinct and non-trivial: "
        "combinations of what happened since the previous line (connects, the kinds of disconnects, stalls, cache requests, saves) with the position in the stream "
        "(first, below 10, 256, more) and the transport; ways a request was cut; states of the streams at the stop.")
ASSUME = ["time is what gettimeofday returns to the server (moved forward by the shim)", "steps of the clock are at most one second in judged runs"]
IVAL = 5.0
HEAD = re.compile(rb"HTTP/1\.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: ([^\r\n]*)\r\n\r\n")


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(18 if q else 240):
        out.append(("streams", dict(seed="%d-%d" % (seed, i), variant=["rel", "asan", "dbg"][i % 3], unix=i % 2 == 0, steps=220 if q else 900)))
    for i in range(6 if q else 60):
        out.append(("stalls", dict(seed="%d-s%d" % (seed, i), variant=["rel", "asan", "dbg"][i % 3], rounds=3 if q else 10)))
    for i in range(8 if q else 60):
        out.append(("requests", dict(seed="%d-r%d" % (seed, i), variant=["rel", "asan", "dbg", "asan:BUFFER_SIZE=1024"][i % 4], n=150 if q else 1000)))
    for i in range(6 if q else 60):
        out.append(("stops", dict(seed="%d-q%d" % (seed, i), variant=["rel", "asan", "dbg"][i % 3], rounds=6 if q else 20)))
    out.append(("real_time", dict(seed="%d" % seed, seconds=11 if q else 61)))
    out.insert(0, ("long", dict(seed="%d-l" % seed, lines=900 if q else 66000)))
    out.insert(0, ("wrap", dict(seed="%d-w" % seed, lines=65800 if q else 140000)))
    return out


class Stream:
    """One client of /conn. expects the header, then the numbers"""

    def __init__(self, s, sock, tag):
        self.s, self.sock, self.tag = s, sock, tag
        sock.setblocking(False)
        self.buf = b""
        self.head = False
        self.n = 0              # next number
        self.lo = self.hi = None    # bounds (server clock, us) of the time the last line was sent
        self.quiet = s.now()    # the server clock when nothing more was there
        self.t0 = None          # when the request was complete
        self.eof = False
        self.q = False
        self.wrap = 65536

    def fail(self, msg, key, soft=False):
        raise Violation("%s client: %s" % (self.tag, msg), key=key, soft=soft)

    def pump(self):
        """-> number of new lines"""
        before = self.s.now()
        got = b""
        try:
            while True:
                d = self.sock.recv(65536)
                if not d:
                    self.eof = True
                    break
                got += d
        except BlockingIOError:
            pass
        except OSError:
            self.eof = True
        now = self.s.now()
        if not got:
            if not self.eof:
                self.quiet = before
            return 0
        self.buf += got
        if not self.head:
            m = HEAD.match(self.buf)
            if not m:
                if b"\r\n\r\n" in self.buf:
                    self.fail("the response starts with %r" % self.buf[:200], "stream-header")
                return 0
            if m.group(1).decode() != socket.gethostname():
                self.fail("the header names the host %r" % m.group(1), "stream-hostname")
            self.buf = self.buf[m.end():]
            self.head = True
        lines = self.buf.split(b"\n")
        self.buf = lines.pop()
        for l in lines:
            if self.q:
                self.fail("line %r after q" % l, "after-q")
            if l == b"q":
                self.q = True
                continue
            if l != b"%d" % (self.n % self.wrap):
                self.fail("line %r instead of %d" % (l, self.n), "sequence")
            if self.t0 is None:
                self.fail("line %r before the request was complete" % l, "early-first")
            lo = self.quiet
            if self.lo is not None:
                if len(lines) > 1:
                    lo = max(lo, self.lo)
            self.n += 1
            self.prev = (self.lo, self.hi)
            self.lo, self.hi = lo, now
        return len(lines)


def ask(r, s, mon=True, cut=True, pre=b""):
    """A connection that requests /conn; -> (socket, how it was cut)"""
    x = s.raw(mon=True)
    data = b"GET /conn HTTP/1.1\r\n" + r.choice([b"", b"Host: x\r\n", b"Accept: */*\r\nUser-Agent: test\r\n", b"X: \r\n"]) + b"\r\n"
    parts = gen.cuts(r, len(data)) if cut else [len(data)]
    i = 0
    if r.random() < .2:
        data += r.choice([b"GET /conn HTTP/1.1\r\n\r\n", b"x" * 10, b"\r\n"])
        parts[-1] += len(data) - sum(parts)
    for p in parts:
        x.sendall(data[i:i + p])
        i += p
        if len(parts) > 1 and r.random() < .5:
            time.sleep(r.choice([0, .001, .01]))
    return x, (len(parts) if len(parts) < 4 else 4)


def judge(obs, c, why, step):
    """A line arrived: was it due?"""
    if c.prev[0] is not None and c.hi - c.prev[0] < (IVAL - step) * 1e6 - 60000:
        c.fail("line %d came at most %.3f s after the one before (%s)" % (c.n - 1, (c.hi - c.prev[0]) / 1e6, why), "too-early")
    if c.prev[1] is not None and c.lo - c.prev[1] > (IVAL + step + .5) * 1e6:
        c.fail("line %d came at least %.3f s after the one before (%s)" % (c.n - 1, (c.lo - c.prev[1]) / 1e6, why), "late", soft=True)
    obs.ev()


def advance_all(obs, s, live, step, why):
    """Move the clock by one step; every stream has to get what is due and nothing else"""
    s.advance(step)
    for c in live:
        if c.pump():
            judge(obs, c, why, step)
    now = s.now()
    for c in live:
        if c.eof:
            s.check()
            c.fail("the connection was closed (after line %d; %s)" % (c.n - 1, why), "stream-closed")
        if c.hi is not None and now > c.hi + IVAL * 1e6 + 60000:
            t0 = time.time()
            while not c.pump():
                if c.eof:
                    s.check()
                    c.fail("the connection was closed instead of line %d (%s)" % (c.n, why), "stream-closed")
                if time.time() - t0 > 2:
                    s.check()
                    c.fail("line %d did not come although it has been due for %.1f s (%s)" % (c.n, (s.now() - c.hi) / 1e6 - IVAL, why), "late", soft=True)
                time.sleep(.002)
            judge(obs, c, why, step)


def first(obs, s, c):
    """The header and the first line come at once"""
    c.t0 = c.quiet = s.now()
    t0 = time.time()
    while c.n == 0:
        c.pump()
        if c.eof:
            s.check()
            c.fail("the connection was closed instead of the first line, got %r" % c.buf[:80], "first-closed")
        if time.time() - t0 > 3:
            s.check()
            c.fail("no first line at once, got %r" % (c.buf[:80] if not c.head else "the header"), "first-late", soft=True)
        time.sleep(.0005)
    obs.ev()


def streams(obs, seed, variant, unix, steps):
    r = rng("c17", seed)
    with Server(variant, unix=unix, shm=dict(sndbuf=4608) if unix and r.random() < .5 else None) as s:
        ctl = Conn(s)
        ctl.put(b"t", b"k", b"v" * 5000)
        base = s.nsock()
        live, others, events = [], [], []
        if r.random() < .4:
            s.shm.set(sock_wlimit=r.choice([1, 3, 50]))
        if r.random() < .3:
            s.shm.set(sock_rlimit=r.choice([1, 7]))
        style = r.choice(["few", "churn", "churn", "many"])
        cap = dict(few=4, churn=12, many=60)[style]
        fine = r.random() < .4
        for i in range(steps * 3 if fine else steps):
            for _ in range(r.choice([0, 0, 0, 1]) if fine else r.choice([0, 1, 1, 2, 4])):
                x = r.random()
                if x < .35 and len(live) < cap:
                    k, cut = ask(r, s)
                    c = Stream(s, k, "unix" if unix else "tcp")
                    first(obs, s, c)
                    live.append(c)
                    events.append("connect%d" % cut)
                    obs.seen("cut", cut, unix)
                    obs.count("clients")
                elif x < .42 and len(live) < cap:
                    # several at once, answered in any order
                    cs = []
                    for _ in range(r.randrange(2, 6)):
                        k, cut = ask(r, s, cut=False)
                        c = Stream(s, k, "unix" if unix else "tcp")
                        c.t0 = s.now()
                        cs.append(c)
                    for c in cs:
                        first(obs, s, c)
                    live += cs
                    events.append("burst")
                elif x < .62 and live and len(live) > r.choice([1, 1, cap // 3]):
                    c = live.pop(r.choice([0, -1, r.randrange(len(live))]))
                    how = r.choice(["close", "rst", "half", "data-close"])
                    if how == "half":
                        c.sock.shutdown(socket.SHUT_WR)
                        others.append(c.sock)
                    elif how == "rst" and not unix:
                        c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                        c.sock.close()
                    else:
                        if how == "data-close":
                            try:
                                c.sock.send(b"x" * 100)
                            except OSError:
                                pass
                        c.sock.close()
                    events.append(how)
                elif x < .72:
                    # a client which does something else, or nothing
                    k = s.raw(mon=True)
                    what = r.choice([b"", b"G", b"GET /conn HTTP/1.1\r\n", b"GET /con", b"GET / HTTP/1.1\r\n\r\n", b"PUT /conn HTTP/1.1\r\n\r\n", b"GET /x HTTP/1.1\r\n\r\n"])
                    if what:
                        k.sendall(what)
                    others.append(k)
                    events.append("other")
                elif x < .8 and others:
                    others.pop(r.randrange(len(others))).close()
                    events.append("other-leaves")
                elif x < .9:
                    for _ in range(r.randrange(1, 4)):
                        ctl.put(b"t", b"k%d" % r.randrange(9), b"v" * r.choice([10, 5000, 60000]))
                        ctl.get(b"t", b"k%d" % r.randrange(9))
                    events.append("cache")
                elif x < .93:
                    ctl.gc()
                    events.append("save")
                elif x < .95 and live:
                    # input after the request does not matter
                    try:
                        r.choice(live).sock.send(r.choice([b"x", b"GET / HTTP/1.1\r\n\r\n", b"\r\n"]))
                    except OSError:
                        pass
                    events.append("input")
            step = r.choice([.02, .1, .1]) if fine else r.choice([.05, .3, .7, .95, .95, .95, .95])
            why = ",".join(sorted(set(events)))[:200] or "nothing else happened"
            had = [c.n for c in live]
            advance_all(obs, s, live, step, why)
            if any(c.n != n for c, n in zip(live, had)):
                for e in set(events):
                    obs.seen(e, len(live) > 1, unix, max(c.n for c in live) > 9, style)
                obs.count("lines", sum(c.n - n for c, n in zip(live, had)))
                events = []
            obs.counts["max_clients"] = max(obs.counts.get("max_clients", 0), len(live))
        s.shm.set(sock_wlimit=0, sock_rlimit=0)
        for c in live:
            c.sock.close()
        for k in others:
            k.close()
        if not s.wait(lambda: s.nsock() <= base, 10):
            raise Violation("%d monitoring connections stay open after their clients left" % (s.nsock() - base), key="streams-left", soft=True)
        barrier(ctl)
        s.stop()


def stalls(obs, seed, variant, rounds):
    """Clients that stop reading: a prefix of the count, then the end; nobody else notices"""
    r = rng("c17s", seed)
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        ctl = Conn(s)
        barrier(ctl)
        base = s.nsock()
        for rnd in range(rounds):
            s.shm.set(sock_wlimit=r.choice([0, 0, 1, 2]))
            live, stalled = [], []
            for i in range(r.randrange(1, 8)):
                k, _ = ask(r, s)
                c = Stream(s, k, "reading")
                first(obs, s, c)
                live.append(c)
                if r.random() < .7:
                    k, _ = ask(r, s)
                    c = Stream(s, k, "stalled")
                    # (a header which does not fit into the socket's buffer only exists with the shim's limit)
                    if r.random() < .5 or s.shm.get("sock_wlimit"):
                        first(obs, s, c)
                    c.t0 = s.now()
                    stalled.append(c)
                if r.random() < .5:
                    advance_all(obs, s, live, r.choice([.3, .95]), "clients stall")
            if not stalled:
                k, _ = ask(r, s)
                c = Stream(s, k, "stalled")
                first(obs, s, c)
                stalled.append(c)
            n0 = live[0].n
            while live[0].n < n0 + 22:
                advance_all(obs, s, live, .95, "%d clients stall" % len(stalled))
            # they are gone for the server
            if not s.wait(lambda: s.nsock() <= base + len(live), 10):
                raise Violation("%d of %d clients which have not read 20 lines are still connected" % (s.nsock() - base - len(live), len(stalled)), key="stalled-kept")
            for c in stalled:
                t0 = time.time()
                while not c.eof and time.time() - t0 < 10:
                    c.pump()
                if not c.eof:
                    raise Violation("a client which has not read for 100 s is not disconnected", key="stalled-kept")
                obs.ev()
                obs.seen("stalled", c.n, len(stalled), s.shm.get("sock_wlimit"))
                obs.count("stalled_clients")
                c.sock.close()
            for c in live:
                c.sock.close()
            if not s.wait(lambda: s.nsock() <= base, 10):
                raise Violation("monitoring connections stay open after their clients left", key="streams-left", soft=True)
        s.shm.set(sock_wlimit=0)
        barrier(ctl)
        s.stop()


OTHER = [(b"GET", b"/", 200, b"OK\r\n"), (b"HEAD", b"/", 200, b""), (b"GET", b"/x", 404, b"Path Not Found\r\n"), (b"HEAD", b"/x", 404, b""),
         (b"GET", b"/connx", 404, b"Path Not Found\r\n"), (b"GET", b"/con", 404, b"Path Not Found\r\n"), (b"GET", b"//", 404, b"Path Not Found\r\n"),
         (b"GET", b"/" + b"p" * 3000, 404, b"Path Not Found\r\n"), (b"GET", b"/conn/", 404, b"Path Not Found\r\n")]
BADR = [b"PUT /conn HTTP/1.1\r\nContent-Length: 1\r\n\r\nx", b"GET conn HTTP/1.1\r\n\r\n", b"DELETE / HTTP/1.1\r\n\r\n", b"ABCDEFGHIJK / HTTP/1.1\r\n\r\n", b"GET x\r\n\r\n",
        b"POST /conn HTTP/1.1\r\n\r\n", b"get /conn HTTP/1.1\r\n\r\n"]


def lines(r, at, n):
    """Empty lines, after which the end of a small buffer is within the next n bytes"""
    return b"\n" * ((-at - r.randrange(1, n)) % 1024)


def requests(obs, seed, variant, n):
    """Sequences of other requests on one connection, in any division, with a stream or an error as the last one"""
    r = rng("c17r", seed)
    with Server(variant, unix=r.random() < .5) as s:
        with Conn(s) as ctl:
            barrier(ctl)
        watch = []
        for _ in range(3):
            k, _ = ask(r, s)
            c = Stream(s, k, "watching")
            first(obs, s, c)
            watch.append(c)
        for i in range(n):
            s.shm.set(sock_wlimit=r.choice([0, 0, 0, 1, 10]), sock_rlimit=r.choice([0, 0, 0, 1, 5]))
            c = Conn(s, mon=True)
            data, exp = b"", []
            placed = s.small and r.random() < .7
            for _ in range(r.choice([0, 1, 2, 5, 20])):
                m, u, st, b = r.choice(OTHER)
                if s.small:
                    u = u[:200]
                    if placed:
                        data += lines(r, len(data), len(m) + len(u) + 12)
                elif r.random() < .1:
                    data += r.choice([b"\r\n", b"\n"])
                data += m + b" " + u + b" HTTP/1.1\r\n" + r.choice([b"", b"Host: x\r\n"]) + b"\r\n"
                exp.append((m.decode(), u, st, b))
            last = r.choice(["none", "conn", "bad"])
            if placed:
                data += lines(r, len(data), 20)
                s.shm.set(sock_rlimit=0)
            if last == "conn":
                data += b"GET /conn HTTP/1.1\r\n\r\n"
            elif last == "bad":
                bad = r.choice(BADR)
                data += bad
            for m, u, st, b in exp:
                c.p.pending.append(m)
            cuts = gen.cuts(r, len(data), "one" if placed else None) if data else [0]
            send_reading(c, data, cuts)
            for m, u, st, b in exp:
                res = c.recv()
                if res.status != st or res.body != b or res.h("connection") != "Keep-Alive":
                    raise Violation("%s %r on the monitoring port answered %r" % (m, u[:20], res), key="mon-answer:%s:%d" % (m, st))
                obs.ev()
                obs.seen("request", m, u[:10], len(cuts) if len(cuts) < 4 else 4, last)
            if last == "conn":
                x = Stream(s, c.s, "after %d requests" % len(exp))
                x.buf = bytes(c.p.buf)
                x.t0 = s.now()
                if x.buf:
                    # what came together with the answers
                    pre = x.buf
                    x.buf = b""
                    x.sock = Glued(pre, c.s)
                first(obs, s, x)
            elif last == "bad":
                c.p.pending.append("GET")
                res = c.recv()
                if res.status != 400 or res.h("connection") != "Close":
                    raise Violation("%r on the monitoring port answered %r" % (bad, res), key="mon-bad")
                c.s.settimeout(10)
                try:
                    rest = c.s.recv(100)
                except ConnectionResetError:
                    rest = b""
                except socket.timeout:
                    raise Violation("the connection stays open after %r" % res, key="mon-bad-open", soft=True)
                if rest or c.p.buf:
                    raise Violation("%r after the answer to %r" % (rest or bytes(c.p.buf), bad), key="mon-bad-more")
                obs.ev()
                obs.seen("bad", bad, len(cuts) if len(cuts) < 4 else 4)
            c.close()
            if i % 10 == 0:
                s.shm.set(sock_wlimit=0, sock_rlimit=0)
                advance_all(obs, s, watch, .9, "other requests")
        s.check()
        s.stop()


class Glued:
    """A socket some of whose input has been read already"""

    def __init__(self, pre, s):
        self.pre, self.s = pre, s

    def setblocking(self, f):
        self.s.setblocking(f)

    def recv(self, n):
        if self.pre:
            p, self.pre = self.pre, b""
            return p
        self.s.setblocking(False)
        return self.s.recv(n)


def send_reading(c, data, cuts):
    """Sends while reading: the answers need not fit into the socket's buffers"""
    c.s.setblocking(False)
    cuts = [n for n in cuts if n]
    t0 = time.time()
    try:
        while cuts:
            try:
                n = c.s.send(data[:cuts[0]])
                data = data[n:]
                cuts[0] -= n
                if not cuts[0]:
                    cuts.pop(0)
                t0 = time.time()
            except BlockingIOError:
                select.select([c.s], [c.s], [], .1)
            except OSError as e:
                time.sleep(.02)
                c.srv.check()
                raise Violation("connection broken while sending: %s" % e, key="conn-broken-send", soft=True)
            try:
                d = c.s.recv(65536)
                c.p.buf += d
                c.p.eof = c.p.eof or not d
                t0 = time.time()
            except BlockingIOError:
                pass
            except OSError:
                c.p.eof = True
            if time.time() - t0 > 20:
                c.srv.check()
                raise Violation("the server stopped reading requests", key="hang:send", soft=True)
    finally:
        c.s.setblocking(True)
        c.s.settimeout(30)


def stops(obs, seed, variant, rounds):
    """An orderly stop ends every stream with q"""
    r = rng("c17q", seed)
    with Server(variant, unix=r.random() < .5, start=False) as s:
        for rnd in range(rounds):
            s.start()
            n = r.choice([0, 1, 2, 5, 30])
            live = []
            others = []
            for i in range(n):
                k, _ = ask(r, s)
                c = Stream(s, k, "stopped")
                first(obs, s, c)
                live.append(c)
                if r.random() < .2:
                    k = s.raw(mon=True)
                    k.sendall(r.choice([b"GET /co", b"GET / HTTP/1.1\r\n\r\n", b"x"]))
                    others.append(k)
                if r.random() < .3:
                    advance_all(obs, s, live, .95, "before a stop")
            for _ in range(r.choice([0, 0, 6, 12])):
                advance_all(obs, s, live, .95, "before a stop")
            for _ in range(r.randrange(0, 3)):
                if live:
                    live.pop(r.randrange(len(live))).sock.close()
            if r.random() < .3:
                with Conn(s) as c:
                    c.put(b"t", b"k", b"v" * 5000)
                    c.gc()
            s.stop(r.choice([signal.SIGTERM, signal.SIGINT]))
            for c in live:
                t0 = time.time()
                while not c.eof and time.time() - t0 < 5:
                    c.pump()
                if not c.q or not c.eof or c.buf:
                    c.fail("an orderly stop ended the stream without q (after line %d, then %r, closed: %s)" % (c.n - 1, c.buf, c.eof), "no-q")
                c.sock.close()
                obs.ev()
                obs.seen("stop", n, c.n > 1, len(others) > 0, variant)
                obs.count("stopped_streams")
            for k in others:
                k.close()


def real_time(obs, seed, seconds):
    """Without moving the clock"""
    with Server("rel", unix=True) as s:
        cs = []
        for i in range(6):
            x = s.raw(mon=True)
            x.sendall(b"GET /conn HTTP/1.1\r\n\r\n")
            c = Stream(s, x, "real time")
            t = time.monotonic()
            first(obs, s, c)
            c.at = [t]
            c.polled = t
            cs.append(c)
            time.sleep(.13)
        t0 = time.monotonic()
        while time.monotonic() - t0 < seconds:
            for c in cs:
                b = time.monotonic()
                k = c.pump()
                if k:
                    t = time.monotonic()
                    if k > 1 or t - c.at[-1] < IVAL - .1:
                        c.fail("line %d came %.3f s after the one before" % (c.n - 1, t - c.at[-1]), "too-early", soft=True)
                    c.at.append(t)
                    obs.ev()
                    obs.seen("real", c.n)
                if c.eof:
                    c.fail("closed", "stream-closed")
                if time.monotonic() - c.at[-1] > IVAL + 1.5:
                    c.fail("line %d did not come within %.1f s" % (c.n, IVAL + 1.5), "late", soft=True)
            time.sleep(.01)
        s.stop()


def wrap(obs, seed, lines):
    """All the numbers there are and those after, at the pace of signals of the timer which are sent to the server besides its own"""
    r = rng("c17wr", seed)
    with Server("rel", unix=True) as s:
        cs = []
        for i in range(2):
            k, _ = ask(r, s)
            c = Stream(s, k, "wrapping")
            first(obs, s, c)
            cs.append(c)
        t0 = time.time()
        while cs[0].n < lines and time.time() - t0 < 80:
            before = [c.n for c in cs]
            s.shm.set(clock_off_us=s.shm.get("clock_off_us") + int(IVAL * 1e6))
            s.sendsig(signal.SIGALRM)
            t1 = time.time()
            while any(c.n == n for c, n in zip(cs, before)):
                select.select([c.sock for c in cs], [], [], .005)
                for c in cs:
                    c.pump()
                    if c.eof:
                        s.check()
                        c.fail("closed after line %d" % (c.n - 1), "stream-closed")
                if time.time() - t1 > 2:
                    raise Violation("a line did not come although it is due", key="late", soft=True)
        if cs[0].n < lines:
            obs.count("wrap_cut_short")
        obs.ev(sum(c.n for c in cs))
        obs.seen("wrap", cs[0].n > 65536)
        obs.count("max_line", cs[0].n)
        s.stop()


def long(obs, seed, lines):
    """Long streams: no number is left out or repeated"""
    r = rng("c17l", seed)
    with Server("rel", unix=True) as s:
        cs = []
        for i in range(8):
            k, _ = ask(r, s)
            c = Stream(s, k, "long")
            first(obs, s, c)
            cs.append(c)
        t0 = time.time()
        while min(c.n for c in cs) < lines:
            before = [c.n for c in cs]
            s.shm.set(clock_off_us=s.shm.get("clock_off_us") + int(IVAL * 1e6))
            t1 = time.time()
            while any(c.n == n for c, n in zip(cs, before)):
                for c in cs:
                    c.pump()
                    if c.eof:
                        s.check()
                        c.fail("closed after line %d" % (c.n - 1), "stream-closed")
                if time.time() - t1 > .8:
                    raise Violation("a line did not come although it is due", key="late", soft=True)
                select.select([c.sock for c in cs], [], [], .005)
            if time.time() - t0 > 1300:
                break
        for c in cs:
            el = (s.now() - c.t0) / 1e6
            if c.n > el / IVAL + 2:
                c.fail("%d lines in %.1f s" % (c.n, el), "too-many")
            if c.n < el / IVAL * .95 - 2:
                c.fail("%d lines in %.1f s" % (c.n, el), "too-few", soft=True)
        obs.ev(sum(c.n for c in cs))
        obs.seen("long", len("%d" % min(c.n for c in cs)))
        obs.count("max_line", max(c.n for c in cs))
        s.stop()
