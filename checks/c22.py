"""C22: generated lists of addresses; the listening sockets of the process against them, and a model history over all listeners"""
import os, random, signal, socket, stat, subprocess, threading, time
from vlib.srv import Server, Violation, Inconclusive, _libc, free_port
from vlib import build
from vlib.http import *
from vlib.audit import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel"]
RULE = ("A case is one start with a configuration (or one operation through one of its listeners). Distinct and non-trivial: combinations of kinds of addresses in their order for "
        "both options, forms of options, and the listeners and operations used.")
ASSUME = ["addresses are well formed (an address that can't be parsed is left open), each is named once", "IPv6 is tested where the sandbox has it",
          "IP_TRANSPARENT is observed at the call, as it needs a privilege"]
TABS = [b"t", b"uu"]
KEYS = [b"k%d" % i for i in range(6)]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(16 if q else 200):
        out.append(("lists", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "rel"][i % 3], rounds=8 if q else 40)))
    for i in range(4 if q else 40):
        out.append(("crowd", dict(seed="%d-c%d" % (seed, i), variant=["rel", "asan"][i % 2], rounds=3 if q else 12)))
    for i in range(4 if q else 20):
        out.append(("refused", dict(seed="%d-r%d" % (seed, i), rounds=24 if q else 80)))
    for i in range(6 if q else 60):
        out.append(("options", dict(seed="%d-o%d" % (seed, i), rounds=5 if q else 30)))
    return out


def have6():
    s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
    try:
        s.bind(("::1", 0))
        return True
    except OSError:
        return False
    finally:
        s.close()


class Bind:
    """An address: its text, how it shows up, and how to connect to it"""

    def __init__(self, text, fam, key, conn, transparent=False):
        self.text, self.fam, self.key, self.conn, self.transparent = text, fam, key, conn, transparent

    def connect(self, rcvbuf=None):
        s = socket.socket(self.fam, socket.SOCK_STREAM)
        s.settimeout(30)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect(self.conn)
        return s


UNIX_ODD = ["[x]:80", "t", "u:u:", "a b", "p:1234t", "127.0.0.1:80", "x]", "dots..", "\xff\xfe".encode("latin1").decode("utf8", "surrogateescape"), "-b", "#%&=;"]


BROKEN = {
    "host": ["localhost:%(p)d", "127.0.0.256:%(p)d", "127.0.0:%(p)d", "127.0.0.1x:%(p)d", "127.0.0.1.:%(p)d", "0x7f.0.0.1:%(p)d", "*:%(p)d"],
    "host6": ["[::g]:%(p)d", "[127.0.0.1]:%(p)d", "[::1::1]:%(p)d", "[::1:%(p)d", "[1:2:3]:%(p)d"],
    "no-port": ["127.0.0.1", "127.0.0.1:", "localhost", "%(p)d", "127.0.0.1:t"],
    "port": ["127.0.0.1:http", "127.0.0.1:65536", "127.0.0.1:%(p)dx", "127.0.0.1:1%(p)05d", "127.0.0.1:-%(p)d", "[::1]:6553700", "127.0.0.1:x%(p)d"],
}


def mkport(r, host, fam):
    for _ in range(300):
        p = r.choice([r.randrange(1024, 10000), r.randrange(10000, 31000), r.randrange(61000, 65536)])
        s = socket.socket(fam, socket.SOCK_STREAM)
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((host, p))
            return p
        except OSError:
            pass
        finally:
            s.close()
    raise Inconclusive("no port")


def mkbind(r, d, six, used):
    kind = r.choice(["4", "4", "4any", "u", "u", "u", "uodd"] + (["6", "6", "6any", "6map"] if six else []))
    real = random.SystemRandom()
    tr = r.random() < .15
    if kind in ("u", "uodd"):
        if kind == "uodd":
            n = r.choice(UNIX_ODD)
            p = os.path.join(d, n)
        else:
            L = r.choice([len(d) + 2, len(d) + 5, 50, 100, 106, 107])
            L = max(L, len(d) + 2)
            p = d + "/" + "".join(r.choice("abcdefghij0123") for _ in range(L - len(d) - 1))
        if p in used:
            return mkbind(r, d, six, used)
        used.add(p)
        if r.random() < .3:
            return Bind("u:" + p[len(d) + 1:], socket.AF_UNIX, ("unix", p[len(d) + 1:]), p)
        return Bind("u:" + p, socket.AF_UNIX, ("unix", p), p)
    if kind in ("4", "4any"):
        host = "0.0.0.0" if kind == "4any" else "127.%d.%d.%d" % (r.choice([0, 0, 1, 255]), r.choice([0, 0, 9, 255]), r.choice([1, 1, 2, 77, 254]))
        fam = socket.AF_INET
        port = mkport(real, "0.0.0.0", fam)
        text, conn = "%s:%d" % (host, port), ("127.0.0.1" if kind == "4any" else host, port)
        key = ("tcp", socket.inet_pton(fam, host), port)
    else:
        fam = socket.AF_INET6
        host = {"6": r.choice(["::1", "0:0:0:0:0:0:0:1", "0000:0000:0000:0000:0000:0000:0000:0001", "::0.0.0.1"]), "6any": r.choice(["::", "0::0"]), "6map": "::ffff:127.0.0.%d" % r.choice([1, 5])}[kind]
        port = mkport(real, "::", fam)
        text, conn = "[%s]:%d" % (host, port), ("::1" if kind == "6any" else host, port)
        key = ("tcp6", socket.inet_pton(fam, host), port)
    if port in used:
        return mkbind(r, d, six, used)
    used.add(port)
    return Bind(text + ("t" if tr else ""), fam, key, conn, tr)


def listening(pid):
    """The listening sockets of the process: [(key, fd)]"""
    ino = {}
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            t = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError:
            continue
        if t.startswith("socket:["):
            ino[t[8:-1]] = int(f)
    out = []
    for n in ("tcp", "tcp6"):
        try:
            ls = open("/proc/%d/net/%s" % (pid, n)).read().split("\n")[1:]
        except OSError:
            continue
        for l in ls:
            w = l.split()
            if len(w) > 9 and w[3] == "0A" and w[9] in ino:
                h, p = w[1].split(":")
                raw = bytes.fromhex(h)
                raw = b"".join(raw[i:i + 4][::-1] for i in range(0, len(raw), 4))
                out.append(((n, raw, int(p, 16)), ino[w[9]]))
    for l in open("/proc/%d/net/unix" % pid, errors="surrogateescape").read().split("\n")[1:]:
        w = l.split(None, 7)
        if len(w) > 7 and int(w[3], 16) & 0x10000 and w[6] in ino:
            out.append((("unix", w[7]), ino[w[6]]))
    return list(dict.fromkeys(out))    # the kernel may list one twice (or leave one out) while others come and go


class Multi(Server):
    """A server with any lists"""

    def __init__(self, variant, **kw):
        self.cache, self.monb, self.opts = [], [], []
        Server.__init__(self, variant, start=False, **kw)
        self.r = random.Random(0)

    def argv(self):
        o = []
        r = self.r
        for name, short, binds in (("bind", "b", self.cache), ("monitor", "B", self.monb)):
            if binds:
                o.append(form(r, name, short, ",".join(b.text for b in binds)))
        o.append(form(r, "database-file-path", "r", self.db + r.choice(["", "/"])))
        o += [list(x) for x in self.opts]
        r.shuffle(o)
        return [self.binary] + [x for y in o for x in y]

    @property
    def first(self):
        return self.cache[0]

    def raw(self, mon=False, rcvbuf=None, timeout=30):
        return (self.monb if mon else self.cache)[0].connect(rcvbuf)

    def via(self, b):
        return Via(self, b)


class Via:
    """The server as seen through one listener"""

    def __init__(self, s, b):
        self.s, self.b = s, b

    def raw(self, mon=False, rcvbuf=None, timeout=30):
        try:
            return self.b.connect(rcvbuf)
        except OSError as e:
            self.s.check()
            raise Violation("%s is not served: %s" % (kindof(self.b), e), key="not-served:" + kindof(self.b), detail=self.b.text)

    def check(self):
        self.s.check()


def kindof(b):
    return {socket.AF_INET: "an IPv4 address", socket.AF_INET6: "an IPv6 address", socket.AF_UNIX: "a unix socket"}[b.fam]


def form(r, long, short, val):
    f = r.randrange(4)
    if short is None:
        f |= 2
    return [["-" + short, val], ["-%s%s" % (short, val)], ["--" + long, val], ["--%s=%s" % (long, val)]][f] if short else \
           [["--" + long, val], ["--%s=%s" % (long, val)]][f & 1]


def sockets_ok(s, what):
    want = sorted([repr(b.key) for b in s.cache + s.monb])
    for _ in range(8):
        ls = listening(s.proc.pid)
        got = sorted(repr(k) for k, f in ls)
        if want == got:
            break
        time.sleep(.02)
    if want != got:
        raise Violation("%s: the server listens on %d addresses, %d are configured; not opened: %s, not configured: %s" % (
            what, len(got), len(want), [x for x in want if x not in got][:3], [x for x in got if x not in want][:3]), key="listeners",
            detail="-b %s\n-B %s" % (",".join(b.text for b in s.cache), ",".join(b.text for b in s.monb)))
    tp = s.shm.get("transp")
    byk = {k: f for k, f in ls}
    for b in s.cache + s.monb:
        f = byk[b.key]
        if b.fam == socket.AF_UNIX:
            m = os.stat(b.conn)
            if not stat.S_ISSOCK(m.st_mode) or m.st_mode & 0o777 != 0o777:
                raise Violation("a unix socket has the mode %o" % m.st_mode, key="unix-mode")
        elif bool(tp >> f & 1) != b.transparent:
            raise Violation("%s %s transparent" % (b.text, "is not" if b.transparent else "is"), key="transparent")


def mon_ok(s, b):
    """A monitoring listener answers as one and does not touch the data"""
    with Conn(s.via(b)) as c:
        r = c.do("GET", "/")
        if r.status != 200 or b"DB Keys" in r.body:
            raise Violation("%s of -B answers GET / with %r" % (kindof(b), r), key="mon-root")
        r = c.do("GET", "/t/k0")
        if r.status != 404 or r.body == NOTFOUND:
            raise Violation("%s of -B answers a cache request with %r" % (kindof(b), r), key="mon-cache")
        c.p.pending.append("GET")
        c.send(b"GET /conn HTTP/1.1\r\n\r\n")
        t0 = time.time()
        while c.p.buf.count(b"\n") < 6 and time.time() - t0 < 20:
            c.fill()
        if not c.p.buf.startswith(b"HTTP/1.1 200 ") or b"\r\n\r\n" not in c.p.buf:
            raise Violation("%s of -B streams %r" % (kindof(b), bytes(c.p.buf[:100])), key="mon-stream")


def cache_ok(s, b):
    with Conn(s.via(b)) as c:
        c.stats()
        r = c.do("GET", "/conn")
        if r.status not in (200, 404) or (r.status == 404 and r.body != NOTFOUND):
            raise Violation("%s of -b answers GET /conn with %r" % (kindof(b), r), key="cache-conn")


def settle(s, what):
    t0 = time.time()
    while time.time() - t0 < 25:
        if s.proc.poll() is not None:
            s.check()
        if s.shm.get("turns") > 0:
            try:
                for b in s.cache + s.monb:
                    b.connect().close()
                return
            except OSError:
                pass
        time.sleep(.003)
    s.check()
    for b in s.cache + s.monb:
        try:
            b.connect().close()
        except OSError as e:
            raise Violation("%s: %s is not served: %s" % (what, kindof(b), e), key="not-served:" + kindof(b), soft=True, detail=b.text)


def boot(s, what="start", pick=None):
    """pick: chooses other addresses, should one of them be in use by somebody else"""
    for attempt in range(4):
        if pick:
            pick()
        s.shm.set(transp=0)
        s.args = []          # no probing by the base class
        try:
            s.start()
            settle(s, what)
            return
        except Violation:
            if attempt < 3 and b"Address already in use" in s.outbytes()[-3000:]:
                s.kill()
                time.sleep(.05)
                continue
            raise


def lists(obs, seed, variant, rounds):
    r = rng("c22", seed)
    six = have6()
    s = Multi(variant)
    s.r = rng("c22f", seed)
    d = s.dir
    s.cwd = d
    M = {}
    try:
        for rnd in range(rounds):
            if rnd and r.random() < .4:
                # the same addresses at once again, in another order; some change sides
                al = s.cache + s.monb
                r.shuffle(al)
                n = r.randrange(1, len(al) + 1)
                s.cache, s.monb = al[:n], al[n:]
                again = True
            else:
                again = False
                # the odd case of one or two, as well as long lists
                nb, nm = r.choice([(1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (r.randrange(1, 6), r.randrange(6)), (r.randrange(3, 9), r.randrange(5))])

            def pick():
                used = set()
                s.cache = [mkbind(r, d, six, used) for _ in range(nb)]
                s.monb = [mkbind(r, d, six, used) for _ in range(nm)]
                for p in [b.conn for b in s.cache + s.monb if b.fam == socket.AF_UNIX]:
                    if r.random() < .2 and not os.path.exists(p):
                        open(p, "w").close()           # something is there already
            boot(s, pick=None if again else pick)
            sockets_ok(s, "start")
            for b in s.monb:
                mon_ok(s, b)
            for b in s.cache:
                cache_ok(s, b)
            obs.ev(len(s.cache) + len(s.monb))
            # a history over all listeners
            conns = [Conn(s.via(b)) for b in s.cache]
            for c in conns:
                for t in TABS:
                    for k in KEYS:
                        check1(c, M, t, k, "after a start", s)
            held = {}
            for i in range(r.randrange(10, 60)):
                c = r.choice(conns)
                t, k = r.choice(TABS), r.choice(KEYS)
                op = r.choice(["put", "put", "get", "get", "del", "hold", "end", "new"])
                if (t, k) in held and op in ("put", "del", "hold"):
                    continue
                if op == "put":
                    v = gen.data((seed, rnd, i), gen.size(r, 0))
                    c.put(t, k, v)
                    M.setdefault(t, {})[k] = v
                elif op == "del":
                    g = c.delete(t, k)
                    if g != (k in M.get(t, {})):
                        raise Violation("DELETE through another listener answers %s" % g, key="delete")
                    drop(M, t, k)
                elif op == "hold":
                    # in progress on one listener, looked at through the others
                    b = r.choice(s.cache)
                    u = Conn(s.via(b))
                    u.get(b"warm", b"up")
                    v = gen.data((seed, rnd, i), r.choice([100, 5000, 30000]))
                    m = req("PUT", path(t, k), (), v)
                    u.p.pending.append("PUT")
                    u.send(m[:-50])
                    t0 = time.time()
                    while c.get(t, k) is not None and time.time() - t0 < 10:
                        time.sleep(.002)
                    drop(M, t, k)
                    held[(t, k)] = (u, m[-50:], v)
                elif op == "end" and held:
                    x = r.choice(sorted(held))
                    u, rest, v = held.pop(x)
                    u.send(rest)
                    expect(u.recv(), "PUT", 200, b"OK\r\n")
                    u.close()
                    M.setdefault(x[0], {})[x[1]] = v
                elif op == "new":
                    j = r.randrange(len(conns))
                    conns[j].close()
                    conns[j] = Conn(s.via(s.cache[j]))
                check1(r.choice(conns), M, t, k, "through another listener", s)
                obs.ev()
                obs.seen(op, kindof(s.cache[conns.index(c)]) if c in conns else 0)
            for (t, k), (u, rest, v) in held.items():
                u.send(rest)
                expect(u.recv(), "PUT", 200, b"OK\r\n")
                u.close()
                M.setdefault(t, {})[k] = v
            st = None
            for c in conns:
                for t in TABS:
                    for k in KEYS:
                        check1(c, M, t, k, "at the end", s)
                check_stats(s, c, M, "through every listener")
            check_listing(s, M, "lists", TABS)
            sockets_ok(s, "after a history")
            obs.seen("config", tuple(b.key[0] for b in s.cache), tuple(b.key[0] for b in s.monb), again)
            if r.random() < .5:
                for c in conns:
                    c.close()
            s.args = []
            s.stop()       # with connections, sometimes
            for b in s.cache + s.monb:
                try:
                    b.connect().close()
                    raise Violation("%s accepts connections after the end" % b.text, key="after-end")
                except OSError:
                    pass
            obs.count("starts")
    finally:
        s.close()


def check1(c, M, t, k, what, s):
    v = M.get(t, {}).get(k)
    g = c.get(t, k)
    if g != v:
        raise Violation("%s: %s" % (what, diff(v, g)), key="value:" + what)


def crowd(obs, seed, variant, rounds):
    """Many connections at all listeners at once: each is accepted, and served as its listener says"""
    r = rng("c22c", seed)
    six = have6()
    s = Multi(variant)
    s.r = rng("c22cf", seed)
    s.cwd = s.dir
    try:
        for rnd in range(rounds):
            nb, nm = r.randrange(2, 7), r.randrange(1, 4)

            def pick():
                used = set()
                s.cache = [mkbind(r, s.dir, six, used) for _ in range(nb)]
                s.monb = [mkbind(r, s.dir, six, used) for _ in range(nm)]
            boot(s, pick=pick)
            s.shm.set(accept_delay_us=r.choice([0, 0, 300, 3000]), sched_us=r.choice([0, 0, 100]))
            errs = []
            done = [0]

            def client(b, mon, n):
                try:
                    for i in range(3):
                        with Conn(s.via(b)) as c:
                            if mon:
                                x = c.do("GET", "/")
                                if x.status != 200 or b"DB Keys" in x.body:
                                    raise Violation("a connection to %s of -B is answered %r" % (kindof(b), x), key="mon-root")
                            else:
                                k = b"c%d-%d" % (n, i)
                                v = gen.data((seed, rnd, n, i), 300 + 600 * (n % 20))
                                c.put(b"crowd", k, v)
                                if c.get(b"crowd", k) != v:
                                    raise Violation("wrong value in a crowd", key="crowd-value")
                                if not c.delete(b"crowd", k):
                                    raise Violation("a value is missing in a crowd", key="crowd-delete")
                        done[0] += 1
                except BaseException as e:
                    errs.append(e)
            ths = []
            n = 0
            for b in s.cache + s.monb:
                for _ in range(r.randrange(4, 14)):
                    ths.append(threading.Thread(target=client, args=(b, b in s.monb, n)))
                    n += 1
            r.shuffle(ths)
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for e in errs:
                if isinstance(e, Violation):
                    raise e
            if errs:
                s.check()
                raise Violation("a client failed in a crowd: %r" % errs[0], key="crowd", soft=True)
            s.shm.set(accept_delay_us=0, sched_us=0)
            sockets_ok(s, "after a crowd")
            with Conn(s) as c:
                check_stats(s, c, {}, "after a crowd")
            obs.ev(3 * len(ths))
            obs.count("connections", 3 * len(ths))
            obs.seen("crowd", len(s.cache), len(s.monb), len(ths))
            s.stop()
    finally:
        s.close()


def refused(obs, seed, rounds):
    """When one of the addresses can't be opened the server does not run with the others"""
    r = rng("c22r", seed)
    six = have6()
    s = Multi("asan")
    s.r = rng("c22rf", seed)
    s.cwd = s.dir
    try:
        def pick():
            s.cache, s.monb = [mkbind(r, s.dir, six, set())], []
        boot(s, pick=pick)
        with Conn(s) as c:
            c.put(b"t", b"k", b"v" * 5000)
        s.stop()
        for rnd in range(rounds):
            used = set()
            al = [mkbind(r, s.dir, six, used) for _ in range(r.randrange(2, 6))]
            n = r.randrange(1, len(al) + 1)
            good_c, good_m = al[:n], al[n:]
            bad = r.choice(["used", "dir", "long", "transparent", "text", "text", "text"])
            x = r.choice([b for b in al if b.fam != socket.AF_UNIX] or [None])
            if bad in ("used", "transparent") and x is None:
                bad = "dir"
            blocker = None
            if bad == "used":
                blocker = socket.socket(x.fam, socket.SOCK_STREAM)
                try:
                    blocker.bind(("0.0.0.0" if x.fam == socket.AF_INET else "::", x.key[2]))
                    blocker.listen(1)
                except OSError:
                    blocker.close()
                    continue
                s.cache, s.monb = good_c, good_m
            elif bad == "transparent":
                if not x.transparent:
                    x.text += "t"
                    x.transparent = True
                s.shm.set(transp_fail=1)
                s.cache, s.monb = good_c, good_m
            elif bad == "text":
                # something else than an address: nothing else is to be opened for it
                bad = r.choice(sorted(BROKEN))
                t = r.choice(BROKEN[bad]) % {"p": mkport(random.SystemRandom(), "0.0.0.0", socket.AF_INET)}
                al2 = list(al)
                al2[r.randrange(len(al2))] = Bind(t, socket.AF_INET, None, t)
                s.cache, s.monb = al2[:n], al2[n:]
            else:
                p = s.dir + ("/no/such" if bad == "dir" else "/" + "l" * (r.choice([108, 109, 150, 300]) - len(s.dir) - 1))
                al2 = list(al)
                al2[r.randrange(len(al2))] = Bind("u:" + p, socket.AF_UNIX, None, p)
                s.cache, s.monb = al2[:n], al2[n:]
            s.args = []
            s.start()
            if not s.wait_dead(20):
                raise Violation("the server runs although one of its addresses can't be opened (%s)" % bad, key="runs-without:" + bad)
            s.shm.set(transp_fail=0)
            s.check_san()
            if s.rc == 0:
                raise Violation("a refused start ends with 0 (%s)" % bad, key="refused-status:" + bad)
            if blocker:
                blocker.close()
            obs.ev()
            obs.seen("refused", bad, tuple(b.key and b.key[0] for b in s.cache + s.monb))
        boot(s, pick=pick)
        with Conn(s) as c:
            if c.get(b"t", b"k") != b"v" * 5000:
                raise Violation("refused starts changed the stored data", key="refused-data")
        s.stop()
    finally:
        s.close()


def options(obs, seed, rounds):
    """All options in any order and form: each has its effect"""
    r = rng("c22o", seed)
    six = have6()
    _libc.prctl(36, 1, 0, 0, 0)
    s = Multi("dbg" if r.random() < .3 else "asan")
    s.r = rng("c22of", seed)
    s.cwd = s.dir
    root = s.dir
    try:
        for rnd in range(rounds):
            s.db = os.path.join(root, "db%d" % rnd)
            os.mkdir(s.db)
            nb, nm = r.randrange(1, 4), r.randrange(3)

            def pick():
                used = set()
                s.cache = [mkbind(r, root, six, used) for _ in range(nb)]
                s.monb = [mkbind(r, root, six, used) for _ in range(nm)]
            pick()
            o = []
            limit = r.choice([None, 20000, 100000, (1 << 32) + 1000, 1 << 40, (1 << 31) + 5])
            lru = r.choice([None, 0, 10, 35, 50, 100])
            pidf = os.path.join(root, "pid%d" % rnd) if r.random() < .5 else None
            leave = r.random() < .3
            out = r.random() < .4
            daemon = r.random() < .3
            if daemon:
                for b in s.cache + s.monb:
                    if b.fam == socket.AF_UNIX and not b.text.startswith("u:/"):
                        b.text, b.key = "u:" + b.conn, ("unix", b.conn)
                pidf = pidf or os.path.join(root, "pid%d" % rnd)
            if limit is not None:
                o.append(form(s.r, "database-max-size", "s", str(limit)))
            if lru is not None:
                o.append(form(s.r, "database-lru-clear", "l", str(lru)))
            if pidf:
                o.append(form(s.r, "make-pid", "m", pidf))
            if leave:
                o.append(["--leave-pid"])
            if out:
                o.append(["-o"])
            if daemon:
                o.append(["-d"])
            s.opts = o
            pid = None
            if daemon:
                s.args = []
                s.start()
                try:
                    if s.proc.wait(20) != 0:
                        raise Violation("starting a daemon ends with %d" % s.proc.returncode, key="daemon-start", detail=s.tail())
                except subprocess.TimeoutExpired:
                    raise Violation("starting a daemon does not return", key="daemon-foreground", soft=True)
                t0 = time.time()
                while time.time() - t0 < 20:
                    try:
                        x = open(pidf).read()
                        if x.endswith("\n"):
                            pid = int(x)
                            break
                    except OSError:
                        pass
                    time.sleep(.01)
                if pid is None:
                    raise Violation("a daemon writes no PID file", key="daemon-pid", soft=True)
                t0 = time.time()
                while time.time() - t0 < 20:
                    try:
                        for b in s.cache + s.monb:
                            b.connect().close()
                        break
                    except OSError:
                        time.sleep(.01)
                want = sorted(repr(b.key) for b in s.cache + s.monb)
                got = sorted(repr(k) for k, f in listening(pid))
                if want != got:
                    raise Violation("a daemon listens on %r, configured: %r" % (got, want), key="daemon-listeners", soft=True)

                class V:
                    check = staticmethod(lambda: s.check_san())
                    raw = staticmethod(lambda mon=False, rcvbuf=None, timeout=30: s.cache[0].connect(rcvbuf))
                view = V
            else:
                boot(s, pick=pick)
                sockets_ok(s, "options")
                view = s
                if pidf and open(pidf).read() != "%d\n" % s.proc.pid:
                    raise Violation("the PID file is not the one asked for", key="pidfile")
            try:
                c = Conn(view)
                clear = .2 if lru is None else lru / 100.0
                # below 50 uploads no collection happens by itself, above the limit only one which was asked for
                n = 30
                sz = [r.randrange(500, 4000) for _ in range(n)]
                for i in range(n):
                    c.put(b"o", b"%02d" % i, gen.data((seed, rnd, i), sz[i]))
                if not os.path.exists(os.path.join(s.db, "blockfile.db")):
                    raise Violation("nothing is in the directory of the option -r", key="dbpath")
                dbgv = s.variant == "dbg"
                c.gc()
                left = [i for i in range(n) if c.get(b"o", b"%02d" % i) is not None]
                gone = [i for i in range(n) if i not in left]
                tot = sum(sz)
                if limit is None or tot <= limit:
                    if gone:
                        raise Violation("%d values were evicted without need (-s %r)" % (len(gone), limit), key="opt-evict")
                else:
                    now = sum(sz[i] for i in left)
                    if now > limit:
                        raise Violation("%d bytes are kept with -s %d" % (now, limit), key="opt-size")
                    if gone != list(range(len(gone))):
                        raise Violation("not the oldest values are evicted", key="opt-order")
                    if not dbgv:
                        need = tot - limit + limit * clear
                        freed = tot - now
                        if (freed < need - 2 and left) or freed - sz[gone[-1]] > need + 2:
                            raise Violation("%d bytes of %d were evicted with -s %d -l %r" % (freed, tot, limit, lru), key="opt-lru")
                c.close()
                obs.ev()
                obs.seen("opts", limit, lru, bool(pidf), leave, out, daemon, tuple(b.key[0] for b in s.cache))
                if daemon:
                    os.kill(pid, signal.SIGTERM)
                    t0 = time.time()
                    while time.time() - t0 < 30:
                        w, st = os.waitpid(pid, os.WNOHANG)
                        if w:
                            if st != 0:
                                raise Violation("a daemon ends with status %d" % st, key="daemon-status")
                            pid = None
                            break
                        time.sleep(.01)
                    else:
                        raise Violation("a daemon does not end", key="daemon-end", soft=True)
                else:
                    s.stop()
                if pidf and os.path.exists(pidf) != leave:
                    raise Violation("the PID file %s in the end, --leave-pid %s" % ("is left" if not leave else "is removed", "was given" if leave else "was not given"), key="leave")
            finally:
                if pid:
                    os.kill(pid, signal.SIGKILL)
                    try:
                        os.waitpid(pid, 0)
                    except OSError:
                        pass
    finally:
        s.close()
