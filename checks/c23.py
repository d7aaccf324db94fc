"""C23: generated malformed requests in every segmentation, against a populated database with uploads and downloads in progress"""
import re, select, socket, time
from vlib.srv import Server, Violation, Inconclusive
from vlib.http import *
from vlib.audit import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=2", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one malformed request sent to a populated database, which is compared completely afterwards. Distinct and non-trivial: combinations of what is malformed, the method, "
        "what the named key was at the time (absent, stored in a block or a file, being uploaded), the segmentation and what came before and after it.")
ASSUME = ["left open: tabs around numbers, DELETE and BULK of /, a line longer than the 16 KB input buffer that names a table which does not exist",
          "a rejected BULK may have removed keys it named before the fault"]
VALID = [b"GET", b"PUT", b"HEAD", b"DELETE", b"BULK", b"PURGE", b"ADMIN"]
TABS = [b"t", b"uu"]
EVIL = [b"PUT /t/evil HTTP/1.1\r\nContent-Length: 4\r\n\r\nevil", b"DELETE /t HTTP/1.1\r\n\r\n", b"DELETE /uu HTTP/1.1\r\n\r\n", b"DELETE /t/k0 HTTP/1.1\r\n\r\n",
        b"BULK /uu HTTP/1.1\r\nX-Delete: k1\r\nX-Delete: k2\r\n\r\n", b"PUT /evil/evil HTTP/1.1\r\nContent-Length: 5000\r\n\r\n" + b"e" * 5000,
        b"PUT /t/k1 HTTP/1.1\r\nContent-Length: 3\r\n\r\nbad"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    vs = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=2"]
    for i in range(20 if q else 240):
        out.append(("requests", dict(seed="%d-%d" % (seed, i), variant=vs[i % 4], n=700 if q else 6000)))
    for i in range(6 if q else 60):
        out.append(("numbers", dict(seed="%d-n%d" % (seed, i), variant=(vs[:3] + ["asan:BUFFER_SIZE=1024"])[i % 4], n=1500 if q else 12000)))
    for i in range(4 if q else 40):
        out.append(("monitoring", dict(seed="%d-m%d" % (seed, i), variant=vs[i % 3], n=600 if q else 5000)))
    return out


def token(r):
    """no method"""
    while True:
        x = r.random()
        if x < .25:
            m = r.choice(VALID)
            t = r.choice([m.lower(), m[:-1], m + m[-1:], m[1:], m.capitalize(), m[::-1], m + b"\0", m + b"\t", b"\t" + m, m.replace(b"E", b"e"), b"X" + m])
        elif x < .4:
            t = r.choice([b"POST", b"PATCH", b"TRACE", b"OPTIONS", b"CONNECT", b"COPY", b"LOCK", b"MERGE", b"PURGES", b"BULK2", b"GETGET", b"\x16\x03\x01", b"PRI"])
        else:
            n = r.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 20, 200])
            t = bytes(r.choice(b"ABCDEFGHTUabc\x00\x01\x7f\x80\xff\r/:-") for _ in range(n))
        if t and t not in VALID and not t.startswith(b"\r") and b"\n" not in t:
            return t


def badnumber(r, what):
    """a value that is no decimal number within the range; for Content-Length also 0"""
    c = r.randrange(8)
    if c == 0:
        return r.choice([b"", b"", b"-1", b"-5", b"+5", b"0x10", b"1e3", b"5.0", b"5,5", b"5;", b"5 5", b"5\0", b"\0", b"a", b"5a", b"a5", b"--", b"1_0", b"#", b"\xb2", b"\xef\xbc\x95", b"NaN", b"-0", b"5-", b"5/", b"5:", b":5", b"/5"])
    if c == 1:
        return b"%d" % r.choice([2 ** 31, 2 ** 31 + 1, 2 ** 31 + 4, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 10, 2 ** 33 + 5, 2 ** 63, 2 ** 64, 2 ** 64 + 5, 10 ** 10, 10 ** 30, 21474836480, 2147483650, 4294967301, 99999999999])
    if c == 2:
        return b"%d" % r.randrange(2 ** 31, 10 ** r.randrange(10, 25))
    if c == 3:
        return b"0" * r.randrange(1, 30) + b"%d" % r.randrange(2 ** 31, 2 ** 40)
    if c == 4:
        v = b"%d" % r.randrange(1, 3000)
        i = r.randrange(len(v) + 1)
        return v[:i] + bytes([r.choice(b"abcxyz!-+.,;:/*?&%\x00\x7f\x80\xff\x01")]) + v[i:]
    if c == 5 and what == "Content-Length":
        return b"0" * r.randrange(1, 12)
    if c == 6:
        return b"1" * r.choice([11, 12, 20, 50, 300])
    return r.choice([b"x", b"-", b"one", b"0x", b"()", b"12 34", b"1 ", b" 1"]).replace(b"1 ", b"1 1").replace(b" 1", b"1 1") if c == 7 else b"-7"


def version(r):
    return r.choice([b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/9", b"x y z"])


def eol(r):
    return b"\r\n" if r.random() < .8 else b"\n"


def someheaders(r):
    return b"".join(r.choice([b"Host: x", b"User-Agent: a:b:c", b"Accept: */*", b"X: y", b"Content-Type: a/b; c=d", b"A:", b":", b"Range: bytes=0-5", b"Z" * r.randrange(1, 300) + b": 1"]) + b"\r\n" for _ in range(r.choice([0, 0, 1, 2, 5])))


class Bad:
    def __init__(self, label, data, head=False, named=None, method=b"?"):
        self.label, self.data, self.head, self.named, self.method = label, data, head, named, method


def make(r, keyof):
    """-> a malformed request"""
    e = eol(r)
    end = lambda: someheaders(r) + e
    t, k = keyof(r)
    kurl = b"/" + t + b"/" + k
    kind = r.choice(["unknown", "unknown", "noline", "noslash", "urlline", "urlline", "notapp", "notapp", "notapp", "large", "large", "put", "put", "put", "ttl", "ttl", "list", "dupcl"])
    if kind == "unknown":
        m = token(r)
        return Bad("long" if len(m) > 6 else kind, m + b" " + r.choice([b"/", kurl, b"/" + t, b"x", b"*"]) + b" " + version(r) + e + end())
    if kind == "noline":
        m = r.choice([token(r), r.choice(VALID)])
        return Bad(kind, m + e + end())
    m = r.choice(VALID)
    if kind == "noslash":
        return Bad(kind, m + b" " + r.choice([b"t/k0", b"http://x/t/k0", b" /t/k0", b"*", b"\\t\\k0", b"?", b"\0/t", b"\t/t", b"%2ft/k0"]) + b" " + version(r) + e + end(), method=m, head=m == b"HEAD")
    if kind == "urlline":
        # of a table which does not exist nothing is read behind its name
        u = r.choice([kurl, kurl, b"/" + t, b"/", b"/gc", b"/" + t + b"/"])
        if t == b"newtable" and m in (b"GET", b"HEAD", b"DELETE"):
            u = b"/" + t
        return Bad(kind, m + b" " + u + e + r.choice([b"Content-Length: 5\r\n", b"X-Delete: k0\r\n", b"X-Ttl: 1\r\n", b""]) + end(), method=m, head=m == b"HEAD",
                   named=(t, k) if m == b"PUT" and u == kurl else None)
    if kind == "notapp":
        m, u = r.choice([(b"PUT", b"/"), (b"PUT", b"/" + t), (b"PUT", b"/gc"), (b"HEAD", b"/"), (b"HEAD", b"/" + t), (b"BULK", kurl), (b"PURGE", kurl), (b"ADMIN", b"/"), (b"ADMIN", b"/" + t), (b"ADMIN", kurl),
                         (b"ADMIN", b"/gc/x"), (b"ADMIN", b"/gcx"), (b"ADMIN", b"/GC"), (b"ADMIN", b"/g"), (b"ADMIN", b"/gc/"), (b"ADMIN", b"/newtable/x"), (b"BULK", b"/newtable/x")])
        return Bad(kind, m + b" " + u + b" " + version(r) + e + r.choice([b"Content-Length: 5\r\n", b"X-Delete: k0\r\nX-Delete: k1\r\n", b"X-Ttl: 1\r\n", b""]) + end(), method=m, head=m == b"HEAD")
    if kind == "large":
        n = r.choice([16500, 17000, 20000, 32768, 40000, 70000])
        fill = lambda: r.choice([b"x", b"1", b" ", b"a:", b"\r", b"0"]) * n
        w = r.randrange(4)
        if w == 0:
            m, u = r.choice([(b"GET", kurl), (b"HEAD", kurl), (b"DELETE", kurl), (b"PUT", kurl), (b"GET", b"/" + t), (b"DELETE", b"/" + t), (b"BULK", b"/" + t)])
            if t == b"newtable" and m in (b"GET", b"HEAD", b"DELETE"):
                u = u.replace(t, TABS[0])
            h = r.choice([b"", b"Content-Length: 9\r\n" if m == b"PUT" else b"X-Limit: 3\r\n"]) + r.choice([b"A: ", b"", b":"]) + fill()
        elif w == 1:
            m, u, h = r.choice([(b"PUT", kurl, b"Content-Length: "), (b"PUT", kurl, b"Content-Length: 9\r\nX-Ttl: "), (b"GET", b"/" + t, b"X-Start: "), (b"GET", b"/" + t, b"x-limit: "), (b"BULK", b"/" + t, b"X-Delete: ")])
            h += fill()
        elif w == 2:
            m, u, h = r.choice([b"GET", b"DELETE", b"PUT", b"BULK", b"HEAD"]), b"/" + b"T" * n, b""
        else:
            m, u, h = r.choice([b"GET", b"DELETE", b"PUT", b"HEAD"]), b"/" + r.choice(TABS) + b"/" + b"K" * n, b""
        return Bad("large%d" % w, m + b" " + u + b" " + version(r) + e + h + e + e, method=m, head=m == b"HEAD", named=(t, k) if m == b"PUT" and w < 2 else None)
    if kind == "put":
        h = r.choice([b"", b"Content-Length: " + badnumber(r, "Content-Length") + b"\r\n"])
        h = someheaders(r) + (r.choice([b"", b"X-Ttl: 1\r\n"])) + h + r.choice([b"", b"X-Ttl: 1\r\n"])
        return Bad("put-length", b"PUT " + kurl + b" " + version(r) + b"\r\n" + h + end(), method=b"PUT", named=(t, k))
    if kind == "dupcl":
        a, b = r.choice([1, 5, 4096, 4097, 9000]), r.choice([0, 1, 5, 4096, 5000])
        return Bad(kind, b"PUT " + kurl + b" HTTP/1.1\r\nContent-Length: %d\r\n" % a + someheaders(r) + b"Content-Length: %d\r\n" % b + end(), method=b"PUT", named=(t, k))
    if kind == "ttl":
        x = r.choice([b"X-Ttl", b"x-ttl"]) + b":" + r.choice([b" ", b"", b"   "]) + badnumber(r, "X-Ttl") + r.choice([b"", b"  "]) + b"\r\n"
        cl = b"Content-Length: %d\r\n" % r.choice([1, 5, 500, 4096, 4097, 20000])
        h = r.choice([x + cl, cl + x, cl + b"X-Ttl: 5\r\n" + x, x])
        return Bad(kind, b"PUT " + kurl + b" HTTP/1.1\r\n" + someheaders(r) + h + end(), method=b"PUT", named=(t, k))
    x = r.choice([b"X-Start", b"x-start", b"X-Limit", b"x-limit"])
    h = r.choice([b"", b"X-Limit: 5\r\n", b"X-Start: 1\r\n"]) + x + b": " + badnumber(r, "x") + b"\r\n" + r.choice([b"", b"X-Limit: 5\r\n"])
    return Bad("list", b"GET /" + t + b" HTTP/1.1\r\n" + someheaders(r) + h + end(), method=b"GET")


def exchange(s, pieces, pending, ctl=None, r=None, mon=False, timeout=30):
    """Sends and reads up to the end; -> (responses, closed)"""
    x = s.raw(mon=mon)
    p = Parser()
    p.pending = list(pending)
    out = []
    try:
        x.setblocking(False)

        def pull():
            try:
                d = x.recv(1 << 16)
                p.buf += d
                return bool(d)
            except OSError:
                return False
        for d in pieces:
            t0 = time.time()
            while d:
                try:
                    d = d[x.send(d):]
                except BlockingIOError:
                    # responses of before may have to be read first
                    select.select([x], [x], [], 1)
                    pull()
                    if time.time() - t0 > timeout:
                        s.check()
                        raise Violation("the server stopped reading a malformed request", key="hang:send", soft=True)
                except OSError:
                    d = None
            if d is None:
                break
            if ctl and r.random() < .3:
                barrier(ctl, 1)
        x.settimeout(timeout)
        while not p.eof:
            try:
                d = x.recv(1 << 16)
            except socket.timeout:
                s.check()
                if not p.pending:
                    if out[-1].status != 400:
                        return out
                    raise Violation("the connection is not closed after a rejection", key="not-closed", soft=True)
                raise Violation("a malformed request is not answered within %d s (%d of %d responses)" % (timeout, len(out), len(pending)), key="not-answered", soft=True)
            except OSError:
                d = b""
            if d:
                p.buf += d
            else:
                p.eof = True
            while p.pending:
                y = p.next()
                if y is None:
                    break
                out.append(y)
            if not p.pending and out[-1].status != 400:
                return out
            if not p.pending and p.buf:
                raise Violation("%d bytes after the rejection" % len(p.buf), key="after-rejection", detail=repr(bytes(p.buf[:300])))
    finally:
        x.close()
    return out


def split(r, m, n0):
    """pieces of m; n0: where the malformed request begins"""
    st = r.choice(["one", "few", "many", "byte", "edge", "lines", "before", "tail"])
    if st == "lines":
        c = [i + 1 for i in range(len(m)) if m[i:i + 1] == b"\n"][:200]
    elif st == "before":
        c = [n0]
    elif st == "byte":
        c = list(range(n0, min(len(m), n0 + 250)))
    elif st == "tail":
        c = [len(m) - i for i in range(1, 8)]
    else:
        c, a = [], 0
        for k in gen.cuts(r, len(m), st):
            a += k
            c.append(a)
    c = sorted(set(x for x in c if 0 < x < len(m)))
    return st, [m[a:b] for a, b in zip([0] + c, c + [len(m)])]


def requests(obs, seed, variant, n):
    r = rng("c23", seed)
    M, D = {}, {}
    with Server(variant, unix=r.random() < .4) as s:
        ctl = Conn(s)
        keys = [b"k%d" % i for i in range(7)]
        exp = {}

        def put(c, t, k, v, ttl=None):
            c.put(t, k, v, ttl)
            M.setdefault(t, {})[k] = v
        for t in TABS:
            for k in keys[:5]:
                put(ctl, t, k, gen.data((seed, t, k), r.choice([1, 60, 4095, 4096, 4097, 9000, 40000])), r.choice([None, None, 3600]))
        held = {}
        down = None

        def keyof(r):
            x = r.random()
            if x < .2 and held:
                return r.choice(sorted(held))
            if x < .3:
                return r.choice([b"newtable", b"t"]), r.choice([b"nokey", b"x/y"])
            return r.choice(TABS), r.choice(keys)
        # what does not fit is refused, what fits is not
        for lab in ("A: " + "y" * 15800, "X" * 15900 + ": 5"):
            x = ctl.do("GET", "/t/k0", [tuple(lab.split(": "))])
            if value_of(x) != M[b"t"].get(b"k0"):
                raise Violation("headers of less than 16 KB are not accepted", key="accepts")
        for i in range(n):
            # the surroundings
            if r.random() < .15 and len(held) < 3:
                t, k = r.choice(TABS), r.choice(keys)
                if (t, k) not in held:
                    v = gen.data((seed, i, "held"), r.choice([50, 4096, 5000, 30000]))
                    u = Conn(s)
                    u.get(b"warm", b"up")
                    m = req("PUT", path(t, k), (), v)
                    cut = r.choice([1, 20, len(v) - 1, len(v)])
                    u.p.pending.append("PUT")
                    u.send(m[:-cut])
                    if not s.wait(lambda: ctl.get(t, k) is None, 10):
                        raise Violation("the upload did not begin", key="begin", soft=True)
                    drop(M, t, k)
                    held[(t, k)] = (u, m[-cut:], v)
            if r.random() < .15 and down is None:
                fs = [(t, k) for t in M for k in M[t] if len(M[t][k]) > 20000]
                if fs:
                    t, k = r.choice(fs)
                    s.shm.set(sndbuf=4096)
                    dc = Conn(s, rcvbuf=4096)
                    dc.get(b"warm", b"up")
                    s.shm.set(sndbuf=0)
                    dc.p.pending.append("GET")
                    dc.send(req("GET", path(t, k)))
                    barrier(ctl, 1)
                    down = (dc, M[t][k])
            b = make(r, keyof)
            pre, pending, want = b"", [], []
            for _ in range(r.choice([0, 0, 0, 1, 2, 4])):
                t, k = r.choice(TABS), r.choice(keys)
                if r.random() < .3 and (t, k) not in held:
                    v = gen.data((seed, i, len(pre)), r.choice([1, 300, 4096, 6000]))
                    pre += req("PUT", path(t, k), (), v)
                    M.setdefault(t, {})[k] = v
                    pending.append("PUT")
                    want.append(b"OK\r\n")
                else:
                    pre += req("GET", path(t, k))
                    pending.append("GET")
                    want.append(M.get(t, {}).get(k))
            tail = b"".join(r.choice(EVIL) for _ in range(r.choice([0, 0, 1, 1, 3])))
            if r.random() < .1:
                tail = b"\r\n" + tail
            m = pre + b.data + tail
            st, pieces = split(r, m, len(pre))
            if b.label.startswith("large"):
                pieces = pieces[:400] + [b"".join(pieces[400:])]
            lim = r.choice([0, 0, 0, 1, 7, 50]) if len(m) < 3000 else r.choice([0, 0, 1000])
            s.shm.set(sock_rlimit=lim)
            was = "held" if b.named in held else "none" if not b.named or b.named[1] not in M.get(b.named[0], {}) else "file" if len(M[b.named[0]][b.named[1]]) > 4096 else "block"
            out = exchange(s, pieces, pending + ["HEAD" if b.head else "GET"], ctl, r)
            s.shm.set(sock_rlimit=0)
            desc = "%s, %s, %r" % (b.label, st, m[len(pre):len(pre) + 120])
            if len(out) != len(pending) + 1:
                s.check()
                raise Violation("a malformed request (%s): the connection was closed after %d of %d responses" % (b.label, len(out), len(pending) + 1), key="closed:" + b.label, detail=desc)
            for w, x, o in zip(pending, want, out):
                if w == "PUT":
                    expect(o, "PUT", 200, x)
                elif value_of(o) != x:
                    raise Violation("a request before a malformed one: " + diff(x, value_of(o)), key="before", detail=desc)
            o = out[-1]
            if o.status != 400 or o.h("connection") != "Close":
                raise Violation("a malformed request (%s) is answered %d" % (b.label, o.status), key="status:%s:%d" % (b.label, o.status), detail="%s -> %r" % (desc, o))
            # nothing else has changed
            if b.named and b.named not in held:
                t, k = b.named
                g = ctl.get(t, k)
                if g is None:
                    drop(M, t, k)
                elif g != M.get(t, {}).get(k):
                    raise Violation("a rejected PUT stored %s" % diff(M.get(t, {}).get(k), g), key="stored:" + b.label, detail=desc)
            if b.label.startswith("large") and b.method == b"BULK":
                pass
            after(s, ctl, M, held, desc, full=r.random() < .15)
            obs.ev()
            obs.seen(b.label, b.method, was, st, lim, bool(tail), len(pending), bool(held), down is not None)
            obs.count("rejected")
            # the surroundings end well
            if down and r.random() < .3:
                dc, v = down
                g = value_of(dc.recv())
                if g != v:
                    raise Violation("a download during malformed requests: " + diff(v, g), key="download")
                dc.close()
                down = None
            if held and r.random() < .15:
                x = r.choice(sorted(held))
                u, rest, v = held.pop(x)
                u.send(rest)
                expect(u.recv(), "PUT", 200, b"OK\r\n")
                u.close()
                M.setdefault(x[0], {})[x[1]] = v
                if ctl.get(*x) != v:
                    raise Violation("an upload during malformed requests is not stored", key="upload")
            for t in TABS:
                while len(M.get(t, {})) < 3:
                    k = r.choice(keys)
                    if (t, k) in held:
                        continue
                    put(ctl, t, k, gen.data((seed, i, "re"), gen.size(r, 0)), r.choice([None, None, 3600]))
        for x, (u, rest, v) in held.items():
            u.send(rest)
            expect(u.recv(), "PUT", 200, b"OK\r\n")
            M.setdefault(x[0], {})[x[1]] = v
            u.close()
        if down:
            down[0].close()
        audit(s, ctl, M, "in the end", obs=obs)
        s.stop()


def after(s, ctl, M, held, desc, full):
    """Statistics and listings after each request, values now and then; uploads in progress count as keys"""
    st = ctl.stats()
    keys = sum(len(x) for x in M.values()) + len(held)
    if st["keys"] != keys:
        # a connection that was closed by the server is cleaned up before it is
        raise Violation("%d keys after a malformed request, %d before" % (st["keys"], keys), key="effect:keys", detail=desc)
    tabs = set(t for t in M if M[t]) | set(t for t, k in held)
    if st["tables"] != len(tabs):
        raise Violation("%d tables after a malformed request, %d before" % (st["tables"], len(tabs)), key="effect:tables", detail=desc)
    if not full:
        return
    for t in TABS + [b"evil", b"newtable"]:
        x, l, ent, tot = listing(s, t, limit=100000)
        want = sorted(list(M.get(t, {})) + [k for tt, k in held if tt == t])
        if sorted(l) != want:
            raise Violation("the keys of a table changed by a malformed request: %r, before %r" % (sorted(l), want), key="effect:listing", detail=desc)
    for t in M:
        for k in M[t]:
            g = ctl.get(t, k)
            if g != M[t][k]:
                raise Violation("a value changed by a malformed request: " + diff(M[t][k], g), key="effect:value", detail=desc)
    if not held:
        check_space(s, ctl, M, "after a malformed request", detail=desc)


def legal(v):
    v = v.strip(b" ")
    return re.fullmatch(rb"[0-9]+", v) is not None and int(v) <= 2147483647


def numbers(obs, seed, variant, n):
    """Numeric headers: generated values, valid or not according to a reference"""
    r = rng("c23n", seed)
    with Server(variant, unix=r.random() < .5) as s:
        ctl = Conn(s)
        M = {}
        for i in range(12):
            v = gen.data((seed, i), 30)
            ctl.put(b"t", b"k%02d" % i, v)
            M.setdefault(b"t", {})[b"k%02d" % i] = v
        for i in range(n):
            w = r.choice(["X-Limit", "X-Start", "X-Ttl", "Content-Length"])
            x = r.randrange(6)
            if x == 0:
                v = badnumber(r, w)
            elif x == 1:
                v = b"%d" % r.choice([0, 1, 2, 5, 11, 12, 13, 100, 2147483646, 2147483647, 2147483648, 2147483649])
            elif x == 2:
                v = b"0" * r.choice([1, 2, 9, 10, 20, 200]) + b"%d" % r.choice([0, 1, 5, 9, 12, 2147483647, 2147483648])
            elif x == 3:
                v = b"%d" % r.randrange(40)
            elif x == 4:
                v = b"%d" % r.randrange(0, 2 ** r.randrange(20, 40))
            else:
                v = bytes(r.choice(b"0123456789") if r.random() < .93 else r.choice(b"-+. x/:;\x00\x80\xb9\xff") for _ in range(r.randrange(1, 12)))
            if r.random() < .04:
                v = b""
            sp = r.choice([b"", b" ", b"  ", b"   "]) + v + r.choice([b"", b"", b" ", b"  "])
            ok = legal(v)
            num = int(v.strip(b" ")) if ok else None
            name = enc(w) if w == "Content-Length" or r.random() < .6 else enc(w.lower())
            lim = r.choice([0, 0, 1, 3])
            if w == "Content-Length":
                if ok and num > 100000:
                    continue
                ok = ok and num > 0
                body = gen.data((seed, i, "b"), num) if ok else b"xxxxx"
                m = b"PUT /t/new HTTP/1.1\r\n" + name + b":" + sp + b"\r\n\r\n" + body
            elif w == "X-Ttl":
                body = gen.data((seed, i, "b"), 20)
                cl = b"Content-Length: 20\r\n"
                h = name + b":" + sp + b"\r\n"
                m = b"PUT /t/new HTTP/1.1\r\n" + (h + cl if r.random() < .5 else cl + h) + b"\r\n" + body
            else:
                m = b"GET /t HTTP/1.1\r\n" + name + b":" + sp + b"\r\n\r\n"
            st, pieces = split(r, m, 0)
            if s.small and lim == 0 and r.random() < .6:
                st, pieces = "placed", [filler(r, m.index(b"\r\n\r\n") + 4) + m]
            s.shm.set(sock_rlimit=lim if len(m) < 1000 else 0)
            c = None
            if ok and w in ("Content-Length", "X-Ttl"):
                c = Conn(s)
                c.p.pending.append("PUT")
                for d in pieces:
                    c.send(d)
                out = [c.recv()]
            else:
                out = exchange(s, pieces, ["GET"], ctl, r)
            s.shm.set(sock_rlimit=0)
            if len(out) != 1:
                s.check()
                raise Violation("%s: %r: the connection is closed without a response" % (w, v), key="number-closed:" + w)
            o = out[0]
            if not ok:
                if o.status != 400:
                    raise Violation("%s: %r is answered %d" % (w, v[:60], o.status), key="number-accepted:" + w, detail=repr(m[:300]))
                if w in ("Content-Length", "X-Ttl") and ctl.get(b"t", b"new") is not None:
                    raise Violation("%s: %r is rejected but stored" % (w, v[:60]), key="number-stored:" + w)
            elif w in ("X-Limit", "X-Start"):
                x, l, ent, tot = parse_listing(o)
                if len(l) > 12 or (w == "X-Limit" and len(l) > num) or (w == "X-Limit" and num >= 1000000 and len(l) != 12) or (w == "X-Start" and num == 0 and len(l) != 12):
                    raise Violation("%s: %r lists %d of 12 keys" % (w, v[:60], len(l)), key="number-list")
            else:
                expect(o, "PUT", 200, b"OK\r\n")
                r2 = ctl.getr(b"t", b"new")
                if value_of(r2) != body:
                    raise Violation("%s: %r: %s" % (w, v[:60], diff(body, value_of(r2))), key="number-value")
                if w == "X-Ttl":
                    ttl = int(r2.h("x-ttl"))
                    if not (ttl == 0 if num == 0 else num - 3 <= ttl <= num + 1):
                        raise Violation("X-Ttl: %r is taken as %d" % (v[:60], ttl), key="number-ttl")
                c.do("DELETE", "/t/new")
            if c:
                c.close()
            if i % 20 == 0:
                check_values(s, ctl, M, "numbers")
                check_stats(s, ctl, M, "numbers")
                check_space(s, ctl, M, "numbers")
            obs.ev()
            obs.seen(w, ok, len(v), v[:1], st, sp[:1] == b" ", lim)
            obs.count("valid" if ok else "invalid")
        s.stop()


def monitoring(obs, seed, variant, n):
    """At the monitoring port: rejected there as well, the other clients go on"""
    r = rng("c23m", seed)
    with Server(variant, unix=r.random() < .4) as s:
        ctl = Conn(s)
        M = {b"t": {b"k": b"v" * 5000, b"j": b"w"}}
        for k in M[b"t"]:
            ctl.put(b"t", k, M[b"t"][k])
        streams = []
        for i in range(3):
            m = s.raw(mon=True)
            m.sendall(b"GET /conn HTTP/1.1\r\n\r\n")
            streams.append([m, bytearray()])
        for i in range(n):
            e = eol(r)
            x = r.randrange(6)
            if x == 0:
                t = r.choice([b"PUT", b"DELETE", b"BULK", b"ADMIN", b"PURGE"])
                m = t + b" " + r.choice([b"/", b"/t/k", b"/t", b"/gc", b"/conn"]) + b" HTTP/1.1" + e + r.choice([b"", b"Content-Length: 3\r\n", b"X-Delete: k\r\n"]) + e
            elif x == 1:
                m = token(r) + b" /conn HTTP/1.1" + e + e
            elif x == 2:
                m = r.choice([b"GET", b"HEAD"]) + b" " + r.choice([b"conn", b"*", b" /conn", b"t/k"]) + b" HTTP/1.1" + e + e
            elif x == 3:
                m = r.choice([b"GET", b"HEAD"]) + b" " + r.choice([b"/conn", b"/", b"/x/y"]) + e + someheaders(r) + e
            elif x == 4:
                m = r.choice([token(r), b"GET", b"HEAD"]) + e + someheaders(r) + e
            else:
                m = r.choice([b"GET", b"HEAD"]) + b" /" + b"c" * r.choice([16500, 20000, 40000]) + b" HTTP/1.1" + e + e
            head = m.startswith(b"HEAD ")
            pre, pend = b"", []
            for _ in range(r.choice([0, 0, 1, 3])):
                pre += b"GET / HTTP/1.1\r\n\r\n"
                pend.append("GET")
            tail = r.choice([b"", b"", b"GET / HTTP/1.1\r\n\r\n", EVIL[1]])
            st, pieces = split(r, pre + m + tail, len(pre))
            if len(pieces) > 400:
                pieces = pieces[:400] + [b"".join(pieces[400:])]
            lim = r.choice([0, 0, 1, 7]) if len(m) < 3000 else 0
            s.shm.set(sock_rlimit=lim)
            out = exchange(s, pieces, pend + ["HEAD" if head else "GET"], ctl, r, mon=True)
            s.shm.set(sock_rlimit=0)
            if len(out) != len(pend) + 1:
                s.check()
                raise Violation("a malformed request at the monitoring port: closed after %d of %d responses" % (len(out), len(pend) + 1), key="mon-closed:%d" % x, detail=repr(m[:200]))
            for o in out[:-1]:
                if o.status != 200:
                    raise Violation("GET / at the monitoring port is answered %r" % o, key="mon-root")
            if out[-1].status != 400 or out[-1].h("connection") != "Close":
                raise Violation("a malformed request at the monitoring port is answered %d" % out[-1].status, key="mon-status:%d" % x, detail=repr(m[:200]))
            obs.ev()
            obs.seen("mon", x, st, lim, len(pend), bool(tail))
            if i % 25 == 0:
                check_values(s, ctl, M, "monitoring port")
                check_stats(s, ctl, M, "monitoring port")
                s.advance(5.2)
                for y in streams:
                    k = y[1].count(b"\n")
                    t0 = time.time()
                    y[0].settimeout(20)
                    while y[1].count(b"\n") <= k:
                        try:
                            d = y[0].recv(4096)
                        except socket.timeout:
                            raise Violation("a monitoring client gets nothing while others send malformed requests", key="mon-silent", soft=True)
                        if not d:
                            s.check()
                            raise Violation("a monitoring client was closed by a malformed request of another", key="mon-other")
                        y[1] += d
        audit(s, ctl, M, "monitoring port", obs=obs)
        for y in streams:
            y[0].close()
        s.stop()
