"""Client side: request building, a strict response parser, blocking and non-blocking connections."""
import random, re, select, socket, time
from .srv import Violation, Inconclusive

IO_TIMEOUT = 30


class Resp:
    __slots__ = ("status", "headers", "body", "raw_head", "eof")

    def __init__(self, status, headers, body, raw_head, eof=False):
        self.status, self.headers, self.body, self.raw_head, self.eof = status, headers, body, raw_head, eof

    def h(self, n):
        return self.headers.get(n)

    def __repr__(self):
        b = self.body
        return "<%d %r body=%d:%r>" % (self.status, self.headers, len(b), bytes(b[:24]))


class ProtocolError(Violation):
    def __init__(self, msg, detail=None):
        Violation.__init__(self, "malformed response: " + msg, key="framing:" + re.sub(r"[0-9]+", "N", msg)[:80], detail=detail)


STATUS_RE = re.compile(rb"HTTP/1\.1 ([0-9]{3}) [A-Za-z ]+\Z")
HDR_RE = re.compile(rb"([A-Za-z][A-Za-z-]*): ([^\r\n]*)\Z")


def parse_head(buf):
    """-> None when incomplete, else (status, headers, head length). Strict: any deviation is an error"""
    end = buf.find(b"\r\n\r\n")
    if end < 0:
        if len(buf) > 8192:
            raise ProtocolError("no end of headers in %d bytes" % len(buf), repr(bytes(buf[:200])))
        # fail early on something which can't become a status line
        pre = b"HTTP/1.1 "
        n = min(len(pre), len(buf))
        if bytes(buf[:n]) != pre[:n]:
            raise ProtocolError("response does not start with HTTP/1.1", repr(bytes(buf[:120])))
        return None
    head = bytes(buf[:end])
    lines = head.split(b"\r\n")
    m = STATUS_RE.match(lines[0])
    if not m:
        raise ProtocolError("bad status line", repr(head[:200]))
    hs = {}
    for l in lines[1:]:
        m2 = HDR_RE.match(l)
        if not m2:
            raise ProtocolError("bad header line", repr(head[:300]))
        k = m2.group(1).decode().lower()
        if k in hs:
            raise ProtocolError("duplicate header " + k, repr(head[:300]))
        hs[k] = m2.group(2).decode("latin1")
    return int(m.group(1)), hs, end + 4


class Parser:
    """Splits a byte stream into responses; methods: FIFO of the request methods (HEAD has no body)"""

    def __init__(self):
        self.buf = bytearray()
        self.eof = False
        self.pending = []  # method of each outstanding request

    def next(self):
        if not self.pending:
            if self.buf:
                raise ProtocolError("%d bytes without a request" % len(self.buf), repr(bytes(self.buf[:200])))
            return None
        p = parse_head(self.buf)
        if p is None:
            return None
        st, hs, n = p
        m = self.pending[0]
        cl = hs.get("content-length")
        if cl is not None and not re.fullmatch(r"[0-9]+", cl):
            raise ProtocolError("bad Content-Length %r" % cl)
        if m == "HEAD":
            body = b""
        elif cl is not None:
            k = int(cl)
            if len(self.buf) < n + k:
                return None
            body = bytes(self.buf[n:n + k])
            n += k
        elif hs.get("connection") == "Close":
            if not self.eof:
                return None
            body = bytes(self.buf[n:])
            n = len(self.buf)
        else:
            raise ProtocolError("no Content-Length and the connection is not closed", repr(bytes(self.buf[:200])))
        head = bytes(self.buf[:n - len(body)])
        del self.buf[:n]
        self.pending.pop(0)
        return Resp(st, hs, body, head, cl is None and m != "HEAD")


def enc(s):
    return s if isinstance(s, bytes) else s.encode("latin1")


def req(method, path, headers=(), body=None, version="HTTP/1.1"):
    h = b"".join(enc(k) + b": " + enc(str(v) if not isinstance(v, (bytes, str)) else v) + b"\r\n" for k, v in headers)
    if body is not None:
        h += b"Content-Length: %d\r\n" % len(body)
    return enc(method) + b" " + enc(path) + b" " + enc(version) + b"\r\n" + h + b"\r\n" + (body or b"")


def path(table, key=None):
    return b"/" + enc(table) + (b"/" + enc(key) if key is not None else b"")


def filler(r, n, size=1024):
    """Empty lines, so that a request of n bytes sent together with them lies across the end of the server's buffer"""
    m = r.choice([1, 1, 1, 2]) * size - r.randrange(1, min(n, size - 1) + 1)
    return b"\r\n" * (m // 2) + b"\n" * (m % 2)


def blank(r, line):
    m = re.match(rb"([A-Za-z-]+:) *([^ \r]*)\Z", line)
    return line if m is None else m.group(1) + b" " * r.randrange(4) + m.group(2) + b" " * r.randrange(4)


class Conn:
    """A blocking keep-alive client connection"""

    def __init__(self, srv, mon=False, rcvbuf=None):
        self.srv = srv
        self.s = srv.raw(mon=mon, rcvbuf=rcvbuf)
        self.s.settimeout(IO_TIMEOUT)
        self.p = Parser()
        self.n = 0
        self.wrap = random.Random("wrap") if getattr(srv, "small", False) else None
        srv.nconns = getattr(srv, "nconns", 0) + 1
        self.blanks = random.Random(srv.nconns)

    def close(self, rst=False):
        if self.s is None:
            return
        if rst and self.s.family == socket.AF_INET:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        self.s.close()
        self.s = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def send(self, data, chunks=None):
        try:
            if chunks:
                i = 0
                for c in chunks:
                    self.s.sendall(data[i:i + c])
                    i += c
                data = data[i:]
            self.s.sendall(data)
        except socket.timeout:
            self.srv.check()
            raise Violation("the server stopped reading a request", key="hang:send", soft=True)
        except OSError as e:
            time.sleep(0.02)
            self.srv.check()
            raise Violation("connection broken while sending: %s" % e, key="conn-broken-send", soft=True)

    def fill(self, timeout=IO_TIMEOUT):
        """Read something; returns False at EOF"""
        try:
            self.s.settimeout(timeout)
            d = self.s.recv(1 << 18)
        except socket.timeout:
            self.srv.check()
            raise Violation("no response within %ds, buffered: %r" % (timeout, bytes(self.p.buf[:100])), key="hang:response", soft=True)
        except ConnectionResetError:
            d = b""
        if not d:
            self.p.eof = True
            return False
        self.p.buf += d
        return True

    def recv(self, method=None, timeout=IO_TIMEOUT):
        if method is not None:
            self.p.pending.append(method)
        while True:
            r = self.p.next()
            if r is not None:
                self.n += 1
                return r
            if self.p.eof:
                time.sleep(0.02)
                self.srv.check()
                raise Violation("connection closed instead of a response (%s), got %r" % (",".join(self.p.pending[:3]), bytes(self.p.buf[:100])),
                                key="closed-without-response")
            self.fill(timeout)

    def do(self, method, path_, headers=(), body=None, chunks=None):
        self.p.pending.append(method)
        data = req(method, path_, headers, body)
        if headers and self.blanks.random() < .2:
            # blanks around the values of headers are no part of them
            data = b"\r\n".join(blank(self.blanks, l) for l in data[:len(data) - len(body or b"")].split(b"\r\n")) + (body or b"")
        self.send(data if chunks else self.placed(data, body), chunks)
        return self.recv()

    def placed(self, data, body=None):
        """When the server's buffer is small: mostly across its end"""
        if self.wrap and self.wrap.random() < .6:
            return filler(self.wrap, len(data) - len(body or b"")) + data
        return data

    # -- operations with the expected shape of their responses checked --
    def put(self, t, k, v, ttl=None, chunks=None):
        h = [("X-Ttl", ttl)] if ttl is not None else []
        r = self.do("PUT", path(t, k), h, v, chunks)
        return expect(r, "PUT", 200, b"OK\r\n")

    def get(self, t, k):
        """-> value or None"""
        r = self.do("GET", path(t, k))
        return value_of(r)

    def getr(self, t, k):
        return self.do("GET", path(t, k))

    def head(self, t, k):
        r = self.do("HEAD", path(t, k))
        if r.status not in (200, 404) or r.h("content-length") is None:
            raise ProtocolError("HEAD: %r" % r)
        return None if r.status == 404 else int(r.h("content-length"))

    def delete(self, t, k=None):
        """-> True when something was deleted"""
        r = self.do("DELETE", path(t, k))
        return deleted_of(r)

    def bulk(self, t, keys):
        r = self.do("BULK", path(t), [("X-Delete", enc(k)) for k in keys])
        return expect(r, "BULK", 200, b"BULK OK\r\n")

    def stats(self):
        return parse_stats(self.do("GET", "/"))

    def gc(self):
        return parse_stats(self.do("ADMIN", "/gc"))


def expect(r, what, status, body):
    if r.status != status or r.body != body or r.h("connection") != "Keep-Alive":
        raise ProtocolError("%s answered %r" % (what, r))
    return True


NOTFOUND = b"Key not Found\r\n"


def value_of(r):
    if r.status == 404:
        if r.body != NOTFOUND:
            raise ProtocolError("404 with %r" % r)
        return None
    if r.status != 200 or r.h("connection") != "Keep-Alive" or r.h("x-ttl") is None or not re.fullmatch(r"-?[0-9]+", r.h("x-ttl")):
        raise ProtocolError("GET answered %r" % r)
    return r.body


def deleted_of(r):
    if r.status == 404 and r.body == NOTFOUND:
        return False
    expect(r, "DELETE", 200, b"DELETED\r\n")
    return True


STAT_KEYS = [("keys", "DB Keys"), ("tables", "DB Tables"), ("bytes", "DB Size Bytes"), ("blocks", "DB Blocks Free"),
             ("deletes", "DB Stats Deletes"), ("gets", "DB Stats Gets"), ("inserts", "DB Stats Inserts")]


def parse_stats(r):
    if r.status != 200:
        raise ProtocolError("stats answered %r" % r)
    d = {}
    for l in r.body.decode("latin1").split("\r\n"):
        if l:
            if ": " not in l:
                raise ProtocolError("stats line %r" % l)
            k, v = l.split(": ", 1)
            d[k] = v
    o = {}
    for s, n in STAT_KEYS:
        if n not in d:
            raise ProtocolError("stats without %s: %r" % (n, r.body))
        v = d[n]
        if s == "blocks":
            m = re.fullmatch(r"([0-9]+)/([0-9]+)", v)
            if not m:
                raise ProtocolError("stats: %s: %s" % (n, v))
            o["bfree"], o["bexist"] = int(m.group(1)), int(m.group(2))
        else:
            if not re.fullmatch(r"[0-9]+", v):
                raise ProtocolError("stats: %s: %s" % (n, v))
            o[s] = int(v)
    return o


def listing(srv, table, start=None, limit=None, conn=None):
    """-> (status, [keys] , entries, total); conn: a used connection (it ends)"""
    h = []
    if start is not None:
        h.append(("X-Start", start))
    if limit is not None:
        h.append(("X-Limit", limit))
    with conn or Conn(srv) as c:
        r = c.do("GET", path(table), h)
        return parse_listing(r)


def parse_listing(r):
    if r.status == 404:
        if r.body != NOTFOUND:
            raise ProtocolError("404 with %r" % r)
        return 404, [], 0, 0
    if r.status != 200 or r.h("connection") != "Close" or not r.eof:
        raise ProtocolError("listing answered %r" % r)
    for n in ("x-entries", "x-total"):
        if r.h(n) is None or not re.fullmatch(r"[0-9]+", r.h(n)):
            raise ProtocolError("listing header %s: %r" % (n, r.headers))
    b = r.body
    if b and not b.endswith(b"\r\n"):
        raise ProtocolError("listing does not end with a line end: %r" % b[-40:])
    return 200, b.split(b"\r\n")[:-1] if b else [], int(r.h("x-entries")), int(r.h("x-total"))


def barrier(ctl, rounds=2):
    """Everything received by the server before is processed after this: round trips on a control connection"""
    for _ in range(rounds):
        ctl.do("GET", "/vf-none/none")


class Mux:
    """Drives many non-blocking connections from one thread"""

    def __init__(self, srv):
        self.srv = srv
        self.conns = {}

    def open(self, rcvbuf=None):
        c = NB(self.srv, rcvbuf)
        self.conns[c.fileno()] = c
        return c

    def close(self, c, rst=False):
        self.conns.pop(c.fileno(), None)
        c.close(rst)

    def poll(self, timeout=0):
        fds = [f for f, c in self.conns.items() if c.reading and not c.p.eof]
        if not fds:
            if timeout:
                time.sleep(timeout)
            return []
        r, _, _ = select.select(fds, [], [], timeout)
        out = []
        for f in r:
            c = self.conns[f]
            c.pump()
            out.append(c)
        return out

    def close_all(self):
        for c in list(self.conns.values()):
            c.close()
        self.conns = {}


WARM = req("HEAD", "/vf-none/none")


class NB:
    """A non-blocking connection. It is accepted (by the accept thread) and served before the constructor returns"""

    def __init__(self, srv, rcvbuf=None, warm=True):
        self.srv = srv
        self.s = srv.raw(rcvbuf=rcvbuf)
        self.p = Parser()
        if warm:
            self.s.settimeout(IO_TIMEOUT)
            self.s.sendall(WARM)
            self.p.pending.append("HEAD")
            while self.p.next() is None:
                try:
                    d = self.s.recv(4096)
                except socket.timeout:
                    srv.check()
                    raise Violation("a new connection is not served", key="hang:new-connection", soft=True)
                if not d:
                    time.sleep(0.02)
                    srv.check()
                    raise Violation("a new connection is closed", key="new-connection-closed", soft=True)
                self.p.buf += d
        self.s.setblocking(False)
        self.out = bytearray()
        self.reading = True
        self.fd = self.s.fileno()

    def fileno(self):
        return self.fd

    def queue(self, data):
        self.out += data

    def push(self, n=None):
        """Send up to n bytes of what is queued; -> bytes sent"""
        if not self.out:
            return 0
        n = len(self.out) if n is None else min(n, len(self.out))
        try:
            k = self.s.send(bytes(self.out[:n]))
        except BlockingIOError:
            return 0
        except OSError:
            self.p.eof = True
            return 0
        del self.out[:k]
        return k

    def pump(self, limit=1 << 20):
        got = 0
        while got < limit:
            try:
                d = self.s.recv(min(1 << 17, limit - got))
            except BlockingIOError:
                break
            except OSError:
                self.p.eof = True
                break
            if not d:
                self.p.eof = True
                break
            self.p.buf += d
            got += len(d)
        return got

    def close(self, rst=False):
        if rst and self.s.family == socket.AF_INET:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        self.s.close()
