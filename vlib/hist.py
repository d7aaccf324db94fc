"""Operation histories at the client boundary and their checker.

Every value written is unique (content and length), so a read identifies the write it observed. The checker
works per (table, key). An operation occupies the interval [start, end] of a global event counter; an upload that
was not answered stays open until it is known to have been discarded.
"""
from .srv import Violation
from . import gen

INF = 1 << 60


class Op:
    __slots__ = ("id", "kind", "table", "key", "start", "sent", "end", "status", "uid", "length", "keys", "conn", "phase", "line")

    def __init__(self, id, kind, table, key, conn, start):
        self.id, self.kind, self.table, self.key, self.conn = id, kind, table, key, conn
        self.start, self.sent, self.end, self.status = start, INF, INF, None
        self.uid = self.length = None
        self.keys = None
        self.phase = "new"

    def __repr__(self):
        f = lambda x: "-" if x == INF else x
        k = self.key if self.key is not None else (self.keys or "")
        return "%s%s %s/%s [%s..%s..%s] -> %s%s" % (self.kind, self.id, self.table.decode("latin1"),
                                                   k.decode("latin1") if isinstance(k, bytes) else k, self.start, f(self.sent), f(self.end),
                                                   self.status, "" if self.uid is None else " value#%s(%s)" % (self.uid, self.length))


class Hist:
    def __init__(self, tag):
        self.tag = tag
        self.t = 0
        self.ops = []
        self.values = {}     # uid -> bytes (PUT)
        self.bylen = {}      # length -> uid
        self.puts = {}       # uid -> Op
        self.used = set()
        self.alias = {}      # (table, key) -> keys of the same table which replace it (equal hashes)

    def tick(self):
        self.t += 1
        return self.t

    def new(self, kind, table, key, conn=None):
        o = Op(len(self.ops), kind, table, key, conn, self.tick())
        self.ops.append(o)
        return o

    def value(self, op, size):
        size = max(9, size)
        while size in self.used:
            size += 1
        self.used.add(size)
        uid = op.id
        v = gen.data((self.tag, uid), size)
        self.values[uid] = v
        self.bylen[size] = uid
        self.puts[uid] = op
        op.uid, op.length = uid, size
        return v

    def identify(self, body):
        """-> uid of the write whose complete value this is"""
        uid = self.bylen.get(len(body))
        if uid is None or self.values[uid] != body:
            # which value does it resemble?
            for u, v in self.values.items():
                if body[:9] == v[:9]:
                    raise Violation("GET returned a damaged value: %d bytes starting like value #%d of %d bytes, differing at offset %d" % (
                        len(body), u, len(v), next((i for i in range(min(len(v), len(body))) if v[i] != body[i]), min(len(v), len(body)))),
                        key="torn-value", detail=self.dump())
            raise Violation("GET returned %d bytes that were never uploaded: %r" % (len(body), body[:40]), key="foreign-value", detail=self.dump())
        return uid

    def done(self, op, resp):
        """Record a response"""
        op.end = self.tick()
        op.status = resp.status
        if op.kind == "GET" and resp.status == 200:
            op.uid = self.identify(resp.body)
            op.length = len(resp.body)
        elif op.kind == "HEAD" and resp.status == 200:
            n = int(resp.h("content-length"))
            op.length = n
            op.uid = self.bylen.get(n)
            if op.uid is None:
                raise Violation("HEAD reports a length of %d which no value has" % n, key="head-length", detail=self.dump())

    def discarded(self, op):
        """The connection of an unfinished operation ended, and the server is known to have processed this"""
        op.end = self.tick()
        op.status = "aborted"

    def dump(self, table=None, key=None, n=60):
        l = [o for o in self.ops if table is None or (o.table == table and (o.key == key or o.key is None))]
        return "\n".join(repr(o) for o in l[-n:])

    def fail(self, msg, key, op):
        raise Violation(msg, key=key, detail="%r\nhistory of the key:\n%s" % (op, self.dump(op.table, op.key)))

    def touching(self, t, k):
        al = self.alias.get((t, k), ())
        return [o for o in self.ops if o.table == t and (o.key == k or (o.key is None and (o.keys is None or k in o.keys)) or
                                                         (al and o.kind == "PUT" and o.key in al))]

    def check(self):
        """-> number of operations judged"""
        groups = {}
        for o in self.ops:
            if o.key is not None:
                groups.setdefault((o.table, o.key), []).append(o)
        n = 0
        for (t, k), _ in groups.items():
            n += self.check_key(t, k, self.touching(t, k))
        return n

    def check_key(self, t, k, ops):
        n = 0
        puts = [o for o in ops if o.kind == "PUT" and o.key == k]
        # Anything after whose completion an earlier value can not be there any more
        ends = [o for o in ops if o.end != INF and (
            (o.kind == "PUT" and o.status == 200) or (o.kind in ("DELETE", "DELTAB") and o.status in (200, 404)) or
            (o.kind == "BULK" and o.status == 200) or (o.kind in ("GET", "HEAD") and o.status in (200, 404)))]
        for g in ops:
            if g.end == INF:
                continue
            if g.kind in ("GET", "HEAD") and g.status == 200:
                n += 1
                p = self.puts[g.uid]
                # An upload which was sent completely but not answered before its connection ended may have been completed
                if p.table != t or p.key != k:
                    self.fail("%s of %r/%r returned value #%d which was uploaded to %r/%r" % (g.kind, t, k, p.id, p.table, p.key), "other-keys-value", g)
                if p.sent > g.end:
                    self.fail("%s returned value #%d before its upload was complete" % (g.kind, p.id), "incomplete-upload-visible", g)
                if p.status == "aborted" and p.sent == INF:
                    self.fail("%s returned value #%d of an interrupted upload" % (g.kind, p.id), "aborted-upload-visible", g)
                for w in ends:
                    if w.start > p.end and w.end < g.start and w is not p:
                        if w.kind in ("GET", "HEAD") and w.status == 200 and w.uid == p.uid:
                            continue
                        self.fail("%s%d returned value #%d, stale since %s%d" % (g.kind, g.id, p.id, w.kind, w.id), "stale-read-after-" + w.kind, g)
            elif (g.kind in ("GET", "HEAD", "DELETE")) and g.status == 404:
                n += 1
                self.check_absent(g, puts, ops)
            elif g.kind == "DELETE" and g.status == 200:
                n += 1
                ok = any(p.start < g.end and not any(w.start > p.end and w.end < g.start for w in ends
                                                     if not (w.kind in ("GET", "HEAD") and w.status == 200))
                         for p in puts)
                if not ok:
                    self.fail("DELETE%d answered 200 but nothing can have been stored" % g.id, "delete-of-nothing", g)
            elif g.kind == "PUT" and g.key == k:
                n += 1
        return n

    def check_absent(self, g, puts, ops):
        for p in puts:
            if p.status != 200 or not p.end < g.start:
                continue
            excuse = False
            for w in ops:
                if w is p or w is g:
                    continue
                if w.kind in ("DELETE", "DELTAB", "BULK") or (w.kind == "PUT" and w.status != 200):
                    pass
                elif w.kind == "PUT" and w.key != g.key:
                    pass
                elif w.kind == "PUT" and w.end > g.start and w.start < g.end:
                    pass
                else:
                    continue
                if not (w.end < p.start or w.start > g.end):
                    excuse = True
                    break
            if not excuse:
                self.fail("%s%d answered 404 although value #%d was stored and nothing removed it" % (g.kind, g.id, p.id), "lost-value", g)
