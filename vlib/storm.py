"""Random interleavings of the requests of many connections, recorded as a history"""
import random, time
from .srv import Violation
from .http import *
from .hist import Hist
from . import gen


class Client:
    def __init__(self, mux, h):
        self.mux, self.h = mux, h
        self.c = None
        self.r = random.Random(len(mux.conns))
        self.q = []      # outstanding ops, in order
        self.sendq = []  # (op, bytes left to send of it)

    def connect(self, rcvbuf=None):
        self.c = self.mux.open(rcvbuf)
        self.c.client = self

    def issue(self, op, data, method):
        if getattr(self.mux.srv, "small", False) and self.r.random() < .5 and not self.c.out:
            data = filler(self.r, min(len(data), 300)) + data
        self.c.p.pending.append(method)
        self.q.append(op)
        self.sendq.append([op, len(data)])
        op.phase = "line"
        op.line = 0
        self.c.queue(data)

    def push(self, n):
        k = self.c.push(n)
        h = self.h
        t = h.tick()
        sent = k
        while sent and self.sendq:
            o, left = self.sendq[0]
            d = min(sent, left)
            left -= d
            sent -= d
            self.sendq[0][1] = left
            o.phase = "body" if o.kind == "PUT" else "sending"
            if left == 0:
                o.sent = t
                o.phase = "sent"
                self.sendq.pop(0)
        return k

    def drain(self):
        """Take the responses that have arrived"""
        n = 0
        while self.q:
            o = self.q[0]
            if self.c.p.buf:
                o.phase = "response"
            r = self.c.p.next()
            if r is None:
                break
            self.q.pop(0)
            if o.sent > (1 << 50):
                raise Violation("%s was answered before it was sent completely: %r" % (o, r), key="early-answer", detail=self.h.dump())
            check_shape(o, r)
            self.h.done(o, r)
            n += 1
        if self.c.p.eof and self.q:
            self.mux.srv.check()
            raise Violation("the server closed a connection with %d requests outstanding, first %r" % (len(self.q), self.q[0]), key="closed-without-response", detail=self.h.dump())
        return n


def check_shape(o, r):
    if o.kind == "PUT":
        expect(r, "PUT", 200, b"OK\r\n")
    elif o.kind == "GET":
        value_of(r)
    elif o.kind == "HEAD":
        if r.status not in (200, 404):
            raise ProtocolError("HEAD answered %r" % r)
    elif o.kind in ("DELETE", "DELTAB"):
        deleted_of(r)
    elif o.kind == "BULK":
        expect(r, "BULK", 200, b"BULK OK\r\n")
    elif o.kind == "STATS":
        parse_stats(r)


def build_op(h, r, kind, t, k, keys, size):
    o = h.new(kind, t, None if kind in ("DELTAB", "BULK") else k)
    if kind == "PUT":
        return o, req("PUT", path(t, k), (), h.value(o, size)), "PUT"
    if kind in ("GET", "HEAD", "DELETE"):
        return o, req(kind, path(t, k)), kind
    if kind == "DELTAB":
        return o, req("DELETE", path(t)), "DELETE"
    o.keys = r.sample(keys, r.randrange(1, min(3, len(keys)) + 1))
    return o, req("BULK", path(t), [("X-Delete", x) for x in o.keys]), "BULK"


def overlap_seen(obs, clients, o):
    for c in clients:
        for p in c.q[:2]:
            if p is not o and p.table == o.table and (p.key == o.key or p.key is None or o.key is None):
                obs.seen(o.kind, o.phase, p.kind, p.phase, (o.length or 0) > 4096, (p.length or 0) > 4096)


def run_storm(obs, s, r, h, steps, tabs, keys, slow=False, weights=None, sizes=(20, 4000), nclients=None, maxq=1, aborts=.015, gc=.02,
              finish=1.0, hook=None, leave=False):
    """finish: part of the connections that complete what they have begun at the end, the others are closed. All connections are closed after it.
    leave: return with everything as it is.
    -> control connection, base number of sockets [, Mux, clients]"""
    mux = Mux(s)
    ctl = Conn(s)
    barrier(ctl)
    base_socks = s.nsock()
    clients = []
    for i in range(nclients or r.randrange(3, 16)):
        c = Client(mux, h)
        c.connect(4096 if slow and r.random() < .7 else None)
        clients.append(c)
    w = weights or dict(PUT=34, GET=38, HEAD=6, DELETE=10, DELTAB=r.choice([0, 1, 4]), BULK=2)

    def gone(c, rst):
        for cc in clients:
            cc.c.pump() if cc.c.reading else None
        c.drain()
        c.mux.close(c.c, rst=rst)
        # until its connection is known to be gone
        if not s.wait(lambda: s.nsock() <= base_socks + len(mux.conns)):
            raise Violation("a closed connection stays open", key="hang:close", soft=True)
        barrier(ctl, 1)
        for o in c.q:
            h.discarded(o)
            obs.count("aborted")
        c.q, c.sendq = [], []

    for step in range(steps):
        c = r.choice(clients)
        x = r.random()
        if len(c.q) < maxq and not c.c.out and x < .6:
            kind = r.choices(list(w), list(w.values()))[0]
            t, k = r.choice(tabs), r.choice(keys)
            o, data, m = build_op(h, r, kind, t, k, keys, r.randrange(*sizes))
            c.issue(o, data, m)
            overlap_seen(obs, clients, o)
        if c.c.out:
            n = r.choice([None, None, 1, 5, 20, r.randrange(1, 200), len(c.c.out) - 1, max(1, len(c.c.out) // 2)])
            c.push(n)
            for p in c.q[:1]:
                overlap_seen(obs, clients, p)
        if x > 1 - aborts and c.q:
            # this client goes away
            gone(c, r.random() < .4)
            c.connect(4096 if slow and r.random() < .7 else None)
        if slow and r.random() < .1:
            c.c.reading = not c.c.reading
        if x < .5:
            barrier(ctl, 1)
        if r.random() < gc:
            ctl.gc()
        if hook:
            hook(step, ctl)
        mux.poll(0)
        for cc in clients:
            cc.drain()
    if leave:
        return ctl, base_socks, mux, clients
    # finish everything
    for c in list(clients):
        c.c.reading = True
        if r.random() >= finish:
            gone(c, r.random() < .4)
            clients.remove(c)
    t0 = time.time()
    while any(c.q or c.c.out for c in clients):
        for c in clients:
            if c.c.out:
                c.push(None)
        mux.poll(0.01)
        n = sum(c.drain() for c in clients)
        if n:
            t0 = time.time()
        if time.time() - t0 > 20:
            s.check()
            raise Violation("requests stay unanswered: %r" % [c.q[0] for c in clients if c.q][:3], key="hang:unanswered", soft=True, detail=h.dump())
    mux.close_all()
    if not s.wait(lambda: s.nsock() <= base_socks):
        raise Violation("closed connections stay open", key="hang:close", soft=True)
    barrier(ctl, 1)
    obs.count("operations", len(h.ops))
    obs.count("max_clients", len(clients))
    return ctl, base_socks


def observe(c, h, tabs, keys):
    """Read everything that may be stored -> {table: {key: value}}, recorded in the history"""
    M = {}
    for t in tabs:
        for k in keys:
            o = h.new("GET", t, k)
            o.sent = h.tick()
            r = c.getr(t, k)
            h.done(o, r)
            if o.status == 200:
                M.setdefault(t, {})[k] = r.body
    return M


def record_delete(c, h, t, k):
    o = h.new("DELETE", t, k)
    o.sent = h.tick()
    r = c.do("DELETE", path(t, k))
    deleted_of(r)
    h.done(o, r)
    return o.status == 200


def settle_dead(mux, clients, h):
    """The server is gone: take the responses that arrived before, what is unanswered now was interrupted. -> interrupted operations"""
    lost = []
    for c in clients:
        c.c.reading = True
        t0 = time.time()
        while not c.c.p.eof and time.time() - t0 < 5:
            if not c.c.pump():
                time.sleep(.001)
        while c.q:
            o = c.q[0]
            r = c.c.p.next()
            if r is None:
                break
            c.q.pop(0)
            if r.status == 200 and o.sent > (1 << 50):
                raise Violation("%s was answered before it was sent completely: %r" % (o, r), key="early-answer", detail=h.dump())
            check_shape(o, r)
            h.done(o, r)
        lost += c.q
    for o in lost:
        h.discarded(o)
    mux.close_all()
    return lost
