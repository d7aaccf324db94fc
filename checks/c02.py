"""C02: recorded histories of many interleaved connections, checked per key against the admissible writes"""
import time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "asan:DB_LRU_EVERY=3", "rel", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one completed operation of a recorded concurrent history that was judged by the history checker. Distinct and "
        "non-trivial: the tuples (operation, its phase, other operation on the same key, its phase, block or file) that were actually "
        "overlapping on one key.")
ASSUME = ["an unanswered upload is treated as possibly effective until its connection is known to be closed",
          "an upload to a key that is being uploaded by another connection may be discarded (documented behaviour of the code)"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 300):
        v = ["asan", "asan:BUFFER_SIZE=1024", "asan:DB_LRU_EVERY=3", "dbg", "asan"][i % 5]
        out.append(("storm", dict(seed="%d-%d" % (seed, i), variant=v, steps=2500 if q else 8000, unix=i % 3 == 0)))
    for kind in ("block", "file", "bigfile"):
        out.append(("stalled_reader", dict(seed="%d-%s" % (seed, kind), kind=kind, variant="asan", rounds=1 if q else 8)))
        out.append(("stalled_writer", dict(seed="%d-w%s" % (seed, kind), kind=kind, variant="dbg" if kind == "block" else "asan", rounds=1 if q else 8)))
    return out


def storm(obs, seed, variant, steps, unix):
    r = rng("c02", seed)
    h = Hist(seed)
    slow = r.random() < .5
    with Server(variant, unix=unix, shm=dict(sndbuf=4608) if slow else None) as s:
        if r.random() < .3:
            s.shm.set(sock_wlimit=r.choice([50, 700, 3000]))
        if r.random() < .3:
            s.shm.set(sock_rlimit=r.choice([7, 100, 1000]))
        tabs = gen.names(r, r.randrange(1, 4), ["a"], table=True)
        keys = gen.names(r, r.randrange(1, 4), ["a", "n"])
        ctl, _ = run_storm(obs, s, r, h, steps, tabs, keys, slow, sizes=r.choice([(20, 4000), (20, 4000), (4000, 9000), (20, 60000), (3000, 5000)]),
                           maxq=r.choice([1, 1, 2, 5]))
        # quiet reads at the end
        observe(ctl, h, tabs, keys)
        obs.ev(h.check())
        obs.count("histories")
        obs.count("gets_with_value", sum(1 for o in h.ops if o.kind == "GET" and o.status == 200))
        obs.sample(dict(variant=variant, history_tail=[repr(o) for o in h.ops[-5:]]))
        s.stop()


SIZES = {"block": 3000, "file": 9000, "bigfile": 300000}


def stalled_reader(obs, seed, kind, variant, rounds):
    """A value is being sent to a client that reads slowly while its key, table or space is taken away"""
    r = rng("c02r", seed)
    once = False
    for rnd in range(rounds):
        for dist in ("overwrite-same", "overwrite-other-class", "delete", "delete+reuse", "delete-table", "delete-table+reuse", "bulk",
                     "abort-upload", "overwrite-many", "evict", "two-readers") * (2 if kind == "block" else 1):
            h = Hist("%s-%s-%s" % (seed, dist, rnd))
            # a small value may also be in the socket as a whole, and not read by the client, when its place is used again
            once = not once and kind == "block"
            with Server(variant, unix=not once or r.random() < .5, max_size=2000000 if dist == "evict" else None,
                        shm=None if once else dict(sndbuf=4608, sock_wlimit=r.choice([64, 200, 256]))) as s:
                c = Conn(s)

                def run(kind_, t, k, size=0, keys=None):
                    o = h.new(kind_, t, None if kind_ in ("DELTAB", "BULK") else k)
                    if kind_ == "PUT":
                        rq = req("PUT", path(t, k), (), h.value(o, size))
                    elif kind_ == "DELTAB":
                        rq = req("DELETE", path(t))
                    elif kind_ == "BULK":
                        o.keys = keys
                        rq = req("BULK", path(t), [("X-Delete", x) for x in keys])
                    else:
                        rq = req(kind_, path(t, k))
                    c.p.pending.append("DELETE" if kind_ == "DELTAB" else kind_)
                    c.send(rq)
                    o.sent = h.tick()
                    res = c.recv()
                    check_shape(o, res)
                    h.done(o, res)
                    return o

                base = SIZES[kind]
                run("PUT", b"t", b"k", r.choice([base + r.randrange(500), 4096, 4095]) if kind == "block" else base + r.randrange(500))
                run("PUT", b"t", b"neighbour", 100)
                readers = []
                for i in range(2 if dist == "two-readers" else 1):
                    rd = NB(s)
                    o = h.new("GET", b"t", b"k")
                    rd.p.pending.append("GET")
                    rd.queue(req("GET", path(b"t", b"k")))
                    rd.push()
                    o.sent = h.tick()
                    readers.append((rd, o))
                barrier(c)
                want = 0 if once else r.choice([0, 30, 120, 500])
                for rd, o in readers:
                    if want:
                        rd.pump(want)
                barrier(c)
                stalled = all(len(rd.p.buf) < base for rd, o in readers)
                if dist in ("overwrite-same", "two-readers"):
                    run("PUT", b"t", b"k", base + 600)
                elif dist == "overwrite-other-class":
                    run("PUT", b"t", b"k", 9000 if kind == "block" else 700)
                elif dist.startswith("delete-table"):
                    run("DELTAB", b"t", None)
                elif dist.startswith("delete"):
                    run("DELETE", b"t", b"k")
                elif dist == "bulk":
                    run("BULK", b"t", None, keys=[b"k", b"neighbour"])
                elif dist == "abort-upload":
                    a = NB(s)
                    o2 = h.new("PUT", b"t", b"k")
                    d = req("PUT", path(b"t", b"k"), (), h.value(o2, base + 900))
                    a.queue(d)
                    a.push(len(d) - 20)
                    barrier(c)
                    a.close()
                    barrier(c, 3)
                    h.discarded(o2)
                elif dist == "overwrite-many":
                    for i in range(4):
                        run("PUT", b"t", b"k", r.choice([50, 3500, 5000, 20000]))
                elif dist == "evict":
                    for i in range(30):
                        run("PUT", b"u", b"fill%d" % i, 100000)
                    c.gc()
                # take over whatever space was released
                for i in range(6 if ("reuse" in dist or r.random() < .5) else 0):
                    run("PUT", b"new", b"n%d" % i, r.choice([4000, 4096, 4096, base + 300]))
                if dist != "evict":
                    run("GET", b"t", b"k")
                for rd, o in readers:
                    t0 = time.time()
                    while True:
                        rd.pump()
                        res = rd.p.next()
                        if res is not None:
                            break
                        if rd.p.eof:
                            s.check()
                            raise Violation("the download was cut off by %s after %d bytes" % (dist, len(rd.p.buf)), key="download-cut:" + dist, detail=h.dump())
                        if time.time() - t0 > 20:
                            raise Violation("the download does not continue after %s" % dist, key="download-hang:" + dist, soft=True)
                        time.sleep(.0005)
                    value_of(res)
                    h.done(o, res)
                    if o.status != 200 or o.uid != 0:
                        raise Violation("a download in progress was answered %r instead of the value stored when it began" % o, key="download-changed:" + dist, detail=h.dump())
                if dist == "evict":
                    h.ops = [o for o in h.ops if o.table == b"t" and o.kind != "GET" or o in [x for _, x in readers]]
                else:
                    for k in (b"k", b"neighbour"):
                        run("GET", b"t", k)
                    for i in range(6):
                        run("GET", b"new", b"n%d" % i)
                obs.ev(h.check())
                obs.seen("stalled", kind, dist, stalled, want, once)
                obs.count("stalled_readers", int(stalled))
                for rd, _ in readers:
                    rd.close()
                s.stop()


def stalled_writer(obs, seed, kind, variant, rounds):
    """An upload stops at some point while its key or table is read, written, deleted, listed, collected"""
    r = rng("c02w", seed)
    for rnd in range(rounds):
        for point in ("line", "after-url", "headers", "body0", "body1", "bodymid", "bodylast"):
            for dist in ("get", "put", "put+delete", "delete", "delete+put", "delete-table", "delete-table+put", "bulk", "list", "gc", "second-upload-aborted"):
                if rnd == 0 and r.random() < .35:
                    continue
                h = Hist("%s-%s-%s-%s" % (seed, point, dist, rnd))
                with Server(variant, unix=True) as s:
                    _stalled_writer(obs, r, h, s, kind, point, dist)


def _stalled_writer(obs, r, h, s, kind, point, dist):
    c = Conn(s)

    def run(kind_, t, k, size=0, keys=None):
        o, rq, m = build_op(h, r, kind_, t, k, [b"k", b"z"], size)
        c.p.pending.append(m)
        c.send(rq)
        o.sent = h.tick()
        res = c.recv()
        check_shape(o, res)
        h.done(o, res)
        return o

    if r.random() < .6:
        run("PUT", b"t", b"k", r.choice([500, 7000]))
    if r.random() < .5:
        run("PUT", b"t", b"z", 77)
    wr = NB(s)
    o = h.new("PUT", b"t", b"k")
    v = h.value(o, SIZES[kind] if kind != "bigfile" else 70000)
    d = req("PUT", path(b"t", b"k"), (), v)
    head = len(d) - len(v)
    n = {"line": r.randrange(1, 7), "after-url": len("PUT /t/k "), "headers": head - r.randrange(1, 12), "body0": head, "body1": head + 1,
         "bodymid": head + len(v) // 2, "bodylast": len(d) - 1}[point]
    wr.p.pending.append("PUT")
    wr.queue(d)

    def push(upto):
        t0 = time.time()
        left = upto
        while left > 0:
            left -= wr.push(left)
            if time.time() - t0 > 20:
                raise Violation("upload not read", key="hang:upload", soft=True)
    push(n)
    barrier(c)
    if dist == "get":
        run("GET", b"t", b"k")
        run("HEAD", b"t", b"k")
    elif dist == "put":
        run("PUT", b"t", b"k", 900)
        run("GET", b"t", b"k")
    elif dist == "put+delete":
        run("PUT", b"t", b"k", 900)
        run("DELETE", b"t", b"k")
        run("PUT", b"t", b"k", 950)
    elif dist == "delete":
        run("DELETE", b"t", b"k")
    elif dist == "delete+put":
        run("DELETE", b"t", b"k")
        run("PUT", b"t", b"k", 6000)
        run("GET", b"t", b"k")
    elif dist == "delete-table":
        run("DELTAB", b"t", None)
    elif dist == "delete-table+put":
        run("DELTAB", b"t", None)
        run("PUT", b"t", b"k", 300)
        run("PUT", b"t", b"z", 6200)
        run("GET", b"t", b"k")
    elif dist == "bulk":
        run("BULK", b"t", None)
    elif dist == "list":
        listing(s, b"t")
    elif dist == "gc":
        c.gc()
    elif dist == "second-upload-aborted":
        a = NB(s)
        o2 = h.new("PUT", b"t", b"k")
        d2 = req("PUT", path(b"t", b"k"), (), h.value(o2, 5555))
        a.queue(d2)
        a.push(len(d2) - 5)
        barrier(c)
        a.close()
        barrier(c, 3)
        h.discarded(o2)
    for i in range(r.randrange(0, 4)):
        run("PUT", b"new", b"n%d" % i, r.choice([4000, 100, 10000]))
    run("GET", b"t", b"z")
    push(len(d) - n)
    o.sent = h.tick()
    t0 = time.time()
    while True:
        wr.pump()
        res = wr.p.next()
        if res is not None:
            break
        if wr.p.eof:
            s.check()
            raise Violation("upload cut off after %s at %s" % (dist, point), key="upload-cut:" + dist, detail=h.dump())
        if time.time() - t0 > 20:
            raise Violation("upload unanswered after %s at %s" % (dist, point), key="upload-hang:" + dist, soft=True)
        time.sleep(.0002)
    check_shape(o, res)
    h.done(o, res)
    for k in (b"k", b"z"):
        run("GET", b"t", k)
    for i in range(4):
        run("GET", b"new", b"n%d" % i)
    # and the key is usable afterwards
    run("PUT", b"t", b"k", 1234)
    run("GET", b"t", b"k")
    run("DELETE", b"t", b"k")
    run("GET", b"t", b"k")
    obs.ev(h.check())
    obs.seen("writer", kind, point, dist)
    wr.close()
    s.stop()
