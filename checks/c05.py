"""C05: clients that read slowly or not at all, tiny socket buffers and short writes; every byte of every response is judged"""
import random, time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib import gen
from vlib.run import rng
from checks.c04 import Script, judge, fixed

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel"]
RULE = ("A case is one response received under back pressure and compared byte for byte with the expected one. Distinct and non-trivial: "
        "combinations of response kind, size class, bytes per write, socket buffer, and whether writes really were cut short.")
ASSUME = ["bounded delay: with stalled clients present, the requests of another client are answered within 3 seconds each"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(30 if q else 240):
        out.append(("trickle", dict(seed="%d-%d" % (seed, i), variant=["asan", "dbg", "asan", "rel"][i % 4], rounds=6 if q else 16)))
    for i in range(12 if q else 100):
        out.append(("crosswise", dict(seed="%d-x%d" % (seed, i), variant=["rel", "asan", "rel", "dbg"][i % 4], rounds=4 if q else 16)))
    for i in range(6 if q else 40):
        out.append(("stalled", dict(seed="%d-s%d" % (seed, i), variant=["asan", "rel"][i % 2])))
    for i in range(6 if q else 30):
        out.append(("listings", dict(seed="%d-l%d" % (seed, i), variant=["asan", "dbg"][i % 2])))
    out.append(("queued", dict(seed="%d-q" % seed, variant="asan", rounds=30 if q else 200)))
    out.append(("huge", dict(seed="%d-h" % seed, variant="rel", mb=60 if q else 600)))
    for i in range(2 if q else 10):
        out.append(("monitoring", dict(seed="%d-m%d" % (seed, i), variant="asan")))
    return out


def slow_play(obs, s, sc, r, nb, rates, tag):
    data = sc.stream()
    for it in sc.items:
        nb.p.pending.append(it[0])
    nb.queue(data)
    got = 0
    t0 = time.time()
    e0 = s.shm.get("sock_eagain")
    while got < len(sc.items):
        moved = nb.push(r.choice([None, 10, 1000])) > 0
        lim = r.choice(rates)
        if lim:
            moved = nb.pump(lim) > 0 or moved
        if r.random() < .2:
            time.sleep(r.random() * .002)
        while got < len(sc.items):
            x = nb.p.next()
            if x is None:
                break
            judge(obs, sc.items[got], x, got, (tag,), sc)
            obs.seen(sc.items[got][3], gen.size_class(len(x.body)), s.shm.get("sock_wlimit"), s.shm.get("sndbuf"), s.shm.get("sock_eagain") > e0)
            got += 1
            moved = True
        if moved:
            t0 = time.time()
        elif nb.p.eof:
            time.sleep(.02)
            s.check()
            raise Violation("the connection was closed in the middle of the responses (%d of %d complete)" % (got, len(sc.items)), key="closed:" + tag)
        elif time.time() - t0 > 15:
            s.check()
            raise Violation("the response to request %d (%s) does not continue" % (got, sc.items[got][3]), key="hang:" + tag, soft=True,
                            detail=repr(bytes(nb.p.buf[:100])))
        else:
            time.sleep(.0002)
    nb.pump()
    if nb.p.buf:
        raise Violation("surplus bytes after the responses: %r" % bytes(nb.p.buf[:100]), key="surplus")
    obs.count("short_writes", s.shm.get("sock_eagain") - e0)


def trickle(obs, seed, variant, rounds):
    r = rng("c05", seed)
    unix = r.random() < .6
    for rnd in range(rounds):
        with Server(variant, unix=unix, shm=dict(sndbuf=r.choice([0, 4608, 4608, 20000]))) as s:
            wl = r.choice([0, 1, 2, 3, 17, 64, 100, 255, 256, 1000, 4095, 4096])
            s.shm.set(sock_wlimit=wl, wr_yield=r.choice([0, 0, 2, 3, 7]), rw_yield=r.choice([0, 0, 2, 5]))
            big = 300 if wl in (1, 2, 3) else 5000 if wl and wl < 100 else 200000
            sc = Script(r, "t%d" % rnd, r.randrange(5, 40), maxv=big, longkeys=wl == 0 or wl > 50,
                        kinds=["put", "putfile", "get", "get", "get", "head", "miss", "stats", "del", "bulk", "gc", "putttl"])
            nb = NB(s, rcvbuf=r.choice([None, 2048]) if not unix else None)
            slow_play(obs, s, sc, r, nb, r.choice([[None, 1 << 17], [0, 0, 1, 7, 200], [0, 1000, 5000], [1 << 17], [64, 0]]) if wl not in (1, 2, 3) else [1 << 16], "slow reading")
            nb.close()
            s.stop()


def crosswise(obs, seed, variant, rounds):
    """Many connections at once with streams of their own, the responses of all of them written in small pieces in turn"""
    r = rng("c05x", seed)
    for rnd in range(rounds):
        unix = r.random() < .7
        with Server(variant, unix=unix, shm=dict(sndbuf=r.choice([0, 4608]))) as s:
            wl = r.choice([1, 1, 2, 3, 5, 10, 40, 100, 1000])
            s.shm.set(sock_wlimit=wl, wr_yield=r.choice([0, 0, 2, 3, 5]), rw_yield=r.choice([0, 0, 2, 5]))
            big = 400 if wl <= 5 else 6000 if wl < 100 else 60000
            n = r.choice([2, 3, 5, 12, 30])
            P = []
            for i in range(n):
                sc = Script(r, "x%d-%d" % (rnd, i), r.randrange(5, 30), maxv=big, longkeys=wl > 50,
                            kinds=["put", "putfile", "get", "get", "get", "get", "get", "head", "head", "miss", "del", "bulk", "putttl", "putttl", "deltab", "dup"])
                nb = NB(s, rcvbuf=r.choice([None, 2048]) if not unix else None)
                for it in sc.items:
                    nb.p.pending.append(it[0])
                nb.queue(sc.stream())
                P.append([sc, nb, 0])
            rates = r.choice([[None], [0, 1, 7, 200], [1 << 16], [5, 50]])
            sends = r.choice([[None], [1, 10, 50], [100, 1000], [7]])
            todo = list(P)
            t0 = time.time()
            e0 = s.shm.get("sock_eagain")
            while todo:
                x = r.choice(todo)
                sc, nb, got = x
                moved = nb.push(r.choice(sends)) > 0
                lim = r.choice(rates)
                if lim != 0:
                    moved = nb.pump(lim if lim is not None else 1 << 16) > 0 or moved
                while got < len(sc.items):
                    a = nb.p.next()
                    if a is None:
                        break
                    judge(obs, sc.items[got], a, got, ("crosswise",), sc)
                    obs.seen("crosswise", sc.items[got][3], wl, n)
                    got += 1
                    moved = True
                x[2] = got
                if got == len(sc.items):
                    todo.remove(x)
                    if nb.p.buf:
                        raise Violation("surplus bytes after the responses: %r" % bytes(nb.p.buf[:100]), key="surplus")
                elif not moved and nb.p.eof:
                    time.sleep(.02)
                    s.check()
                    raise Violation("a connection among many was closed in the middle of the responses (%d of %d complete)" % (got, len(sc.items)),
                                    key="closed:crosswise")
                if moved:
                    t0 = time.time()
                elif time.time() - t0 > 15:
                    s.check()
                    raise Violation("the responses of %d connections do not continue" % len(todo), key="hang:crosswise", soft=True)
            obs.count("short_writes", s.shm.get("sock_eagain") - e0)
            for _, nb, _ in P:
                nb.close()
            s.stop()


def stalled(obs, seed, variant):
    """Clients which never read, while another one works; then they read everything"""
    r = rng("c05s", seed)
    unix = r.random() < .5
    with Server(variant, unix=unix, shm=dict(sndbuf=4608 if unix else 0)) as s:
        vals = {b"small": gen.data(seed, 900), b"block": gen.data((seed, 1), 4096), b"file": gen.data((seed, 2), 70000), b"big": gen.data((seed, 3), 3000000)}
        c = Conn(s)
        for k, v in vals.items():
            c.put("s", k, v)
        slow = []
        want = []
        for i in range(12):
            nb = NB(s, rcvbuf=2048 if not unix else None)
            ks = [r.choice(list(vals)) for _ in range(60 if i % 2 else 15)]
            for k in ks:
                nb.p.pending.append("GET")
                nb.queue(req("GET", path(b"s", k)))
            nb.push()
            slow.append(nb)
            want.append(ks)
        worst = 0
        M = {}
        for i in range(400):
            k = b"w%d" % r.randrange(20)
            t0 = time.time()
            if r.random() < .5:
                M[k] = gen.data((seed, "w", i), gen.size(r, 0))
                c.put("work", k, M[k])
            else:
                g = c.get("work", k)
                if g != M.get(k):
                    raise Violation("wrong value for another client", key="other-client-value")
            worst = max(worst, time.time() - t0)
            obs.ev()
        if worst > 3:
            raise Violation("with clients which do not read, a request of another one took %.1fs" % worst, key="delay", soft=True)
        n2 = NB(s)  # new connections are served as well
        n2.close()
        obs.count("max_worst_ms", int(worst * 1000))
        unsent = sum(1 for nb in slow if nb.out)
        for nb, ks in zip(slow, want):
            got = 0
            t0 = time.time()
            if r.random() < .25:
                nb.close()
                continue
            while got < len(ks):
                nb.push()
                if nb.pump(r.choice([1000, 50000, 1 << 20])):
                    t0 = time.time()
                x = nb.p.next()
                while x is not None:
                    if value_of(x) != vals[ks[got]]:
                        raise Violation("a stalled client received something else than the value of %r" % ks[got], key="stalled-value",
                                        detail="%r" % x)
                    got += 1
                    obs.ev()
                    x = nb.p.next() if got < len(ks) else None
                if time.time() - t0 > 15:
                    s.check()
                    raise Violation("a stalled client is not served when it reads again", key="stalled-hang", soft=True)
                if nb.p.eof and got < len(ks):
                    s.check()
                    raise Violation("the connection of a stalled client was closed", key="stalled-closed")
            nb.close()
        obs.seen("stalled", unix, unsent)
        obs.count("stalled_clients", len(slow))
        s.stop()


def listings(obs, seed, variant):
    r = rng("c05l", seed)
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        c = Conn(s)
        n = r.choice([1, 5, 100, 1500])
        ks = gen.names(r, n, ["a", "n", "x", "b", "l"] if n < 200 else ["a", "n"])
        for k in ks:
            c.put("list", k, b"v")
        for rnd in range(12):
            wl = r.choice([0, 1, 2, 7, 100, 1000])
            if wl in (1, 2) and sum(map(len, ks)) > 20000:
                wl = 100
            s.shm.set(sock_wlimit=wl)
            pre = r.randrange(0, 3)
            nb = NB(s)
            d = req("GET", "/list/none") * pre + req("GET", "/list", [("X-Limit", 100000)] if r.random() < .5 else [])
            nb.p.pending += ["GET"] * (pre + 1)
            nb.queue(d)
            t0 = time.time()
            left = pre
            while True:
                nb.push()
                moved = nb.pump(r.choice([0, 1, 50, 1000, 1 << 16]))
                if moved:
                    t0 = time.time()
                x = nb.p.next()
                if x is not None:
                    if left:
                        if value_of(x) is not None:
                            raise Violation("wrong response before a listing", key="pre-listing")
                        left -= 1
                    else:
                        break
                if time.time() - t0 > 15:
                    s.check()
                    raise Violation("a listing does not continue", key="listing-hang", soft=True)
                if not moved:
                    time.sleep(.0002)
            st, l, ent, tot = parse_listing(x)
            if sorted(l) != sorted(ks) or ent != len(ks):
                raise Violation("a listing of %d keys read slowly names %d, %d missing, %d wrong" % (len(ks), len(l), len(set(ks) - set(l)), len(set(l) - set(ks))),
                                key="listing-content")
            obs.ev()
            obs.seen("listing", n, wl, pre)
            nb.close()
        # abandoned in the middle
        for i in range(10):
            nb = NB(s)
            nb.p.pending.append("GET")
            nb.queue(req("GET", "/list"))
            nb.push()
            nb.pump(r.choice([0, 10, 100]))
            nb.close()
        if c.get("list", ks[0]) != b"v":
            raise Violation("value lost", key="listing-value")
        s.stop()


def queued(obs, seed, variant, rounds):
    """Complete responses wait in the socket buffers while their storage is released and used again"""
    r = rng("c05q", seed)
    for unix in (True, False):
        with Server(variant, unix=unix) as s:
            c = Conn(s)
            for rnd in range(rounds):
                n = r.randrange(1, 12)
                vals = [gen.data((seed, rnd, i), r.choice([100, 4096, 3000, 4097, 9000])) for i in range(n)]
                for i, v in enumerate(vals):
                    c.put("q", "k%d" % i, v)
                nb = NB(s)
                nb.p.pending += ["GET"] * n
                nb.queue(b"".join(req("GET", "/q/k%d" % i) for i in range(n)))
                nb.push()
                barrier(c, n + 2)
                how = r.choice(["overwrite", "delete", "table", "bulk"])
                if how == "overwrite":
                    for i in range(n):
                        c.put("q", "k%d" % i, b"!" * r.choice([200, 4096, 7000]))
                elif how == "delete":
                    for i in range(n):
                        c.delete("q", "k%d" % i)
                elif how == "table":
                    c.delete("q")
                else:
                    c.bulk("q", ["k%d" % i for i in range(n)])
                for i in range(n + 2):
                    c.put("z", "z%d" % i, b"#" * r.choice([4096, 4000, 6000]))
                got = 0
                t0 = time.time()
                while got < n:
                    nb.pump()
                    x = nb.p.next()
                    if x is None:
                        if nb.p.eof or time.time() - t0 > 15:
                            s.check()
                            raise Violation("queued responses do not arrive", key="queued-hang", soft=True)
                        continue
                    v = value_of(x)
                    # requests processed only after the change answer 404 or the new value
                    if v is not None and v != vals[got] and not (how == "overwrite" and set(v) == {0x21} and len(v) in (200, 4096, 7000)):
                        raise Violation("the response to a GET changed after %s: %d bytes" % (how, len(v)), key="queued-changed:" + how)
                    obs.count("queued_old_value" if v == vals[got] else "queued_later")
                    got += 1
                    obs.ev()
                obs.seen("queued", how, unix, n)
                nb.close()
            s.stop()


def huge(obs, seed, variant, mb):
    with Server(variant, unix=False) as s:
        c = Conn(s)
        piece = random.Random(seed).randbytes(1 << 20)
        n = mb << 20
        c.p.pending.append("PUT")
        c.send(req("PUT", "/huge/k", [("Content-Length", n)]))
        for i in range(mb):
            c.send(piece)
        expect(c.recv(), "PUT", 200, b"OK\r\n")
        c.s.sendall(req("GET", "/huge/k"))
        buf = b""
        while b"\r\n\r\n" not in buf:
            buf += c.s.recv(4096)
        st, hs, l = parse_head(buf)
        if hs.get("content-length") != str(n):
            raise Violation("Content-Length of a value of %d bytes is %s" % (n, hs.get("content-length")), key="huge-length")
        buf = buf[l:]
        pos = 0
        import socket as S
        while pos < n:
            while len(buf) < min(1 << 20, n - pos):
                try:
                    d = c.s.recv(1 << 20)
                except S.timeout:
                    raise Violation("a large download stops at %d of %d" % (pos, n), key="huge-hang", soft=True)
                if not d:
                    raise Violation("a large download ends at %d of %d" % (pos, n), key="huge-cut")
                buf += d
            if buf[:1 << 20] != piece:
                raise Violation("a large download differs after %d" % pos, key="huge-data")
            buf = buf[1 << 20:]
            pos += 1 << 20
            obs.ev()
        c.delete("huge", "k")
        obs.seen("huge", mb)
        s.stop()


def monitoring(obs, seed, variant):
    r = rng("c05m", seed)
    with Server(variant, unix=True, shm=dict(sock_wlimit=r.choice([1, 5, 30]), sndbuf=4608)) as s:
        for i in range(20):
            with Conn(s, mon=True) as c:
                for j in range(r.randrange(1, 5)):
                    m, p, st = r.choice([("HEAD", "/", 200), ("GET", "/", 200), ("GET", "/nothing", 404)])
                    x = c.do(m, p)
                    if x.status != st:
                        raise Violation("monitoring %s %s answered %r" % (m, p, x), key="mon-status")
                    obs.ev()
                    obs.seen("mon", m, p)
        s.stop()
