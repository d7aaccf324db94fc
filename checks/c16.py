"""C16: the buffer's own functions in every state of a small buffer and in random histories, compared with a plain queue under the address sanitizer;
requests of the real server placed at every position of the buffer"""
import os, subprocess, time
from vlib.srv import Server, Violation, Inconclusive, mkscratch, rmscratch, SAN_RE, san_signature
from vlib import build
from vlib.http import *
from vlib.audit import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "asan:BUFFER_SIZE=1024", "dbg:BUFFER_SIZE=1024", "rel"]
RULE = ("A case is one result of a buffer function compared with the queue, or one request of a server answered as if the buffer had no end. Distinct and "
        "non-trivial: (position, fill level) states of the buffer that the functions were called in, and (position of the request in the buffer, division "
        "into segments) of the requests.")
ASSUME = ["a string compared with the buffer contains no NUL, as in the server", "the functions and macros of read_buffer.h keep their names; otherwise only the server is observed"]
FLAGS = ["-std=c++11", "-w", "-g", "-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for dbg in (0, 1):
        for p in range(16 if not q or not dbg else 6):
            out.append(("states", dict(size=256, dbg=dbg, part=(p * (3 if dbg else 1) + seed) % 16, parts=16, deep=0 if q else 1, seed=seed)))
        for p in range(1 if q else 16):
            out.append(("states", dict(size=16384, dbg=dbg, part=p + seed % 7, parts=400 if q else 64, deep=0, seed=seed)))
    for i in range(8 if q else 64):
        out.append(("histories", dict(size=[256, 1024, 16384, 512][i % 4], dbg=i // 4 % 2, steps=60000 if q else 1000000, seed=seed * 1000 + i)))
    for i in range(8):
        out.append(("positions", dict(seed="%d-%d" % (seed, i), variant=["asan:BUFFER_SIZE=1024", "dbg:BUFFER_SIZE=1024"][i % 2], size=1024,
                                      offs=[o for o in range(1024) if o % 8 == i], rounds=1 if q else 8)))
    for i in range(8 if q else 32):
        n = 8 if q else 32
        offs = [o for o in range(16384) if o % n == i and (not q or o > 16384 - 400 or o < 40 or o % 64 == i)]
        out.append(("positions", dict(seed="%d-L%d" % (seed, i), variant=["asan", "rel", "dbg"][i % 3], size=16384, offs=offs, rounds=1)))
    for i in range(6 if q else 60):
        out.append(("streams", dict(seed="%d-s%d" % (seed, i), variant=["asan:BUFFER_SIZE=1024", "dbg:BUFFER_SIZE=1024", "asan"][i % 3], total=1 << 20 if q else 1 << 23)))
    return out


def harness(size, dbg):
    try:
        return build.build_harness("rbuf", [os.path.join(build.VERIF, "harness", "rbuf.cpp")],
                                   FLAGS + ["-DBUFFER_SIZE=%d" % size] + (["-DDEBUG_BUILD"] if dbg else ["-DNDEBUG", "-DRELEASE"]), repo_srcs=["src/core/read_buffer.cpp"])
    except build.BuildError as e:
        raise Inconclusive("the buffer can't be built by itself any more: " + str(e)[-300:])


def run(obs, exe, args, tag):
    d = mkscratch()
    try:
        env = dict(PATH="/usr/bin:/bin", ASAN_OPTIONS="abort_on_error=0:log_path=%s/san" % d, UBSAN_OPTIONS="log_path=%s/san:print_stacktrace=1" % d)
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=open(os.path.join(d, "err"), "wb"), env=env, cwd=d)
        last = p.stdout.decode("latin1").strip().split("\n")[-1]
        if last.startswith("MISMATCH"):
            raise Violation("the buffer differs from a queue of bytes: " + last[9:400], key="mismatch:" + last.split(": ", 1)[-1].split(" ")[0], detail=repr(args))
        if p.returncode != 0 or not last.startswith("ok "):
            rep = b""
            for f in os.listdir(d):
                with open(os.path.join(d, f), "rb") as fh:
                    fh.seek(0, 2)
                    n = fh.tell()
                    fh.seek(0 if f.startswith("san") else max(0, n - 3000))
                    rep += fh.read(200000)
            m = SAN_RE.search(rep)
            if p.returncode < 0 or m:
                raise Violation("a buffer function fails: " + (m.group(1).decode("latin1") if m else "signal %d" % -p.returncode), key="san:" + san_signature(rep), detail=rep.decode("latin1")[-4000:])
            raise Inconclusive("harness: rc %d %r" % (p.returncode, last))
        _, ev, st = last.split()
        obs.ev(int(ev))
        obs.count("buffer_states", int(st))
        for i in range(min(int(st), 3000)):
            obs.seen(tag, i)
        obs.count("buffer_calls_compared", int(ev))
    finally:
        rmscratch(d)


def states(obs, size, dbg, part, parts, deep, seed):
    run(obs, harness(size, dbg), ["states", part, parts, deep, seed], ("states", size, dbg, part))
    obs.sample(dict(size=size, positions="%d modulo %d, in the first and the last round of the 16 bit positions" % (part, parts), fill_levels="0..%d" % size))


def histories(obs, size, dbg, steps, seed):
    run(obs, harness(size, dbg), ["hist", seed, 1, steps, seed], ("hist", size, dbg, seed))


def filler(n):
    """Requests of n bytes in total -> (bytes, number of responses)"""
    base = req("GET", b"/f/f")
    out, k = b"", 0
    while n:
        # a request has at least this length and its URL is extended
        if n < len(base):
            raise ValueError(n)
        m = n if n < 2 * len(base) + 200 else min(200, n - len(base))
        if n - m and n - m < len(base):
            m = n
        out += req("GET", b"/f/f" + b"x" * (m - len(base)))
        k += 1
        n -= m
    return out, k


def positions(obs, seed, variant, size, offs, rounds):
    """The same few requests begin at each position of the buffer"""
    r = rng("c16", seed)
    with Server(variant, unix=True) as s:
        for rnd in range(rounds):
            for o in offs:
                off = o if o == 0 or o >= 40 else o + size
                seg = r.choice(["one", "one", "edge", "few", "wrap"])
                t, k = b"t%d" % r.randrange(3), gen.name(r, r.choice(["a", "n"])) + b"%d" % o
                ttl = r.choice([7, 86400, 2147483, 1000000000])
                v = gen.data((seed, o, rnd), r.choice([1, 30, 130, 500]))
                # the headers in an order that puts each of them at the end of the buffer for some position
                h = [("X-Ttl", ttl), ("Content-Length", len(v)), ("X-Other", b"o" * r.randrange(1, 40))]
                r.shuffle(h)
                msgs = [("PUT", req("PUT", path(t, k), h)), ("GET", req("GET", path(t, k))), ("HEAD", req("HEAD", path(t, k))),
                        ("BULK", req("BULK", path(t), [("X-Delete", b"nothing"), ("X-Delete", k)])), ("GET", req("GET", path(t, k)))]
                msgs[0] = ("PUT", msgs[0][1] + v)
                fill, nf = filler(off) if off else (b"", 0)
                with Conn(s) as c:
                    for _ in range(nf):
                        c.p.pending.append("GET")
                    for m, _ in msgs:
                        c.p.pending.append(m)
                    data = b"".join(m for _, m in msgs)
                    chunks = [len(data)]
                    if seg == "wrap":
                        e = size - off % size + r.choice([-1, 0, 1])
                        if 1 < e < len(data) - 1:
                            chunks = [e, len(data) - e]
                    elif seg != "one":
                        chunks = gen.cuts(r, len(data), seg)
                    # the buffer begins anew whenever it is empty: what was sent before is followed at once by the first part of the requests
                    p = chunks[0]
                    c.send(fill + data[:p])
                    for n in chunks[1:]:
                        if len(chunks) < 6:
                            barrier_turn(s)
                        c.send(data[p:p + n])
                        p += n
                    for _ in range(nf):
                        x = c.recv()
                        if x.status != 404:
                            raise Violation("a request in front of position %d answered %r" % (o, x), key="filler")
                    rs = [c.recv() for _ in msgs]
                where = "requests that begin at position %d of the buffer (%s)" % (o, seg)
                expect(rs[0], "PUT", 200, b"OK\r\n")
                if value_of(rs[1]) != v:
                    raise Violation("%s: GET returned %s" % (where, diff(v, value_of(rs[1]))), key="pos-value")
                got = int(rs[1].h("x-ttl"))
                if not ttl - 5 <= got <= ttl:
                    raise Violation("%s: the lifetime %d became %d" % (where, ttl, got), key="pos-ttl")
                if rs[2].status != 200 or rs[2].h("content-length") != str(len(v)):
                    raise Violation("%s: HEAD answered %r" % (where, rs[2]), key="pos-head")
                expect(rs[3], "BULK", 200, b"BULK OK\r\n")
                if value_of(rs[4]) is not None:
                    raise Violation("%s: the bulk delete did not remove the key" % where, key="pos-bulk")
                obs.ev(len(msgs))
                obs.seen("pos", size, o, seg)
            s.check()
        with Conn(s) as c:
            audit(s, c, {}, "after requests at all positions")
        obs.count("positions", len(offs) * rounds)
        s.stop()


def barrier_turn(s):
    """The event loop has gone round"""
    t = s.shm.get("turns")
    s.wait(lambda: s.shm.get("turns") >= t + 2, 5)


def streams(obs, seed, variant, total):
    """Long pipelined streams of requests in arbitrary segments, with limited reads of the server"""
    r = rng("c16s", seed)
    size = 1024 if "1024" in variant else 16384
    with Server(variant, unix=True) as s:
        sent = 0
        M = {}
        n = 0
        while sent < total:
            s.shm.set(sock_rlimit=r.choice([0, 0, 1, 13, 255, 256, 257, 1000]) if sent < total / 3 else 0)
            with Conn(s) as c:
                for _ in range(r.randrange(1, 20)):
                    msgs = []
                    for _ in range(r.randrange(1, 12)):
                        n += 1
                        t, k = b"t", b"k%d" % r.randrange(60)
                        x = r.random()
                        if x < .5:
                            v = gen.data((seed, n), r.choice([1, 5, 100, 900, 1023, 1024, 1025, 3000, 4096, 4097, 9000]))
                            ttl = r.choice([None, 1000000])
                            h = [("X-Ttl", ttl)] if ttl else []
                            msgs.append(("PUT", req("PUT", path(t, k), h, v), ("put", None)))
                            M.setdefault(t, {})[k] = v
                        elif x < .8:
                            msgs.append(("GET", req("GET", path(t, k), [("X-Pad", b"p" * r.randrange(1, 300))]), ("get", M.get(t, {}).get(k))))
                        elif x < .9:
                            msgs.append(("DELETE", req("DELETE", path(t, k)), ("del", k in M.get(t, {}))))
                            drop(M, t, k)
                        else:
                            ks = [b"k%d" % r.randrange(60) for _ in range(r.randrange(1, 8))]
                            msgs.append(("BULK", req("BULK", path(t), [("X-Delete", k) for k in ks]), ("bulk", None)))
                            for k in ks:
                                drop(M, t, k)
                    data = b"".join(m[1] for m in msgs)
                    for m in msgs:
                        c.p.pending.append(m[0])
                    c.send(data, gen.cuts(r, len(data), r.choice(["one", "few", "many", "edge"])))
                    sent += len(data)
                    for m, d, (kind, want) in msgs:
                        x = c.recv()
                        if kind == "put":
                            expect(x, "PUT", 200, b"OK\r\n")
                        elif kind == "get":
                            if value_of(x) != want:
                                raise Violation("in a stream of requests GET returned %s" % diff(want, value_of(x)), key="stream-value")
                        elif kind == "del":
                            if deleted_of(x) != want:
                                raise Violation("in a stream of requests DELETE answered %r" % x, key="stream-delete")
                        else:
                            expect(x, "BULK", 200, b"BULK OK\r\n")
                        obs.ev()
            s.check()
        with Conn(s) as c:
            audit(s, c, M, "after streams of requests")
        obs.seen("stream", seed)
        obs.count("stream_bytes", sent)
        s.stop()
