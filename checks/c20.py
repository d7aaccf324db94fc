"""C20: operations on the database files fail once, again and again or partially, in requests, saves and starts; what was answered, what is
stored then and after the condition is over is compared with a reference"""
import os, re, resource, signal, socket, time
from vlib.srv import Server, Violation, Inconclusive, OPS
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.murmur import murmur32
from vlib.run import rng

LEVEL = "exploration"
ONLY = ":DB_LRU_EVERY=1000000"    # saves only when asked for
VARIANTS = ["asan", "dbg", "rel", "asan:DB_LRU_EVERY=3", "asan" + ONLY, "rel" + ONLY]
RULE = ("A case is a request, save or start during which the storage failed, or one value read after it. Distinct and non-trivial: combinations of the "
        "operation made to fail (and really failing), the error, once or lasting, error or partial transfer, the request concerned, block or file, and its outcome.")
ASSUME = ["memory is available (allocation failures are not injected)",
          "a file which could not be removed may stay until the next start"]
TABS = [b"t", b"uu"]
KEYS = [b"k%d" % i for i in range(7)]
EIO, EINTR, EAGAIN, EMFILE, ENOSPC, ENFILE, EDQUOT, ENOMEM = 5, 4, 11, 24, 28, 23, 122, 12
ERRS = {"open": [EMFILE, ENFILE, ENOSPC, EIO, EDQUOT], "openrd": [EMFILE, ENFILE, EIO], "write": [ENOSPC, EIO, EDQUOT], "trunc": [EIO, ENOSPC],
        "rename": [EIO, ENOSPC], "unlink": [EIO], "fork": [EAGAIN, ENOMEM], "sync": [EIO, ENOSPC], "copy": [ENOSPC, EIO], "pread": [EIO],
        "sendrd": [EIO, EINTR, EAGAIN], "seek": [EIO], "line": [EIO], "access": [EIO, ENOMEM], "mkdir": [ENOSPC, EIO, EDQUOT]}
SHORT = ("write", "copy", "pread", "sendrd")
FAILS = {"PUT": ("open", "write", "trunc", "seek"), "GET": ("openrd", "pread", "sendrd", "seek"), "HEAD": ("openrd", "pread", "seek")}


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(20 if q else 160):
        out.append(("serial", dict(seed="%d-%d" % (seed, i), variant=["asan", "asan:DB_LRU_EVERY=3", "dbg", "asan"][i % 4], rounds=110 if q else 600)))
    for i in range(10 if q else 80):
        out.append(("saves", dict(seed="%d-v%d" % (seed, i), variant=["asan", "rel"][i % 2] + ONLY, limit=26 if q else 200)))
    for i in range(16 if q else 160):
        out.append(("storms", dict(seed="%d-c%d" % (seed, i), variant=["asan", "asan:DB_LRU_EVERY=3", "dbg"][i % 3], rounds=7 if q else 20)))
    for i in range(6 if q else 40):
        out.append(("starting", dict(seed="%d-s%d" % (seed, i), variant=["rel", "asan"][i % 2], limit=30 if q else 300)))
    for i in range(3 if q else 24):
        out.append(("folders", dict(seed="%d-f%d" % (seed, i), variant=["rel", "asan", "rel"][i % 3], rounds=6 if q else 40)))
        out.append(("descriptors", dict(seed="%d-d%d" % (seed, i), rounds=12 if q else 60)))
    for i in range(4 if q else 24):
        out.append(("stopping", dict(seed="%d-e%d" % (seed, i), variant=["rel", "asan"][i % 2] + ONLY, limit=12 if q else 80)))
    return out


def fault(s, op, err, skip=0, count=1, short=0, role=1):
    ops = op if isinstance(op, (list, tuple)) else [op]
    s.shm.set(f_mask=0)
    s.shm.set(f_hits=0, f_role=role, f_skip=skip, f_count=count, f_errno=err, f_short=short)
    s.shm.set(f_mask=sum(1 << OPS[o] for o in ops))


def nofault(s):
    s.shm.set(f_mask=0)
    return s.shm.get("f_hits")


class Failed(Exception):
    pass


def tolerant(s, c, method, t, k, body, want):
    """One request which may meet a failure. -> response or None when the connection was closed. want: the value stored"""
    c.p.pending.append(method)
    try:
        c.s.settimeout(20)
        c.s.sendall(req(method, path(t, k), (), body))
    except socket.timeout:
        s.check()
        raise Violation("the server stopped reading a request", key="hang:send", soft=True)
    except OSError:
        pass
    while True:
        r = c.p.next()
        if r is not None:
            return r
        if c.p.eof:
            break
        c.fill(20)
    s.check()
    b = bytes(c.p.buf)
    if b:
        part(b, method, want)
    return None


def part(b, method, *wants):
    """The beginning of a response that was cut off: does it agree with one of the values?"""
    try:
        p = parse_head(b)
    except ProtocolError:
        raise
    if p is None:
        return
    st, hs, n = p
    if method == "GET" and st == 200:
        for w in wants:
            if w is not None and hs.get("content-length") == str(len(w)) and w.startswith(b[n:]):
                return
        raise Violation("the part of the response sent before a failure is not a part of the value", key="wrong-part", detail=repr((hs, b[n:n + 60])))
    if method != "GET" or st == 404:
        raise Violation("a %s response was cut off: %r" % (method, b[:100]), key="cut-response")


def loose_space(s, c, M, where, extra=0):
    """Space in use, where small values may be in files and `extra` files could not be removed"""
    st = check_stats(s, c, M, where)
    keys = sum(len(t) for t in M.values())
    used, files = st["bexist"] - st["bfree"], len(s.data_files())
    if not keys <= used + files <= keys + extra:
        raise Violation("%s: %d values stored in %d blocks and %d files (%d files could not be removed)" % (where, keys, used, files, extra), key="space:" + where)
    big = nfiles(M)
    if files < big:
        raise Violation("%s: %d files for %d values which need one" % (where, files, big), key="files:" + where)
    if used > nblocks(M):
        raise Violation("%s: %d blocks are in use for %d values which need one" % (where, used, nblocks(M)), key="blocks:" + where)


def serial(obs, seed, variant, rounds):
    """One client; every request may only fail when the storage failed during it, and only if it depends on what failed"""
    r = rng("c20", seed)
    s = Server(variant, unix=r.random() < .7)
    c = Conn(s)
    M = {}
    for t in TABS:
        for k in KEYS[:4]:
            v = gen.data((seed, t, k), r.choice([50, 4096, 5000, 20000]))
            c.put(t, k, v)
            M.setdefault(t, {})[k] = v
    kept = {b"keep%d" % i: gen.data((seed, "keep", i), [100, 4096, 9000, 70000][i]) for i in range(4)}
    for k, v in kept.items():
        c.put(b"kept", k, v)
    M[b"kept"] = dict(kept)
    extra = 0
    for rnd in range(rounds):
        op = r.choice(list(ERRS))
        err = r.choice(ERRS[op])
        retry = op == "sendrd" and err in (EINTR, EAGAIN)
        count = r.choice([1, 1, 2, 5]) if retry else r.choice([1, 1, 2, 5, -1])
        short = int(op in SHORT and r.random() < .3)
        skip = r.choice([0, 0, 0, 1, 2, 5])
        fault(s, op, err, skip, count, short)
        unl = 0
        for i in range(r.randrange(2, 9)):
            h0 = s.shm.get("f_hits")
            x = r.random()
            t, k = r.choice(TABS), r.choice(KEYS)
            want = M.get(t, {}).get(k)
            if x < .45:
                sz = r.choice([20, 4096, 4097, 9000, 40000])
                v = gen.data((seed, rnd, i), sz)
                m, body = "PUT", v
            elif x < .8:
                m, body = r.choice(["GET", "GET", "GET", "HEAD"]), None
                if r.random() < .4:
                    t, k = b"kept", r.choice(list(kept))
                    want = kept[k]
            elif x < .9:
                m, body = "DELETE", None
            else:
                m, body = "GC", None
            if m == "GC":
                c.gc()       # always answered
                rr = True
            else:
                rr = tolerant(s, c, m, t, k, body, want)
            hit = s.shm.get("f_hits") > h0
            if op == "unlink":
                unl += s.shm.get("f_hits") - h0
            excuse = hit and op in FAILS.get(m, ()) and not (retry and not short)
            what = "%s with failing %s (errno %d%s, %s)" % (m, op, err, ", short" if short else "", "hit" if hit else "not hit")
            if rr is None:
                if not excuse:
                    raise Violation("%s: the connection was closed" % what, key="failed-for-nothing:%s:%s" % (m, op))
                if m == "PUT":
                    drop(M, t, k)
                c = Conn(s)
                out = "closed"
            elif m == "GC":
                out = "ok"
            elif rr.status not in (200, 404) or (rr.status == 404 and m == "PUT"):
                if not excuse:
                    raise Violation("%s: answered %r" % (what, rr), key="failed-for-nothing:%s:%s" % (m, op))
                if m == "PUT":
                    drop(M, t, k)
                out = rr.status
            elif m == "PUT":
                expect(rr, "PUT", 200, b"OK\r\n")
                M.setdefault(t, {})[k] = v
                out = "ok"
            elif m == "DELETE":
                if deleted_of(rr) != (want is not None):
                    raise Violation("%s: answered %d" % (what, rr.status), key="delete-answer")
                drop(M, t, k)
                out = rr.status
            else:
                if rr.status == 404 and want is not None and not excuse:
                    raise Violation("%s: a stored value is not found" % what, key="lost:%s:%s" % (m, op))
                if rr.status == 200 and (want is None or (m == "GET" and rr.body != want) or (m == "HEAD" and int(rr.h("content-length")) != len(want))):
                    raise Violation("%s: returned %s" % (what, diff(want, rr.body if m == "GET" else None)), key="wrong-value:%s:%s" % (m, op))
                out = rr.status
            obs.ev()
            if hit:
                obs.seen(op, err, count, short, m, out, None if want is None else len(want) > 4096, body is not None and len(body) > 4096)
                obs.sample("%s -> %s" % (what, out))
                obs.count("failed_operations", s.shm.get("f_hits") - h0)
        # the condition is over
        nofault(s)
        extra += unl
        check_values(s, c, M, "after failures of " + op, [(t, k) for t in TABS for k in KEYS], obs=obs)
        check_listing(s, M, "after failures of " + op, TABS)
        loose_space(s, c, M, "after failures of " + op, extra)
        if rnd % 6 == 5:
            s.wait_flush()
            c.close()
            if r.random() < .7:
                s.stop()
            else:
                c = Conn(s)
                c.gc()
                s.wait_flush()
                c.close()
                s.kill()
            s.start()
            c = Conn(s)
            extra = 0
            check_values(s, c, M, "after failures and a restart", [(t, k) for t in TABS for k in KEYS], obs=obs)
            loose_space(s, c, M, "after failures and a restart", 0)
            check_listing(s, M, "after failures and a restart", TABS)
    c.close()
    s.stop()
    s.close()


def temp_files(s):
    return [f for f in os.listdir(s.db) if f.endswith(".temp")]


def collect(c, tabs=TABS, keys=KEYS):
    M = {}
    for t in tabs:
        for k in keys:
            v = c.get(t, k)
            if v is not None:
                M.setdefault(t, {})[k] = v
    return M


def change(r, c, M, tag, n=8):
    touched = set()
    for i in range(n):
        t, k = r.choice(TABS), r.choice(KEYS)
        touched.add((t, k))
        if r.random() < .75:
            v = gen.data((tag, i), r.choice([40, 4096, 4097, 12000]))
            c.put(t, k, v)
            M.setdefault(t, {})[k] = v
        else:
            c.delete(t, k)
            drop(M, t, k)
    return touched


def copy_of(M):
    return {t: dict(ks) for t, ks in M.items()}


def admissible(got, old, new, touched, where, detail, replacing=False):
    """got is the state of the save before (as far as its values still exist) or that of the last one, or blank if replacing the files failed"""
    if replacing and not any(got.values()):
        return "blank"

    def fits(snap, tch):
        for t in TABS:
            for k in KEYS:
                v, w = got.get(t, {}).get(k), snap.get(t, {}).get(k)
                if v is not None and v != w:
                    return "%r/%r: %s" % (t, k, diff(w, v))
                if v is None and w is not None and (t, k) not in tch:
                    return "%r/%r is missing" % (t, k)
        return None
    a, b = fits(old, touched), fits(new, ())
    if a and b:
        raise Violation("%s: neither the state of the last good save (%s) nor of the failed one (%s)" % (where, a, b), key="after-failed-save:" + where, detail=detail)
    return "new" if not b else "old"


def saves(obs, seed, variant, limit):
    """Every operation of a save failing, in the server and in the saving process"""
    r = rng("c20v", seed)
    s = Server(variant, unix=True)
    c = Conn(s)
    M = {}
    change(r, c, M, (seed, "first"), 14)
    c.gc()
    s.wait_flush()
    s.shm.set(logn=0, f_count=0, f_mask=(1 << len(OPS)) - 1, f_role=3, f_skip=0)    # logs reads too
    c.gc()
    s.wait_flush()
    nofault(s)
    log = s.shm.oplog()
    pts = []
    for role in (0, 1):
        seq = [b & 15 for b in log if (b >> 4) == role]
        names = {v: k for k, v in OPS.items()}
        seen = {}
        for o in seq:
            n = seen.get(o, 0)
            seen[o] = n + 1
            pts.append((role, names[o], n))
        for o in seen:
            pts.append((role, names[o], -1))
    if len(pts) < 6:
        raise Inconclusive("a save has only the operations %r" % pts)
    r.shuffle(pts)
    pts.sort(key=lambda p: p[2] not in (0, -1))
    for n, (role, op, at) in enumerate(pts[:limit]):
        old = copy_of(M)
        touched = change(r, c, M, (seed, n), 6)
        err = r.choice(ERRS[op])
        short = int(op in SHORT and r.random() < .3)
        count = -1 if at == -1 else 1
        where = "%s of the %s fails%s" % (op, ("server", "saving process")[role], " always" if at == -1 else "")
        fault(s, op, err, max(at, 0), count, short, role + 1)
        c.gc()
        if not s.wait_flush():
            raise Violation("%s: the save does not end" % where, key="save-hangs", soft=True)
        hits = nofault(s)
        c.get(TABS[0], KEYS[0])
        if s.children():
            raise Violation("%s: %d processes are left" % (where, len(s.children())), key="zombie")
        audit(s, c, M, where, obs=obs, space=False)
        loose_space(s, c, M, where, hits if op == "unlink" else 0)
        mode = r.choice(["crash", "crash", "again", "stop"])
        if mode == "crash":
            c.close()
            s.kill()
            s.start()
            c = Conn(s)
            got = collect(c)
            which = admissible(got, old, M, touched, where, "errno %d, operation %d" % (err, at), op == "rename" and hits)
            M = got
            loose_space(s, c, M, where + ", crash")
        else:
            if mode == "again":
                f = s.shm.get("forks")
                c.gc()
                if s.shm.get("forks") == f:
                    raise Violation("%s: no more saves afterwards" % where, key="no-more-saves")
                s.wait_flush()
                if temp_files(s):
                    raise Violation("%s: a save after it leaves %r" % (where, temp_files(s)), key="temp-files")
                c.close()
                s.kill()
            else:
                c.close()
                s.stop()
            s.start()
            c = Conn(s)
            which = mode
            audit(s, c, M, where + ", then a good save", obs=obs, space=False)
            loose_space(s, c, M, where + ", then a good save")
        if hits:
            obs.seen("save", role, op, min(at, 2), err, short, which)
            obs.count("failed_saves")
        else:
            obs.count("not_reached")
        obs.ev()
        # what comes next starts from a good save
        c.gc()
        s.wait_flush()
    c.close()
    s.stop()
    s.close()


def storms(obs, seed, variant, rounds):
    """Concurrent requests while the storage fails now and then"""
    r = rng("c20c", seed)
    with Server(variant, unix=r.random() < .7, shm=dict(sndbuf=4608)) as s:
        for rnd in range(rounds):
            tabs = gen.names(r, r.randrange(1, 3), ["a"], table=True)
            keys = gen.names(r, r.randrange(2, 6), ["a", "n"])
            h = Hist("%s-%d" % (seed, rnd))
            mux = Mux(s)
            ctl = Conn(s)
            barrier(ctl)
            base = s.nsock()
            clients = []
            for i in range(r.randrange(3, 10)):
                c = Client(mux, h)
                c.connect(4096 if r.random() < .4 else None)
                clients.append(c)
            state = dict(hits=0, total=0, unl=0, op=None, readfail=-1)

            def flip(on):
                if state["op"]:
                    n = nofault(s)
                    state["total"] += n
                    if state["op"] == "unlink":
                        state["unl"] += n
                    if n:
                        obs.count("failed_operations", n)
                        for c in clients:
                            for o in c.q:
                                obs.seen("storm", state["op"], o.kind, o.phase, (o.length or 0) > 4096)
                state["op"] = None
                if on:
                    op = r.choice(list(ERRS))
                    err = r.choice(ERRS[op])
                    cnt = r.choice([1, 2, 6]) if op == "sendrd" else r.choice([1, 2, 6, -1])
                    fault(s, op, err, r.choice([0, 0, 1, 4]), cnt, int(op in SHORT and r.random() < .3), r.choice([1, 1, 3]))
                    state["op"] = op
                    state["total"] += 1    # responses from now on are excused

            def take(c):
                while c.q:
                    o = c.q[0]
                    if c.c.p.buf:
                        o.phase = "response"
                    rr = c.c.p.next()
                    if rr is None:
                        break
                    c.q.pop(0)
                    if o.sent > (1 << 50) and rr.status == 200:
                        raise Violation("%s was answered before it was sent completely: %r" % (o, rr), key="early-answer", detail=h.dump())
                    check_shape(o, rr)
                    h.done(o, rr)
                    obs.ev()
                    if o.kind in ("GET", "HEAD") and rr.status == 404 and state["total"] > o.line:
                        o.status = "aborted"
                if c.c.p.eof:
                    s.check()
                    if c.q and state["total"] <= c.q[0].line:
                        raise Violation("the server closed a connection without a failure of the storage: %r" % c.q[0], key="closed-for-nothing", detail=h.dump())
                    if c.q and c.q[0].kind not in ("PUT", "GET", "HEAD"):
                        raise Violation("the server closed the connection of a %s" % c.q[0].kind, key="closed-for-nothing:" + c.q[0].kind, detail=h.dump())
                    if c.c.p.buf and c.q:
                        o = c.q[0]
                        part(bytes(c.c.p.buf), o.kind, *[v for v in h.values.values()])
                    mux.close(c.c)
                    barrier(ctl, 1)
                    for o in c.q:
                        h.discarded(o)
                        obs.count("failed_requests")
                    c.q, c.sendq = [], []
                    c.connect(4096 if r.random() < .4 else None)
            w = dict(PUT=45, GET=38, HEAD=5, DELETE=10, DELTAB=1, BULK=2)
            for step in range(r.choice([150, 300])):
                c = r.choice(clients)
                x = r.random()
                if not c.q and not c.c.out and x < .7:
                    kind = r.choices(list(w), list(w.values()))[0]
                    o, data, m = build_op(h, r, kind, r.choice(tabs), r.choice(keys), keys, r.randrange(20, r.choice([4000, 9000, 40000])))
                    c.issue(o, data, m)
                    o.line = state["total"] - (1 if state["op"] else 0)
                if c.c.out:
                    c.push(r.choice([None, None, 20, r.randrange(1, 200), max(1, len(c.c.out) // 2)]))
                if x < .4:
                    barrier(ctl, 1)
                if r.random() < .03:
                    ctl.gc()
                if r.random() < .08:
                    flip(r.random() < .6)
                if r.random() < .06:
                    c.c.reading = not c.c.reading
                mux.poll(0)
                for cc in clients:
                    take(cc)
            flip(False)
            for c in clients:
                c.c.reading = True
            t0 = time.time()
            while any(c.q or c.c.out for c in clients):
                for c in clients:
                    if c.c.out:
                        c.push(None)
                mux.poll(0.01)
                for c in clients:
                    take(c)
                if time.time() - t0 > 25:
                    s.check()
                    raise Violation("requests stay unanswered after failures of the storage: %r" % [c.q[0] for c in clients if c.q][:3], key="hang:unanswered", soft=True, detail=h.dump())
            mux.close_all()
            if not s.wait(lambda: s.nsock() <= base):
                raise Violation("closed connections stay open", key="hang:close", soft=True)
            barrier(ctl, 1)
            M = observe(ctl, h, tabs, keys)
            obs.ev(h.check())
            check_stats(s, ctl, M, "after a storm", detail=h.dump(n=40))
            check_listing(s, M, "after a storm", tabs)
            loose_space(s, ctl, M, "after a storm", state["unl"])
            s.wait_flush()
            ctl.close()
            # all of it again, from the saved state
            s.stop()
            s.start()
            ctl = Conn(s)
            check_values(s, ctl, M, "after a storm and a restart", [(t, k) for t in tabs for k in keys])
            loose_space(s, ctl, M, "after a storm and a restart")
            for t in tabs:
                ctl.delete(t)
            loose_space(s, ctl, {}, "after deleting all")
            ctl.close()


def prepare(obs, s, r, seed):
    c = Conn(s)
    M = {}
    change(r, c, M, (seed, "p"), r.choice([10, 25]))
    for i in range(3):
        v = gen.data((seed, "x", i), [700, 5000, 4096][i])
        c.put(TABS[0], KEYS[i], v)
        M.setdefault(TABS[0], {})[KEYS[i]] = v
    return c, M


def starting(obs, seed, variant, limit):
    """The storage fails while the server starts: it refuses to start or works, and nothing that was saved is lost"""
    r = rng("c20s", seed)
    s = Server(variant, unix=True)
    c, M = prepare(obs, s, r, seed)
    c.close()
    s.stop()
    s.shm.set(f_count=0, f_mask=(1 << len(OPS)) - 1, f_role=1, f_skip=0)    # logs reads too
    s.start()
    log = [b & 15 for b in s.shm.oplog() if not b >> 4]
    nofault(s)
    s.kill()
    names = {v: k for k, v in OPS.items()}
    pts, seen = [], {}
    for o in log:
        n = seen.get(o, 0)
        seen[o] = n + 1
        pts.append((names[o], n))
    pts += [(names[o], -1) for o in seen]
    for op in ("line", "access", "mkdir"):
        n = seen.get(OPS[op], 0)
        pts = [p for p in pts if p[0] != op or p[1] in (-1, 0, n - 1, n - 2) or r.random() < 5 / n]
    r.shuffle(pts)
    for op, at in pts[:limit]:
        err = r.choice(ERRS[op])
        short = int(op in SHORT and r.random() < .3)
        fault(s, op, err, max(0, at), -1 if at == -1 else 1, short)
        where = "start with failing %s" % op
        started = True
        try:
            s.start()
        except Violation as v:
            if v.key == "exit-at-start":
                started = False
                if s.rc is not None and s.rc < 0 and -s.rc not in (signal.SIGABRT,):
                    raise Violation("%s: terminated by a signal (%d)" % (where, -s.rc), key="start-signal")
                s.check_san()
            else:
                raise
        except Inconclusive:
            started = False    # the socket of the last time could not be removed
        hits = nofault(s)
        if started:
            with Conn(s) as c:
                got = collect(c)
                for t in TABS:
                    for k in KEYS:
                        v, w = got.get(t, {}).get(k), M.get(t, {}).get(k)
                        if v is not None and v != w:
                            raise Violation("%s: %s" % (where, diff(w, v)), key="start-wrong", detail=repr((t, k)))
                loose_space(s, c, got, where, 9)
                v = gen.data((seed, op, at), 600)
                c.put(b"other", b"o", v)
                if c.get(b"other", b"o") != v:
                    raise Violation("%s: it does not store" % where, key="start-store")
                c.delete(b"other", b"o")
            lost = sum(len(x) for x in M.values()) - sum(len(x) for x in got.values())
            s.kill()
        else:
            lost = -1
        s.start()
        with Conn(s) as c:
            audit(s, c, M, where + ", then a good one", gone=[(t, k) for t in TABS for k in KEYS], space=False,
                  detail="errno %d%s, number %d, %s" % (err, " short" if short else "", at, "refused" if not started else "started without %d values" % lost))
            loose_space(s, c, M, where + ", then a good one")
        s.kill()
        obs.ev(sum(len(x) for x in M.values()))
        obs.count("failed_starts" if not started else "starts_despite")
        if hits:
            obs.seen("start", op, min(at, 3), err, short, started)
    s.close()


def folders(obs, seed, variant, rounds):
    """The storage fails while a new database is made: it refuses to start, or stores what belongs into any folder"""
    r = rng("c20f", seed)
    for n in range(rounds):
        s = Server(variant, unix=True, start=False)
        at = r.choice([-1, 0, 1, 2, r.randrange(677), 676])
        err = r.choice(ERRS["mkdir"])
        fault(s, "mkdir", err, max(at, 0), -1 if at == -1 or r.random() < .3 else 1)
        where = "a new database with failing mkdir"
        try:
            s.start()
            started = True
        except Violation as v:
            if v.key != "exit-at-start":
                raise
            started = False
            if s.rc is not None and s.rc < 0:
                raise Violation("%s: terminated by a signal (%d)" % (where, -s.rc), key="start-signal")
            s.check_san()
        hits = nofault(s)
        if not started:
            s.start()
        M = {}
        with Conn(s) as c:
            fold = max(at - 1, 0)
            for i in range(40000):
                h = murmur32(b"f%d" % i)
                if h % 26 == fold // 26 and (h >> 8) % 26 == fold % 26:
                    M.setdefault(TABS[0], {})[b"f%d" % i] = gen.data((seed, n, i), r.choice([4097, 9000]))
                    if len(M[TABS[0]]) == 3:
                        break
            for k, v in M[TABS[0]].items():
                try:
                    c.put(TABS[0], k, v)
                except Violation as e:
                    raise Violation("%s, %s: what belongs into the folder can't be stored (%s)" % (where, "started nevertheless" if started else "then a good start", e), key="folder-store")
            audit(s, c, M, where)
        s.stop()
        s.start()
        with Conn(s) as c:
            audit(s, c, M, where + " and a restart")
        s.stop()
        s.close()
        obs.ev(len(M[TABS[0]]) * 2)
        if hits:
            obs.seen("folders", at in (0, -1), err, started)


def descriptors(obs, seed, rounds):
    """The process really runs out of descriptors for data files, all connections being open already"""
    r = rng("c20d", seed)
    with Server("asan", unix=True, mon=False) as s:
        conns = [Conn(s) for _ in range(6)]
        M = {}
        for i, c in enumerate(conns):
            v = gen.data((seed, i), [300, 4096, 5000, 70000, 9000, 20000][i])
            c.put(TABS[0], KEYS[i], v)
            M.setdefault(TABS[0], {})[KEYS[i]] = v
        soft, hard = resource.prlimit(s.proc.pid, resource.RLIMIT_NOFILE)
        for rnd in range(rounds):
            spare = r.choice([0, 0, 1, 2])
            top = max(s.fds()) + 1
            free = sorted(set(range(top)) - set(s.fds()))
            if free:
                spare -= len(free)
            resource.prlimit(s.proc.pid, resource.RLIMIT_NOFILE, (max(top + spare, 3), hard))
            dead = []
            for i, c in enumerate(conns):
                t, k = TABS[0], KEYS[i]
                want = M.get(t, {}).get(k)
                m = r.choice(["PUT", "GET", "GET", "DELETE"]) if rnd else "GET"
                body = gen.data((seed, rnd, i), r.choice([200, 4096, 4097, 30000])) if m == "PUT" else None
                rr = tolerant(s, c, m, t, k, body, want)
                if rr is None or (m == "PUT" and rr.status != 200):
                    small = (m == "PUT" and len(body) <= 4096) or (m == "GET" and (want is None or len(want) <= 4096)) or m == "DELETE"
                    if small:
                        raise Violation("%s of a value in a block failed for lack of descriptors: %r" % (m, rr), key="failed-for-nothing:" + m)
                    if m == "PUT":
                        drop(M, t, k)
                    dead.append(i)
                elif m == "PUT":
                    M.setdefault(t, {})[k] = body
                elif m == "DELETE":
                    if deleted_of(rr) != (want is not None):
                        raise Violation("DELETE answered %d" % rr.status, key="delete-answer")
                    drop(M, t, k)
                elif rr.status == 200 and rr.body != want or rr.status == 404 and want is not None and len(want) <= 4096:
                    raise Violation("GET returned %s" % diff(want, rr.body if rr.status == 200 else None), key="wrong-value")
                obs.ev()
                obs.seen("fd", m, spare, rr is None, None if want is None else len(want) > 4096, body is not None and len(body) > 4096)
            if r.random() < .5:
                next(c for i, c in enumerate(conns) if i not in dead or i == len(conns) - 1).gc() if len(dead) < len(conns) and 5 not in dead else None
                s.wait_flush()
            resource.prlimit(s.proc.pid, resource.RLIMIT_NOFILE, (soft, hard))
            for i in dead:
                conns[i].close()
                conns[i] = Conn(s)
                obs.count("failed_requests")
            audit(s, conns[0], M, "after running out of descriptors", space=False)
            loose_space(s, conns[0], M, "after running out of descriptors")
        for c in conns:
            c.close()
        s.stop()
        s.start()
        with Conn(s) as c:
            audit(s, c, M, "after running out of descriptors and a restart", space=False, gone=[(TABS[0], k) for k in KEYS])


def stopping(obs, seed, variant, limit):
    """The storage fails during the last save: the server still ends, and what the next start serves is right"""
    r = rng("c20e", seed)
    s = Server(variant, unix=True)
    c = Conn(s)
    M = {}
    for n in range(limit):
        change(r, c, M, (seed, n, "a"), 8)
        c.gc()
        s.wait_flush()
        old = copy_of(M)
        touched = change(r, c, M, (seed, n, "b"), 5)
        op = r.choice(["open", "write", "trunc", "rename", "unlink", "sync", "copy", "openrd", "seek"])
        err = r.choice(ERRS[op])
        short = int(op in SHORT and r.random() < .3)
        count = r.choice([1, -1])
        fault(s, op, err, r.choice([0, 0, 1, 2, 4]) if count == 1 else 0, count, short)
        c.close()
        s.sendsig(signal.SIGTERM)
        if not s.wait_dead(30):
            raise Violation("the server does not end while %s fails" % op, key="stop-hangs", soft=True)
        s.check_san()
        if s.rc is not None and s.rc < 0:
            raise Violation("stopped while %s fails: %s" % (op, s.rcname()), key="stop-signal")
        hits = nofault(s)
        s.start()
        c = Conn(s)
        got = collect(c)
        which = admissible(got, old, M, touched, "stopped while %s fails" % op, "errno %d" % err, op == "rename" and hits)
        M = got
        audit(s, c, M, "stopped while %s fails" % op, space=False)
        loose_space(s, c, M, "stopped while %s fails" % op)
        obs.ev()
        if hits:
            obs.seen("stop", op, err, count, short, which)
            obs.count("failed_saves")
    c.close()
    s.close()
