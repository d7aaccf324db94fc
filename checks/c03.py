"""C03: uploads cut at every byte offset; everything observable is compared with a reference afterwards"""
import time
from vlib.srv import Server, Violation
from vlib.http import *
from vlib.audit import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["asan", "dbg", "rel", "asan:BUFFER_SIZE=1024"]
RULE = ("A case is one upload that was cut off, after which values, statistics, listings, blocks, data files and descriptors were compared "
        "with the reference. Distinct and non-trivial: combinations of the cut position (every byte of the request up to the body, and positions "
        "in the body), block or file, what was stored before, how the connection ended, and what else was going on.")
ASSUME = ["between the end of the URL and the end of the request line either outcome is accepted",
          "when all bytes had been sent the upload may or may not have become effective"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for kind in ("block", "file"):
        for before in ("none", "block", "file"):
            for unix in (True, False):
                out.append(("cut", dict(seed="%d-%s-%s" % (seed, kind, before), kind=kind, before=before, unix=unix,
                                        variant="dbg" if (kind, before) == ("file", "block") else "asan", step=1 if not q else 2 if unix else 3)))
    for i in range(8 if q else 80):
        out.append(("mixed", dict(seed="%d-m%d" % (seed, i), variant=["asan", "asan:BUFFER_SIZE=1024", "dbg", "asan"][i % 4], n=120 if q else 400)))
    for k in ("block", "file"):
        out.append(("many", dict(seed="%d-n%s" % (seed, k), kind=k, n=600 if q else 5000)))
    return out


def wait_closed(s, base):
    if not s.wait(lambda: s.nsock() <= base, 15):
        raise Violation("a connection which ended stays open", key="hang:close", soft=True)


def wait_fds(s, base, where):
    if not s.wait(lambda: s.nfds() <= base, 10):
        raise Violation("%s: %d descriptors are open instead of %d" % (where, s.nfds(), base), key="descriptors:" + where,
                        detail=repr(s.fds()))


def cut(obs, seed, kind, before, unix, variant, step):
    r = rng("c03", seed, unix)
    size = {"block": 300, "file": 9000}[kind]
    old = {"none": None, "block": gen.data((seed, "old"), 500), "file": gen.data((seed, "old"), 7000)}[before]
    with Server(variant, unix=unix) as s:
        c = Conn(s)
        M = {b"t": {b"other": gen.data(1, 77), b"big": gen.data(2, 5000)}, b"u": {b"key": gen.data(3, 99)}}
        for t, ks in M.items():
            for k, v in ks.items():
                c.put(t, k, v)
        socks, fds = s.nsock(), s.nfds()
        v = gen.data((seed, "new"), size)
        hs = [("X-Ttl", 1000)] if r.random() < .5 else []
        d = req("PUT", b"/t/key", hs, v)
        head = len(d) - size
        line = d.index(b"\r\n") + 2
        url = len(b"PUT /t/key ")
        offs = list(range(0, line + 1)) + list(range(line + 1, head, step)) + [head, head + 1, head + 2, head + 100, head + size // 2, len(d) - 2, len(d) - 1, len(d)]
        if size > 4096:
            offs += [head + 4095, head + 4096, head + 4097]
        for off in sorted(set(offs)):
            if old is not None:
                c.put("t", "key", old)
            elif before == "none":
                c.delete("t", "key")
            end = r.choice(["fin", "fin", "rst"]) if not unix else "fin"
            nb = NB(s)
            chunks = gen.cuts(r, off, r.choice(["one", "few", "edge"])) if off else []
            for n in chunks:
                left = n
                nb.queue(d[:n])
                d2 = d
                while left:
                    left -= nb.push(left)
                d = d2[n:]
                if r.random() < .3:
                    barrier(c, 1)
                d = d2[n:]
            d = req("PUT", b"/t/key", hs, v)
            seen_by_server = end == "fin" or r.random() < .7
            if seen_by_server:
                barrier(c)
            mid = None
            if seen_by_server and off >= line and r.random() < .5:
                mid = c.get("t", "key")
                if mid is not None and not (mid == v and off == len(d)):
                    raise Violation("GET during an upload returned %d bytes" % len(mid), key="visible-while-uploading", detail="cut at %d of %d" % (off, len(d)))
            nb.close(end == "rst")
            wait_closed(s, socks)
            g = c.get("t", "key")
            where = "line" if off < line else "headers" if off < head else "body" if off < len(d) else "complete"
            ok = [old] if off < url else [None, old] if off < line else [None] if off < len(d) else [None, v]
            if not seen_by_server:
                ok = [old] + ok
            if g not in ok:
                raise Violation("after an upload that was cut off at offset %d of %d the key returns %s" % (
                    off, len(d), "404" if g is None else "the old value" if g == old else "%d bytes" % len(g)),
                    key="after-cut:%s:%s" % (where, "404" if g is None else "old" if g == old else "other"), detail=repr(d[:off][:300]))
            if g is None:
                M[b"t"].pop(b"key", None)
            else:
                M[b"t"][b"key"] = g
            audit(s, c, M, "interrupted upload", list_=off % 5 == 0)
            wait_fds(s, fds, "interrupted upload")
            obs.ev()
            obs.seen(kind, before, end, unix, off if off <= head else (off - head, where), seen_by_server)
            obs.count("cut_" + where)
        # the key is still usable
        c.put("t", "key", v)
        if c.get("t", "key") != v:
            raise Violation("an upload after interrupted uploads is not returned", key="after-cut:retry")
        s.stop()


def mixed(obs, seed, variant, n):
    """Interrupted uploads among others which complete, several at a time, also of the same key, with pipelined predecessors"""
    r = rng("c03m", seed)
    with Server(variant, unix=r.random() < .5) as s:
        c = Conn(s)
        tabs = gen.names(r, 2, ["a"], table=True)
        keys = gen.names(r, 4, ["a", "n"])
        M = {}
        c.put("w", "w", b"x")
        M[b"w"] = {b"w": b"x"}
        socks, fds = s.nsock(), s.nfds()
        for i in range(n):
            if r.random() < .5:
                t, k = r.choice(tabs), r.choice(keys)
                v = gen.data((seed, i, "p"), r.choice([20, 4096, 4097, 20000]))
                c.put(t, k, v)
                M.setdefault(t, {})[k] = v
            ups, touched = [], {}
            for j in range(r.randrange(1, 5)):
                nb = NB(s)
                t, k = r.choice(tabs), r.choice(keys)
                v = gen.data((seed, i, j), r.choice([1, 50, 4096, 4097, 9000, 40000]))
                pre = b""
                done = []
                if r.random() < .3:
                    # a complete request first, on the same connection
                    t0, k0 = r.choice(tabs), r.choice(keys)
                    v0 = gen.data((seed, i, j, "first"), 60)
                    pre = req("PUT", path(t0, k0), (), v0)
                    done = [(t0, k0, v0)]
                    nb.p.pending.append("PUT")
                d = req("PUT", path(t, k), (), v)
                body = len(d) - len(v)
                off = r.choice([body, body + 1, len(d) - 1, r.randrange(body, len(d)), r.randrange(len("PUT " + "x" * len(path(t, k))) + 12, body)])
                off = min(off, len(d) - 1)
                nb.queue(pre + d[:off])
                t0_ = time.time()
                while nb.out:
                    if not nb.push(r.choice([None, 100, 7000])):
                        time.sleep(.0002)
                    if time.time() - t0_ > 20:
                        raise Violation("an upload is not read", key="hang:upload", soft=True)
                ups.append((nb, t, k, v, done))
            barrier(c, 1)
            r.shuffle(ups)
            # possible values per key: uploads to a key which is being uploaded may be discarded
            cand = {}
            for nb, t, k, v, done in ups:
                cand.setdefault((t, k), set()).add(None)
                for (t0, k0, v0) in done:
                    cand.setdefault((t0, k0), set()).add(v0)
            for (t, k), vs in cand.items():
                vs.add(None) if any((u[1], u[2]) == (t, k) for u in ups) else vs.add(M.get(t, {}).get(k))
            for nb, *_ in ups:
                nb.close(r.random() < .2)
                if r.random() < .3:
                    c.get(r.choice(tabs), r.choice(keys))
            wait_closed(s, socks)
            for (t, k), vs in cand.items():
                g = c.get(t, k)
                if g not in vs and not (g is None):
                    raise Violation("after interrupted uploads a key returns %d bytes that are none of the completely uploaded values" % len(g), key="mixed-value",
                                    detail=repr([len(x) if x else x for x in vs]))
                if g is None:
                    drop(M, t, k)
                else:
                    M.setdefault(t, {})[k] = g
            if i % 3 == 0:
                audit(s, c, M, "after several interrupted uploads", obs=obs)
                wait_fds(s, fds, "several interrupted uploads")
            obs.seen("mixed", len(ups), len(cand), variant)
            obs.count("mixed_cuts", len(ups))
        s.stop()


def many(obs, seed, kind, n):
    """The space of interrupted uploads is used again"""
    r = rng("c03n", seed)
    with Server("rel", unix=True) as s:
        c = Conn(s)
        c.put("t", "stay", b"stay")
        socks = s.nsock()
        peak = 0
        for i in range(n // 10):
            nbs = []
            for j in range(10):
                nb = NB(s)
                d = req("PUT", path(b"t", b"k%d" % r.randrange(1000)), (), b"z" * (3000 if kind == "block" else 6000))
                nb.queue(d[:-1])
                nb.push()
                nbs.append(nb)
            barrier(c, 1)
            if kind == "file" and i == 0:
                peak = max(peak, len(s.data_files()))
            for nb in nbs:
                nb.close()
            wait_closed(s, socks)
            obs.ev(10)
        st = audit(s, c, {b"t": {b"stay": b"stay"}}, "after many interrupted uploads")
        if st["bexist"] > 20:
            raise Violation("%d blocks exist after interrupted uploads, at most 10 at a time" % st["bexist"], key="many-blocks")
        obs.seen("many", kind)
        obs.count("max_data_files_during", peak)
        s.stop()
