"""Compares everything observable of a quiet server with a reference dictionary {table: {key: value}}"""
import os
from .srv import Violation
from .http import listing, NOTFOUND

BLOCK = 4096


def nblocks(M):
    return sum(1 for t in M.values() for v in t.values() if len(v) <= BLOCK)


def nfiles(M):
    return sum(1 for t in M.values() for v in t.values() if len(v) > BLOCK)


def diff(had, v):
    if v is None:
        return "404 for a stored value of %d bytes" % len(had)
    if had is None:
        return "%d bytes for a key that is not stored" % len(v)
    if len(v) != len(had):
        return "%d bytes instead of %d" % (len(v), len(had))
    i = next(i for i in range(len(v)) if v[i] != had[i])
    return "wrong bytes from offset %d of %d" % (i, len(v))


def check_stats(s, c, M, where, detail=None, st=None):
    st = st or c.stats()
    keys = sum(len(t) for t in M.values())
    tabs = sum(1 for t in M.values() if t)
    size = sum(len(v) for t in M.values() for v in t.values())
    for n, exp, what in (("keys", keys, "keys"), ("tables", tabs, "tables"), ("bytes", size, "bytes")):
        if st[n] != exp:
            raise Violation("%s: the statistics report %d %s while %d are stored" % (where, st[n], what, exp),
                            key="stats-%s:%s" % (n, where), detail="%r\n%s" % (st, detail or ""))
    return st


def check_space(s, c, M, where, detail=None, st=None):
    st = st or c.stats()
    used = st["bexist"] - st["bfree"]
    if used != nblocks(M):
        raise Violation("%s: %d blocks are in use for %d values which need one" % (where, used, nblocks(M)), key="blocks:" + where,
                        detail="%r\n%s" % (st, detail or ""))
    if st["bfree"] < 0 or st["bfree"] > st["bexist"]:
        raise Violation("%s: %d of %d blocks free" % (where, st["bfree"], st["bexist"]), key="blocks-free:" + where)
    fs = s.data_files()
    if len(fs) != nfiles(M):
        raise Violation("%s: %d data files for %d values which need one" % (where, len(fs), nfiles(M)), key="files:" + where,
                        detail="%r\n%s" % (fs[:20], detail or ""))
    want = sorted(len(v) for t in M.values() for v in t.values() if len(v) > BLOCK)
    got = sorted(os.path.getsize(f) for f in fs)
    if want != got:
        raise Violation("%s: the sizes of the data files are not the lengths of the values" % where, key="filesizes:" + where,
                        detail="%r %r" % (want[:50], got[:50]))
    return st


def check_values(s, c, M, where, gone=(), detail=None, obs=None):
    """gone: (table, key) which must not be there"""
    for t, ks in M.items():
        for k, v in ks.items():
            g = c.get(t, k)
            if g != v:
                d = diff(v, g)
                raise Violation("%s: GET returned %s" % (where, d), key="value:%s:%s" % (where, "404" if g is None else "wrong"),
                                detail="%r %r\n%s" % (t[:80], k[:80], detail or ""))
            if obs:
                obs.ev()
    for t, k in gone:
        if k in M.get(t, {}):
            continue
        g = c.get(t, k)
        if g is not None:
            raise Violation("%s: GET returned %s" % (where, diff(None, g)), key="value:%s:present" % where, detail="%r %r\n%s" % (t[:80], k[:80], detail or ""))
        if obs:
            obs.ev()


def check_listing(s, M, where, tables=()):
    for t in set(list(M) + list(tables)):
        if t == b"":
            continue  # "/" are the statistics
        ks = M.get(t, {})
        st, l, ent, tot = listing(s, t, limit=2000000000)
        if not ks:
            if st != 404 and l:
                raise Violation("%s: the listing of an empty table names %d keys" % (where, len(l)), key="listing-empty:" + where)
            continue
        if sorted(l) != sorted(ks) or ent != len(ks):
            raise Violation("%s: the listing of a table with %d keys names %d (%d of them not stored, %d missing), X-Entries %d" % (
                where, len(ks), len(l), len(set(l) - set(ks)), len(set(ks) - set(l)), ent), key="listing:" + where)


def audit(s, c, M, where, gone=(), detail=None, obs=None, values=True, space=True, list_=True):
    s.check()
    if values:
        check_values(s, c, M, where, gone, detail, obs)
    st = check_stats(s, c, M, where, detail)
    if space:
        check_space(s, c, M, where, detail, st)
    if list_:
        check_listing(s, M, where)
    if obs:
        obs.ev()
    return st


def drop(M, t, k):
    if t in M:
        M[t].pop(k, None)
        if not M[t]:
            del M[t]
