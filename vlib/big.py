"""Values of up to 2 GiB without the memory: they are zeros, and their files are made sparse once they are stored (which does not change their contents)"""
import ctypes
import os
import shutil

from .http import req, path
from .srv import scratch_base

HUGE = (1 << 31) - 1
_libc = ctypes.CDLL(None, use_errno=True)
ZERO = bytes(1 << 22)


def room():
    return shutil.disk_usage(scratch_base()).free > 9 << 30


def _punch(db):
    for a in os.scandir(os.path.join(db, "files")):
        for f in os.scandir(a.path):
            st = f.stat()
            if st.st_blocks * 512 > 1 << 20:
                fd = os.open(f.path, os.O_RDWR)
                _libc.fallocate64(fd, 3, ctypes.c_int64(0), ctypes.c_int64(st.st_size))
                os.close(fd)


def put_zeros(s, c, t, k, n, headers=()):
    """PUT of n zeros"""
    c.p.pending.append("PUT")
    c.send(req("PUT", path(t, k), list(headers) + [("Content-Length", n)]))
    a = 0
    while a < n:
        m = min(len(ZERO), n - a)
        c.send(ZERO if m == len(ZERO) else ZERO[:m])
        a += m
    x = c.recv()
    _punch(s.db)
    return x
