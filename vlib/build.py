"""Builds the real sources of /repo (src/core, src/server) in instrumented variants.

Nothing is built inside /repo: objects live in /verif/build, keyed by the content of the
sources, the headers and the flags, so a changed working tree is always rebuilt.
"""
import fcntl, glob, hashlib, os, re, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

WRAP = ("gettimeofday clock_gettime time epoll_wait accept4 accept read recv write pwrite pwrite64 pread pread64 "
        "send sendfile sendfile64 copy_file_range open open64 ftruncate ftruncate64 rename link unlink "
        "fdatasync fsync fork fprintf sigaction signal malloc calloc realloc free exit pthread_mutex_lock pthread_mutex_unlock printf opendir setsockopt flock epoll_ctl lseek lseek64 getline access mkdir").split()

BASE = ["-g", "-fPIC", "-std=c++11", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"]
REL = ["-DNDEBUG", "-DRELEASE"]
DBG = ["-DDEBUG_BUILD"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]


class BuildError(Exception):
    pass


def variant_flags(name):
    """name: base[:NAME=VALUE...], e.g. asan, asan:BUFFER_SIZE=1024, dbg, rel:DB_LRU_EVERY=5, tsan"""
    parts = name.split(":")
    base, defs = parts[0], parts[1:]
    if base == "rel":
        f, l = REL + ["-O2"], []
    elif base == "asan":
        f, l = REL + ["-O1"] + ASAN, ASAN
    elif base == "dbg":
        f, l = DBG + ["-O1"] + ASAN, ASAN
    elif base == "cov":
        f, l = DBG + ["-O1", "-fsanitize-coverage=trace-pc"] + ASAN, ASAN
    elif base == "covrel":
        f, l = REL + ["-O1", "-fsanitize-coverage=trace-pc"] + ASAN, ASAN
    elif base == "dbgrel":
        f, l = DBG + ["-O1"], []
    elif base == "tsan":
        f, l = REL + ["-O1"] + TSAN, TSAN
    else:
        raise BuildError("unknown variant " + name)
    return BASE + f + ["-D" + d for d in defs], l


def _sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        h.update(c if isinstance(c, bytes) else c.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def sources(repo=None, server=True):
    repo = repo or REPO
    core = os.path.join(repo, "src", "core")
    srv = os.path.join(repo, "src", "server")
    s = []
    for d in ([core, srv] if server else [core]):
        for ext in ("cpp", "cc", "c"):
            s += glob.glob(os.path.join(d, "**", "*." + ext), recursive=True)
    if not s:
        raise BuildError("no sources under " + repo)
    return sorted(s)


def _hdr_digest(repo):
    hs = []
    for ext in ("h", "hpp", "hh", "inc"):
        hs += glob.glob(os.path.join(repo, "src", "**", "*." + ext), recursive=True)
    return _sha(*[p + "\n" + _read(p).decode("latin1") for p in sorted(hs)])


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("latin1")[-6000:])


def _compile(src, flags, extra_key, cc):
    key = _sha(cc, src, _read(src), " ".join(flags), extra_key)
    obj = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        _run([cc, "-c", src, "-o", tmp] + flags)
        os.rename(tmp, obj)
    return obj


def available(variant, repo=None):
    """Whether the definitions of a variant have an effect: the constant may have been renamed or may have become something else"""
    repo = repo or REPO
    base, defs = variant.split(":")[0], variant.split(":")[1:]
    if not defs:
        return True
    hs = []
    for ext in ("h", "hpp", "hh", "inc"):
        hs += glob.glob(os.path.join(repo, "src", "**", "*." + ext), recursive=True)
    flags = variant_flags(variant)[0] + ["-I" + os.path.join(repo, "src", "core"), "-I" + os.path.join(repo, "src", "server")]
    for d in defs:
        name, value = d.split("=")
        h = [x for x in hs if re.search(r"^\s*#\s*define\s+%s\b" % name, _read(x).decode("latin1"), re.M)]
        if not h:
            return False
        t = tempfile.NamedTemporaryFile("w", suffix=".cpp", delete=False)
        try:
            t.write('#include <stdio.h>\n#include "%s"\nstatic_assert((%s) == (%s), "no effect");\n' % (h[0], name, value))
            t.close()
            if subprocess.run(["g++", "-fsyntax-only", t.name] + flags, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                return False
        finally:
            os.unlink(t.name)
    return True


def build(variants, repo=None):
    """Returns {variant: path of the scache binary}"""
    repo = repo or REPO
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    res = {}
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hd = _hdr_digest(repo)
        inc = ["-I" + os.path.join(repo, "src", "core"), "-I" + os.path.join(repo, "src", "server")]
        with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
            jobs = {}
            for v in variants:
                f, _ = variant_flags(v)
                js = [ex.submit(_compile, s, f + inc, hd, "gcc" if s.endswith(".c") else "g++") for s in sources(repo)]
                # The shim is not instrumented: it is the environment, not the subject
                js.append(ex.submit(_compile, os.path.join(VERIF, "vlib", "shim.c"),
                                    ["-O1", "-g", "-fPIC", "-w", "-U_FORTIFY_SOURCE"], "", "gcc"))
                jobs[v] = js
            links = []
            for v in variants:
                objs = [j.result() for j in jobs[v]]
                _, l = variant_flags(v)
                key = _sha(v, *objs)
                exe = os.path.join(OUT, "bin", "scache-" + v.replace(":", "_").replace("=", "") + "-" + key)
                res[v] = exe
                if not os.path.exists(exe):
                    links.append(ex.submit(_link, exe, objs, l))
            for j in links:
                j.result()
    return res


def _link(exe, objs, lflags):
    tmp = exe + ".%d.tmp" % os.getpid()
    _run(["g++", "-g", "-o", tmp] + objs + lflags + ["-lpthread"] + ["-Wl,--wrap=" + w for w in WRAP])
    os.rename(tmp, exe)


def build_harness(name, srcs, flags, repo=None, repo_srcs=(), cc="g++", libs=()):
    """Compile a harness of /verif together with some sources of /repo"""
    repo = repo or REPO
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    hd = _hdr_digest(repo)
    inc = ["-I" + os.path.join(repo, "src", "core")]
    allsrc = list(srcs) + [os.path.join(repo, s) for s in repo_srcs]
    key = _sha(name, hd, " ".join(flags), *[_read(s) for s in allsrc])
    exe = os.path.join(OUT, "bin", "h-%s-%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        _run([cc, "-o", tmp] + allsrc + list(flags) + inc + list(libs))
        os.rename(tmp, exe)
    return exe


def prune(keep_mb=600):
    """Bound the size of the build cache"""
    fs = [f for d in ("obj", "bin") for f in glob.glob(os.path.join(OUT, d, "*"))]
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs), reverse=True)
    tot = 0
    for _, sz, f in fs:
        tot += sz
        if tot > keep_mb << 20:
            try:
                os.unlink(f)
            except OSError:
                pass


if __name__ == "__main__":
    print(build(sys.argv[1:] or ["asan", "rel", "dbg", "tsan"]))
