"""Runs the real server (an instrumented build) in a scratch directory under harness control."""
import atexit, ctypes, glob, mmap, os, random, re, shutil, signal, socket, struct, subprocess, tempfile, time
from . import build, gen

COV_OFF, COV_N = 168 + 8192, 65536
SHM_SIZE = COV_OFF + COV_N + 192
F_I64 = {"clock_off_us": 0, "ticks": 8, "turns": 16, "live_bytes": 32, "sock_eagain": 128, "sock_writes": 136,
         "forks": 144, "last_clock_us": 152, "transp": 74008}
F_I32 = {"sample_req": 24, "sample_ack": 28, "server_pid": 40, "sndbuf": 44, "sock_wlimit": 48, "sock_rlimit": 52,
         "f_mask": 56, "f_role": 60, "f_skip": 64, "f_count": 68, "f_errno": 72, "f_short": 76, "f_hits": 80,
         "k_role": 84, "k_at": 88, "k_phase": 92, "killed": 96, "child_delay_us": 100, "accept_delay_us": 104,
         "k_only": 108, "ops0": 112, "ops1": 116, "logn": 120, "epoll_cap_ms": 124, "rw_yield": 160, "wr_yield": 164,
         "sig_mask": 73896, "sig_every": 73900, "sig_raised": 73904, "fork_wait": 73908, "unsafe": 73912, "handlers": 73916, "foreign": 73920, "sched_us": 73988, "term_at": 73992, "term_sig": 73996, "fsop_delay_us": 74000, "transp_fail": 74004, "epadd_fail": 74016, "hold": 74020}
OPS = {"open": 0, "write": 1, "trunc": 2, "rename": 3, "unlink": 4, "fork": 5, "sync": 6, "copy": 7, "openrd": 8, "pread": 9, "sendrd": 10, "seek": 11, "line": 12, "access": 13, "mkdir": 14}


class Violation(Exception):
    """A property was broken. soft: based on time running out, reported only when it repeats."""

    def __init__(self, msg, key=None, soft=False, detail=None):
        Exception.__init__(self, msg)
        self.msg, self.soft, self.detail = msg, soft, detail
        self.key = key or re.sub(r"[0-9]+", "N", msg)[:120]


class Inconclusive(Exception):
    pass


_scratch = set()
_libc = ctypes.CDLL(None)
_live = set()


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def mkscratch():
    d = tempfile.mkdtemp(prefix="vf-", dir=scratch_base())
    _scratch.add(d)
    return d


def rmscratch(d):
    if d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
        _scratch.discard(d)


def cleanup_all():
    for s in list(_live):
        s.kill()
    for d in list(_scratch):
        rmscratch(d)


atexit.register(cleanup_all)


class Shm:
    def __init__(self, path):
        with open(path, "wb") as f:
            f.truncate(SHM_SIZE)
        self.path = path
        fd = os.open(path, os.O_RDWR)
        self.m = mmap.mmap(fd, SHM_SIZE)
        os.close(fd)

    def get(self, n):
        if n in F_I64:
            return struct.unpack_from("<q", self.m, F_I64[n])[0]
        return struct.unpack_from("<i", self.m, F_I32[n])[0]

    def set(self, **kw):
        for n, v in kw.items():
            if n in F_I64:
                struct.pack_into("<q", self.m, F_I64[n], v)
            else:
                struct.pack_into("<i", self.m, F_I32[n], v)

    def oplog(self):
        n = min(self.get("logn"), 8192)
        return bytes(self.m[168:168 + n])

    def unsafe_what(self):
        return bytes(self.m[73924:73924 + 64]).split(b"\0")[0].decode()

    def take_cov(self):
        """-> the bitmap (an int) of what was executed since the last call"""
        b = self.m[COV_OFF:COV_OFF + COV_N]
        self.m[COV_OFF:COV_OFF + COV_N] = b"\0" * COV_N
        return int.from_bytes(b, "little")

    def reset(self):
        self.m[:] = b"\0" * SHM_SIZE


_port_rng = random.SystemRandom()


def free_port(host="127.0.0.1", fam=socket.AF_INET):
    for _ in range(200):
        p = _port_rng.randrange(12000, 31000)
        s = socket.socket(fam, socket.SOCK_STREAM)
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((host, p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise Inconclusive("no free port")


SAN_RE = re.compile(rb"(ERROR: (?:Address|Thread|Leak|UndefinedBehavior)Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                    rb"runtime error:[^\n]*|Assertion [^\n]*failed)")


class Server:
    def __init__(self, variant="asan", db=None, max_size=None, lru=None, mon=True, unix=False, args=None,
                 env=None, shm=None, binary=None, cwd=None, start=True, no_shim=False, halt=True, rlimits=None,
                 start_timeout=30, deep=0):
        """deep: length of the path of the database"""
        self.variant = variant
        self.small = "BUFFER_SIZE=1024" in variant      # of the input of a connection
        if self.small:
            gen.MAXNAME = 300
        self.dir = mkscratch()
        self.own_db = db is None
        self.db = db or os.path.join(self.dir, "db")
        while len(self.db) < deep:
            self.db = (self.db + "/" + "d" * 120)[:deep].rstrip("/") if len(self.db) + 1 < deep else self.db + "d"
        os.makedirs(self.db, exist_ok=True)
        self.binary = binary or build.build([variant])[variant]
        self.shm = Shm(os.path.join(self.dir, "shm"))
        self.shm.set(epoll_cap_ms=20)
        if shm:
            self.shm.set(**shm)
        self.max_size, self.lru, self.mon, self.unix = max_size, lru, mon, unix
        self.args, self.env_extra, self.cwd = args, env or {}, cwd
        self.no_shim, self.halt, self.rlimits = no_shim, halt, rlimits
        self.proc = None
        self.rc = None
        self.start_timeout = start_timeout
        self.nstart = 0
        if start:
            self.start()

    # -- life cycle --
    def _env(self):
        e = {"PATH": "/usr/bin:/bin", "LANG": "C"}
        common = "abort_on_error=1:handle_abort=0:detect_leaks=0:allocator_may_return_null=1:log_path=%s" % os.path.join(self.dir, "san")
        e["ASAN_OPTIONS"] = common + ":halt_on_error=1:detect_stack_use_after_return=0:quarantine_size_mb=64"
        e["UBSAN_OPTIONS"] = common + ":print_stacktrace=1:halt_on_error=1"
        e["TSAN_OPTIONS"] = "log_path=%s:halt_on_error=0:exitcode=66:report_signal_unsafe=1:history_size=4:die_after_fork=0" % os.path.join(self.dir, "san")
        if not self.no_shim:
            e["VSHIM"] = self.shm.path
        e.update(self.env_extra)
        return e

    def start(self):
        for attempt in range(6):
            if self._start():
                return self
        raise Inconclusive("server did not start: " + self.tail())

    def argv(self):
        a = [self.binary, "-r", self.db]
        if self.args is None:
            if self.unix:
                self.addr = os.path.join(self.dir, "c.sock")
                self.mon_addr = os.path.join(self.dir, "m.sock")
                a += ["-b", "u:" + self.addr]
                if self.mon:
                    a += ["-B", "u:" + self.mon_addr]
            else:
                self.addr = ("127.0.0.1", free_port())
                a += ["-b", "%s:%d" % self.addr]
                if self.mon:
                    self.mon_addr = ("127.0.0.1", free_port())
                    a += ["-B", "%s:%d" % self.mon_addr]
        if self.max_size is not None:
            a += ["-s", str(self.max_size)]
        if self.lru is not None:
            a += ["-l", str(self.lru)]
        return a + (self.args or [])

    def _start(self):
        self.nstart += 1
        argv = self.argv()
        self.out = open(os.path.join(self.dir, "out"), "ab")
        self.shm.set(turns=0, killed=0, ops0=0, ops1=0, logn=0)

        def pre():
            os.setsid()
            _libc.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: never outlive the harness
            if self.rlimits:
                import resource
                for k, v in self.rlimits.items():
                    resource.setrlimit(k, (v, v))
        if self.variant.startswith("tsan"):
            argv = ["setarch", os.uname().machine, "-R"] + argv if not self.env_extra.get("NO_SETARCH") else argv
        self.proc = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out,
                                     env=self._env(), cwd=self.cwd or self.dir, preexec_fn=pre, close_fds=True)
        self.out.close()
        self.rc = None
        _live.add(self)
        if self.args is not None:
            return True
        t0 = time.time()
        while time.time() - t0 < self.start_timeout:
            if self.proc.poll() is not None:
                self.rc = self.proc.returncode
                _live.discard(self)
                if b"error opening listener" in self.outbytes()[-2000:]:
                    return False
                self.check_san()
                if self.shm.get("killed"):
                    return True
                raise Violation("server exited with %s while starting" % self.rc, key="exit-at-start", detail=self.tail())
            if self.no_shim or self.shm.get("turns") > 0:
                if self._probe():
                    return True
            time.sleep(0.002)
        self.kill()
        raise Violation("server did not accept connections within %ds" % self.start_timeout, key="start-timeout", soft=True, detail=self.tail())

    def _probe(self):
        """Connects once; that connection is accepted and gone again afterwards"""
        try:
            s = self.raw()
        except OSError:
            return False
        try:
            s.settimeout(5)
            s.sendall(b"HEAD /vf-none/none HTTP/1.1\r\n\r\n")
            if s.recv(1):
                n = self.nsock()
                s.close()
                self.wait(lambda: self.nsock() < n, 5)
        except OSError:
            pass
        finally:
            s.close()
        return True

    def raw(self, mon=False, rcvbuf=None, timeout=30):
        a = self.mon_addr if mon else self.addr
        s = socket.socket(socket.AF_UNIX if isinstance(a, str) else socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(timeout)
        try:
            s.connect(a)
        except Exception:
            s.close()
            raise
        if not isinstance(a, str):
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def check(self):
        """Raise when the server died or a sanitizer reported something"""
        self.check_san()
        if self.proc is not None and self.proc.poll() is not None:
            # the report may still be written
            self.rc = self.proc.returncode
            self.check_san()
            raise Violation("server terminated unexpectedly (%s)" % self.rcname(), key="server-died:" + self.rcname(), detail=self.tail())

    def rcname(self):
        rc = self.proc.returncode
        if rc is not None and rc < 0:
            try:
                return signal.Signals(-rc).name
            except ValueError:
                pass
        return "exit %s" % rc

    def san_reports(self):
        r = []
        for f in sorted(glob.glob(os.path.join(self.dir, "san.*"))):
            try:
                with open(f, "rb") as fh:
                    d = fh.read(200000)
            except OSError:
                continue
            if d.strip():
                r.append(d)
        ob = self.outbytes()
        if b"runtime error:" in ob or re.search(rb"Assertion .* failed", ob):
            r.append(ob[-6000:])
        return r

    def check_san(self):
        if self.variant.startswith("tsan"):
            return
        for d in self.san_reports():
            m = SAN_RE.search(d)
            what = (m.group(1) if m else d[:100]).decode("latin1")
            raise Violation("sanitizer report: " + what, key="san:" + san_signature(d), detail=d.decode("latin1")[:6000])

    def outbytes(self):
        try:
            with open(os.path.join(self.dir, "out"), "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 100000))
                return f.read()
        except OSError:
            return b""

    def tail(self):
        return self.outbytes()[-1500:].decode("latin1")

    def sendsig(self, sig):
        if self.alive():
            os.kill(self.proc.pid, sig)

    def stop(self, sig=signal.SIGTERM, timeout=40):
        """Graceful stop, the exit status must be 0"""
        self.check()
        self.sendsig(sig)
        try:
            self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            t = self.stack()
            self.kill()
            raise Violation("server did not terminate within %ds of %s" % (timeout, sig), key="stop-timeout", soft=True, detail=t)
        self.rc = self.proc.returncode
        self._killgroup()
        _live.discard(self)
        self.check_san()
        if self.rc != 0 and not (self.variant.startswith("tsan") and self.rc == 66):
            raise Violation("server exit status after a graceful stop: " + self.rcname(), key="stop-status:" + self.rcname(), detail=self.tail())
        return self.rc

    def stack(self):
        try:
            with open("/proc/%d/status" % self.proc.pid) as f:
                return "".join(l for l in f if l.startswith(("State", "VmRSS", "Threads")))
        except OSError:
            return ""

    def _killgroup(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass

    def kill(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self._killgroup()
            try:
                self.proc.wait(10)
            except Exception:
                pass
            self.rc = self.proc.returncode
        _live.discard(self)

    def wait_dead(self, timeout=30):
        try:
            self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return False
        self._killgroup()
        _live.discard(self)
        self.rc = self.proc.returncode
        return True

    def close(self):
        self.kill()
        rmscratch(self.dir)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- observation --
    def wait(self, cond, timeout=20, what="condition"):
        t0 = time.time()
        while not cond():
            if self.proc.poll() is not None:
                self.check()
            if time.time() - t0 > timeout:
                return False
            time.sleep(0.001)
        return True

    def live_bytes(self):
        r = (self.shm.get("sample_req") + 1) & 0x7fffffff
        self.shm.set(sample_req=r)
        if not self.wait(lambda: self.shm.get("sample_ack") == r, 10):
            raise Inconclusive("no heap sample")
        return self.shm.get("live_bytes")

    def nfds(self):
        return len(os.listdir("/proc/%d/fd" % self.proc.pid))

    def fds(self):
        r = {}
        d = "/proc/%d/fd" % self.proc.pid
        for f in os.listdir(d):
            try:
                r[int(f)] = os.readlink(os.path.join(d, f))
            except OSError:
                pass
        return r

    def nsock(self):
        """Number of open sockets of the server"""
        return sum(1 for t in self.fds().values() if t.startswith("socket:"))

    def now(self):
        return self.shm.get("last_clock_us")

    def advance(self, seconds):
        """Move the virtual clock forward and wait until the server has seen it"""
        off = self.shm.get("clock_off_us") + int(seconds * 1e6)
        before = self.now()
        self.shm.set(clock_off_us=off)
        target = int(time.time() * 1e6) + off
        if not self.wait(lambda: self.now() >= target - 1000, 20):
            raise Inconclusive("the clock of the server did not move")
        t = self.shm.get("ticks")
        self.wait(lambda: self.shm.get("ticks") >= t + 2, 20)
        return before

    def data_files(self):
        r = []
        base = os.path.join(self.db, "files")
        for root, _, fs in os.walk(base):
            for f in fs:
                r.append(os.path.join(root, f))
        return r

    def children(self):
        """Child processes of the server: {pid: state}"""
        r = {}
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    with open("/proc/%s/stat" % p) as f:
                        d = f.read()
                    d = d[d.rindex(")") + 2:].split()
                    if int(d[1]) == self.proc.pid:
                        r[int(p)] = d[0]
                except (OSError, ValueError):
                    pass
        return r

    def wait_flush(self, timeout=20):
        """Until no background save is running"""
        return self.wait(lambda: not self.children(), timeout)


def san_signature(d):
    m = re.search(rb"ERROR: \w+Sanitizer: ([\w-]+)", d) or re.search(rb"WARNING: ThreadSanitizer: ([^\(\n]+)", d)
    kind = m.group(1).decode("latin1").strip() if m else ""
    if not kind:
        m = re.search(rb"runtime error: ([^\n]{0,60})", d) or re.search(rb"Assertion ([^\n]{0,80})", d)
        kind = re.sub(r"0x[0-9a-f]+|[0-9]+", "N", m.group(1).decode("latin1")) if m else "?"
    fr = re.findall(rb"#\d+ 0x[0-9a-f]+ in ([\w:~]+)", d) or re.findall(rb"#\d+ ([\w:~]+)", d)
    fr = [f.decode() for f in fr if not f.startswith((b"__", b"std::", b"operator", b"mem", b"str"))][:3]
    return kind + "@" + "<".join(fr)
