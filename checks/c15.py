"""C15: ThreadSanitizer over connection churn with signals; signals injected around the calls of the event loop while histories are checked; bursts
of connections that must all be served; monitors in the signal handlers"""
import os, random, resource, select, signal, socket, threading, time
from vlib.srv import Server, Violation, Inconclusive, san_signature
from vlib.http import *
from vlib.audit import *
from vlib.hist import Hist
from vlib.storm import *
from vlib import gen
from vlib.run import rng

LEVEL = "exploration"
VARIANTS = ["tsan", "asan", "dbg", "rel"]
RULE = ("A case is one operation judged while signals arrived, one connection of a burst that had to be served, or one run under ThreadSanitizer. Distinct and "
        "non-trivial: combinations of signal kind, density and workload in which signals really interrupted the server; (port, size of the burst, delay) of "
        "the bursts; state of the clients when the termination signal arrived.")
ASSUME = ["the virtual system calls of the shim (link-time wrapping) keep the order of the real ones", "signal handlers are installed with signal() or sigaction()"]


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(4 if q else 30):
        out.append(("churn", dict(seed="%d-%d" % (seed, i), seconds=5 if q else 20, unix=i % 2 == 1)))
    for i in range(21 if q else 210):
        out.append(("injected", dict(seed="%d-i%d" % (seed, i), variant=["rel", "asan", "dbg"][i % 3], mask=[1, 2, 4, 5, 7, 6, 3][i % 7], steps=500 if q else 3000)))
    for i in range(6 if q else 60):
        if i < (4 if q else 12):
            out.append(("crowd", dict(seed="%d-w%d" % (seed, i), variant=["rel", "asan"][i % 2], n=[300, 700, 1500, 2500][(i + seed) % 4])))
        out.append(("bursts", dict(seed="%d-b%d" % (seed, i), variant=["rel", "rel", "asan"][i % 3], rounds=60 if q else 600)))
    for i in range(3 if q else 12):
        out.append(("fast_child", dict(seed="%d-f%d" % (seed, i), variant=["rel", "asan", "dbg"][i % 3], rounds=6 if q else 40)))
    for i in range(6 if q else 60):
        out.append(("stopping", dict(seed="%d-t%d" % (seed, i), variant=["rel", "asan", "tsan"][i % 3], rounds=5 if q else 20)))
    for i in range(2 if q else 20):
        out.append(("usr1_flood", dict(seed="%d-u%d" % (seed, i), variant=["rel", "asan"][i % 2], steps=600 if q else 4000)))
    return out


def handlers_clean(s, where):
    if s.shm.get("unsafe"):
        raise Violation("%s: a signal handler of the server called %s, which is not async-signal-safe" % (where, s.shm.unsafe_what()),
                        key="unsafe-in-handler:" + s.shm.unsafe_what())


def races(s, where):
    for d in s.san_reports():
        raise Violation("%s: ThreadSanitizer: %s" % (where, san_signature(d)), key="tsan:" + san_signature(d), detail=d.decode("latin1")[:6000])


def blocked_by_tsan(s):
    """The runtime of ThreadSanitizer sometimes leaves all signals blocked after a fork during which one arrived; other variants don't"""
    try:
        with open("/proc/%d/status" % s.proc.pid) as f:
            for l in f:
                if l.startswith("SigBlk:"):
                    return bool(int(l.split()[1], 16) >> 14 & 1)
    except OSError:
        pass
    return False


def churn(obs, seed, seconds, unix):
    """Threads of clients connect, work and leave on both ports while saves, ticks and signals happen"""
    r0 = rng("c15", seed)
    with Server("tsan", unix=unix, shm=dict(accept_delay_us=r0.choice([0, 0, 300]), sched_us=r0.choice([0, 100]))) as s:
        stop = threading.Event()
        failed = []
        n = [0]
        def cache(i):
            r = rng("c15c", seed, i)
            while not stop.is_set():
                try:
                    with Conn(s) as c:
                        for j in range(r.randrange(0, 6)):
                            k = b"k%d-%d" % (i, r.randrange(5))
                            v = gen.data((seed, i, j, n[0]), r.choice([10, 3000, 4097, 30000]))
                            c.put(b"t", k, v)
                            g = c.get(b"t", k)
                            if g is not None and g != v:      # the table may be deleted by another thread
                                raise Violation("GET returned %s while connections come and go" % diff(v, g), key="churn-value")
                            x = r.random()
                            if x < .2:
                                c.delete(b"t", k)
                            elif x < .25:
                                c.delete(b"t")
                            elif x < .35:
                                c.stats()
                            elif x < .4:
                                c.gc()
                            elif x < .5:
                                listing(s, b"t")
                            n[0] += 1
                        if r.random() < .3:
                            c.send(req("PUT", path(b"t", b"p%d" % i), (), b"x" * 5000)[:-r.randrange(1, 5000)])
                except Violation as v:
                    if not stop.is_set():
                        failed.append(v)
                    return
                except OSError as e:
                    if not stop.is_set() and not s.alive():
                        failed.append(Violation("the server died: %s" % e, key="died"))
                        return

        def mon(i):
            r = rng("c15m", seed, i)
            while not stop.is_set():
                try:
                    c = s.raw(mon=True)
                    c.sendall(r.choice([b"GET /conn HTTP/1.1\r\n\r\n", b"GET /conn HTTP/1.1\r\n\r\n", b"HEAD / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET /c", b""]))
                    c.settimeout(r.choice([.001, .02, .3]))
                    try:
                        c.recv(1000)
                        c.recv(1000)
                    except socket.timeout:
                        pass
                    c.close()
                    n[0] += 1
                except OSError:
                    pass

        def env():
            r = rng("c15e", seed)
            while not stop.is_set():
                time.sleep(r.choice([.001, .02, .1]))
                if r.random() < .5:
                    s.shm.set(clock_off_us=s.shm.get("clock_off_us") + r.choice([0, 1000000, 5000000]))
                else:
                    s.sendsig(signal.SIGUSR1)
        ths = [threading.Thread(target=cache, args=(i,)) for i in range(4)] + [threading.Thread(target=mon, args=(i,)) for i in range(3)] + [threading.Thread(target=env)]
        for t in ths:
            t.start()
        t0 = time.time()
        while time.time() - t0 < seconds and not failed and s.alive():
            time.sleep(.05)
        if r0.random() < .5 and s.alive():
            # terminate in the midst of it
            stop.set()
            s.sendsig(signal.SIGTERM)
        else:
            stop.set()
        for t in ths:
            t.join()
        races(s, "connections coming and going")
        handlers_clean(s, "connections coming and going")
        if failed:
            raise failed[0]
        if s.alive():
            s.sendsig(signal.SIGTERM)
        if not s.wait_dead(20):
            if not blocked_by_tsan(s):
                raise Violation("the server did not terminate after SIGTERM", key="stop-timeout", soft=True)
            obs.count("signals_blocked_by_tsan")
            s.kill()
            s.rc = 0
        races(s, "stopping")
        if s.rc not in (0, 66):
            raise Violation("exit status %s" % s.rcname(), key="stop-status:" + s.rcname(), detail=s.tail())
        obs.ev()
        obs.seen("churn", unix, s.shm.get("accept_delay_us"))
        obs.count("tsan_runs")
        obs.count("tsan_requests", n[0])
        obs.count("handler_runs", s.shm.get("handlers"))


def injected(obs, seed, variant, mask, steps):
    """A recorded history of interleaved connections while signals arrive at the calls of the server"""
    r = rng("c15i", seed)
    h = Hist(seed)
    slow = r.random() < .6
    every = r.choice([1, 1, 2, 3, 7]) if not mask & 2 else r.choice([5, 17, 40])
    with Server(variant, unix=r.random() < .5, shm=dict(sndbuf=4608) if slow else None) as s:
        if r.random() < .4:
            s.shm.set(sock_wlimit=r.choice([700, 3000]))
        if r.random() < .3:
            s.shm.set(sock_rlimit=r.choice([100, 1000]))
        tabs = gen.names(r, 2, ["a"], table=True)
        keys = gen.names(r, r.randrange(2, 8), ["a", "n"])
        s.shm.set(sig_mask=mask, sig_every=every)
        mon = s.raw(mon=True)
        mon.sendall(b"GET /conn HTTP/1.1\r\n\r\n")
        try:
            ctl, _ = run_storm(obs, s, r, h, steps, tabs, keys, slow, sizes=r.choice([(20, 4000), (4000, 9000), (20, 60000)]), maxq=r.choice([1, 2, 4]), gc=.01)
            M = observe(ctl, h, tabs, keys)
            for t in tabs:
                listing(s, t)
        except Violation as v:
            v.msg = "while signals arrive (mask %d, every %d calls): %s" % (mask, every, v.msg)
            raise
        raised = s.shm.get("sig_raised")
        s.shm.set(sig_mask=0)
        obs.ev(h.check())
        handlers_clean(s, "signals at any time")
        audit(s, ctl, M, "after a history with signals")
        s.wait_flush()
        if raised < 20:
            raise Inconclusive("only %d signals arrived" % raised)
        obs.seen("injected", mask, every, slow, variant)
        obs.count("signals", raised)
        obs.count("max_signals", raised)
        mon.close()
        s.stop()
        handlers_clean(s, "stopping")


def bursts(obs, seed, variant, rounds):
    """Many connections at once, on both ports, then silence: everyone is served without any further event"""
    r = rng("c15b", seed)
    with Server(variant, unix=r.random() < .4) as s:
        s.shm.set(epoll_cap_ms=0)
        with Conn(s) as c:
            c.put(b"t", b"k", b"v" * 100)
        for rnd in range(rounds):
            n = r.choice([2, 2, 3, 8, 30, 60])
            delay = r.choice([0, 0, 50, 300, 1000])
            monp = r.choice([0, .3, .5, .5, 1])
            s.shm.set(accept_delay_us=delay, sched_us=r.choice([0, 0, 60, 600, 4000]))
            busy = None
            if r.random() < .3:
                busy = Conn(s)
                busy.send(req("GET", path(b"t", b"k")) * r.choice([1, 50]))
            held = r.random() < .2
            if held:
                # all of them are accepted while the event loop is busy
                n = r.choice([3, 20, 70, 150, 300])
                s.shm.set(hold=1, accept_delay_us=0, sched_us=0)
                if not s.wait(lambda: s.shm.get("hold") == 2, 2):
                    s.shm.set(hold=0)
                have = s.nsock()
            cs = []
            for i in range(n):
                m = r.random() < monp
                x = s.raw(mon=m)
                early = r.random() < .7
                if early:
                    x.sendall(b"GET / HTTP/1.1\r\n\r\n" if m else req("GET", path(b"t", b"k")))
                cs.append([x, m, early, b""])
                if r.random() < .2:
                    time.sleep(r.choice([0, .0001, .0006]))
            for c in cs:
                if not c[2]:
                    c[0].sendall(b"GET / HTTP/1.1\r\n\r\n" if c[1] else req("GET", path(b"t", b"k")))
            if held:
                s.wait(lambda: s.nsock() >= have + n or s.shm.get("hold") == 0, 3)
                s.shm.set(hold=0)
            t0 = time.time()
            todo = list(cs)
            while todo and time.time() - t0 < 8:
                rd = select.select([c[0] for c in todo], [], [], .2)[0]
                for c in list(todo):
                    if c[0] in rd:
                        d = c[0].recv(4096)
                        c[3] += d
                        if not d:
                            s.check()
                            raise Violation("a connection of a burst was closed unserved (%r)" % c[3][:60], key="burst-closed")
                        if (c[1] and b"\r\n\r\n" in c[3]) or (not c[1] and c[3].endswith(b"v" * 100)):
                            todo.remove(c)
            if todo:
                s.check()
                # is the server merely slow? Later connections are served while these are not
                late = []
                for m in (False, True):
                    x = s.raw(mon=m)
                    x.sendall(b"HEAD / HTTP/1.1\r\n\r\n")
                    x.settimeout(10)
                    try:
                        late.append(bool(x.recv(1)))
                    except socket.timeout:
                        late.append(False)
                    x.close()
                hard = any(late)
                raise Violation("%d of %d connections (%d on the monitoring port) opened at once are not served; later ones are: %r" % (
                    len(todo), n, sum(1 for c in todo if c[1]), late), key="burst-unserved", soft=not hard)
            for c in cs:
                if c[1] and not c[3].startswith(b"HTTP/1.1 200"):
                    raise Violation("the monitoring port answered %r" % c[3][:80], key="burst-mon")
                if not c[1] and not c[3].startswith(b"HTTP/1.1 200"):
                    raise Violation("the cache port answered %r" % c[3][:80], key="burst-cache")
                c[0].close()
                obs.ev()
            if busy:
                busy.close()
            obs.seen("burst", n, delay, monp, variant)
            obs.count("burst_connections", n)
        s.shm.set(accept_delay_us=0, epoll_cap_ms=20, sched_us=0)
        s.stop()


def crowd(obs, seed, variant, n):
    """Very many connections, all open at once: each is served, the last ones and the first ones again"""
    r = rng("c15w", seed)
    n = min(n, resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 300)
    with Server(variant, unix=True) as s:
        s.shm.set(epoll_cap_ms=0)
        with Conn(s) as c:
            c.put(b"t", b"k", b"v" * 100)
        cs = []
        want = {False: b"v" * 100, True: b"\r\n\r\n"}

        def ask(xs):
            for m, x in xs:
                x.sendall(b"GET / HTTP/1.1\r\n\r\n" if m else req("GET", path(b"t", b"k")))
            for m, x in xs:
                x.settimeout(20)
                d = b""
                while not d.endswith(want[m]) and not (m and want[m] in d):
                    try:
                        g = x.recv(4096)
                    except socket.timeout:
                        s.check()
                        with Conn(s) as c:
                            c.stats()
                        raise Violation("a connection is not served while %d are open, a later one is" % len(cs), key="crowd-unserved", soft=True)
                    if not g:
                        s.check()
                        raise Violation("a connection was closed unserved while %d are open" % len(cs), key="crowd-closed")
                    d += g
                obs.ev()
        while len(cs) < n:
            new = [(r.random() < .15, None) for _ in range(min(n - len(cs), r.choice([1, 30, 200])))]
            new = [(m, s.raw(mon=m)) for m, _ in new]
            cs += new
            ask(new)
            ask([x for x in r.sample(cs, min(5, len(cs))) if not x[0]])
        ask([x for x in cs if not x[0]])
        r.shuffle(cs)
        for _, x in cs:
            x.close()
        s.wait(lambda: s.nsock() <= 3, 20)
        with Conn(s) as c:
            if c.get(b"t", b"k") != b"v" * 100:
                raise Violation("wrong value", key="value")
        obs.seen("crowd", n, variant)
        obs.count("crowd_connections", n)
        s.shm.set(epoll_cap_ms=20)
        s.stop()


def fast_child(obs, seed, variant, rounds):
    """The saving process has ended before its creation returned: saves go on, no process is left"""
    r = rng("c15f", seed)
    with Server(variant, unix=True) as s:
        s.shm.set(fork_wait=1)
        with Conn(s) as c:
            for i in range(rounds):
                c.put(b"t", b"k%d" % i, gen.data((seed, i), r.choice([10, 5000])))
                f = s.shm.get("forks")
                mode = r.choice(["gc", "usr1"])
                if mode == "gc":
                    c.gc()
                else:
                    s.sendsig(signal.SIGUSR1)
                    s.wait(lambda: s.shm.get("forks") > f, 5)
                c.get(b"t", b"k0")
                if s.shm.get("forks") == f:
                    raise Violation("save %d was not started, no other one is running (%s)" % (i, mode), key="save-not-started", detail="children: %r" % s.children())
                if not s.wait_flush(10):
                    raise Violation("a saving process is never reaped: %r" % s.children(), key="zombie")
                obs.ev()
                obs.seen("fast", mode, variant, i == 0)
        handlers_clean(s, "saves")
        s.stop()


def stopping(obs, seed, variant, rounds):
    """Termination while connections pour in"""
    r = rng("c15t", seed)
    for rnd in range(rounds):
        with Server(variant, unix=r.random() < .4) as s:
            M = {b"t": {}}
            with Conn(s) as c:
                for i in range(r.randrange(1, 20)):
                    v = gen.data((seed, rnd, i), r.choice([10, 4096, 5000]))
                    c.put(b"t", b"k%d" % i, v)
                    M[b"t"][b"k%d" % i] = v
            s.shm.set(accept_delay_us=r.choice([0, 0, 300]))
            stop = threading.Event()

            def flood(i):
                x = rng("c15tf", seed, rnd, i)
                mine = []
                while not stop.is_set():
                    try:
                        k = s.raw(mon=x.random() < .4, timeout=1)
                        k.sendall(x.choice([b"GET /conn HTTP/1.1\r\n\r\n", b"GET /t/k0 HTTP/1.1\r\n\r\n", b"GET /t/k0 HTT", b""]))
                        mine.append(k)
                    except OSError:
                        pass
                    if len(mine) > 30:
                        mine.pop(x.randrange(len(mine))).close()
                for k in mine:
                    k.close()
            ths = [threading.Thread(target=flood, args=(i,)) for i in range(3)]
            for t in ths:
                t.start()
            time.sleep(r.choice([0, .01, .05, .15]))
            sig = r.choice([signal.SIGTERM, signal.SIGINT])
            if r.random() < .3:
                s.sendsig(signal.SIGUSR1)
            s.sendsig(sig)
            dead = s.wait_dead(30)
            stop.set()
            for t in ths:
                t.join()
            if variant == "tsan":
                races(s, "terminated while connections come")
            else:
                s.check_san()
            handlers_clean(s, "terminated while connections come")
            if not dead and variant == "tsan" and blocked_by_tsan(s):
                obs.count("signals_blocked_by_tsan")
                s.kill()
                continue
            if not dead:
                raise Violation("the server did not terminate while connections kept coming", key="stop-timeout", soft=True, detail=s.stack())
            if s.rc not in ((0, 66) if variant == "tsan" else (0,)):
                raise Violation("exit status after a graceful stop: " + s.rcname(), key="stop-status:" + s.rcname(), detail=s.tail())
            s.start()
            with Conn(s) as c:
                check_values(s, c, M, "after a stop while connections came", obs=obs)
            s.stop()
            obs.seen("stop", sig, variant, rnd % 4)
            obs.count("stops")


def usr1_flood(obs, seed, variant, steps):
    """Save requests from outside as fast as they can be sent"""
    r = rng("c15u", seed)
    h = Hist(seed)
    with Server(variant, unix=True, shm=dict(sndbuf=4608)) as s:
        tabs, keys = [b"t"], [b"a", b"b", b"c"]
        stop = threading.Event()
        n = [0]

        def flood():
            while not stop.is_set():
                s.sendsig(signal.SIGUSR1)
                n[0] += 1
                time.sleep(.0005)
        t = threading.Thread(target=flood)
        t.start()
        try:
            ctl, _ = run_storm(obs, s, r, h, steps, tabs, keys, True, sizes=(3000, 9000), maxq=2, gc=.01)
            M = observe(ctl, h, tabs, keys)
        finally:
            stop.set()
            t.join()
        obs.ev(h.check())
        handlers_clean(s, "save requests")
        audit(s, ctl, M, "after a flood of save requests")
        if s.shm.get("forks") < 2:
            raise Violation("%d save requests led to %d saves" % (n[0], s.shm.get("forks")), key="usr1-ignored")
        if not s.wait_flush(20):
            raise Violation("a saving process stays", key="zombie", soft=True)
        obs.seen("usr1", variant)
        obs.count("save_requests", n[0])
        obs.count("saves", s.shm.get("forks"))
        s.stop()
