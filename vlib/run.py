"""Runs the jobs of a check in parallel, judges, writes evidence and the verdict."""
import hashlib, importlib, json, multiprocessing as mp, os, random, re, shutil, signal, sys, time, traceback
from . import build, srv
from .srv import Violation, Inconclusive

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


def h64(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "big")


class Obs:
    """What a job observed"""

    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}

    def ev(self, n=1):
        self.evals += n

    def seen(self, *a):
        self.distinct.add(h64(*a))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def pack(self):
        return dict(evals=self.evals, distinct=list(self.distinct), samples=self.samples, counts=self.counts)


def _job_main(modname, fn, kw, tier, conn):
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.environ["VERIF_TIER"] = tier
    obs = Obs()
    try:
        mod = importlib.import_module("checks." + modname)
        try:
            getattr(mod, fn)(obs, **kw)
            res = ("ok", None)
        except (ConnectionError, OSError) as e:
            tb = traceback.format_exc()
            time.sleep(0.05)
            for s in list(srv._live):
                s.check()
            raise Violation("unexpected i/o error: %s" % e, key="io-error", soft=True, detail=tb)
    except Violation as v:
        res = ("violation", dict(msg=v.msg, key=v.key, soft=v.soft, detail=str(v.detail or "")[:8000]))
    except Inconclusive as e:
        res = ("inconclusive", str(e))
    except build.BuildError as e:
        res = ("build", str(e))
    except BaseException:
        res = ("error", traceback.format_exc())
    try:
        srv.cleanup_all()
    except BaseException:
        pass
    try:
        conn.send((res, obs.pack()))
    except BaseException:
        pass
    conn.close()
    os._exit(0)


class Job:
    def __init__(self, mod, fn, kw, tier, limit):
        self.mod, self.fn, self.kw, self.tier, self.limit = mod, fn, kw, tier, limit
        self.res = None
        self.more_until = 0   # not begun later than this (0: to be run in any case)

    def start(self):
        a, b = mp.Pipe(False)
        self.rd = a
        self.t0 = time.time()
        self.p = mp.Process(target=_job_main, args=(self.mod, self.fn, self.kw, self.tier, b))
        self.p.start()
        b.close()

    def poll(self):
        if self.rd.poll(0):
            try:
                self.res = self.rd.recv()
            except EOFError:
                self.res = (("error", "the job process died (%s)" % self.p.exitcode), Obs().pack())
            self.p.join(20)
            self._kill()
            return True
        if not self.p.is_alive() and not self.rd.poll(0.1):
            self.res = (("error", "the job process died (%s)" % self.p.exitcode), Obs().pack())
            return True
        if time.time() - self.t0 > self.limit:
            self._kill()
            self.res = (("violation", dict(msg="%s did not finish within %ds" % (self.fn, self.limit), key="job-timeout:" + self.fn, soft=True, detail="")), Obs().pack())
            return True
        return False

    def _kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.kill()
        except Exception:
            pass


def run_jobs(jobs, workers, deadline):
    todo = list(jobs)
    live = []
    skipped = 0
    stop = False
    while todo or live:
        while todo and len(live) < workers:
            j = todo.pop(0)
            if j.more_until and (stop or time.time() > j.more_until):
                continue
            if stop or time.time() > deadline:
                skipped += 1
                continue
            j.start()
            live.append(j)
        for j in list(live):
            if j.poll():
                live.remove(j)
                if j.res[0][0] == "violation" and not j.res[0][1]["soft"]:
                    stop = True
        time.sleep(0.005)
    return skipped


def known(prop):
    r = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == prop:
                    r.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return r


def sweep_scratch():
    """Leftovers of killed jobs of this run"""
    base = srv.scratch_base()
    for n in os.listdir(base):
        if n.startswith("vf-"):
            p = os.path.join(base, n)
            try:
                if time.time() - os.stat(p).st_mtime > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 2
        elif argv[i] == "--only":
            only = argv[i + 1]; i += 2
        else:
            print("unknown argument " + argv[i]); return 2
    modname = prop.lower()
    os.environ["VERIF_TIER"] = tier
    os.environ["VERIF_SEED"] = str(seed)
    mod = importlib.import_module("checks." + modname)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    sweep_scratch()
    all_variants = set(mod.VARIANTS)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        specs = [(r["fn"], r["kw"])]
        first = 1
    else:
        specs = mod.jobs(tier, seed)
        if only:
            specs = [s for s in specs if s[0] == only]
        first = len(specs)
        if tier == "quick" and not only:
            # what is left of the time goes to more of the same with other seeds (not of what is done once)
            many = {s[0] for s in specs if sum(x[0] == s[0] for x in specs) > 1}
            for extra in range(1, 13):
                specs += [s for s in mod.jobs(tier, seed + 10000 * extra) if s[0] in many and s not in specs]
    all_variants |= {kw["variant"] for _, kw in specs if "variant" in kw}
    gone = {v for v in all_variants if not build.available(v)}
    specs = [(fn, kw, n >= first) for n, (fn, kw) in enumerate(specs) if kw.get("variant") not in gone]
    try:
        build.build(sorted(all_variants - gone))
    except build.BuildError as e:
        print("build failure, no verdict:\n" + str(e)[-3000:])
        return 2
    tb = time.time() - t0
    limit = 110 if tier == "quick" else 1500
    jobs = [Job(modname, fn, kw, tier, limit) for fn, kw, _ in specs]
    for j, (_, _, more) in zip(jobs, specs):
        j.more_until = time.time() + 25 if more else 0
    workers = getattr(mod, "WORKERS", max(2, min(8, os.cpu_count() or 2)))
    deadline = time.time() + (280 if tier == "quick" else 6 * 3600)
    skipped = run_jobs(jobs, workers, deadline)

    # Verdicts: time based suspicions and errors have to repeat
    violations, notes, errors = [], ["the variant %s can not be built from this tree" % v for v in sorted(gone)], []
    retried = 0
    for j in sorted(jobs, key=lambda j: j.res is not None and j.res[0][0] == "violation" and j.res[0][1]["key"].startswith("job-timeout")):
        if j.res is None:
            continue
        kind, info = j.res[0]
        if kind in ("violation", "error") and (kind == "error" or info["soft"]) and not violations and retried < 3:
            first = info
            retried += 1
            j2 = Job(modname, j.fn, j.kw, tier, limit)
            run_jobs([j2], 1, time.time() + 1e6)
            k2, i2 = j2.res[0]
            j.res = (j2.res[0], j.res[1] if k2 != "ok" else j2.res[1])
            if k2 == "ok":
                notes.append("%s: did not repeat: %s" % (j.fn, first if kind == "error" else first["msg"]))
                continue
            kind, info = k2, i2
        elif kind == "violation" and info["soft"] and not violations:
            notes.append("%s: time based, not repeated for lack of time: %s" % (j.fn, info["msg"]))
            continue
        if kind == "violation":
            violations.append((j, info))
        elif kind in ("inconclusive", "build"):
            notes.append("%s inconclusive: %s" % (j.fn, info))
        elif kind == "error":
            errors.append((j, info))

    distinct, evals, samples, counts = set(), 0, [], {}
    for j in jobs:
        if j.res is None:
            continue
        o = j.res[1]
        evals += o["evals"]
        distinct.update(o["distinct"])
        for s in o["samples"][:2]:
            if len(samples) < 8:
                samples.append(dict(job=j.fn, case=s))
        for k, v in o["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v

    kn = known(prop)
    new, seen_known = [], []
    for j, v in violations:
        m = [d for k, d in kn if k == v["key"]]
        if m:
            seen_known.append((v, m[0]))
        else:
            new.append((j, v))
    for v, d in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for d in (d for k, d in kn if k not in [v["key"] for v, _ in seen_known]):
        notes.append("listed finding was not reproduced in this run: " + d)

    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=samples or ["none"],
                            observed=counts, jobs=sum(j.res is not None for j in jobs) + skipped, jobs_skipped=skipped, notes=notes[:20], build_s=round(tb, 1),
                            variants=mod.VARIANTS),
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    for n in notes[:10]:
        print("note: " + str(n)[:600])
    print("%s %s seed=%d: %d evaluations, %d distinct, %d jobs (%d skipped), %.1fs; %s" % (
        prop, tier, seed, evals, len(distinct), sum(j.res is not None for j in jobs) + skipped, skipped, time.time() - t0,
        ", ".join("%s=%s" % kv for kv in sorted(counts.items()))))
    if new:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for n, (j, v) in enumerate(new[:5]):
            if v["key"] in done:
                continue
            done.add(v["key"])
            p = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(p, "w") as f:
                json.dump(dict(property=prop, fn=j.fn, kw=j.kw, seed=seed, tier=tier, message=v["msg"], key=v["key"],
                               detail=v["detail"]), f, indent=1, default=repr)
            print("violated by %s(%s): %s\n%s" % (j.fn, json.dumps(j.kw, default=repr)[:300], v["msg"], v["detail"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        for j, e in errors[:3]:
            print("error of the check in %s(%s):\n%s" % (j.fn, j.kw, e))
        return 2
    if evals == 0:
        print("nothing was observed, no verdict")
        return 2
    return 0


def rng(*a):
    return random.Random(h64(*a))
