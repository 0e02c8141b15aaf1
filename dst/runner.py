"""Runs many simulations of a property, minimises and reports violations."""

import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PARCE_REPO", "/repo")

RUN_LIMIT = 40          # wall seconds for one simulated run
RETRY_LIMIT = 100       # ... when tried again, alone

WORKLOADS = {}


def setup(modules):
    """Install the seams, import everything of parce and the workloads."""
    sys.path[:0] = [VERIF, REPO]
    import warnings
    warnings.simplefilter("ignore")
    from . import core
    core.install_seams()
    import pkgutil
    import parce
    if not os.path.abspath(parce.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("parce is not imported from %s" % REPO)
    for m in sorted(m.name for m in pkgutil.walk_packages(parce.__path__, "parce.")):
        if not m.endswith("__main__"):
            importlib.import_module(m)
    import _weakrefset
    import contextlib
    import threading
    import weakref
    from . import langs
    files = [langs.__file__, weakref.__file__, _weakrefset.__file__, contextlib.__file__, threading.__file__]
    for name in modules:
        m = importlib.import_module("dst." + name)
        WORKLOADS[name] = m
        files.extend(getattr(m, "MONITOR", ()))
    core.install_monitor([os.path.join(os.path.abspath(REPO), "parce") + os.sep], files)
    langs.setup()
    for m in WORKLOADS.values():
        if hasattr(m, "setup"):
            m.setup()
    gc.collect()
    gc.freeze()
    gc.disable()


# --------------------------------------------------------------------------
# one run in a forked child

def execute(job, full=False):
    """Execute one job (a dict workload, checks, plan) in this process."""
    m = WORKLOADS[job["workload"]]
    plan = job["plan"]
    from . import core
    core.EXITS = bool(plan.get("exit"))
    try:
        s = m.run(plan, set(job["checks"]))
        out = dict(v=s.violation, steps=s.total, sw=s.switches, digest=s.digest.hexdigest(),
                   ilv=s.ilv.hexdigest(), counts=s.counts, time=s.now - 1000.0,
                   fired=s.fired, outcome=s.outcome, hist=getattr(s, "hist", None))
        if full or s.violation:
            out["decisions"] = s.decisions
            out["gran"] = s.policy.gran
            out["trace"] = s.trace
    except BaseException as e:
        d = core.describe_exception(e)
        kind = "harness-error" if isinstance(e, (core.HarnessError, MemoryError)) else \
            "unexpected-exception" if d["in_parce"] else "unusable-outcome"
        out = dict(v=dict(kind=kind, message=d["traceback"][-1500:]), steps=0, sw=0,
                   digest="", ilv="", counts={}, time=0, fired=0, outcome="exception", hist=None)
    return out


def limit_memory(size=3 << 30):
    """Let code that allocates without end fail, instead of ending the machine."""
    import resource
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (now + size, now + size))


class Child:
    """A forked child executing one job."""
    def __init__(self, job, full=False, limit=RUN_LIMIT):
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(r)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)
                limit_memory()
                data = json.dumps(execute(job, full)).encode()
                view = memoryview(data)
                while view:
                    view = view[os.write(w, view):]
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b""
        self.deadline = time.time() + limit
        self.result = None

    def read(self):
        """Read available data; True when finished."""
        x = os.read(self.fd, 1 << 20)
        if x:
            self.buf += x
            return False
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        try:
            self.result = json.loads(self.buf)
        except ValueError:
            self.result = dict(v=dict(kind="harness-error", message="the child died"), crashed=True)
        return True

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        self.result = dict(v=dict(kind="hang", message="no end within the wall limit"), hang=True)


def run_one(job, full=False, limit=RUN_LIMIT):
    c = Child(job, full, limit)
    while True:
        r, _, _ = select.select([c.fd], [], [], max(0.0, c.deadline - time.time()))
        if not r:
            c.kill()
            return c.result
        if c.read():
            return c.result


def run_batch(jobs, procs=8, full=False, stop=None, limit=RUN_LIMIT):
    """Run jobs in parallel; returns the list of results (None if not run).

    If ``stop(result)`` returns True, no more jobs are started.
    """
    results = [None] * len(jobs)
    active = {}
    it = iter(range(len(jobs)))
    stopped = False
    while True:
        while not stopped and len(active) < procs:
            i = next(it, None)
            if i is None:
                stopped = True
                break
            c = Child(jobs[i], full, limit)
            active[c.fd] = (i, c)
        if not active:
            return results
        timeout = max(0.0, min(c.deadline for _, c in active.values()) - time.time())
        ready, _, _ = select.select(list(active), [], [], timeout)
        now = time.time()
        for fd in list(active):
            i, c = active[fd]
            if fd in ready:
                if c.read():
                    del active[fd]
                    results[i] = c.result
                    if stop and stop(c.result):
                        stopped = True
            elif c.deadline <= now:
                del active[fd]
                c.kill()
                results[i] = c.result


# --------------------------------------------------------------------------
# the search

def make_job(prop, spec, base, i):
    """Return the job for run number i."""
    rng = random.Random("%s:%s:%s" % (prop, base, i))
    parts = spec["parts"]
    part = rng.choices(parts, [p.get("weight", 1) for p in parts])[0]
    m = WORKLOADS[part["workload"]]
    plan = m.gen(rng, part.get("cfg", {}))
    if rng.random() < 0.25:
        plan["exit"] = 1    # injected exceptions are not a subclass of Exception
    return dict(workload=part["workload"], checks=sorted(part["checks"]), plan=plan, run=i)


def worker_loop(prop, spec, base, indexes, wfd, deadline):
    """Runs in a forked worker process: one child per run."""
    def send(d):
        data = (json.dumps(d) + "\n").encode()
        view = memoryview(data)
        while view:
            view = view[os.write(wfd, view):]
    agg = None

    def fresh():
        return dict(n=0, steps=0, sw=0, time=0.0, counts={}, ilv=[], fired=0, withfault=0, nontrivial=[], outcomes={})
    agg = fresh()
    for i in indexes:
        if time.time() > deadline:
            break
        job = make_job(prop, spec, base, i)
        r = run_one(job)
        if r.get("hang") or r.get("crashed"):
            # maybe the machine is busy: try again with more time
            r = run_one(job, limit=RETRY_LIMIT)
        if r["v"]:
            send(dict(t="v", i=i, r=r))
            break
        agg["n"] += 1
        agg["steps"] += r["steps"]
        agg["sw"] += r["sw"]
        agg["time"] += r["time"]
        agg["fired"] += r["fired"]
        agg["withfault"] += bool(r["fired"])
        for k, v in r["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["outcomes"][r["outcome"]] = agg["outcomes"].get(r["outcome"], 0) + 1
        agg["ilv"].append(r["ilv"])
        if r["sw"] or r["fired"]:
            agg["nontrivial"].append(r["digest"] + r["ilv"])
        if agg["n"] >= 25:
            send(dict(t="a", a=agg))
            agg = fresh()
    send(dict(t="a", a=agg))
    send(dict(t="end"))


def search(prop, spec, base, count, procs, wall):
    """Run ``count`` simulations; return (aggregate, violating run or None)."""
    start = time.time()
    deadline = start + wall
    fds = {}
    pids = {}
    sys.stdout.flush()
    for w in range(procs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in fds:
                    os.close(fd)
                worker_loop(prop, spec, base, range(w, count, procs), wfd, deadline)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        fds[r] = b""
        pids[r] = pid
    total = dict(n=0, steps=0, sw=0, time=0.0, counts={}, fired=0, withfault=0, outcomes={})
    ilv, nontrivial = set(), set()
    found = []
    ended = 0
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 5)
        for fd in ready:
            x = os.read(fd, 1 << 20)
            if not x:
                del fds[fd]
                os.close(fd)
                os.waitpid(pids.pop(fd), 0)
                continue
            fds[fd] += x
            while b"\n" in fds[fd]:
                line, fds[fd] = fds[fd].split(b"\n", 1)
                d = json.loads(line)
                if d["t"] == "a":
                    a = d["a"]
                    for k in ("n", "steps", "sw", "time", "fired", "withfault"):
                        total[k] += a[k]
                    for n in ("counts", "outcomes"):
                        for k, v in a[n].items():
                            total[n][k] = total[n].get(k, 0) + v
                    ilv.update(a["ilv"])
                    nontrivial.update(a["nontrivial"])
                elif d["t"] == "v":
                    found.append((d["i"], d["r"]))
                elif d["t"] == "end":
                    ended += 1
        if found:
            # don't wait for the others
            for fd, pid in pids.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
            for fd in list(fds):
                os.close(fd)
                os.waitpid(pids.pop(fd), 0)
            fds.clear()
    total["ilv"] = len(ilv)
    total["nontrivial"] = len(nontrivial)
    total["wall"] = time.time() - start
    total["complete"] = total["n"] >= count
    total["workers_ended"] = ended
    found.sort(key=lambda f: f[0])
    return total, found


# --------------------------------------------------------------------------
# minimising

def _lists(obj, path=()):
    """Yield the paths of all shrinkable lists in a plan: lists of lists or dicts."""
    if isinstance(obj, dict):
        for k, v in sorted(obj.items()):
            if k != "policy":
                yield from _lists(v, path + (k,))
    elif isinstance(obj, list):
        if obj and all(isinstance(x, (list, dict)) for x in obj):
            yield path
        for i, v in enumerate(obj):
            yield from _lists(v, path + (i,))


def _get(obj, path):
    for k in path:
        obj = obj[k]
    return obj


def _copy(obj):
    return json.loads(json.dumps(obj))


def candidates(plan):
    """Yield smaller plans."""
    for path in _lists(plan):
        n = len(_get(plan, path))
        least = 1 if path[-1] == "docs" or path[-1] == "threads" else 0
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if n - min(size, n - i) >= least:
                    p = _copy(plan)
                    del _get(p, path)[i:i + size]
                    yield p
            size //= 2
    if "docs" in plan:
        for d in range(len(plan["docs"])):
            text = plan["docs"][d].get("text") or ""
            size = len(text) // 2
            while size >= 1 and len(text) // size <= 16:
                for i in range(0, len(text), size):
                    p = _copy(plan)
                    p["docs"][d]["text"] = text[:i] + text[i + size:]
                    yield p
                size //= 2


def minimise(job, result, budget, procs=8):
    """Return a smaller job with the same kind of violation, and its result."""
    kind = result["v"]["kind"]
    end = time.time() + budget
    best, bres = job, result

    def same(r):
        return r is not None and r["v"] is not None and r["v"]["kind"] == kind

    if kind == "hang":
        return best, bres
    # 1. the plan; a smaller plan is tried with several schedules
    progress = True
    while progress and time.time() < end * 1 - budget * 0.35:
        progress = False
        seen = set()
        for p in candidates(best["plan"]):
            if time.time() > end - budget * 0.35:
                break
            key = json.dumps(p, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            jobs = []
            for n in range(8):
                q = _copy(p)
                if n and "seed" in q["policy"]:
                    q["policy"]["seed"] += n * 7919
                jobs.append(dict(best, plan=q))
            rs = run_batch(jobs, procs, stop=same, limit=10)
            for j, r in zip(jobs, rs):
                if same(r):
                    best, bres = j, r
                    progress = True
                    break
            if progress:
                break
    # 2. the schedule
    if "decisions" not in bres:
        r = run_one(best, True)
        if not same(r):
            return best, bres
        bres = r
    if "decisions" not in bres:
        return best, bres
    def replay_job(decisions):
        p = _copy(best["plan"])
        p["policy"] = dict(kind="replay", gran=bres.get("gran", "line"), decisions=decisions)
        return dict(best, plan=p)
    decisions = bres["decisions"]
    j = replay_job(decisions)
    r = run_one(j, True)
    if not same(r):
        return best, bres
    cur, cres = j, r
    size = max(1, len(decisions) // 2)
    while time.time() < end:
        d = cur["plan"]["policy"]["decisions"]
        jobs = [replay_job(d[:i] + d[i + size:]) for i in range(0, len(d), size)]
        hit = None
        for k in range(0, len(jobs), procs):
            if time.time() > end:
                break
            rs = run_batch(jobs[k:k + procs], procs, limit=10)
            for j, r in zip(jobs[k:k + procs], rs):
                if same(r):
                    hit = (j, r)
                    break
            if hit:
                break
        if hit:
            cur, cres = hit
            size = min(size, max(1, len(cur["plan"]["policy"]["decisions"]) // 2))
        elif size == 1:
            break
        else:
            size //= 2
    return cur, cres


def write_replay(prop, job, result, info):
    """Run the job again (twice) with a trace and write the replay file."""
    plan = _copy(job["plan"])
    plan["trace"] = True
    tjob = dict(job, plan=plan)
    if result["v"]["kind"] == "hang":
        rs = []
    else:
        rs = [run_one(tjob, True), run_one(tjob, True)]
    rec = dict(property=prop, workload=job["workload"], checks=job["checks"], plan=plan,
               violation=(rs[0]["v"] if rs and rs[0]["v"] else result["v"]),
               digest=rs[0].get("digest") if rs else None,
               reproduced=[r["v"] is not None and r.get("digest") == rs[0].get("digest") for r in rs],
               trace=rs[0].get("trace", [])[-400:] if rs else [], **info)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, info["run"]))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path, rec
