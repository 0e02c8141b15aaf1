"""Deterministic simulator: scheduler, synchronisation primitives, clock.

Every thread of the simulated system is a real Python thread, but exactly one
of them runs at any time: all others are parked on a private gate.  Who runs
next is decided only by the simulator, from a seeded PRNG (or from a replay
list).  Context switches can happen

* at every executed *line* (or, in some runs, every *bytecode instruction*) of
  the monitored code -- parce itself, the user code called by parce and the
  pure Python parts of the standard library parce depends on for its shared
  state -- by means of ``sys.monitoring``;
* at every operation of a synchronisation primitive; the names in the
  ``threading``, ``queue`` and ``time`` modules are the seam.

Nothing in here reads a real clock or real randomness.
"""

import _thread
import hashlib
import random
import sys
import time as _time
import threading as _threading
import traceback
import zlib

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident
_RealThread = _threading.Thread

SIM = None          # the active Sim, if any

RUNNABLE, BLOCKED, IDLEWAIT, DONE = "runnable", "blocked", "idlewait", "done"
NOBUDGET = 1000000


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class InjectedFault(Exception):
    """Raised by simulated user code on request of the simulator."""


class InjectedExit(BaseException):
    """Like InjectedFault, but not an Exception (as KeyboardInterrupt, SystemExit)."""


INJECTED = (InjectedFault, InjectedExit)
EXITS = False       # inject InjectedExit instead of InjectedFault


def injected(text):
    """Return the exception to raise in simulated user code."""
    return (InjectedExit if EXITS else InjectedFault)(text)


class StopRun(BaseException):
    """Raised inside a simulated thread to abandon the run."""


class Task:
    __slots__ = ("tid", "name", "gate", "state", "steps", "budget", "wake_at",
                 "timed_out", "waiting", "prio", "slice0", "driver", "error",
                 "stalled_until", "thread")

    def __init__(self, tid, name, driver):
        self.tid = tid
        self.name = name
        self.gate = _real_alloc()
        self.gate.acquire()
        self.state = RUNNABLE
        self.steps = 0
        self.budget = 0
        self.slice0 = 0
        self.wake_at = None
        self.timed_out = False
        self.waiting = None
        self.prio = 0
        self.driver = driver
        self.error = None
        self.stalled_until = 0
        # drivers have a Thread object of their own, so threading does not
        # make a dummy one (that is removed when the real thread goes away)
        self.thread = SimThread(name=name) if driver else None


# --------------------------------------------------------------------------
# scheduling policies

class Policy:
    """Base: run until blocked, choose the lowest tid."""
    gran = "line"
    hot = 1
    sync = 1

    def __init__(self, spec):
        self.spec = spec
        self.gran = spec.get("gran", "line")
        self.hot = spec.get("hot", 1)
        self.sync = spec.get("sync", 1)
        self.focus = spec.get("focus")

    def weight(self, code):
        """The weight of a line of this code object (seeded focus)."""
        w = 1
        fn = code.co_filename
        if self.hot > 1 and fn.endswith(HOT_FILES):
            w *= self.hot
        if self.focus is not None:
            h = zlib.crc32(("%s:%s:%s" % (self.focus, fn.rsplit("/", 1)[-1], code.co_qualname)).encode())
            if h % 8 == 0:
                w *= 25
        return w

    def new_task(self, sim, task):
        pass

    def slice(self, sim, task):
        return NOBUDGET

    def preempt(self, sim, task, runnable):
        """Return the task to continue with when the budget is used up."""
        return task

    def forced(self, sim, task, runnable):
        """Return the task to run when ``task`` cannot continue."""
        return runnable[0]


class QuantumPolicy(Policy):
    """Random quanta; uniform random choice."""
    def __init__(self, spec):
        super().__init__(spec)
        self.rng = random.Random(spec["seed"])
        self.mean = spec["mean"]
        self.favour = spec.get("favour")     # None, "driver" or "worker"
        self.factor = spec.get("factor", 8)
        self.stall_p = spec.get("stall_p", 0)
        self.stall_len = spec.get("stall_len", 2000)

    def slice(self, sim, task):
        m = self.mean
        if self.favour:
            if (self.favour == "driver") == bool(task.driver):
                m *= self.factor
        return 1 + int(self.rng.expovariate(1.0 / m))

    def choose(self, sim, runnable):
        if self.stall_p:
            ok = [t for t in runnable if t.stalled_until <= sim.total]
            if ok:
                runnable = ok
            for t in runnable:
                if self.rng.random() < self.stall_p:
                    t.stalled_until = sim.total + self.stall_len
                    sim.count("stall")
        return self.rng.choice(runnable)

    def preempt(self, sim, task, runnable):
        return self.choose(sim, runnable)

    def forced(self, sim, task, runnable):
        return self.choose(sim, runnable)


class PctPolicy(Policy):
    """Probabilistic concurrency testing: random priorities, d change points."""
    def __init__(self, spec):
        super().__init__(spec)
        self.rng = random.Random(spec["seed"])
        est = spec["est"]
        self.points = sorted(self.rng.randrange(1, est) for _ in range(spec["d"]))
        self.low = 0

    def new_task(self, sim, task):
        task.prio = 1 + self.rng.random()

    def slice(self, sim, task):
        while self.points and self.points[0] <= sim.wtotal:
            self.points.pop(0)
        return self.points[0] - sim.wtotal if self.points else NOBUDGET

    def preempt(self, sim, task, runnable):
        self.low -= 1
        task.prio = self.low
        return max(runnable, key=lambda t: t.prio)

    def forced(self, sim, task, runnable):
        return max(runnable, key=lambda t: t.prio)


class ReplayPolicy(Policy):
    """Follow a recorded list of decisions [tid, step, target]."""
    def __init__(self, spec):
        super().__init__(spec)
        self.sync = 1
        self.by = {}
        self.points = {}
        for tid, step, target in spec["decisions"]:
            self.by[tid, step] = target
            self.points.setdefault(tid, []).append(step)
        for l in self.points.values():
            l.sort()

    def weight(self, code):
        return 1

    def slice(self, sim, task):
        l = self.points.get(task.tid, ())
        for s in l:
            if s > task.steps:
                return s - task.steps
        return NOBUDGET

    def _target(self, task, runnable):
        tid = self.by.get((task.tid, task.steps) if task else (-1, 0))
        if tid is not None:
            for t in runnable:
                if t.tid == tid:
                    return t

    def preempt(self, sim, task, runnable):
        return self._target(task, runnable) or task

    def forced(self, sim, task, runnable):
        return self._target(task, runnable) or runnable[0]


def make_policy(spec):
    return {"quantum": QuantumPolicy, "pct": PctPolicy, "replay": ReplayPolicy,
            "none": Policy}[spec["kind"]](spec)


def random_policy(rng, gran=None):
    """Draw a policy spec (swarm style)."""
    spec = {"seed": rng.getrandbits(32)}
    spec["gran"] = gran or ("instr" if rng.random() < 0.2 else "line")
    spec["sync"] = rng.choice([1, 1, 10, 60])
    spec["hot"] = rng.choice([1, 4, 20])
    if rng.random() < 0.4:
        spec["focus"] = rng.getrandbits(16)
    if rng.random() < 0.25:
        spec["kind"] = "pct"
        spec["d"] = rng.choice([1, 2, 3, 5, 8])
        spec["est"] = rng.choice([500, 3000, 15000, 60000])
    else:
        spec["kind"] = "quantum"
        spec["mean"] = rng.choice([4, 15, 50, 150, 400, 1200, 4000])
        r = rng.random()
        if r < 0.2:
            spec["favour"] = "driver"
        elif r < 0.5:
            spec["favour"] = "worker"
            if r > 0.35:
                spec["factor"] = 400
        if rng.random() < 0.2:
            spec["stall_p"] = 0.05
            spec["stall_len"] = rng.choice([300, 2000, 10000])
    return spec


def sync_policy(rng):
    """Draw a policy spec where threads only switch at synchronisation and I/O."""
    spec = random_policy(rng, "sync")
    spec.pop("focus", None)
    if spec["kind"] == "pct":
        spec["est"] = rng.choice([20, 60, 200])
    else:
        spec["mean"] = rng.choice([1, 2, 4, 15])
        if "stall_len" in spec:
            spec["stall_len"] = rng.choice([10, 50])
    spec["sync"] = rng.choice([1, 1, 2])
    return spec


HOT_FILES = ("parce/work.py", "parce/util.py", "parce/transform.py",
             "parce/treebuilder.py", "/weakref.py", "/contextlib.py", "/threading.py")


# --------------------------------------------------------------------------
# monitoring

_mon = sys.monitoring
_TOOL = 4
_prefixes = ()
_files = ()
_weights = {}


def _classify(code):
    fn = code.co_filename
    if fn.startswith(_prefixes) or fn in _files:
        sim = SIM
        w = sim.policy.weight(code) if sim else 1
    else:
        w = 0
    _weights[code] = w
    return w


def _on_event(code, where):
    w = _weights.get(code)
    if w is None:
        w = _classify(code)
    if not w:
        return _mon.DISABLE
    sim = SIM
    if sim is None or sim.paused:
        return
    t = sim.cur
    t.steps += 1
    t.budget -= w
    if t.budget <= 0:
        sim.preempt(t, code, where)


def install_monitor(prefixes, files):
    """Claim the sys.monitoring tool; call once, before the first run."""
    global _prefixes, _files
    _prefixes = tuple(prefixes)
    _files = frozenset(files)
    _mon.use_tool_id(_TOOL, "dst")
    _mon.register_callback(_TOOL, _mon.events.LINE, _on_event)
    _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_event)


# --------------------------------------------------------------------------

class Sim:
    """One simulated execution."""

    def __init__(self, policy, faults=(), step_cap=4000000, keep_trace=False):
        self.policy = make_policy(policy)
        self.step_cap = step_cap
        self.tasks = []
        self.cur = None
        self.paused = 0
        self.total = 0          # executed steps (all tasks)
        self.wtotal = 0         # weighted steps
        self.now = 1000.0       # simulated seconds
        self.wall_skew = 0.0    # injected jumps of the wall clock
        self.decisions = []
        self.switches = 0
        self.counts = {}
        self.probes = {}
        self.digest = hashlib.blake2b(digest_size=8)
        self.ilv = hashlib.blake2b(digest_size=8)   # interleaving measure
        self.done_gate = _real_alloc()
        self.done_gate.acquire()
        self.ended = False
        self.outcome = None
        self.violation = None
        self.thread_errors = []
        self.fired = 0
        self.keep_trace = keep_trace
        self.trace = []
        self.seq = 0
        # faults: list of dicts {site, nth, ...}
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["site"], {})[f["nth"]] = f
        self.site_counts = {}

    # -- bookkeeping -------------------------------------------------------

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def log(self, *what):
        """Add to the event log (never draws randomness)."""
        if self.ended:
            return
        self.seq += 1
        self.digest.update(repr(what).encode("utf-8", "backslashreplace"))
        if self.keep_trace:
            self.trace.append("%6d [%s] %s" % (self.total, self.cur.name if self.cur else "-",
                                               " ".join(str(w) for w in what)))

    def fail(self, kind, message, **extra):
        """Record a violation (the first one counts) and stop the run."""
        if self.violation is None:
            self.violation = dict(kind=kind, message=message, **extra)
            self.log("VIOLATION", kind, message)
        self.end("violation")
        raise StopRun

    def note_violation(self, kind, message):
        """Record a violation without unwinding (for use inside callbacks of
        the code under test); the run stops at the next opportunity."""
        if self.violation is None:
            self.violation = dict(kind=kind, message=message)
            self.log("VIOLATION", kind, message)

    def fault(self, site):
        """Return the fault planned for this occurrence of the site, or None."""
        if self.paused:
            return None
        n = self.site_counts.get(site, 0)
        self.site_counts[site] = n + 1
        f = self.faults.get(site)
        if f:
            f = f.get(n)
            if f:
                self.fired += 1
                self.count("fault:" + site + (":" + f["kind"] if "kind" in f else ""))
                self.log("fault", site, n, f.get("kind", ""))
                return f

    def stop_faults(self):
        self.faults = {}

    def atomic(self):
        return _Atomic(self)

    # -- running -----------------------------------------------------------

    def run(self, wall_limit=None):
        """Run the spawned tasks until nothing can run any more."""
        global SIM
        _weights.clear()
        SIM = self
        ev = {"instr": _mon.events.INSTRUCTION, "line": _mon.events.LINE, "sync": 0}[self.policy.gran]
        _mon.set_events(_TOOL, ev)
        try:
            if self.tasks:
                first = self._pick_forced(None)
                self._dispatch(first)
                self.done_gate.acquire()
        finally:
            self.ended = True
            self.paused = 1
            SIM = None
            _mon.set_events(_TOOL, 0)
        return self.outcome

    def end(self, outcome):
        if not self.ended:
            self.ended = True
            self.paused += 1
            self.outcome = outcome
            self.done_gate.release()

    def spawn(self, func, name, driver=True):
        """Create a task running func()."""
        t = Task(len(self.tasks), name, driver)
        self.tasks.append(t)
        self.policy.new_task(self, t)
        _real_start(_boot, (self, t, [func]))
        return t

    def _dispatch(self, t):
        self.cur = t
        t.slice0 = t.budget = self.policy.slice(self, t)
        t.gate.release()

    def _account(self, t):
        used = t.slice0 - t.budget
        self.wtotal += used
        t.slice0 = t.budget

    def _runnable(self):
        return [t for t in self.tasks if t.state is RUNNABLE]

    def _pick_forced(self, me):
        """Choose a task when ``me`` cannot continue (or is None)."""
        while True:
            r = self._runnable()
            if r:
                if len(r) == 1:
                    return r[0]
                t = self.policy.forced(self, me, r)
                if me is not None:
                    self.decisions.append((me.tid, me.steps, t.tid))
                else:
                    self.decisions.append((-1, 0, t.tid))
                return t
            # nobody can run: advance the clock to the first timer
            timers = [t for t in self.tasks if t.state is BLOCKED and t.wake_at is not None]
            if timers:
                t = min(timers, key=lambda t: (t.wake_at, t.tid))
                self.now = max(self.now, t.wake_at)
                t.wake_at = None
                t.timed_out = True
                t.state = RUNNABLE
                self.count("timer_fired")
                continue
            idle = [t for t in self.tasks if t.state is IDLEWAIT]
            if idle:
                idle[0].state = RUNNABLE
                continue
            return None

    def preempt(self, t, code=None, where=None):
        """Budget of the running task is used up."""
        self._account(t)
        self.total = sum([x.steps for x in self.tasks])
        if self.total > self.step_cap:
            self._stop_here(t, "step-cap")
        r = self._runnable()
        if len(r) > 1:
            n = self.policy.preempt(self, t, r)
            if n is not t:
                self.decisions.append((t.tid, t.steps, n.tid))
                if code is not None:
                    self.ilv.update(b"%d>%d %s:%d;" % (
                        t.tid, n.tid, code.co_qualname.encode(), where))
                if self.keep_trace:
                    self.trace.append("%6d [%s] preempted at %s -> [%s]" % (
                        self.total, t.name,
                        "%s:%s" % (code.co_qualname, _where(code, where, self.policy.gran)) if code else where,
                        n.name))
                self._switch(t, n)
                return
        else:
            # keep the decision stream independent of the number of tasks
            pass
        t.slice0 = t.budget = self.policy.slice(self, t)

    def _switch(self, me, to):
        self.switches += 1
        self._dispatch(to)
        me.gate.acquire()
        if self.ended and self.outcome != "ok":
            # the run is over; park for ever
            self._park()

    def _park(self):
        l = _real_alloc()
        l.acquire()
        l.acquire()

    def _stop_here(self, t, outcome):
        self.end(outcome)
        self._park()

    def yield_point(self, what=""):
        """A synchronisation operation: a possible switch."""
        if self.paused:
            return
        t = self.cur
        t.steps += 1
        t.budget -= self.policy.sync
        if t.budget <= 0:
            self.preempt(t, None, what)

    def block(self, waiting, timeout=None):
        """Block the current task until woken; returns False on timeout."""
        if self.paused:
            raise HarnessError("blocking in an atomic section: %r" % (waiting,))
        t = self.cur
        t.steps += 1
        self._account(t)
        t.state = BLOCKED
        t.waiting = waiting
        t.timed_out = False
        t.wake_at = None if timeout is None else self.now + timeout
        self._leave(t)
        t.waiting = None
        t.wake_at = None
        return not t.timed_out

    def settle(self):
        """Block the current task until no other task can run."""
        t = self.cur
        t.steps += 1
        self._account(t)
        t.state = IDLEWAIT
        self._leave(t)

    def _leave(self, t):
        n = self._pick_forced(t)
        if n is None:
            self.total = sum([x.steps for x in self.tasks])
            self._stop_here(t, "stuck")
        elif n is t:
            t.slice0 = t.budget = self.policy.slice(self, t)
        else:
            self.ilv.update(b"%d!%d;" % (t.tid, n.tid))
            if self.keep_trace:
                self.trace.append("%6d [%s] waits (%s) -> [%s]" % (
                    self.total, t.name, t.waiting or t.state, n.name))
            self._switch(t, n)

    def wake(self, t):
        if t.state is BLOCKED:
            t.state = RUNNABLE
            t.wake_at = None

    def _task_done(self, t):
        t.steps += 1
        self._account(t)
        t.state = DONE
        self.total = sum([x.steps for x in self.tasks])
        if self.ended:
            return
        n = self._pick_forced(t)
        if n is None:
            if all(x.state is DONE or not x.driver for x in self.tasks):
                self.end("ok")
            else:
                self.end("stuck")
        else:
            self.switches += 1
            self.ilv.update(b"%d.%d;" % (t.tid, n.tid))
            if self.keep_trace:
                self.trace.append("%6d [%s] ends -> [%s]" % (self.total, t.name, n.name))
            self._dispatch(n)

    def time(self):
        return self.now + 1e-6 * sum([x.steps for x in self.tasks])


def _where(code, where, gran):
    if gran != "instr":
        return where
    for s, e, line in code.co_lines():
        if s <= where < e:
            return "%s+%d" % (line, where)
    return where


def finish(sim, outcome):
    """Turn the outcome of a run into a violation, if it is not a good one."""
    if sim.violation:
        return sim
    if outcome == "step-cap":
        sim.violation = dict(kind="livelock", message="no end after %d steps" % sim.total)
    elif outcome == "stuck":
        sim.violation = dict(kind="stuck", message="blocked for ever: " + ", ".join(
            "%s (%s)" % (t.name, t.waiting or t.state) for t in sim.tasks if t.driver and t.state != DONE))
    else:
        for n, e in sim.thread_errors:
            if not e["injected"] and "start new thread" not in e["text"]:
                sim.violation = dict(kind="thread-died", message="thread %s: %s: %s at %s" % (
                    n, e["type"], e["text"], e["where"]))
                break
    return sim


class _Atomic:
    __slots__ = ("sim",)
    def __init__(self, sim):
        self.sim = sim
    def __enter__(self):
        self.sim.paused += 1
    def __exit__(self, *a):
        self.sim.paused -= 1


def _boot(sim, task, box):
    task.gate.acquire()
    if sim.ended:
        return
    ident = _real_ident()
    if task.thread is not None:
        task.thread._sim_ident = task.thread._ident = ident
        _threading._active[ident] = task.thread
    _run_box(sim, task, box)
    if task.thread is not None:
        _threading._active.pop(ident, None)
    sim._task_done(task)


def _run_box(sim, task, box):
    # in a separate function, so nothing of the code under test stays alive
    # in the thread when the next one is dispatched
    func = box.pop()
    try:
        func()
    except StopRun:
        pass
    except BaseException as e:
        task.error = describe_exception(e)
        sim.thread_errors.append((task.name, task.error))
        sim.log("thread-error", task.name, type(e).__name__, str(e))
        if task.driver and sim.violation is None:
            err = task.error
            if err["injected"]:
                sim.note_violation("escaped-fault", "an injected fault came out where none should: " + err["text"])
            elif isinstance(e, (HarnessError, MemoryError)):
                sim.violation = dict(kind="harness-error", message=err["traceback"])
            elif err["in_parce"]:
                sim.note_violation("unexpected-exception", "%s: %s" % (err["type"], err["text"]))
            else:
                # the workload could not use what the code under test returned
                sim.note_violation("unusable-result", "%s: %s in %s" % (err["type"], err["text"], err["where"][-1]))
            sim.end("violation")


def describe_exception(e):
    tb = traceback.extract_tb(e.__traceback__)
    in_parce = any(f.filename.startswith(_prefixes[:1]) for f in tb)
    return dict(type=type(e).__name__, text=str(e),
                injected=isinstance(e, INJECTED) or getattr(e, "_injected", False),
                in_parce=in_parce,
                where=["%s:%s" % (f.filename.rsplit("/", 1)[-1], f.name) for f in tb][-4:],
                traceback="".join(traceback.format_exception(e))[-3000:])


# --------------------------------------------------------------------------
# primitives

class SimLock:
    """Replacement for threading.Lock."""
    __slots__ = ("_owner", "_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None or sim.paused:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                if sim is None or sim.ended:
                    raise HarnessError("deadlock outside simulation")
                raise HarnessError("lock is held while in atomic section")
            self._locked = True
            return True
        sim.yield_point("acquire")
        if not self._locked:
            self._locked = True
            self._owner = sim.cur
            return True
        if not blocking:
            return False
        me = sim.cur
        deadline = None if timeout < 0 else sim.now + timeout
        while self._locked:
            self._waiters.append(me)
            ok = sim.block("lock", None if deadline is None else max(0, deadline - sim.now))
            if not ok:
                if me in self._waiters:
                    self._waiters.remove(me)
                if self._locked:
                    return False
        self._locked = True
        self._owner = me
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        sim = SIM
        if self._waiters and sim is not None:
            for t in self._waiters:
                sim.wake(t)
            del self._waiters[:]
        if sim is not None:
            sim.yield_point("release")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return "<SimLock %s>" % ("locked" if self._locked else "unlocked")


class SimRLock:
    """Replacement for threading.RLock."""
    __slots__ = ("_lock", "_who", "_count", "__weakref__")

    def __init__(self):
        self._lock = SimLock()
        self._who = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_ident()
        if self._who == me:
            self._count += 1
            return True
        r = self._lock.acquire(blocking, timeout)
        if r:
            self._who = me
            self._count = 1
        return r

    def release(self):
        if self._who != _real_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._who = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._who == _real_ident()

    def _release_save(self):
        c, self._count = self._count, 0
        w, self._who = self._who, None
        self._lock.release()
        return c, w

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._who = state

    def _recursion_count(self):
        return self._count if self._who == _real_ident() else 0

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return "<SimRLock count=%d>" % self._count


class SimThread(_RealThread):
    """Replacement for threading.Thread."""
    def start(self):
        sim = SIM
        if getattr(self, "_sim_task", None) is not None:
            raise RuntimeError("threads can only be started once")
        if sim is None or sim.ended:
            # outside of the simulation: just do the work
            self._sim_task = False
            self.run()
            return
        if sim.fault("thread_start"):
            raise RuntimeError("can't start new thread")
        self._sim_joiners = []
        n = sim.counts.get("threads", 0)
        sim.count("threads")
        self._sim_task = sim.spawn(_ThreadBody(self), "bg%d" % n, driver=False)
        sim.log("thread-start", n)
        sim.yield_point("thread-start")

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        return bool(t) and t.state is not DONE and not getattr(self, "_sim_over", False)

    def join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        if t is None:
            raise RuntimeError("cannot join thread before it is started")
        sim = SIM
        if not t or sim is None:
            return
        if sim.cur is t:
            raise RuntimeError("cannot join current thread")
        sim.yield_point("join")
        deadline = None if timeout is None else sim.now + timeout
        while self.is_alive():
            self._sim_joiners.append(sim.cur)
            if not sim.block("join", None if deadline is None else max(0, deadline - sim.now)):
                return

    @property
    def ident(self):
        return getattr(self, "_sim_ident", None)


class _ThreadBody:
    def __init__(self, thread):
        self.thread = thread

    def __call__(self):
        thread, self.thread = self.thread, None
        sim = SIM
        ident = thread._sim_ident = _real_ident()
        _threading._active[ident] = thread
        try:
            thread.run()
        finally:
            _threading._active.pop(ident, None)
            thread._sim_over = True
            for t in thread._sim_joiners:
                sim.wake(t)


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        SimThread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = _threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def sim_sleep(secs):
    sim = SIM
    if sim is None:
        return
    if sim.paused:
        return
    if secs <= 0:
        sim.yield_point("sleep")
    else:
        sim.block("sleep", secs)


_real_time = _time.time
_real_mono = _time.monotonic


def sim_time():
    sim = SIM
    return _real_time() if sim is None else 1.7e9 + sim.time() + sim.wall_skew


def sim_monotonic():
    sim = SIM
    return _real_mono() if sim is None else sim.time()


def install_seams():
    """Patch the standard library; call before parce is imported."""
    import queue
    th = _threading
    th.Lock = SimLock
    th._allocate_lock = SimLock
    th.RLock = SimRLock
    th._CRLock = SimRLock
    th._PyRLock = SimRLock
    th.Thread = SimThread
    th.Timer = SimTimer
    th._time = sim_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = sim_monotonic
    _time.sleep = sim_sleep
    _time.time = sim_time
    _time.monotonic = sim_monotonic
    _time.perf_counter = sim_monotonic
    _time.time_ns = lambda: int(sim_time() * 1e9)
    _time.monotonic_ns = lambda: int(sim_monotonic() * 1e9)
    _time.perf_counter_ns = _time.monotonic_ns
