"""Event connections: programs of connects, disconnects and emissions in
several threads, with callbacks that themselves do all that, or raise.

The history (begin and end of every operation, every call of a callback) is
recorded and checked afterwards.
"""

import gc

from parce.util import Observable

from . import core, langs

EVENTS = ["x", "y"]


def gen_action(rng, nslots, depth=0, weights=None):
    """What a callback (or a thread) does."""
    k = rng.choices(["connect", "disconnect", "emit", "disconnect_all", "query", "drop"],
                    weights or [5, 3, 5 if depth == 0 else 1.5, 0.2, 1, 0.4])[0]
    ev = rng.choice(EVENTS) if rng.random() < 0.3 else "x"
    s = rng.randrange(nslots)
    if k == "connect":
        return [k, ev, s, int(rng.random() < 0.25), int(rng.random() < 0.3), rng.choice([0, 0, 0, -1, 1, 2])]
    if k == "disconnect":
        return [k, ev, s]
    if k == "emit":
        return [k, ev, int(rng.random() < 0.5)]
    if k == "disconnect_all":
        return [k, ev]
    if k == "query":
        return [k, ev, s]
    return [k, s]


def gen(rng, cfg):
    nslots = rng.choice([2, 3, 5, 8])
    slots = []
    for i in range(nslots):
        slots.append(dict(
            kind=rng.choice(["func", "func", "method"]),
            ctx=int(rng.random() < 0.25),
            does=[gen_action(rng, nslots, 1) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]))
    threads = []
    for i in range(rng.choice(cfg.get("nthreads", [1, 2, 2, 3]))):
        ops = [gen_action(rng, nslots, 0, cfg.get("weights")) for _ in range(rng.choice([3, 6, 10, 16]))]
        threads.append(ops)
    plan = dict(slots=slots, threads=threads, prefix=[gen_action(rng, nslots) for _ in range(rng.choice([0, 2, 5, 8]))] + [
                    ["connect", "x", i, 0, 0, 0] for i in range(nslots if cfg.get("full") else 0)],
                policy=core.random_policy(rng), faults=[])
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 4])):
            plan["faults"].append(dict(site="slot", nth=int(rng.expovariate(1 / 8.0))))
    return plan


class Holder:
    """An object with a method to connect (kept alive only by the client)."""
    def __init__(self, world, i):
        self.world = world
        self.i = i

    def method(self, *args):
        return self.world.called(self.i, args)


class Ctx:
    def __init__(self, world, rec):
        self.world = world
        self.rec = rec

    def __enter__(self):
        self.rec["enter"] += 1

    def __exit__(self, *a):
        self.rec["exit"] += 1


class World:
    def __init__(self, plan, checks):
        self.plan = plan
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        self.clock = 0
        self.ops = []       # connect / disconnect operations
        self.emits = []
        self.calls = []
        self.stack = {}     # task -> stack of emissions
        self.ctxs = []
        self.drops = {}
        self.uses = []      # queries
        self.o = Observable()
        self.holders = {}
        self.funcs = {}
        for i, s in enumerate(plan["slots"]):
            if s["kind"] == "method":
                self.holders[i] = Holder(self, i)
            else:
                self.funcs[i] = (lambda i: lambda *args: self.called(i, args))(i)

    def tick(self):
        self.clock += 1
        return self.clock

    def slot(self, i):
        if i in self.holders:
            return self.holders[i].method
        return self.funcs.get(i)

    # -- acting

    def act(self, a):
        k = a[0]
        sim = self.sim
        sim.count("op:" + k)
        if k == "connect":
            _, ev, s, once, pre, prio = a
            f = self.slot(s)
            if f is None:
                return
            rec = dict(k=k, ev=ev, s=s, once=once, pre=pre, prio=prio, b=self.tick(), e=None)
            self.ops.append(rec)
            sim.log("connect", ev, s, once, prio)
            self.o.connect(ev, f, bool(once), bool(pre), prio)
            rec["e"] = self.tick()
        elif k == "disconnect":
            _, ev, s = a
            f = self.slot(s)
            if f is None:
                return
            rec = dict(k=k, ev=ev, s=s, b=self.tick(), e=None)
            self.ops.append(rec)
            sim.log("disconnect", ev, s)
            self.o.disconnect(ev, f)
            rec["e"] = self.tick()
        elif k == "disconnect_all":
            rec = dict(k=k, ev=a[1], s=None, b=self.tick(), e=None)
            self.ops.append(rec)
            self.o.disconnect_all(a[1])
            rec["e"] = self.tick()
        elif k == "query":
            f = self.slot(a[2])
            b = self.tick()
            self.o.has_connections(a[1])
            if f is not None:
                use = [a[2], b, None]
                self.uses.append(use)
                r = self.o.is_connected(a[1], f)
                use[2] = self.tick()
                self.ops.append(dict(k=k, ev=a[1], s=a[2], r=bool(r), b=b, e=self.tick()))
        elif k == "drop":
            # the last reference to the object goes away
            if a[1] in self.holders:
                self.drops[a[1]] = self.tick()
                h = self.holders.pop(a[1])
                del h
        elif k == "emit":
            self.emit(a[1], a[2])

    def emit(self, ev, use):
        sim = self.sim
        stack = self.stack.setdefault(sim.cur.tid, [])
        if len(stack) >= 3 or len(self.emits) > 60:
            return
        rec = dict(id=len(self.emits), ev=ev, b=self.tick(), e=None, raised=False, left=None, ctx=[])
        self.emits.append(rec)
        stack.append(rec)
        sim.log("emit", rec["id"], ev)
        try:
            cm = self.o.emit(ev, rec["id"], key=ev)
            rec["e"] = self.tick()
            stack.pop()
            if use:
                with cm:
                    for c in rec["ctx"]:
                        if (c["enter"], c["exit"]) != (1, 0):
                            sim.note_violation("context", "inside emission %d: context of slot %d was entered %d, exited %d times" % (
                                rec["id"], c["s"], c["enter"], c["exit"]))
            else:
                cm.close()
        except core.INJECTED:
            rec["raised"] = True
            if rec["e"] is None:
                rec["e"] = self.tick()
                stack.pop()
            if stack:
                # a nested emission: the exception goes on through the
                # callback that emitted
                rec["left"] = self.tick()
                raise
        rec["left"] = self.tick()

    def called(self, i, args, **kw):
        pass

    def run(self):
        sim = self.sim

        def called(i, args, kw=None):
            rec = dict(s=i, args=args, t=self.tick(), tid=sim.cur.tid)
            n = [a for a in args if isinstance(a, int)]
            rec["id"] = n[0] if n else None
            rec["pre"] = bool(args) and args[0] is self.o
            self.calls.append(rec)
            sim.log("call", i, rec["id"])
            if sim.fault("slot"):
                raise core.injected("slot")
            for a in self.plan["slots"][i]["does"]:
                self.act(a)
            if self.plan["slots"][i]["ctx"]:
                c = dict(s=i, id=rec["id"], enter=0, exit=0)
                self.ctxs.append(c)
                if rec["id"] is not None:
                    self.emits[rec["id"]]["ctx"].append(c)
                return Ctx(self, c)
        self.called = called
        for i in list(self.funcs):
            self.funcs[i] = (lambda i: lambda *args, key=None: called(i, args))(i)
        Holder.method = lambda h, *args, key=None: h.world.called(h.i, args)

        def main():
            for a in self.plan["prefix"]:
                self.guard(a)
            for n, ops in enumerate(self.plan["threads"]):
                sim.spawn(lambda ops=ops: [self.guard(a) for a in ops], "t%d" % n)
            sim.settle()
            self.at_rest()
        sim.spawn(main, "main")
        core.finish(sim, sim.run())
        if sim.violation is None:
            self.judge()
        return sim

    def at_rest(self):
        """Nothing is running anymore: what is connected is no secret."""
        o = self.o
        t = self.tick()
        for ev in sorted({x["ev"] for x in self.ops if x["ev"] is not None}):
            slots = [(s, f) for s in sorted(set(self.funcs) | set(self.holders)) for f in [self.slot(s)]]
            n = 0
            for s, f in slots:
                r = o.is_connected(ev, f)
                n += bool(r)
                self.ops.append(dict(k="query", ev=ev, s=s, r=bool(r), b=t, e=t))
            if n and not o.has_connections(ev):
                self.bad("query", "has_connections() is False with %d functions connected" % n)
            for s, f in slots:
                o.disconnect(ev, f)
            if not self.drops and o.has_connections(ev):
                self.bad("query", "has_connections() is True after disconnecting everything")

    def guard(self, a):
        try:
            self.act(a)
        except core.INJECTED:
            pass

    # -- judging the history

    def bad(self, kind, msg):
        if self.sim.violation is None:
            self.sim.violation = dict(kind=kind, message=msg)

    def state(self, ev, s, t0, t1):
        """Is slot s connected to ev during [t0, t1]?

        Returns (True, connect record), (False, None) or (None, None) when it
        depends on the order of concurrent operations."""
        ops = [o for o in self.ops if o["ev"] == ev and o["s"] in (s, None) and o["k"] != "query"]
        inf = float("inf")
        if any(o["b"] <= t1 and (o["e"] or inf) >= t0 for o in ops):
            return None, None
        before = [o for o in ops if o["e"] and o["e"] < t0]
        # sequential prefix semantics; give up when operations overlap
        before.sort(key=lambda o: o["b"])
        cur = None
        last = 0
        known = True
        for i, o in enumerate(before):
            over = o["b"] < last or any(p is not o and p["b"] < o["e"] and p["e"] > o["b"] for p in before)
            last = max(last, o["e"])
            if o["k"] == "connect":
                if over:
                    known = None
                elif cur is None and known:
                    cur = o
                elif cur is not None and cur["once"]:
                    # maybe it was already used and removed
                    cur = dict(o, once=1, unknown=True)
                # connecting again has no effect
                if not known and not over:
                    # connected for sure now, but with which options?
                    cur = dict(o, once=1, unknown=True)
                    known = True
            else:
                if over:
                    known = None
                else:
                    cur, known = None, True
        if not known:
            return None, None
        return cur is not None, cur

    def judge(self):
        inf = float("inf")
        for e in self.emits:
            e["calls"] = [c for c in self.calls if c["id"] == e["id"]]
            end = e["e"] or inf
            tids = {c["tid"] for c in e["calls"]}
            if len(tids) > 1:
                self.bad("thread", "emission %d ran callbacks in %d threads" % (e["id"], len(tids)))
            order = []
            for s in range(len(self.plan["slots"])):
                n = sum(c["s"] == s for c in e["calls"])
                st, con = self.state(e["ev"], s, e["b"], end)
                dropped = s in self.drops and self.drops[s] <= end
                if st is False:
                    if n:
                        self.bad("disconnected", "slot %d is not connected to %r but was called %d times by emission %d" % (
                            s, e["ev"], n, e["id"]))
                elif st:
                    if n > 1:
                        self.bad("twice", "slot %d was called %d times by emission %d" % (s, n, e["id"]))
                    if s in self.drops and self.drops[s] < e["b"] and n and not self.busy(s, e["b"]):
                        self.bad("dropped", "slot %d of a deleted object was called by emission %d" % (s, e["id"]))
                    if not con["once"] and not dropped:
                        order.append((s, con))
                        if not n and not e["raised"] and e["e"]:
                            self.bad("missed", "slot %d was connected to %r during emission %d but was not called" % (
                                s, e["ev"], e["id"]))
                    if not con.get("unknown"):
                        for c in e["calls"]:
                            if c["s"] == s and c["pre"] != bool(con["pre"]):
                                self.bad("args", "slot %d was called with %r" % (s, c["args"]))
                else:
                    m = 1 + sum(o["k"] == "connect" and o["ev"] == e["ev"] and o["s"] == s and
                                o["b"] <= end and (o["e"] or inf) >= e["b"] for o in self.ops)
                    if n > m:
                        self.bad("twice", "slot %d was called %d times by emission %d" % (s, n, e["id"]))
            # order of the certain ones
            pos = {}
            for i, c in enumerate(e["calls"]):
                pos.setdefault(c["s"], i)
            for s1, c1 in order:
                for s2, c2 in order:
                    if s1 == s2:
                        continue
                    before = c1["prio"] < c2["prio"] or (c1["prio"] == c2["prio"] and c1["e"] < c2["b"])
                    if before and not c1.get("unknown") and not c2.get("unknown") and s2 in pos and \
                            (s1 not in pos or pos[s1] > pos[s2]):
                        self.bad("order", "emission %d called slot %d (priority %s) not before slot %d (priority %s)" % (
                            e["id"], s1, c1["prio"], s2, c2["prio"]))
            for c in e["calls"]:
                if not e["b"] < c["t"] < end:
                    self.bad("late", "slot %d called outside of emission %d" % (c["s"], e["id"]))
                a = c["args"][1:] if c["pre"] else c["args"]
                if tuple(a) != (e["id"],):
                    self.bad("args", "slot %d was called with %r" % (c["s"], c["args"]))
        # once-connections
        for s in range(len(self.plan["slots"])):
            for ev in EVENTS:
                cons = [o for o in self.ops if o["k"] == "connect" and o["ev"] == ev and o["s"] == s]
                if not cons or not all(o["once"] for o in cons):
                    continue
                calls = [c for c in self.calls if c["s"] == s and c["id"] is not None and self.emits[c["id"]]["ev"] == ev]
                if len(calls) > len(cons):
                    self.bad("once", "slot %d was connected %d times with once, but called %d times" % (s, len(cons), len(calls)))
                if len(cons) == 1 and not calls and cons[0]["e"]:
                    dis = [o for o in self.ops if o["ev"] == ev and o["s"] in (s, None) and o["k"].startswith("dis")]
                    for e in self.emits:
                        if e["ev"] == ev and e["b"] > cons[0]["e"] and e["e"] and not e["raised"] and \
                                not any(d["b"] < e["e"] for d in dis) and not (s in self.drops and self.drops[s] < e["e"]):
                            # another emission may have claimed it, and not called it yet
                            others = [x for x in self.emits if x is not e and x["ev"] == ev and x["b"] < e["e"] and
                                      (x["e"] or inf) > cons[0]["b"]]
                            if not others:
                                self.bad("once", "once-connected slot %d was not called by emission %d" % (s, e["id"]))
        # queries
        for q in self.ops:
            if q["k"] == "query":
                st, con = self.state(q["ev"], q["s"], q["b"], q["e"])
                if st is False and q["r"]:
                    self.bad("query", "slot %d reported as connected" % q["s"])
                if st and not con["once"] and not q["r"]:
                    self.bad("query", "slot %d reported as not connected" % q["s"])
        # contexts
        for c in self.ctxs:
            e = self.emits[c["id"]]
            if e["left"] and (c["enter"], c["exit"]) != (1, 1):
                # not entered is fine when the callback's thread raised afterwards
                if c["enter"] == c["exit"] == 0 and e["raised"]:
                    continue
                self.bad("context", "context of slot %d in emission %d was entered %d and exited %d times" % (
                    c["s"], c["id"], c["enter"], c["exit"]))

    def busy(self, s, t):
        """May the dropped object have been in use until time t: was its method
        called (or about to be), or was it being connected, disconnected or
        asked for?"""
        uses = self.uses + [[x["s"], x["b"], x["e"]] for x in self.ops if x["k"] in ("connect", "disconnect")]
        return any(c["s"] == s and (c["t"] < t or c["id"] is None or self.emits[c["id"]]["b"] < t) for c in self.calls) or \
            any(u[0] == s and u[1] < t and (u[2] is None or u[2] > self.drops[s]) for u in uses)


def run(plan, checks):
    return World(plan, checks).run()
