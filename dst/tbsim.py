"""Tree builders and transformers used by themselves, without a document.

Threads each own a TreeBuilder and call rebuild() on it; a Transformer (shared
by all) is connected to the builders, and event handlers call rebuild() again
from inside.  The process runs at once, or is started in a background thread by
a reimplemented start_processing().  Separately, trees are transformed directly
while another thread interrupts that.
"""

import threading
import types

from parce.transform import Transform, Transformer
from parce.treebuilder import TreeBuilder, build_tree

from . import core, docsim, langs, oracle

SITES = ["action", "transform", "handler"]
MEAN = {"action": 40, "transform": 25, "handler": 8, "thread_start": 2}
B_EVENTS = ["started", "replace", "updated", "finished", "invalidate", "peek"]
T_EVENTS = ["t_started", "t_updated", "t_finished"]


def gen(rng, cfg):
    clients = []
    for _ in range(rng.choice(cfg.get("nclients", [1, 1, 2, 3]))):
        lang = docsim.pick_lang(rng, cfg)
        mode = rng.choices(["sync", "thread", "direct"], cfg.get("modes", [6, 3, 2]))[0]
        texts = [langs.gen_text(rng, lang, rng.choice([0, 2, 10, 25, 60, 100]))]
        for _ in range(rng.choice([2, 4, 7, 12])):
            t = rng.choice(texts[-2:])
            for _ in range(rng.choice([1, 1, 1, 2])):
                p = rng.randrange(len(t) + 1)
                t = t[:p] + langs.gen_insert(rng, lang) + t[p + rng.choice([0, 0, 0, 1, 3, 20]):]
            texts.append(t)
        n = len(texts)
        lexes = [0, rng.randrange(len(langs.LEXICONS[lang]))]
        c = dict(lang=lang, mode=mode, texts=texts, lexes=lexes, tf=rng.choice([None, 0, 0, 1, 2]),
                 peek=rng.choice([0, 0, 1, 8, 40]), ops=[], hooks=[])
        if mode == "direct":
            c["tf"] = 0
            for _ in range(rng.choice([2, 4, 8])):
                c["ops"].append(["direct", rng.randrange(n), rng.choice([0, 1, 1]), rng.choice([0, 1, 2, 3, 5, 9])])
        else:
            for i in range(rng.choice([n, n, 2 * n])):
                k = rng.choices(["e", "lex", "add", "whole", "conn", "none", "wait", "same"], [12, 1.5, 2, 1, 0.8, 0.4, 3, 0.6])[0]
                t = i if i < n else rng.randrange(n)
                if k in ("e", "add", "whole", "same"):
                    c["ops"].append([k, t, rng.choice([0, 0, 1, 5])])
                elif k == "lex":
                    c["ops"].append([k, rng.randrange(2)])
                else:
                    c["ops"].append([k])
        if mode == "sync" and rng.random() < 0.5:
            for _ in range(rng.choice([1, 2, 4])):
                c["hooks"].append([rng.choice(B_EVENTS + T_EVENTS), rng.choice([0, 1, 1, 2, 3, 6]), rng.randrange(n),
                                   rng.choice([0, 0, 1, 5])])
        clients.append(c)
    plan = dict(clients=clients, share=int(rng.random() < 0.7), policy=core.random_policy(rng), faults=[])
    if cfg.get("faults") and rng.random() < 0.8:
        for _ in range(rng.choice([1, 1, 2, 3])):
            site = rng.choice(SITES + ["thread_start"])
            plan["faults"].append(dict(site=site, nth=int(rng.expovariate(1 / MEAN[site]))))
    return plan


def delta(old, new, slack):
    """The changed range (start, removed, added), not necessarily the smallest."""
    m = min(len(old), len(new))
    s = 0
    while s < m and old[s] == new[s]:
        s += 1
    e = 0
    while e < m - s and old[-1 - e] == new[-1 - e]:
        e += 1
    s = max(0, s - slack)
    e = max(0, e - slack)
    return s, len(old) - s - e, len(new) - s - e


class Builder(TreeBuilder):
    client = None
    thread = None

    def start_processing(self):
        if self.client.c["mode"] == "sync":
            return super().start_processing()
        if self.thread:
            # the previous process may still be calling back
            self.thread.join()
        self.thread = threading.Thread(target=super().start_processing)
        try:
            self.thread.start()
        except BaseException:
            self.thread = None
            self.busy = False
            raise


class Client:
    def __init__(self, world, c, n):
        self.world = world
        self.sim = world.sim
        self.c = c
        self.n = n
        self.lexes = [langs.LEXICONS[c["lang"]][i] for i in c["lexes"]] + [None]
        self.refs = world.refs
        used = {0} | {op[1] for op in c["ops"] if op[0] == "lex"} | {2 for op in c["ops"] if op[0] == "none"}
        texts = {op[1] for op in c["ops"] if op[0] == "direct"} if c["mode"] == "direct" else range(len(c["texts"]))
        for t in [""] + [c["texts"][i] for i in sorted(texts)]:
            for lex in [self.lexes[i] for i in sorted(used)]:
                self.refs.tree(t, lex)
                if c["tf"] is not None:
                    self.refs.transform(t, lex, c["tf"])
        self.text, self.lex = "", self.lexes[0]
        self.counts = {}
        self.ev = []            # events of the builder, as a stack
        self.tev = []           # events of the transformer for our tree
        self.hl = []            # what a highlighter shows
        self.stable = None
        self.conn = False
        self.healed = 0
        self.waiting = False    # changes were added, but not processed
        self.updates = 0

    def want(self, check):
        return check in self.world.checks

    def fail(self, kind, msg):
        self.sim.fail(kind, "builder%d: %s" % (self.n, msg))

    def note(self, kind, msg):
        self.sim.note_violation(kind, "builder%d: %s" % (self.n, msg))

    @property
    def dead(self):
        return self.sim.fired != self.healed

    # -- the client -------------------------------------------------------------

    def main(self):
        c = self.c
        if c["mode"] == "direct":
            for op in c["ops"]:
                self.op_direct(*op[1:])
            return
        b = self.b = Builder(self.lex)
        b.client = self
        b.peek_threshold = c["peek"]
        self.root = b.root
        for name in B_EVENTS:
            b.connect(name, lambda *args, name=name: self.on_builder(name, *args), priority=-2000)
            b.connect(name, lambda *args, name=name: self.hook(name), priority=(len(name) % 3 - 1))
        self.t = self.world.transformer(self, c["tf"])
        if self.t:
            self.conn = True
            self.t.connect_treebuilder(b)
            for name in T_EVENTS:
                self.t.connect(name[2:], lambda tree, *args, name=name: self.on_transformer(name, tree, *args))
        for op in c["ops"]:
            self.do(op)
            if self.sim.violation:
                self.fail(self.sim.violation["kind"], self.sim.violation["message"])
        self.at_rest()
        # whatever happened, without more failures the next edit makes it right
        self.do(["wait"])
        while True:
            with self.sim.atomic():
                self.healed = self.sim.fired
                self.ev, self.tev, self.stable = [], [], None
            if self.t and not self.conn:
                self.do(["conn"])
            self.do(["e", 0, 0])
            self.do(["same", 0, 5])
            self.do(["wait"])
            if not self.dead:
                break
        self.at_rest()

    def do(self, op):
        k = op[0]
        b = self.b
        try:
            if k == "e":
                self.edit(op[1], op[2])
            elif k == "same":
                # nothing changed, but a part is reported as changed
                n = min(len(self.text), op[2])
                self.rebuild(self.text, False, 0, n, n)
            elif k == "add":
                text = self.c["texts"][op[1]]
                s, r, a = delta(self.text, text, op[2])
                self.moved(text, s, r, a)
                self.waiting = True
                b.add_changes(text, False, s, r, a)
                if op[2]:
                    n = len(text)
                    self.rebuild(text, False, n, 0, 0)
            elif k == "whole":
                text = self.c["texts"][op[1]]
                if op[2]:
                    self.rebuild(text, self.lex, 0, 0, None)
                else:
                    r = len(self.text)
                    self.rebuild(text, False, 0, r, None)
            elif k in ("lex", "none"):
                lex = self.lexes[op[1]] if k == "lex" else None
                self.rebuild(self.text, lex, 0, 0, None)
            elif k == "conn":
                if self.t:
                    self.settle()
                    self.sim.count("connects")
                    self.conn = not self.conn
                    if not self.conn:
                        self.t.disconnect_treebuilder(b)
                    else:
                        self.t.connect_treebuilder(b)
                        # the changes up to now were not noticed
                        self.rebuild(self.text, self.lex, 0, 0, None)
            elif k == "wait":
                self.settle()
                self.at_rest()
        except BaseException as e:
            if not docsim.Client.expected_error(self, e):
                raise
            self.sim.count("rebuild_failed")

    def settle(self):
        b = self.b
        if b.thread:
            b.thread.join()

    def edit(self, i, slack):
        text = self.c["texts"][i]
        self.rebuild(text, False, *delta(self.text, text, slack))

    def rebuild(self, text, lex, start, removed, added):
        if added is None:
            self.moved(text, 0, len(self.text), len(text))
        else:
            self.moved(text, start, removed, added)
        if lex is not False:
            self.lex = lex
        self.sim.count("rebuilds")
        self.waiting = False
        self.b.rebuild(text, lex, start, removed, added)
        if self.c["mode"] == "sync" and not self.b.busy:
            self.compare("after rebuild()")

    def moved(self, text, start, removed, added):
        self.hl[start:start + removed] = [0] * added
        self.text = text

    # -- observers ----------------------------------------------------------------

    def hook(self, name):
        langs.user("handler")
        n = self.counts[name] = self.counts.get(name, 0) + 1
        for ev, nth, i, slack in self.c["hooks"]:
            if ev == name and nth == n - 1:
                self.sim.count("reentrant")
                self.edit(i, slack)

    def on_builder(self, name, *args):
        self.sim.log(self.n, name)
        if self.dead:
            self.ev = None
            self.stable = None
            if name == "updated":
                self.repaint(*args)
            return
        if self.ev is None:
            if name != "started":
                return
            self.ev = []
        st = self.ev
        if name == "started":
            st.append("started")
            self.check_stable(name)
        elif name == "replace":
            if not st or st[-1] != "started":
                self.events(name)
            self.check_stable(name)
            self.stable = None
        elif name == "updated":
            if not st or st[-1] != "started":
                self.events(name)
            else:
                st[-1] = "updated"
            with self.sim.atomic():
                self.stable = oracle.sig(self.root)
            self.repaint(*args)
            self.updates += 1
        elif name == "finished":
            if not st or st.pop() != "updated":
                self.events(name)
            self.check_stable(name)
        elif name == "invalidate":
            c = args[0]
            while c.parent:
                c = c.parent
            if c is not self.root:
                self.note("window", "invalidated context is not in the tree")

    def events(self, name):
        if self.want("events"):
            self.note("events", "event %s while %r" % (name, self.ev))

    def check_stable(self, when):
        if self.stable is not None and self.want("window"):
            with self.sim.atomic():
                s = oracle.sig(self.root)
                if s != self.stable:
                    self.note("window", "tree changed before %s: %s" % (when, oracle.diff(s, self.stable)))

    def repaint(self, start, end):
        if self.c["mode"] != "sync":
            return
        with self.sim.atomic():
            n = len(self.text)
            m = oracle.char_map(self.root, n)
            if not (0 <= start <= end <= n):
                if self.want("range") and not self.dead:
                    self.note("range", "range %r-%r reported for a text of length %d" % (start, end, n))
            self.hl[start:end] = m[start:end]

    def on_transformer(self, name, tree, *args):
        if tree is not self.root:
            return
        self.sim.log(self.n, name)
        if self.dead or self.tev is None:
            self.tev = None
        else:
            st = self.tev
            if name == "t_started":
                st.append(name)
            elif name == "t_updated":
                if not st or st[-1] != "t_started":
                    if self.want("trans"):
                        self.note("trans", "transformer event %s while %r" % (name, st))
                else:
                    st[-1] = name
                if self.want("trans") and self.c["mode"] == "sync":
                    exp = self.refs.transform(self.text, self.lex, self.c["tf"])
                    if args[0] != exp:
                        self.note("trans", "updated event with %s, expected %s" % (docsim._cut(args[0]), docsim._cut(exp)))
            elif not st or st.pop() not in ("t_started", "t_updated"):
                if self.want("trans"):
                    self.note("trans", "transformer event %s while %r" % (name, st))
        self.hook(name)

    # -- checks -----------------------------------------------------------------------

    def compare(self, when):
        if self.dead or self.b.changes:
            return
        if self.want("tree"):
            with self.sim.atomic():
                s = oracle.sig(self.root)
                exp = self.refs.tree(self.text, self.lex)[0]
                if s != exp:
                    self.fail("tree", "%s: tree differs from a fresh parse of %r with %r: %s" % (
                        when, self.text, self.lex, oracle.diff(s, exp)))
                m = oracle.malformed(self.root, self.text)
                if m:
                    self.fail("tree", "%s: malformed tree: %s" % (when, m))

    def at_rest(self):
        sim = self.sim
        if sim.violation:
            self.fail(sim.violation["kind"], sim.violation["message"])
        if self.c["mode"] != "sync":
            self.settle()
        if self.dead or self.waiting:
            return
        if self.world.errors_unexpected():
            n, e = self.world.errors_unexpected()[0]
            self.fail("thread-died", "thread %s died with %s: %s at %s" % (n, e["type"], e["text"], e["where"]))
        if self.b.busy:
            self.fail("tree", "still busy, although no work is left")
        self.compare("at rest")
        with sim.atomic():
            ref = self.refs.tree(self.text, self.lex)
            if self.want("open") and self.updates:
                got = [oracle.lexname(l) for l in self.b.lexicons or []]
                if got != ref[1]:
                    self.fail("open", "open lexicons %r, expected %r" % (got, ref[1]))
            if self.want("range") and self.c["mode"] == "sync" and not sim.fired:
                if self.hl != ref[2]:
                    i = [a == b for a, b in zip(self.hl, ref[2])].index(False) if len(self.hl) == len(ref[2]) else -1
                    self.fail("range", "character %d of %r was not in a reported range" % (i, self.text))
            if self.want("trans") and self.conn and self.updates:
                got = self.t.result(self.root)
                exp = self.refs.transform(self.text, self.lex, self.c["tf"])
                if got != exp:
                    self.fail("trans", "result %s, expected %s" % (docsim._cut(got), docsim._cut(exp)))
            if self.want("events") and self.ev:
                self.fail("events", "at rest, but %r" % (self.ev,))
            if self.want("trans") and self.tev:
                self.fail("trans", "at rest, but transformer events %r" % (self.tev,))
        sim.count("rest_checked")

    # -- interrupting ----------------------------------------------------------------------

    def op_direct(self, i, intr, after):
        """Transform a tree, while another thread may interrupt it."""
        sim = self.sim
        t = self.world.direct
        text = self.c["texts"][i]
        lex = self.lexes[0]
        try:
            tree = build_tree(lex, text)
        except core.INJECTED:
            return
        job = self.world.jobs[id(tree)] = dict(calls=0, root_done=False, mark=None, updated=0, finished=0, tree=tree,
                                              total=sum(x[0] == "<" for x in self.refs.tree(text, lex)[0]))
        if intr:
            def interrupter():
                for _ in range(after):
                    sim.yield_point("interrupt")
                running = job["calls"] > 0
                t.interrupt(tree)
                with sim.atomic():
                    job["mark"] = job["calls"], running and not job["root_done"]
            sim.spawn(interrupter, "intr%d" % self.n)
        try:
            self.world.current[threading.get_ident()] = job
            t.build(tree)
        except core.INJECTED:
            sim.count("direct_failed")
            return
        finally:
            self.world.current.pop(threading.get_ident(), None)
        with sim.atomic():
            mark = job["mark"]
            result = t.result(tree)
            exp = self.refs.transform(text, lex, 0)
            if job["finished"] != 1:
                self.fail("interrupt", "finished emitted %d times" % job["finished"])
            if mark and mark[1]:
                sim.count("interrupted")
                if job["calls"] - mark[0] > 1:
                    self.fail("interrupt", "%d methods were called after interrupt() had returned" % (job["calls"] - mark[0]))
                if result is not None or job["updated"]:
                    self.fail("interrupt", "an interrupted transform gave a result: %s" % docsim._cut(result))
            elif mark is None and not intr:
                if result != exp:
                    self.fail("interrupt", "not interrupted, but the result is %s, expected %s" % (docsim._cut(result), docsim._cut(exp)))
            elif result is not None and result != exp:
                self.fail("interrupt", "wrong result %s, expected %s" % (docsim._cut(result), docsim._cut(exp)))
        if intr:
            sim.settle()
            try:
                job["mark"] = None
                t.build(tree)
            except core.INJECTED:
                return
            with sim.atomic():
                if t.result(tree) != exp:
                    self.fail("interrupt", "after an interrupted transform: %s, expected %s" % (docsim._cut(t.result(tree)), docsim._cut(exp)))


class World:
    def __init__(self, plan, checks):
        self.plan = plan
        self.checks = checks
        self.refs = oracle.Refs()
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        self.tfs = {}
        self.jobs = {}
        self.current = {}
        self.clients = [Client(self, c, i) for i, c in enumerate(plan["clients"])]
        for c in self.clients:
            if c.c["mode"] != "direct":
                self.transformer(c, c.c["tf"])
        self.direct = self.make_direct()

    def transformer(self, client, i):
        if i is None:
            return None
        k = i if self.plan["share"] else (client.n, i)
        if k not in self.tfs:
            self.tfs[k] = langs.make_transformer(i)
        return self.tfs[k]

    def make_direct(self):
        t = langs.make_transformer(0)
        orig = t.get_transform(langs.LANGUAGES[0])
        world = self

        class Watch(Transform):
            def __getattr__(self, name):
                m = getattr(orig, name)

                def method(self, items):
                    job = world.current.get(threading.get_ident())
                    if not job:
                        return m(items)
                    n = job["calls"] = job["calls"] + 1
                    result = m(items)
                    if n == job["total"]:
                        job["root_done"] = True
                    return result
                return types.MethodType(method, self)
        w = Watch()
        for lang in langs.LANGUAGES:
            t.add_transform(lang, w)

        def updated(tree, result):
            if id(tree) in self.jobs:
                self.jobs[id(tree)]["updated"] += 1

        def finished(tree):
            if id(tree) in self.jobs:
                self.jobs[id(tree)]["finished"] += 1
        t.connect("updated", updated)
        t.connect("finished", finished)
        return t

    def errors_unexpected(self):
        return [(n, e) for n, e in self.sim.thread_errors
                if not e["injected"] and "start new thread" not in e["text"]]

    def run(self):
        sim = self.sim
        for c in self.clients:
            sim.spawn(c.main, "main%d" % c.n)
        outcome = sim.run()
        if sim.violation:
            return sim
        if outcome == "step-cap":
            sim.violation = dict(kind="livelock", message="no end after %d steps" % sim.total)
        elif outcome == "stuck":
            sim.violation = dict(kind="stuck", message="blocked for ever: " + ", ".join(
                "%s (%s)" % (t.name, t.waiting or t.state) for t in sim.tasks if t.driver and t.state != core.DONE))
        elif self.errors_unexpected():
            n, e = self.errors_unexpected()[0]
            sim.violation = dict(kind="thread-died", message="thread %s: %s: %s at %s" % (n, e["type"], e["text"], e["where"]))
        return sim


def run(plan, checks):
    return World(plan, checks).run()
