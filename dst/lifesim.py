"""Documents that are abandoned at any moment.

Threads make documents (sharing transformers), edit them, hold on to cursors,
tokens and trees, and drop them, also in the middle of a background build, with
callbacks pending, or while user code fails.  The work must end by itself,
everything must be released, and the documents that stay must be right.
"""

import gc
import threading
import weakref

import parce
from parce.tree import Context, Token
from parce.treebuilder import TreeBuilder
from parce.work import BackgroundWorker, Worker

from . import core, docsim, langs, oracle

MONITOR = ()
SITES = ["action", "transform", "thread_start", "handler"]
MEAN = {"action": 30, "transform": 20, "thread_start": 2, "handler": 5}


def setup():
    pass


def gen(rng, cfg):
    clients = []
    nslots = rng.choice([1, 1, 2, 3])
    for _ in range(rng.choice([1, 1, 2, 3])):
        lang = docsim.pick_lang(rng, cfg)
        ops = []
        w = dict(new=3, e=7, lex=0.5, root=2, trans=2, tf=1, cursor=1, hold=1.5, uncursor=1, unhold=1.5, connect=1,
                 drop=3.5, step=1, gc=0.7, settle=0.7, fetch=0.7)
        names = sorted(w)
        ops.append(["new", 0, langs.gen_text(rng, lang, rng.choice([0, 2, 10, 30, 80])), rng.choice(["bg", "bg", "bg", "sync"]),
                    rng.choice([None, 0, 0, 1])])
        for _ in range(rng.choice([4, 8, 15, 25])):
            k = rng.choices(names, [w[x] for x in names])[0]
            s = rng.randrange(nslots)
            if k == "new":
                ops.append([k, s, langs.gen_text(rng, lang, rng.choice([0, 2, 10, 30, 80])),
                            rng.choice(["bg", "bg", "bg", "sync"]), rng.choice([None, 0, 0, 1, 2])])
            elif k == "e":
                ops.append([k, s, rng.randrange(100), rng.choice([0, 0, 1, 3, 20]), langs.gen_insert(rng, lang)])
            elif k in ("root", "trans"):
                ops.append([k, s, int(rng.random() < 0.3), int(rng.random() < 0.6)])
            elif k == "lex":
                ops.append([k, s, rng.randrange(4)])
            elif k == "tf":
                ops.append([k, s, rng.choice([None, 0, 1, 2])])
            elif k == "hold":
                ops.append([k, s, rng.choice(["root", "token", "context", "worker", "builder"])])
            elif k in ("cursor", "connect", "fetch"):
                ops.append([k, s, rng.randrange(100)])
            elif k == "step":
                ops.append([k, s, rng.choice([1, 3, 10, 40])])
            elif k == "drop":
                if rng.random() < 0.4:
                    # with work to do and callbacks pending
                    ops.append(["e", s, rng.randrange(100), rng.choice([0, 0, 1, 3, 20]), langs.gen_insert(rng, lang)])
                    for _ in range(rng.choice([1, 2, 3])):
                        ops.append([rng.choice(["root", "root", "trans"]), s, 0, 1])
                ops.append([k, s])
            else:
                ops.append([k, s])
        clients.append(dict(lang=lang, ops=ops))
    faults = []
    if rng.random() < cfg.get("faultp", 0.3):
        for _ in range(rng.choice([1, 1, 2, 3])):
            site = rng.choice(SITES)
            faults.append(dict(site=site, nth=int(rng.expovariate(1 / MEAN[site]))))
    return dict(clients=clients, nslots=nslots, faults=faults, share=int(rng.random() < 0.6), policy=core.random_policy(rng))


class Owner:
    """An object whose method is connected to events."""
    def __init__(self):
        self.calls = 0

    def method(self, *args):
        self.calls += 1
        langs.user("handler")


class Client:
    def __init__(self, world, n, plan):
        self.world = world
        self.sim = world.sim
        self.n = n
        self.plan = plan
        self.lexicons = langs.LEXICONS[plan["lang"]]
        self.docs = {}          # slot: document
        self.info = {}          # slot: what it should be
        self.cursors = []
        self.held = []
        self.owners = []
        self.gone = []          # what should be released when all work is done

    def fail(self, kind, message):
        with self.sim.atomic():
            self.sim.fail(kind, "client%d: %s" % (self.n, message))

    def run(self):
        for op in self.plan["ops"]:
            k, s = op[:2]
            if k not in ("new", "uncursor", "unhold", "gc", "settle", "step") and s not in self.docs:
                continue
            self.sim.count("op:" + k)
            self.sim.log("op", self.n, *op)
            try:
                getattr(self, "op_" + k)(*op[1:])
            except core.INJECTED:
                # a synchronous worker, or a handler in our thread
                self.sim.count("failed")
                if s in self.info:
                    self.info[s]["failed"] = True
            except RuntimeError as e:
                if "start new thread" not in str(e):
                    raise
                self.sim.count("failed")
                if s in self.info:
                    self.info[s]["failed"] = True

    def watch(self, what, obj):
        self.world.refs.append((what, weakref.ref(obj)))

    def op_new(self, s, text, worker, tf):
        lex = self.lexicons[0]
        t = self.world.transformer(self, tf)
        if worker == "bg":
            w = BackgroundWorker(TreeBuilder(lex), t)
        else:
            w = Worker(TreeBuilder(lex), t)
        self.watch("worker", w)
        self.watch("tree builder", w.builder())
        self.watch("root", w.builder().root)
        self.forget(s)
        self.info[s] = dict(text=text, lex=lex, tf=tf, failed=False, old=[], touched=bool(text), late=[])
        d = parce.Document(lex, worker=w)
        self.watch("document", d)
        self.docs[s] = d
        del w, t
        d[:] = text

    def forget(self, s):
        self.docs.pop(s, None)
        self.info.pop(s, None)

    def op_drop(self, s):
        if not any(c[1] == s for c in self.cursors):
            for ref in (self.docs[s], self.docs[s].worker()):
                if not self.held:
                    self.gone.append((type(ref).__name__, weakref.ref(ref)))
            del ref
            self.info[s]["late"].append(1)
        self.forget(s)
        self.sim.yield_point("dropped")

    def op_e(self, s, pos, rem, ins):
        i = self.info[s]
        pos, end, new = edited(i["text"], pos, rem, ins)
        if i["text"] != new or end - pos != len(ins):
            i["text"] = new
            i["touched"] = True
            i["failed"] = False         # this edit repairs everything, or it fails again
        self.docs[s][pos:end] = ins

    def op_lex(self, s, n):
        i = self.info[s]
        lex = self.lexicons[n % len(self.lexicons)]
        if lex is not i["lex"]:
            i["lex"] = lex
            i["touched"] = True
            i["failed"] = False
        self.docs[s].set_root_lexicon(lex)

    def op_tf(self, s, n):
        self.info[s]["tf"] = n
        self.docs[s].worker().set_transformer(self.world.transformer(self, n))

    def callback(self, s):
        """Return a callback that does not hold anything."""
        ref = weakref.ref(self.docs[s])
        world = self.world
        late = self.info[s]["late"]

        def cb(doc):
            if late:
                # one callback may just have been about to be called
                if late[0] > 1:
                    world.sim.note_violation("callback", "callbacks pending for a dropped document are still called")
                late[0] += 1
            if doc is not ref() or doc is None:
                world.sim.note_violation("callback", "a callback got %s" % ("nothing" if doc is None else "another document"))
            world.sim.count("callback")
        return cb

    def op_root(self, s, wait, cb):
        if not wait and cb:
            r = self.docs[s].get_root(False, self.callback(s))
        else:
            r = self.docs[s].get_root(bool(wait))
        self.check_root(s, r)

    def op_trans(self, s, wait, cb):
        if not wait and cb:
            self.docs[s].get_transform(False, self.callback(s))
        else:
            self.docs[s].get_transform(bool(wait))

    def check_root(self, s, r):
        if r is None or self.sim.fired:
            return
        i = self.info[s]
        with self.sim.atomic():
            if i["lex"] is not None and oracle.sig(r) != self.world.oracle.tree(i["text"], i["lex"])[0]:
                self.sim.fail("tree", "client%d: the tree is not that of the text" % self.n)

    def op_cursor(self, s, pos):
        c = parce.Cursor(self.docs[s], pos % (len(self.info[s]["text"]) + 1))
        self.watch("cursor", c)
        self.cursors.append([c, s, self.info[s]])

    def op_uncursor(self, s):
        if self.cursors:
            c, s, info = self.cursors.pop(0)
            # the cursor kept the document alive
            if c.document() is None or c.document().text() != info["text"]:
                self.fail("cursor", "the document of a cursor has not the right text")
            self.gone.append(("cursor", weakref.ref(c)))

    def op_fetch(self, s, pos):
        """Ask for a token (waits for the tree)."""
        t = self.docs[s].token(pos % (len(self.info[s]["text"]) + 1))
        if t is not None and not self.sim.fired and self.info[s]["text"][t.pos:t.end] != t.text:
            self.fail("token", "got an outdated token")

    def op_hold(self, s, what):
        d = self.docs[s]
        if what == "worker":
            self.held.append((what, d.worker(), None))
        elif what == "builder":
            self.held.append((what, d.worker().builder(), None))
        else:
            r = d.get_root()
            if r is None:
                return
            with self.sim.atomic():
                if what == "token":
                    r = r.first_token()
                elif what == "context":
                    r = next((n for n in r if n.is_context), None)
            if r is not None:
                self.held.append((what, r, (r.pos, r.text, r.action) if what == "token" else None))

    def op_unhold(self, s):
        if self.held:
            what, obj, exp = self.held.pop(0)
            if what == "token" and (obj.text, obj.action) != exp[1:]:
                self.fail("token", "a token that was held changed from %r to %r" % (exp[1], obj.text))

    def op_connect(self, s, n):
        o = Owner()
        d = self.docs[s]
        self.watch("owner of a connected method", o)
        what = n % 5
        if what == 0:
            d.connect("text_changed", o.method)
        elif what == 1:
            d.worker().connect("tree_finished", o.method)
        elif what == 2:
            d.worker().builder().connect("updated", o.method)
        elif what == 3:
            d.worker().connect("tree_updated", o.method)
        else:
            d.worker().connect("transform_finished", o.method)
        if n > 30:
            self.owners.append(o)
        else:
            self.gone.append(("owner of a connected method", weakref.ref(o)))

    def op_step(self, s, n):
        for _ in range(n):
            self.sim.yield_point("step")

    def op_gc(self, s):
        with self.sim.atomic():
            gc.collect()
        self.sim.count("fault:gc")

    def op_settle(self, s):
        """The work ends; nothing but the current tree is kept."""
        self.sim.settle()
        with self.sim.atomic():
            gc.collect()
            for what, ref in self.gone:
                if ref() is not None:
                    self.sim.fail("leak", "client%d: a dropped %s is still there when all work is done" % (self.n, what))
            self.gone.clear()
        for s in self.docs:
            self.at_rest(s)

    def at_rest(self, s):
        i = self.info[s]
        if i["failed"] or self.sim.fired:
            return
        r = self.docs[s].get_root()
        if r is None:
            self.fail("tree", "there is no tree when all work is done")
        self.check_root(s, r)
        with self.sim.atomic():
            current = {id(c) for c in contexts(r)}
            now = []
            held = [h[1] for h in self.held]
            if not held:
                gc.collect()
                for ref in i["old"]:
                    c = ref()
                    if c is not None and id(c) not in current:
                        self.sim.fail("leak", "client%d: a replaced part of the tree is still there: %r" % (self.n, c.lexicon))
                    c = None
            i["old"] = [weakref.ref(c) for c in contexts(r)]


def edited(text, pos, rem, ins):
    pos = pos % (len(text) + 1)
    end = min(len(text), pos + rem)
    return pos, end, text[:pos] + ins + text[end:]


def contexts(root):
    stack = [root]
    while stack:
        c = stack.pop()
        yield c
        stack.extend(n for n in c if n.is_context)


class World:
    def __init__(self, plan, checks):
        self.plan = plan
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        self.oracle = oracle.Refs()
        self.refs = []
        self.tfs = {}
        self.clients = [Client(self, n, c) for n, c in enumerate(plan["clients"])]
        for c in plan["clients"]:
            self.prepare(c)

    def prepare(self, plan):
        """Compute all trees and results beforehand (user code can't be called
        while the other threads are stopped)."""
        lexicons = langs.LEXICONS[plan["lang"]]
        docs = {}

        def add(text, lex, tf):
            if lex is not None:
                for t in (text, "x" + text):
                    self.oracle.tree(t, lex)
                    if tf is not None:
                        self.oracle.transform(t, lex, tf)

        for op in plan["ops"]:
            k, s = op[:2]
            if k == "new":
                docs[s] = [op[2], lexicons[0], op[4]]
            elif s not in docs:
                continue
            elif k == "e":
                docs[s][0] = edited(docs[s][0], *op[2:])[2]
            elif k == "lex":
                docs[s][1] = lexicons[op[2] % len(lexicons)]
            elif k == "tf":
                docs[s][2] = op[2]
            elif k == "drop":
                del docs[s]
                continue
            else:
                continue
            add(*docs[s])

    def transformer(self, client, i):
        if i is None:
            return None
        if not self.plan["share"]:
            t = langs.make_transformer(i)
            self.refs.append(("transformer", weakref.ref(t)))
            return t
        if i not in self.tfs:
            with self.sim.atomic():
                self.tfs[i] = langs.make_transformer(i)
        return self.tfs[i]

    def client(self, c):
        c.run()
        self.done.release()

    def main(self):
        sim = self.sim
        self.done = threading.Semaphore(0)
        for c in self.clients:
            sim.spawn(lambda c=c: self.client(c), "client%d" % c.n)
        for c in self.clients:
            self.done.acquire()
        sim.stop_faults()
        sim.settle()
        # the ones that are left
        fired = sim.fired
        for c in self.clients:
            for s, d in c.docs.items():
                if fired:
                    try:
                        c.op_e(s, 0, 0, "x")
                    except core.INJECTED:
                        pass
            d = None
        sim.settle()
        for c in self.clients:
            for s, d in c.docs.items():
                r = d.get_root(True)
                i = c.info[s]
                with sim.atomic():
                    if i["lex"] is not None and oracle.sig(r) != self.oracle.tree(i["text"], i["lex"])[0]:
                        sim.fail("tree", "client%d: a document that stays has not the tree of its text" % c.n)
                if i["tf"] is not None and i["lex"] is not None and i["touched"]:
                    t = d.get_transform(True)
                    with sim.atomic():
                        if t != self.oracle.transform(i["text"], i["lex"], i["tf"]):
                            sim.fail("trans", "client%d: a document that stays has not the right transform" % c.n)
            d = r = i = t = None
        sim.settle()
        with sim.atomic():
            for c in self.clients:
                c.docs.clear()
                c.info.clear()
                c.held.clear()
                c.cursors.clear()
                c.owners.clear()
            gc.collect()
            for what, ref in self.refs:
                if ref() is not None:
                    sim.fail("leak", "a %s is still there after it was dropped and all work was done" % what)
            if any(not t.driver and t.state is not core.DONE for t in sim.tasks):
                sim.fail("leak", "a background thread does not end")
        sim.count("released", len(self.refs))

    def run(self):
        self.sim.spawn(self.main, "main")
        return core.finish(self.sim, self.sim.run())


def run(plan, checks):
    return World(plan, checks).run()
