"""The document workload: editing clients, background workers, readers.

One ``plan`` (plain JSON) describes everything but the schedule: the texts,
the operations of every client thread, the faults. :func:`gen` draws a plan,
:func:`run` executes it under the simulator and returns the Sim.
"""

import gc
import random
import threading

import parce
from parce.treebuilder import TreeBuilder
from parce.work import BackgroundWorker, Worker

from . import core, langs, oracle
from .langs import FORMATTERS


INDENTS = ["indent", "indent", "auto_indent", "auto_indent", "increase_indent", "decrease_indent", "strip_trailing_blanks"]


# --------------------------------------------------------------------------
# plan generation

def gen_ops(rng, lang, cfg, textlen):
    n = rng.choice(cfg.get("nops", [3, 5, 8, 12]))
    ops = []
    weights = dict(e=10, t=2, undo=1, redo=1, lex=0.6, tf=0, root=3, trans=0,
                   settle=0.7, token=0.3, peek=0.5, gc=0.2, step=0, open=0,
                   btok=0, ctok=0, fmt=0, ind=0, ttext=0, flip=0.25, ask=0, tfflip=0, swap=0)
    weights.update(cfg.get("weights", {}))
    names = sorted(weights)
    near = rng.randrange(textlen + 1)
    for _ in range(n):
        k = rng.choices(names, [weights[x] for x in names])[0]
        if k in ("e", "t"):
            edits = []
            for _ in range(1 if k == "e" else rng.choice([2, 2, 3])):
                if rng.random() < 0.5:
                    p = max(0, near + rng.choice([-12, -5, -2, -1, 0, 0, 1, 2, 3, 8]))
                else:
                    p = rng.randrange(textlen + 30)
                near = p
                rem = rng.choice([0, 0, 0, 1, 1, 2, 3, 6, 20, 1000 if rng.random() < .1 else 4])
                ins = langs.gen_insert(rng, lang)
                edits.append([p, rem, ins])
            ops.append([k] + (edits[0] if k == "e" else [edits]))
        elif k == "flip":
            # edits and other root lexicons in quick succession, ending with the first
            ops.append(["e", near, 0, langs.gen_insert(rng, lang)])
            ops.append(["lex", rng.randrange(len(langs.LEXICONS[lang]))])
            if rng.random() < 0.7:
                ops.append(["e", rng.randrange(near + 1), 0, langs.gen_insert(rng, lang)])
            ops.append(["lex", 0])
        elif k == "tfflip":
            # an edit while another transformer is used, and the first one again
            a, b = rng.sample([0, 1, 2, 3], 2)
            for t in (a, rng.choice([None, b, b]), a):
                ops.append(["tf", t])
                if rng.random() < 0.4:
                    ops.append(["settle"])
                ops.append(["e", near, rng.choice([0, 0, 1, 3]), langs.gen_insert(rng, lang)])
        elif k == "swap":
            # another transformer as soon as there is a result, and ask at once
            for t in rng.sample([None, 0, 1, 2, 3], rng.choice([2, 2, 3])):
                if rng.random() < 0.4:
                    ops.append(["e", near, rng.choice([0, 0, 1, 3]), langs.gen_insert(rng, lang)])
                ops.append(["trans", 1, 0])
                ops.append(["tf", t])
                ops.append(["trans", int(rng.random() < 0.3), 1])
        elif k == "ask":
            # ask right after an edit, without waiting
            ops.append(["e", near, rng.choice([0, 0, 1, 3]), langs.gen_insert(rng, lang)])
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops.append([rng.choice(["root", "trans"]), 0, 1])
            if rng.random() < 0.4:
                ops.append(["settle"])
        elif k == "lex":
            ops.append(["lex", rng.randrange(len(langs.LEXICONS[lang]))])
        elif k == "tf":
            ops.append(["tf", rng.choice([None, 0, 0, 1, 2, 3])])
        elif k in ("root", "trans"):
            ops.append([k, int(rng.random() < 0.6), int(rng.random() < cfg.get("cb", 0.15))])
        elif k in ("token", "step", "btok"):
            ops.append([k, rng.randrange(textlen + 10)])
        elif k in ("ctok", "fmt"):
            p = rng.randrange(textlen + 10)
            ops.append([k, p, rng.choice([0, 1, 3, 8, 20, 60, 1000]), rng.randrange(4)])
        elif k == "ind":
            p = rng.randrange(textlen + 10)
            ops.append([k, rng.choice(INDENTS), p, rng.choice([0, 0, 5, 20, 1000])])
        else:
            ops.append([k])
    return ops


def pick_lang(rng, cfg):
    if "langs" in cfg:
        return rng.choice(cfg["langs"])
    r = rng.random()
    if r < cfg.get("mixp", 0.6):
        return "mix"
    if r < cfg.get("mixp", 0.6) + 0.12:
        return "sub"
    return rng.choice(sorted(set(langs.LEXICONS) - set(langs.FINDINGS)))


def gen(rng, cfg):
    """Draw a plan."""
    docs = []
    for i in range(rng.choice(cfg.get("ndocs", [1]))):
        lang = pick_lang(rng, cfg)
        ntok = rng.choice(cfg.get("ntok", [0, 2, 10, 25, 45, 80]))
        text = langs.gen_text(rng, lang, ntok)
        if cfg.get("lines"):
            text = langs.gen_lines(rng, lang, ntok)
        d = dict(lang=lang, text=text,
                 lex=0 if rng.random() < 0.85 else rng.randrange(len(langs.LEXICONS[lang])),
                 worker=rng.choices(["bg", "sync", "step", "gui"], cfg.get("workers", [10, 1, 1, 1.5]))[0],
                 tf=None,
                 via=rng.choice(["worker", "doc", "builder"]),
                 late=int(rng.random() < 0.3),
                 peek=rng.choice(cfg.get("peek", [0, 0, 0, 1, 5, 30])))
        if cfg.get("lines"):
            d["tabs"] = int(rng.random() < 0.3)
        if cfg.get("fmt"):
            d["fmt"] = rng.randrange(len(FORMATTERS))
        if cfg.get("peek"):
            d["peekclear"] = int(rng.random() < 0.3)
        if cfg.get("tf", 0) > rng.random():
            d["tf"] = rng.choice([0, 0, 1, 2, 3])
        ops = gen_ops(rng, lang, cfg, len(text))
        if d["worker"] in STEPPING:
            for _ in range(len(ops)):
                ops.insert(rng.randrange(len(ops) + 1), ["step", rng.choice([1, 1, 2, 3])])
        d["ops"] = ops
        d["readers"] = [[[rng.choice(cfg.get("rops", ["root", "trans"])), 1, 0] for _ in range(rng.choice([1, 2, 3]))]
                        for _ in range(rng.choice(cfg.get("readers", [0, 0, 0, 1, 1, 2])) if d["worker"] in ("bg", "gui") else 0)]
        if cfg.get("hedit") and d["worker"] == "sync" and rng.random() < cfg["hedit"]:
            d["hedit"] = True
        docs.append(d)
    plan = dict(docs=docs, share=int(len(docs) > 1 and rng.random() < cfg.get("share", 0.7)),
                policy=core.random_policy(rng), faults=[])
    if cfg.get("fmt") and plan["share"]:
        # also really share the formatter
        for d in docs[1:]:
            d["fmt"] = docs[0]["fmt"]
    fk = cfg.get("faults")
    if fk and rng.random() < cfg.get("faultp", 1):
        for _ in range(rng.choice([1, 1, 2, 3])):
            site = rng.choice(fk)
            plan["faults"].append(dict(site=site, nth=int(rng.expovariate(1 / FAULT_MEAN.get(site, 6)))))
        if cfg.get("recover"):
            for d in docs:
                d["ops"].append(["heal"])
                d["ops"].append(["root", 1, 0])
    return plan


FAULT_MEAN = {"action": 40, "transform": 25, "thread_start": 2, "callback": 2}


# --------------------------------------------------------------------------

STEPPING = ("step", "gui")      # the client must advance these


class StepWorker(Worker):
    """A Worker whose process is advanced by the client, like from a GUI timer."""
    def __init__(self, *args):
        super().__init__(*args)
        self.gens = []

    def run_process(self):
        self.gens.append(self.process())

    def step(self, n):
        while n > 0 and self.gens:
            n -= 1
            g = self.gens[0]
            try:
                next(g)
            except StopIteration:
                self.gens.remove(g)
            except BaseException:
                self.gens.remove(g)
                raise

    def finish(self):
        while self.gens:
            self.step(1000)


class GuiWorker(Worker):
    """Builds and transforms in a background thread, and does all other work in
    the thread of the client, as a GUI would do."""
    def __init__(self, *args):
        super().__init__(*args)
        self.gens = []
        self.stage = None
        self.thread = None

    def run_process(self):
        self.gens.append(self.process())
        if len(self.gens) > 1 and self.transformer():
            self.transformer().interrupt(self.builder().root)

    def step(self, n):
        while n > 0 and self.gens:
            n -= 1
            if self.thread:
                if self.running:
                    return
                self.thread = None
            elif self.stage in ("tree_build", "transform_build"):
                self.running = True
                thread = threading.Thread(target=self.advance)
                try:
                    thread.start()
                except BaseException:
                    self.running = False
                    raise
                self.thread = thread
            else:
                self.advance()

    def advance(self):
        g = self.gens[0]
        try:
            self.stage = next(g)
        except StopIteration:
            self.stage = None
            self.gens.remove(g)
        except BaseException:
            self.stage = None
            self.gens.remove(g)
            raise
        finally:
            self.running = False

    def finish(self):
        while self.gens:
            if self.thread:
                self.thread.join()
                self.thread = None
            else:
                self.step(1)


class Model:
    """Precomputes all versions of a document (text, lexicon, edits)."""
    def __init__(self, d):
        self.lexicons = langs.LEXICONS[d["lang"]]
        self.tabs = d.get("tabs", 0)
        text = "" if d["late"] else d["text"]
        self.versions = [(text, self.lexicons[d["lex"]], None)]
        self.undo, self.redo = [], []
        # a late text is set by the first op
        self.ops = ([["e", 0, 0, d["text"]]] if d["late"] else []) + d["ops"]
        self.concrete = []
        for op in self.ops:
            self.concrete.append(self.one(op))

    def push(self, edits):
        text, lex, _ = self.versions[-1]
        self.versions.append((apply_edits(text, edits), lex, edits))

    def one(self, op):
        """Return a concrete version of op and update the model."""
        text, lex, _ = self.versions[-1]
        k = op[0]
        if k in ("e", "t"):
            edits = []
            pos = 0
            for p, rem, ins in ([op[1:]] if k == "e" else sorted(op[1])):
                s = min(max(p % (len(text) + 1), pos), len(text))
                e = min(s + rem, len(text))
                if k == "t" and edits and s <= edits[-1][1]:
                    s = edits[-1][1] + 1
                    e = min(max(s, s + rem), len(text))
                    if s > len(text):
                        continue
                if text[s:e] == ins:
                    continue
                edits.append((s, e, ins))
                pos = e
            if not edits:
                return ["nop"]
            self.undo.append(reverse(text, edits))
            self.redo.clear()
            self.push(edits)
            return [k, edits]
        if k == "undo":
            if self.undo:
                edits = self.undo.pop()
                self.redo.append(reverse(text, edits))
                self.push(edits)
        elif k == "redo":
            if self.redo:
                edits = self.redo.pop()
                self.undo.append(reverse(text, edits))
                self.push(edits)
        elif k == "lex":
            new = self.lexicons[op[1] % len(self.lexicons)]
            self.versions.append((text, new, None))
            return ["lex", new]
        elif k == "heal":
            edits = [(0, 0, "x")]
            self.undo.append(reverse(text, edits))
            self.redo.clear()
            self.push(edits)
            return ["heal", edits]
        elif k == "ind":
            # what it does with a document that was not edited before
            d, c = self.fresh(op[2], op[3])
            getattr(langs.new_indenter(self.tabs), op[1])(c)
            cur = (c.pos, c.end)
            new = d.text()
            if new != text:
                edits = [(0, len(text), new)]
                self.undo.append(reverse(text, edits))
                self.redo.clear()
                self.push(edits)
            return ["ind", op[1], op[2], op[3], new != text, cur]
        elif k in ("btok", "ctok"):
            d, c = self.fresh(op[1], op[2] if k == "ctok" else 0)
            exp = line_tokens(k, d, c)
            # this one is not computed by the document
            r = c if k == "ctok" else c.block()
            end = len(text) if r.end is None else r.end
            flat = [t[:3] for t in oracle.flat(parce.root(lex, text))] if lex else []
            flat = [t for t in flat if r.pos < end and t[0] < end and t[0] + len(t[1]) > r.pos]
            if k == "ctok" and len(exp) > len(flat):
                flat.append(exp[-1][:3])    # the token() at the cursor
            return op + [exp, flat]
        return op

    def fresh(self, pos, length):
        """Return a new Document with a Cursor, in the current state of the model."""
        text, lex, _ = self.versions[-1]
        doc = parce.Document(lex, text, worker=Worker(TreeBuilder(lex)))
        return doc, make_cursor(doc, pos, length)


def make_cursor(doc, pos, length):
    n = len(doc.text())
    pos = pos % (n + 1)
    return parce.Cursor(doc, pos, None if length >= 1000 else min(n, pos + length))


def line_tokens(k, doc, cursor):
    """The tokens of a line or selection, in a comparable form."""
    tokens = list(cursor.block().tokens() if k == "btok" else cursor.tokens())
    if k == "ctok":
        t = cursor.token()
        if t is not None:
            tokens.append(t)
    return [(t.pos, t.text, repr(t.action), [oracle.lexname(c.lexicon) for c in t.ancestors()]) for t in tokens]


def reverse(text, edits):
    out = []
    shift = 0
    for s, e, t in edits:
        out.append((s + shift, s + shift + len(t), text[s:e]))
        shift += len(t) - (e - s)
    return out


def apply_edits(text, edits):
    for s, e, t in reversed(edits):
        text = text[:s] + t + text[e:]
    return text


NEW = "new"


def map_edits(m, edits):
    m = list(m)
    for s, e, t in reversed(edits or ()):
        m[s:e] = [NEW] * len(t)
    return m


class Client:
    """One document, its main thread and its readers."""
    def __init__(self, world, d, n):
        self.world = world
        self.sim = world.sim
        self.checks = world.checks
        self.d = d
        self.n = n
        self.model = Model(d)
        self.refs = world.refs
        for text, lex, _ in self.model.versions:
            self.refs.tree(text, lex)
        self.v = 0              # version the document has
        self.inflight = 0       # version being made
        self.cands = None       # versions the simulated highlighter may show
        self.cbs = []           # callback registrations
        self.in_replace = False
        self.stable = None
        self.healed = 0         # number of faults fired when last healed
        self.tf_versions = []
        self.previews = []

    # -- helpers ------------------------------------------------------------

    def cur(self):
        return self.model.versions[self.v]

    def ref(self, v=None):
        text, lex, _ = self.model.versions[self.v if v is None else v]
        return self.refs.tree(text, lex)

    def want(self, check):
        return check in self.checks

    def fail(self, kind, msg):
        self.sim.fail(kind, "doc%d v%d %s" % (self.n, self.v, msg))

    # -- run ------------------------------------------------------------------

    def main(self):
        d = self.d
        sim = self.sim
        text, lex, _ = self.model.versions[0]
        builder = self.builder = TreeBuilder(lex)
        builder.peek_threshold = d["peek"]
        tf = self.world.transformer(self, d["tf"])
        self.tf = d["tf"]
        self.tf_versions = []
        cls = dict(bg=BackgroundWorker, sync=Worker, step=StepWorker, gui=GuiWorker)[d["worker"]]
        self.worker = cls(builder, tf)
        self.root = builder.root
        self.connect_early()
        # give the worker, so the TreeBuilder can be observed from the start;
        # the Document must then be given no root lexicon (it would clear)
        try:
            self.doc = parce.Document(lex, text, worker=self.worker, transformer=tf)
        except BaseException as e:
            if not self.expected_error(e):
                raise
            # the document could not even be created
            sim.count("ctor_failed")
            return
        sim.log("doc", self.n, len(text))
        self.connect_late()
        for r in d["readers"]:
            sim.spawn(lambda r=r: self.reader(r), "reader%d" % self.n)
        for op in self.model.concrete:
            self.stability()
            self.do(op)
        self.stability()
        self.settle()
        self.final()

    @property
    def dead(self):
        """A fault made checking meaningless, until healed."""
        return self.sim.fired != self.healed

    def expected_error(self, e):
        """Is this exception the direct consequence of an injected fault?"""
        if isinstance(e, core.INJECTED):
            return True
        if isinstance(e, RuntimeError) and "start new thread" in str(e):
            return True
        return False

    def do(self, op):
        sim = self.sim
        doc = self.doc
        k = op[0]
        sim.log("op", self.n, *map(_short, op))
        sim.count("op:" + k)
        if k in ("e", "t", "undo", "redo", "lex", "heal", "ind"):
            nv = self.v
            if k == "ind":
                nv += op[4]
            elif k in ("e", "t", "lex", "heal"):
                nv += 1
            elif (doc.can_undo() if k == "undo" else doc.can_redo()):
                nv += 1
            self.inflight = nv
            self.last_get = None
            if k == "heal":
                # from now on there are no faults; once all failures have been
                # reported, the next edit must bring everything in order
                sim.stop_faults()
                self.settle()
                if sim.fired:
                    self.faulty = True
            try:
                if k in ("e", "heal"):
                    s, e, t = op[1][0]
                    doc[s:e] = t
                elif k == "t":
                    with doc:
                        for s, e, t in op[1]:
                            doc[s:e] = t
                elif k == "undo":
                    doc.undo()
                elif k == "redo":
                    doc.redo()
                elif k == "lex":
                    doc.set_root_lexicon(op[1])
                elif k == "ind":
                    self.need_done()
                    c = make_cursor(doc, op[2], op[3])
                    getattr(self.world.indenter(self), op[1])(c)
                    if doc.text() != self.model.versions[nv][0]:
                        self.fail("indent", "%s gives %r, expected %r" % (op[1], doc.text(), self.model.versions[nv][0]))
                    if (c.pos, c.end) != op[5]:
                        self.fail("indent", "cursor after %s is at %r, expected %r" % (op[1], (c.pos, c.end), op[5]))
                    sim.count("indent:" + ("changed" if op[4] else "same"))
            except BaseException as e:
                if not self.expected_error(e):
                    raise
                sim.log("op-raised", type(e).__name__)
                sim.count("op_raised")
            else:
                if k == "heal":
                    self.healed = sim.fired
                    sim.count("healed")
            self.v = nv
            if doc.text() != self.cur()[0]:
                self.fail("text", "text is %r, expected %r" % (doc.text(), self.cur()[0]))
        elif k == "root":
            self.op_root(op[1], op[2])
        elif k == "trans":
            self.op_trans(op[1], op[2])
        elif k == "tf":
            self.op_tf(op[1])
        elif k == "settle":
            self.settle()
            if not self.dead and not sim.fired:
                self.check_callbacks()
            self.at_rest()
        elif k == "token":
            self.need_done()
            self.op_token(op[1])
        elif k == "ttext":
            self.op_ttext()
        elif k == "peek":
            self.check_stable("reading the tree while building")
        elif k == "gc":
            with sim.atomic():
                gc.collect()
            sim.count("fault:gc")
        elif k == "step":
            self.step(op[1])
        elif k == "open":
            self.need_done()
            self.op_open()
        elif k in ("btok", "ctok"):
            self.need_done()
            if not self.dead:
                got = line_tokens(k, doc, make_cursor(doc, op[1], op[2] if k == "ctok" else 0))
                if (got != op[-2] or [t[:3] for t in got] != op[-1]) and not self.dead:
                    self.fail("tokens", "%s tokens are %s, expected %s" % (
                        "selection" if k == "ctok" else "line", _cut(got), _cut(op[-1])))
        elif k == "fmt":
            self.need_done()
            self.op_fmt(op[1], op[2], op[3])

    last_get = None
    faulty = False

    def step(self, n):
        if self.d["worker"] in STEPPING:
            try:
                self.worker.step(n)
            except BaseException as e:
                if not self.expected_error(e):
                    raise

    def need_done(self):
        """A step worker must be advanced by its client before it can wait."""
        if self.d["worker"] in STEPPING:
            while self.worker.gens:
                try:
                    self.worker.finish()
                except BaseException as e:
                    if not self.expected_error(e):
                        raise

    def settle(self):
        self.need_done()
        self.sim.settle()

    # -- observers --------------------------------------------------------------

    def connect_early(self):
        b = self.builder
        if self.want("window"):
            b.connect("started", self.on_b_started)
            b.connect("replace", self.on_b_replace)
            b.connect("updated", self.on_b_updated)
            b.connect("finished", self.on_b_finished)
            if self.d["peek"]:
                b.connect("peek", self.on_b_peek)
            w = self.worker
            w.connect("started", self.on_w_started)
            w.connect("tree_updated", self.on_w_updated)
            w.connect("tree_finished", self.on_w_finished)
            w.connect("transform_finished", self.on_w_transform)
        self.evlog = []
        if self.want("waits"):
            self.worker.connect("tree_updated", lambda *args: self.on_wait("tree_updated"))
            self.worker.connect("tree_finished", lambda: self.on_wait("tree_finished"))
            self.worker.connect("transform_finished", lambda: self.on_wait("transform_finished"))
        if self.want("handlerfault"):
            def raiser(name):
                def handler(*args):
                    langs.user("handler")
                return handler
            for o, names in ((b, ("started", "replace", "updated", "finished", "peek", "invalidate")),
                             (self.worker, ("started", "tree_updated", "tree_finished", "transform_finished"))):
                for ev in names:
                    o.connect(ev, raiser(ev), priority=(hash((len(ev), self.n)) % 3) - 1)

    def connect_late(self):
        if self.want("handlerfault"):
            for ev in ("text_change", "text_changed"):
                self.doc.connect(ev, lambda *args: langs.user("handler"))
        if self.want("range"):
            if self.d["late"]:
                self.cands = {0}
            else:
                # wait for the initial build; its notification may come too early
                self.settle()
                self.cands = {0}
            o = dict(worker=self.worker, doc=self.doc, builder=self.builder)[self.d["via"]]
            o.connect("updated" if self.d["via"] == "builder" else "tree_updated", self.on_updated)
        if self.want("format"):
            if not self.d["late"]:
                self.settle()
            with self.sim.atomic():
                text = self.cur()[0]
                self.hl = {0: self.paint([None] * len(text), 0, len(text), list(
                    self.world.formatter(self, self.d["fmt"]).format_ranges(self.root)))}
                self.check_hl(self.hl[0], 0, "initially")
            o = dict(worker=self.worker, doc=self.doc, builder=self.builder)[self.d["via"]]
            o.connect("updated" if self.d["via"] == "builder" else "tree_updated", self.on_highlight)

    def paint(self, arr, start, end, ranges):
        for p in range(start, min(end, len(arr))):
            arr[p] = None
        for s, e, f in ranges:
            for p in range(max(0, s), min(e, len(arr))):
                arr[p] = f
        return arr

    def bad_hl(self, arr, v):
        text, lex, _ = self.model.versions[v]
        exp = self.refs.formats(text, lex, self.d["fmt"])
        if len(arr) != len(exp):
            return "%d characters instead of %d" % (len(arr), len(exp))
        for p, e in enumerate(exp):
            if e and e[0] != arr[p]:
                return "character %d (%r) has format %r, expected %r" % (p, text[p], arr[p], e[0])

    def check_hl(self, arr, v, when):
        msg = self.bad_hl(arr, v)
        if msg:
            self.fail("format", "%s: %s" % (when, msg))

    def on_highlight(self, start, end):
        """A highlighter that only formats the updated range."""
        sim = self.sim
        if sim.fired:
            return
        ranges = list(self.world.formatter(self, self.d["fmt"]).format_ranges(self.root, start, end))
        with sim.atomic():
            sim.count("highlights")
            s = oracle.sig(self.root)
            new = {}
            matched = False
            msg = None
            lo = min(self.hl)
            for v in range(lo, self.inflight + 1):
                if self.ref(v)[0] != s:
                    continue
                matched = True
                for u in sorted(self.hl):
                    if u > v:
                        continue
                    arr = list(self.hl[u])
                    for w in range(u + 1, v + 1):
                        arr = map_edits(arr, self.model.versions[w][2])
                    arr = self.paint(arr, start, end, ranges)
                    m = self.bad_hl(arr, v)
                    if not m:
                        new[v] = arr
                        break
                    msg = "range %d-%d formatted, but %s" % (start, end, m)
        sim.log("highlight", start, end, sorted(new))
        if not matched:
            sim.note_violation("format-tree", "doc%d: tree at tree_updated is not the parse of any version %d..%d" % (
                self.n, lo, self.inflight))
        elif not new:
            sim.note_violation("format", "doc%d: %s" % (self.n, msg))
        else:
            self.hl = new

    def op_fmt(self, pos, length, how):
        """Format a part."""
        if self.dead:
            return
        text, lex, _ = self.cur()
        f = self.world.formatter(self, self.d["fmt"])
        c = make_cursor(self.doc, pos, length)
        start, end = c.pos, c.end
        if how == 0 and c.has_selection():
            pieces = list(f.format_document(c))
        elif how == 1:
            pieces = list(f.format_text(text, self.doc.get_root(True), start, end))
        else:
            arr = self.paint([None] * len(text), 0, 0, list(f.format_ranges(self.doc.get_root(True), start, end)))
            pieces = None
        stop = len(text) if end is None else end
        if pieces is not None:
            if "".join(p[0] for p in pieces) != text[start:stop] and not (how == 0 and start == stop):
                self.fail("format", "formatting %r-%r gives the text %r" % (start, end, "".join(p[0] for p in pieces)))
            arr = [None] * start
            for t, fm in pieces:
                arr.extend([fm] * len(t))
        with self.sim.atomic():
            exp = self.refs.formats(text, lex, self.d["fmt"])
            arr = arr[:stop] + [None] * (len(text) - len(arr))
            for p in range(start, stop):
                if exp[p] and exp[p][0] != arr[p]:
                    self.fail("format", "formatting %r-%r: character %d (%r) has format %r, expected %r" % (
                        start, end, p, text[p], arr[p], exp[p][0]))
                if exp[p] is None and arr[p] is not None and FORMATTERS[self.d["fmt"]].get("gaps"):
                    self.fail("format", "formatting %r-%r: character %d (%r) is outside a token but has format %r" % (
                        start, end, p, text[p], arr[p]))

    def on_updated(self, start, end):
        """The simulated highlighter."""
        sim = self.sim
        if sim.fired:
            return
        with sim.atomic():
            sim.count("updated_events")
            s = oracle.sig(self.root)
            ok = set()
            matched = False
            msg = None
            lo = min(self.cands) if self.cands else 0
            for v in range(lo, self.inflight + 1):
                text, lex, _ = self.model.versions[v]
                rs, _, cm = self.refs.tree(text, lex)
                if rs != s:
                    continue
                matched = True
                for u in sorted(self.cands):
                    if u > v:
                        continue
                    m = self.refs.tree(*self.model.versions[u][:2])[2]
                    for w in range(u + 1, v + 1):
                        m = map_edits(m, self.model.versions[w][2])
                    bad = [p for p in range(len(cm)) if not start <= p < end and m[p] != cm[p]]
                    if not bad:
                        ok.add(v)
                        break
                    msg = "range %d-%d reported from v%d to v%d, but position %d changed from %r to %r" % (
                        start, end, u, v, bad[0], m[bad[0]], cm[bad[0]])
        sim.log("updated", start, end, sorted(ok))
        if not matched:
            sim.note_violation("range-tree", "doc%d: tree at tree_updated is not the parse of any version %d..%d: %s" % (
                self.n, lo, self.inflight, oracle.diff(s, self.ref(self.inflight)[0])))
        elif not ok:
            sim.note_violation("range", "doc%d: %s" % (self.n, msg))
        else:
            self.cands = ok

    # events protocol / tree stability

    def snap(self):
        with self.sim.atomic():
            return oracle.sig(self.root)

    def check_stable(self, when):
        if self.want("window") and self.stable is not None and not self.in_replace:
            with self.sim.atomic():
                s = oracle.sig(self.root)
                if s != self.stable:
                    self.sim.note_violation("window", "doc%d: tree changed outside of the replace window (%s): %s" % (
                        self.n, when, oracle.diff(s, self.stable)))

    def ev(self, name):
        self.evlog.append(name)
        self.sim.log("ev", self.n, name)

    def on_b_started(self):
        self.ev("b_started")
        self.check_stable("started")

    def on_b_peek(self, start, tree):
        self.check_stable("peek")
        if not self.want("peek") or self.sim.fired:
            return
        with self.sim.atomic():
            self.sim.count("previews")
            got = oracle.flat(tree)
            m = oracle.malformed(tree, None)
            got = [t for t in got if t[0] >= start]
            self.sim.log("peek", start, len(got))
            for v in range(self.inflight, -1, -1):
                text, lex, _ = self.model.versions[v]
                if got == [t for t in self.refs.flat(text, lex) if t[0] >= start][:len(got)]:
                    break
            else:
                exp = [t for t in self.refs.flat(*self.model.versions[self.inflight][:2]) if t[0] >= start]
                self.sim.note_violation("preview", "doc%d: the preview from %d is not part of the tree of any version: %s" % (
                    self.n, start, oracle.diff(got, exp)))
            if m:
                self.sim.note_violation("preview", "doc%d: malformed preview: %s" % (self.n, m))
            if not got or got[-1][0] + len(got[-1][1]) - start < self.builder.peek_threshold:
                self.sim.note_violation("preview", "doc%d: preview from %d only covers %r" % (self.n, start, got[-1:]))
        if self.d.get("peekclear"):
            # it is ours, we may do anything with it
            tree.clear()
        else:
            self.previews.append((tree, oracle.sig(tree)))

    def on_b_replace(self):
        self.ev("b_replace")
        self.check_stable("replace")
        self.in_replace = True

    def on_b_updated(self, start, end):
        self.ev("b_updated")
        self.match_any("builder updated")
        self.in_replace = False
        self.stable = self.snap()

    def on_b_finished(self):
        self.ev("b_finished")
        self.check_stable("finished")

    def on_w_started(self):
        self.ev("w_started")

    def on_w_updated(self, start, end):
        self.ev("w_updated")
        self.check_stable("tree_updated")

    def on_w_finished(self):
        self.ev("w_finished")
        self.check_stable("tree_finished")
        r = self.worker.get_root(True) if self.d["worker"] not in STEPPING else self.root
        if r is not self.root:
            self.sim.note_violation("identity", "get_root() in tree_finished handler gave %r" % (r,))
        self.match_any("tree_finished handler")

    def on_w_transform(self):
        self.ev("w_transform")

    def on_wait(self, event):
        """Waiting is allowed, and for what is ready there is nothing to wait for."""
        if self.d["worker"] in STEPPING or self.d.get("hedit"):
            return
        w = self.worker
        w.wait_build()
        if event == "transform_finished":
            w.wait_transform()
        if self.d["worker"] == "sync" and w.get_root() is not self.root:
            self.sim.note_violation("ready", "get_root() in %s handler gave %r" % (event, w.get_root()))
        self.sim.count("handler_waits")

    def match_any(self, when, lo=0):
        """The tree must be the exact parse of one of the versions."""
        if self.dead:
            return
        with self.sim.atomic():
            s = oracle.sig(self.root)
            for v in range(self.inflight, lo - 1, -1):
                if self.ref(v)[0] == s:
                    return v
            msg = oracle.diff(s, self.ref(self.inflight)[0])
        self.sim.note_violation("match", "doc%d: %s: tree is not the parse of any version in %d..%d: %s" % (
            self.n, when, lo, self.inflight, msg))

    # -- operations ---------------------------------------------------------------

    def compare_tree(self, kind, when):
        if self.dead:
            return
        with self.sim.atomic():
            s = oracle.sig(self.root)
            r = self.ref()[0]
            if s != r:
                self.fail(kind, "%s: tree differs from a fresh parse of %r with %r: %s" % (
                    when, self.cur()[0], self.cur()[1], oracle.diff(s, r)))
            m = oracle.malformed(self.root, self.cur()[0])
            if m:
                self.fail(kind, "%s: malformed tree: %s" % (when, m))

    def stability(self):
        """The tree returned by the last get_root() may not change by itself."""
        if self.last_get is not None and self.want("root"):
            self.compare_tree("root-unstable", "after get_root()")

    def op_root(self, wait, cb):
        sim = self.sim
        rec, cbf = self.make_cb("root") if cb else (None, None)
        if wait:
            self.need_done()
        r = self.doc.get_root(bool(wait), cbf)
        sim.log("root", self.n, r is not None)
        sim.count("get_root:" + ("wait" if wait else "none" if r is None else "now"))
        if cb:
            rec["expect"] = (0, 1) if wait else (1, 1) if r is None else (0, 0)
        if r is None:
            if wait:
                self.fail("root", "get_root(True) returned None")
            return
        if r is not self.root:
            self.fail("identity", "get_root() returned another root object")
        if self.want("root"):
            self.compare_tree("root", "get_root(%s)" % bool(wait))
            self.last_get = True
        if self.want("open"):
            self.op_open()

    def op_open(self):
        """Open lexicons and range are meaningful right after get_root(True)."""
        if self.dead:
            return
        self.doc.get_root(True)
        with self.sim.atomic():
            got = [oracle.lexname(l) for l in self.doc.open_lexicons()]
            exp = self.ref()[1]
            if got != exp:
                self.fail("open", "open lexicons are %r, expected %r" % (got, exp))
            s, e = self.doc.modified_range()
            if not 0 <= s <= e or (e > len(self.cur()[0]) and self.v == self.inflight and s > len(self.cur()[0])):
                self.fail("open", "modified_range() is %r" % ((s, e),))

    def op_token(self, pos):
        if self.dead:
            return
        text = self.cur()[0]
        pos = pos % (len(text) + 1)
        t = self.doc.token(pos)
        if self.dead:
            return
        with self.sim.atomic():
            cm = self.ref()[2]
            self.sim.log("token", t is not None)
            if t is None:
                if pos < len(cm) and cm[pos] is not None:
                    self.fail("token", "token(%d) returned None" % pos)
            else:
                if text[t.pos:t.pos + len(t.text)] != t.text:
                    self.fail("token", "token(%d) returned a token that is not in the text: %r" % (pos, t))
                if pos < len(cm) and cm[pos] is not None and (pos - t.pos, t.text) != cm[pos][:2]:
                    self.fail("token", "token(%d) returned %r, expected %r" % (pos, t, cm[pos]))

    def make_cb(self, what):
        sim = self.sim
        rec = dict(what=what, count=0, v=self.v, expect=(0, 1), tf=self.tf)
        self.cbs.append(rec)

        def callback(arg):
            rec["count"] += 1
            sim.log("callback", self.n, what, rec["v"])
            if self.want("cb"):
                judge(arg)
            langs.user("callback")

        def judge(arg):
            if arg is not self.doc:
                sim.note_violation("cb", "callback called with %r" % (arg,))
            if rec["count"] > 1:
                sim.note_violation("cb", "doc%d: %s callback called more than once" % (self.n, what))
            if self.dead or sim.fired:
                return
            with sim.atomic():
                s = oracle.sig(self.root)
                for v in range(self.inflight, rec["v"] - 1, -1):
                    if self.ref(v)[0] == s:
                        break
                else:
                    sim.note_violation("cb", "doc%d: %s callback registered at v%d called while the tree is not "
                        "the parse of any version since (now v%d): %s" % (
                        self.n, what, rec["v"], self.inflight, oracle.diff(s, self.ref(self.inflight)[0])))
                    return
                if what == "trans" and self.tf is not None and self.tf == rec["tf"] and not rec.get("tfchanged"):
                    r = self.transformer_obj.result(self.root)
                    if not self.match_transform(r, rec["v"]):
                        sim.note_violation("cb", "doc%d: transform callback registered at v%d called while the "
                            "result is not that of any version since (now v%d)" % (self.n, rec["v"], self.inflight))
        return rec, callback

    @property
    def transformer_obj(self):
        return self.world.transformer(self, self.tf)

    def match_transform(self, r, lo=0):
        for v in range(self.inflight, lo - 1, -1):
            text, lex, _ = self.model.versions[v]
            if r == self.refs.transform(text, lex, self.tf):
                return True
        return False

    def op_ttext(self):
        """Transform the text directly, while the tree is transformed as well."""
        if self.tf is None or self.dead:
            return
        text, lex, _ = self.cur()
        try:
            r = self.world.transformer(self, self.tf).transform_text(lex, text)
        except BaseException as e:
            if not self.expected_error(e):
                raise
            self.sim.count("op_raised")
            return
        with self.sim.atomic():
            exp = self.refs.transform(text, lex, self.tf)
        if r != exp:
            self.fail("trans", "transform_text() of %r gave %s, expected %s" % (text, _cut(r), _cut(exp)))

    def op_trans(self, wait, cb):
        sim = self.sim
        rec, cbf = self.make_cb("trans") if cb else (None, None)
        if wait:
            self.need_done()
        r = self.doc.get_transform(bool(wait), cbf)
        sim.log("trans", self.n, r is not None)
        sim.count("get_transform:" + ("wait" if wait else "none" if r is None else "now"))
        if cb:
            busy = not wait and r is None and self.tf is not None
            # None can be the valid result; then it is unknown if it was busy
            rec["expect"] = (0, 1)
            if busy and not self.dead:
                text, lex, _ = self.cur()
                if self.refs.transform(text, lex, self.tf) is not None and not self.untouched():
                    rec["expect"] = (1, 1)
            elif r is not None and not wait:
                rec["expect"] = (0, 0)
        if self.dead or not self.want("trans"):
            return
        if self.tf is None:
            if r is not None:
                self.fail("trans", "get_transform() without transformer gave %r" % (r,))
            return
        if r is None and (not wait or self.untouched()):
            return
        text, lex, _ = self.cur()
        with sim.atomic():
            exp = self.refs.transform(text, lex, self.tf)
        if r != exp:
            self.fail("trans", "get_transform(%s): result differs from a fresh transform of %r: got %s, expected %s" % (
                bool(wait), text, _cut(r), _cut(exp)))

    def untouched(self):
        """Nothing was ever tokenized: an empty text is not updated initially."""
        return not any(t for t, _, _ in self.model.versions[:self.v + 1]) and \
            len(set(l for _, l, _ in self.model.versions[:self.v + 1])) == 1

    def op_tf(self, i):
        self.tf_versions.append(self.tf)
        for rec in self.cbs:
            if rec["what"] == "trans" and not rec["count"] and i != self.tf:
                # waiting for the result of another transformer: may be dropped
                rec["expect"] = (0, 1)
                rec["tfchanged"] = True
        self.tf = i
        self.tf_busy = True
        try:
            self.doc.set_transformer(self.world.transformer(self, i))
        except BaseException as e:
            if not self.expected_error(e):
                raise
        self.tf_busy = False

    def reader(self, ops):
        for k, wait, _ in ops:
            v, tf = self.inflight if self.inflight == self.v and not self.tf_busy else None, self.tf
            ntf = len(self.tf_versions)
            if k == "rootcb":
                rec, cbf = self.make_cb("root")
                r = self.doc.get_root(False, cbf)
                rec["expect"] = (1, 1) if r is None else (0, 0)
                self.sim.count("reader_asks:" + ("none" if r is None else "now"))
            elif k == "root":
                r = self.doc.get_root(True)
                if r is not self.root:
                    self.fail("identity", "get_root(True) in other thread gave %r" % (r,))
                if self.want("root"):
                    with self.sim.atomic():
                        # if nothing was edited meanwhile, it is the current tree
                        if v == self.inflight == self.v and not self.dead:
                            self.sim.count("reader_root_checked")
                            self.compare_tree("root", "get_root(True) in other thread")
            elif k == "wait":
                self.worker.wait_build()
            elif k == "waitt":
                self.worker.wait_transform()
            else:
                r = self.doc.get_transform(True)
                with self.sim.atomic():
                    if self.want("trans") and v == self.inflight == self.v and not self.dead and \
                            tf is not None and ntf == len(self.tf_versions) and not self.untouched() and not self.tf_busy:
                        self.sim.count("reader_transform_checked")
                        exp = self.refs.transform(*self.cur()[:2], tf)
                        if r != exp:
                            self.fail("trans", "get_transform(True) in other thread: got %s, expected %s" % (_cut(r), _cut(exp)))
            self.sim.log("reader", self.n, k)

    tf_busy = False

    # -- checks at rest -----------------------------------------------------------

    def at_rest(self):
        """Called when nothing else can run."""
        sim = self.sim
        if sim.violation:
            self.fail(sim.violation["kind"], sim.violation["message"])
        if self.dead:
            return
        if self.world.errors_unexpected():
            n, e = self.world.errors_unexpected()[0]
            self.fail("thread-died", "thread %s died with %s: %s at %s" % (n, e["type"], e["text"], e["where"]))
        if self.want("tree"):
            r = self.doc.get_root()
            if r is None:
                self.fail("tree", "no work is left but get_root() gives None")
            self.compare_tree("tree", "at rest")
        if self.want("range") and self.cands is not None and not sim.fired:
            if self.v not in self.cands:
                # an equal tree and text is fine
                a = self.model.versions[self.v][:2]
                if not any(self.model.versions[c][:2] == a for c in self.cands):
                    self.fail("range-missed", "last notified version(s) %r, text is at v%d" % (sorted(self.cands), self.v))
        if self.want("open"):
            self.op_open()
        if self.want("format") and not sim.fired and self.v not in self.hl:
            a = self.model.versions[self.v][:2]
            if not any(self.model.versions[c][:2] == a for c in self.hl):
                self.fail("format-missed", "last highlighted version(s) %r, text is at v%d" % (sorted(self.hl), self.v))
        if self.want("peek"):
            for tree, s in self.previews:
                if oracle.sig(tree) != s:
                    self.fail("preview", "a preview tree was changed afterwards: %s" % oracle.diff(oracle.sig(tree), s))
        if self.want("trans"):
            self.op_trans(1, 0)
        self.check_callbacks()
        if self.want("events") and not sim.fired:
            self.check_events()

    def check_callbacks(self):
        """When nothing is left to do, every callback has been called."""
        if self.want("cb"):
            for rec in self.cbs:
                lo, hi = rec["expect"]
                if not lo <= rec["count"] <= hi:
                    self.fail("cb", "%s callback registered at v%d was called %d times (expected %s)" % (
                        rec["what"], rec["v"], rec["count"], lo if lo == hi else "%d-%d" % (lo, hi)))

    def check_events(self):
        """Every process emits its events in the documented order."""
        b = [e for e in self.evlog if e.startswith("b_")]
        state = "idle"
        for e in b:
            nxt = {("idle", "b_started"): "started", ("started", "b_replace"): "started",
                   ("started", "b_updated"): "updated", ("updated", "b_finished"): "idle"}.get((state, e))
            if nxt is None:
                self.fail("events", "TreeBuilder event %s in state %s: %s" % (e, state, b))
            state = nxt
        if state != "idle":
            self.fail("events", "TreeBuilder events end in state %s: %s" % (state, b[-8:]))
        w = [e for e in self.evlog if e.startswith("w_")]
        state = "idle"
        for e in w:
            nxt = {("idle", "w_started"): "started", ("built", "w_started"): "started",
                   ("started", "w_updated"): "updated", ("updated", "w_finished"): "built",
                   ("built", "w_transform"): "idle"}.get((state, e))
            if nxt is None:
                self.fail("events", "Worker event %s in state %s: %s" % (e, state, w))
            state = nxt
        if state not in ("idle", "built"):
            self.fail("events", "Worker events end in state %s: %s" % (state, w[-8:]))
        if state == "built" and self.tf is not None:
            self.fail("events", "transform_finished was not emitted: %s" % (w[-8:],))

    def final(self):
        self.at_rest()
        self.finished = True

    finished = False


def _short(x):
    if isinstance(x, str) and len(x) > 30:
        return x[:30] + "..."
    return x


def _cut(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


class World:
    """All documents of a run, sharing languages (and a Transformer)."""
    def __init__(self, plan, checks):
        self.plan = plan
        self.checks = checks
        self.refs = oracle.Refs()
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        self.tfs = {}
        self.formatters = {}
        self.indenters = {}
        self.clients = [Client(self, d, i) for i, d in enumerate(plan["docs"])]
        for c in self.clients:
            idx = {c.d["tf"]} | {op[1] for op in c.model.ops if op[0] == "tf"}
            if "fmt" in c.d:
                self.formatter(c, c.d["fmt"])
                for text, lex, _ in c.model.versions:
                    self.refs.formats(text, lex, c.d["fmt"])
            if c.d["peek"]:
                for text, lex, _ in c.model.versions:
                    self.refs.flat(text, lex)
            self.indenter(c)
            for i in idx:
                if i is not None:
                    self.transformer(c, i)
                    for text, lex, _ in c.model.versions:
                        self.refs.transform(text, lex, i)

    def transformer(self, client, i):
        if i is None:
            return None
        k = i if self.plan["share"] else (client.n, i)
        if k not in self.tfs:
            self.tfs[k] = langs.make_transformer(i)
        return self.tfs[k]

    def formatter(self, client, i):
        k = i if self.plan["share"] else (client.n, i)
        if k not in self.formatters:
            self.formatters[k] = langs.make_formatter(i)
        return self.formatters[k]

    def indenter(self, client):
        k = client.d.get("tabs", 0) if self.plan["share"] else client.n
        if k not in self.indenters:
            self.indenters[k] = langs.new_indenter(client.d.get("tabs", 0))
        return self.indenters[k]

    def errors_unexpected(self):
        return [(n, e) for n, e in self.sim.thread_errors
                if not e["injected"] and not "start new thread" in e["text"]]

    def run(self):
        sim = self.sim
        for c in self.clients:
            sim.spawn(c.main, "main%d" % c.n)
        outcome = sim.run()
        if sim.violation:
            return sim
        if outcome == "step-cap":
            sim.violation = dict(kind="livelock", message="no end after %d steps" % sim.total)
        elif outcome == "stuck":
            sim.violation = dict(kind="stuck", message="blocked for ever: " + ", ".join(
                "%s (%s)" % (t.name, t.waiting or t.state) for t in sim.tasks if t.driver and t.state != core.DONE))
        elif self.errors_unexpected():
            n, e = self.errors_unexpected()[0]
            sim.violation = dict(kind="thread-died", message="thread %s: %s: %s at %s" % (n, e["type"], e["text"], e["where"]))
        return sim


def run(plan, checks):
    return World(plan, checks).run()
