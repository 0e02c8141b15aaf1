"""First use of lazily created shared objects by several threads at once.

Every run makes fresh languages, actions, cached functions, dispatchers and so
on, and lets several threads use them for the first time. The factories are
user code: they contain scheduling points and can be made to fail.
"""

import gc
import weakref

import parce
import parce.action as action
from parce import Language, lexicon, util
from parce.theme import Theme
from parce.formatter import Formatter
from parce.indent import Indent, Indenter
from parce.rule import ARG, TEXT, bygroup, call, derive, ifarg, pattern, select, words
from parce.standardaction import StandardAction
from parce.transform import Transform, Transformer

from . import core, langs

KINDS = ["lang", "lang", "action", "action", "cfunc", "cmethod", "cprop", "cdict", "cdict", "locker", "locker", "disp", "switch",
         "transf", "indent", "theme", "format", "symbol"]


def gen(rng, cfg):
    objs = []
    for i in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(cfg.get("kinds", KINDS))
        o = dict(kind=kind)
        if kind == "cdict":
            o["unpack"] = int(rng.random() < 0.4)
            o["none"] = int(rng.random() < 0.5)
        if kind == "format":
            o["base"] = int(rng.random() < 0.5)
        objs.append(o)
    threads = []
    nkeys = rng.choice([1, 1, 2, 3])
    for i in range(rng.choice([2, 2, 3, 4])):
        threads.append([[rng.randrange(len(objs)), rng.randrange(nkeys), rng.randrange(8)]
                        for _ in range(rng.choice([1, 2, 3, 5]))])
    plan = dict(objs=objs, threads=threads, policy=core.random_policy(rng), faults=[])
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan["faults"].append(dict(site="factory", nth=int(rng.expovariate(1 / 2.0))))
    return plan


def fault():
    sim = core.SIM
    if sim is not None:
        sim.yield_point("factory")
    langs.user("factory")
    if sim is not None:
        sim.yield_point("factory")


class Value:
    """What a simulated factory makes."""
    def __init__(self, key):
        self.key = key
        fault()
        self.complete = True


def outcome(key, i):
    """The result of a simulated factory: None for some keys."""
    fault()
    if i == 1:
        return None
    return Value(key)


class Cached:
    """Checks a cache: one value per key, the factory called once."""
    cache_none = True

    def __init__(self, world, spec):
        self.world = world
        self.made = {}          # key: list of values made
        self.running = {}       # key: number of factories running
        self.got = {}           # key: list of values got
        self.calls = {}
        self.build(spec)

    def factory(self, key, i):
        n = self.running[key] = self.running.get(key, 0) + 1
        if n > 1:
            self.world.bad("concurrent", "the factory runs for key %r in %d threads at the same time" % (key, n))
        try:
            v = outcome(key, i)
        finally:
            self.running[key] -= 1
        self.made.setdefault(key, []).append(v)
        return v

    def use(self, i, how):
        key = self.key(i)
        self.calls[key] = self.calls.get(key, 0) + 1
        v = self.get(i)
        self.got.setdefault(key, []).append(v)

    def key(self, i):
        return i

    def check(self):
        for key, got in self.got.items():
            made = self.made.get(key, [])
            real = [v for v in made if v is not None]
            if len(real) > 1:
                self.world.bad("twice", "%s: the factory made %d objects for key %r" % (self.name, len(real), key))
            if not real and len(made) > 1 and self.cache_none:
                self.world.bad("twice", "%s: the factory was called %d times for key %r" % (self.name, len(made), key))
            if not real and not self.cache_none and len(made) != len(got):
                self.world.bad("none", "%s: None was returned %d times, but the factory called %d times" % (
                    self.name, len(got), len(made)))
            for v in got:
                if not any(v is m for m in made):
                    self.world.bad("other", "%s: got %r which was not made for key %r" % (self.name, v, key))
                if v is not None and not getattr(v, "complete", False):
                    self.world.bad("incomplete", "%s: got an incomplete object for key %r" % (self.name, key))

    name = "cache"


class CFunc(Cached):
    name = "cached_func"

    def build(self, spec):
        @util.cached_func
        def func(a, i):
            return self.factory(i, i)
        self.func = func

    def get(self, i):
        return self.func("x", i)


class CMethod(Cached):
    name = "cached_method"

    def build(self, spec):
        outer = self

        class C:
            def __init__(self, n):
                self.n = n

            @util.cached_method
            def meth(self, i):
                return outer.factory((self.n, i), i)

            @util.cached_property
            def prop(self):
                return outer.factory((self.n, "p"), 0)
        self.cls = C
        self.objs = [C(0), C(1)]

    def use(self, i, how):
        n, prop = how & 1, how & 2
        key = (n, "p") if prop or self.prop_only else (n, i)
        o = self.objs[n]
        v = o.prop if prop or self.prop_only else o.meth(i)
        self.got.setdefault(key, []).append(v)

    prop_only = False

    def final(self):
        # the cache does not keep the instance alive
        refs = [weakref.ref(o) for o in self.objs]
        self.objs = None
        gc.collect()
        if any(r() is not None for r in refs):
            self.world.bad("leak", "%s: the instance is kept alive by the cache" % self.name)


class CProp(CMethod):
    name = "cached_property"
    prop_only = True


class CDict(Cached):
    name = "caching_dict"

    def build(self, spec):
        self.unpack = spec["unpack"]
        self.cache_none = bool(spec["none"])
        if self.unpack:
            self.d = util.caching_dict(lambda a, i: self.factory(i, i), True, self.cache_none)
        else:
            self.d = util.caching_dict(lambda i: self.factory(i, i), False, self.cache_none)

    def get(self, i):
        return self.d[("x", i)] if self.unpack else self.d[i]


class Transf(Cached):
    name = "Transformer.get_transform"

    def build(self, spec):
        outer = self

        class T(Transformer):
            def find_transform(self, language):
                return outer.factory(language.n, language.n)
        self.t = T()
        self.langs = [type("L%d" % i, (Language,), {"n": i}) for i in range(4)]

    def get(self, i):
        return self.t.get_transform(self.langs[i])


class Indenting(Transf):
    name = "Indenter.get_indent"

    def build(self, spec):
        outer = self

        class T(Indenter):
            def find_indent(self, language):
                return outer.factory(language.n, language.n)
        self.t = T()
        self.langs = [type("L%d" % i, (Language,), {"n": i}) for i in range(4)]

    def get(self, i):
        return self.t.get_indent(self.langs[i])


ACTIONS = [action.Comment, action.Literal.String, action.Keyword, action.Name.Tag]


class TF:
    """A simulated TextFormat."""
    def __init__(self, props):
        self.props = props
        fault()
        self.complete = True

    def __add__(self, other):
        return TF({**self.props, **other.props})


SHEET = """
.parce { color: black; background: white; }
.parce .literal { color: red; }
.parce .comment { color: green; font-style: italic; }
.parce .keyword { font-weight: bold; }
.parce .name.tag { color: blue; }
"""


class ThemeUse(Cached):
    name = "Theme"

    def build(self, spec):
        self.theme = Theme(stylesheet=SHEET)
        self.theme.TextFormat = self.tf
        with self.world.sim.atomic():
            t = Theme(stylesheet=SHEET)
            t.TextFormat = lambda props: props
            self.expect = {("t", i): t.textformat(a) for i, a in enumerate(ACTIONS)}
            self.expect.update({("b", i): t.baseformat(*r) for i, r in enumerate(ROLES)})
        self.tfmade = []

    def tf(self, props):
        v = TF(props)
        self.tfmade.append(v)
        return v

    def use(self, i, how):
        if how & 4:
            key = ("b", i % len(ROLES))
            v = self.theme.baseformat(*ROLES[i % len(ROLES)])
        else:
            key = ("t", i)
            v = self.theme.textformat(ACTIONS[i])
        self.got.setdefault(key, []).append(v)

    def check(self):
        for key, got in self.got.items():
            if any(v is not got[0] for v in got):
                self.world.bad("identity", "%s: different objects for %r" % (self.name, key))
            if repr(got[0].props) != repr(self.expect[key]):
                self.world.bad("value", "%s: %r gives %r instead of %r" % (self.name, key, got[0].props, self.expect[key]))
            if not getattr(got[0], "complete", False):
                self.world.bad("incomplete", "%s: incomplete object for %r" % (self.name, key))
        if len(self.tfmade) > len(self.got):
            self.world.bad("twice", "%s: %d formats made for %d keys" % (self.name, len(self.tfmade), len(self.got)))


ROLES = [("window", "default"), ("selection", "default"), ("current-line", "focus")]


class FormatUse(Cached):
    name = "Formatter"

    def build(self, spec):
        theme = Theme(stylesheet=SHEET)
        self.ready = False
        self.f = Formatter(None, self.make)
        with self.world.sim.atomic():
            self.f.add_theme(theme, None, bool(spec["base"]))
        with self.world.sim.atomic():
            self.text = 'let x = "st(r)ing" # c\n(if [b 12] do)\n'
            self.lexicon = langs.LEXICONS["mix"][0]
            self.tree = parce.root(self.lexicon, self.text)
            g = Formatter(None, lambda f: dict(vars(f)) or None)
            g.add_theme(theme, None, bool(spec["base"]))
            self.expect = [(a, b, self.plain(f)) for a, b, f in g.format_ranges(self.tree)]
        self.ready = True
        self.seen = {}

    def plain(self, f):
        return repr(sorted(f.items())) if isinstance(f, dict) else repr(f)

    def make(self, f):
        if self.ready:
            fault()
        return dict(vars(f)) or None

    def use(self, i, how):
        r = list(self.f.format_ranges(self.tree))
        p = [(a, b, self.plain(f)) for a, b, f in r]
        if p != self.expect:
            self.world.bad("value", "%s: format_ranges gives %r instead of %r" % (self.name, p, self.expect))
        for a, b, f in r:
            if self.seen.setdefault(a, f) is not f:
                self.world.bad("identity", "%s: different format objects at %d" % (self.name, a))

    def check(self):
        pass


class LangUse:
    """A fresh language, with a twin that was made in peace."""
    def __init__(self, world, spec):
        self.world = world
        with world.sim.atomic():
            self.twin = make_language(lambda: None)
            self.expect = {}
            for cls in 0, 1:
                for name, arg in LEXES:
                    l = getattr(self.twin[cls], name)
                    if arg is not None:
                        l = l(arg)
                    self.expect[cls, name, arg] = self.value(l)
            self.langs = make_language(fault)
        self.got = {}

    def value(self, l):
        tokens = []
        for text in TEXTS:
            for pos, t, m, act, target in l.parse(text, 0):
                tokens.append((pos, t, m is not None, repr(act),
                               target and (target.pop, [(x.fullname, x.arg) for x in target.push])))
        tree = parce.root(l, TEXTS[0])
        return dict(name=l.fullname, arg=l.arg, parse=tokens, rules=len(tuple(l)), prules=len(l.rules),
                    tree=shape(tree))

    def lex(self, cls, i, how):
        name, arg = LEXES[(i + how) % len(LEXES)]
        l = getattr(self.langs[cls], name)
        if arg is not None:
            l = l(arg)
        self.keep(("lexicon", cls, name, arg), l)
        return name, arg, l

    def keep(self, key, v):
        self.got.setdefault(key, []).append(v)

    def use(self, i, how):
        cls = how & 1
        name, arg, l = self.lex(cls, i, how >> 1)
        self.verify(cls, name, arg, l, how)

    def verify(self, cls, name, arg, l, how):
        exp = self.expect[cls, name, arg]
        if how & 4:
            self.keep(("rules", cls, name, arg), l.rules)
            n = len(tuple(l))
            if n != exp["rules"]:
                self.world.bad("rules", "lexicon %r has %d rules instead of %d" % (l, n, exp["rules"]))
        v = self.value(l)
        self.keep(("parse", cls, name, arg), l.parse)
        if v != exp:
            k = [k for k in v if v[k] != exp[k]][0]
            self.world.bad("lexicon", "lexicon %s(%r): %s is %r instead of %r" % (name, arg, k, v[k], exp[k]))

    def final_use(self):
        for cls, name, arg in sorted(self.expect, key=repr):
            l = getattr(self.langs[cls], name)
            if arg is not None:
                l = l(arg)
            self.keep(("lexicon", cls, name, arg), l)
            self.verify(cls, name, arg, l, 4)

    def check(self):
        for key, vs in self.got.items():
            if any(v is not vs[0] for v in vs):
                self.world.bad("identity", "different objects for %r" % (key,))
            if key[0] == "lexicon":
                if vs[0].language is not self.langs[key[1]] or vs[0].name != key[2] or vs[0].arg != key[3]:
                    self.world.bad("incomplete", "%r is %r" % (key, vs[0]))


def shape(tree):
    return [(t.pos, t.text, repr(t.action), [(c.lexicon.fullname, c.lexicon.arg) for c in t.ancestors()])
            for t in tree.tokens()]


LEXES = [("root", None), ("sub", None), ("sub", "END"), ("sub", "x"), ("one", None), ("words", None), ("empty", None),
         ("deft", None), ("words", "if")]
TEXTS = ["a <b END x if y 12 > END else 'q' ;;; do", "if if do x END <;> ab 'if'", ""]


def make_language(point):
    """Create a Language and a subclass."""
    def dyn(text):
        point()
        return {"if": "kw"}.get(text, "id")

    class Fresh(Language):
        @lexicon
        def root(cls):
            point()
            yield r"<", "open", cls.sub
            yield r"\b(END)\b", "mark", derive(cls.sub, TEXT)
            yield words(["if", "do", "else"]), "kw"
            yield r"'", "quote", cls.one
            point()
            yield r"(\w)(\d)", bygroup("a", "b")
            yield r"\w+", select(call(len, TEXT), "zero", "id", "id2", "id3")
            yield r";", "semi", cls.deft, cls.empty

        @lexicon(consume=True)
        def sub(cls):
            yield r">", "close", -1
            point()
            yield ifarg(pattern(r"\bx\b")), "argx"
            yield pattern(ARG), "arg", -1
            yield r"\d+", "num"
            yield parce.default_action, "text"

        @lexicon
        def one(cls):
            point()
            yield r"'", "quote", -1
            yield parce.default_action, "string"

        @lexicon
        def words(cls):
            yield from cls.root
            point()
            yield r"12", "twelve"
            yield pattern(ARG), "arg"

        @lexicon
        def empty(cls):
            point()
            yield parce.default_target, -1

        @lexicon
        def deft(cls):
            point()
            yield r";", "semi2"
            yield r"\s", "space"
            yield parce.default_target, -1

    class Derived(Fresh):
        @lexicon
        def sub(cls):
            yield r"12", "own"
            point()
            yield from super().sub

        @lexicon
        def one(cls):
            yield r"i", "own"
            yield from super().one
    return Fresh, Derived


class ActionUse:
    def __init__(self, world, spec):
        self.world = world
        self.top = "Fresh%d" % world.number()
        self.got = {}

    def names(self, i):
        return [self.top, *["abc"[i:i + 1] or "d", "x", "y"][:i + 1]]

    def use(self, i, how):
        n = self.names(i)
        a = StandardAction(n[0])
        for m in n[1:]:
            p = a
            a = getattr(a, m)
            # published actions are complete
            if repr(a) != repr(p) + "." + m or a not in p or p in a:
                self.world.bad("action", "action %r of %r is not complete" % (a, p))
        self.got.setdefault(tuple(n), []).append(a)
        for k in range(how):
            c = getattr(a, "k%d" % k)
            if repr(c) != repr(a) + ".k%d" % k or c not in a or a in c:
                self.world.bad("action", "action %r of %r is not complete" % (c, a))
            self.got.setdefault((*n, k), []).append(c)
        if repr(a) != ".".join(n):
            self.world.bad("action", "action is %r instead of %s" % (a, ".".join(n)))

    def check(self):
        for key, vs in self.got.items():
            if any(v is not vs[0] for v in vs):
                self.world.bad("identity", "different actions for %r" % (key,))


class SymbolUse:
    def __init__(self, world, spec):
        self.world = world
        self.n = world.number()
        self.got = {}

    def use(self, i, how):
        name = "sym%d-%d" % (self.n, i)
        s = util.Symbol(name)
        if repr(s) != name:
            self.world.bad("symbol", "symbol %r is %r" % (name, s))
        self.got.setdefault(name, []).append(s)

    check = ActionUse.check


class LockerUse:
    """Mutual exclusion per object, and nothing kept when not in use."""
    class Obj:
        pass

    def __init__(self, world, spec):
        self.world = world
        self.lock = util.object_locker()
        self.objs = [self.Obj() for _ in range(4)]
        self.inside = [0] * 4

    def use(self, i, how):
        sim = self.world.sim
        with self.lock(self.objs[i]):
            self.inside[i] += 1
            if self.inside[i] > 1:
                self.world.bad("exclusion", "two threads hold the lock of the same object")
            try:
                fault()
                if how & 1 and i < 3:
                    # another object, always in the same order
                    with self.lock(self.objs[3]):
                        self.inside[3] += 1
                        if self.inside[3] > 1:
                            self.world.bad("exclusion", "two threads hold the lock of the same object")
                        try:
                            fault()
                        finally:
                            self.inside[3] -= 1
                for _ in range(how):
                    sim.yield_point("locked")
                    if self.inside[i] != 1:
                        self.world.bad("exclusion", "two threads hold the lock of the same object")
            finally:
                self.inside[i] -= 1

    def check(self):
        pass

    def final(self):
        refs = [weakref.ref(o) for o in self.objs]
        self.objs = None
        gc.collect()
        if any(r() is not None for r in refs):
            self.world.bad("leak", "object_locker keeps an object that is not locked")


class DispUse:
    def __init__(self, world, spec):
        self.world = world

        class A:
            d = util.Dispatcher()

            @d("one")
            def one(self, x):
                return ("A.one", x)

            @d("two")
            def two(self, x):
                return ("A.two", x)

            @util.Dispatcher
            def e(self, key, x):
                return ("A.default", key, x)

            @e(1)
            def e1(self, x):
                return ("A.e1", x)

        class B(A):
            d = util.Dispatcher()

            @d("three")
            def three(self, x):
                return ("B.three", x)

            def two(self, x):
                return ("B.two", x)

        class C(B):
            d = util.Dispatcher()

            @d("one")
            def uno(self, x):
                return ("C.uno", x)
        self.classes = [A, B, C]
        self.table = [
            {"one": "A.one", "two": "A.two", "three": None},
            {"one": "A.one", "two": "B.two", "three": "B.three"},
            {"one": "C.uno", "two": "B.two", "three": "B.three"}]

    def use(self, i, how):
        c = how % 3
        o = self.classes[c]()
        for key, exp in self.table[c].items():
            r = o.d(key, i)
            if r != (exp and (exp, i)):
                self.world.bad("dispatch", "dispatching %r on class %d gives %r" % (key, c, r))
            f = o.d.get(key)
            if (f is None) != (exp is None) or f and f(i) != (exp, i):
                self.world.bad("dispatch", "Dispatcher.get(%r) on class %d gives %r" % (key, c, f))
        if o.e(1, i) != ("A.e1", i) or o.e(2, i) != ("A.default", 2, i):
            self.world.bad("dispatch", "default method not used right")

    def check(self):
        pass


class SwitchUse:
    """Switches of different objects (each used by one thread) are independent."""
    def __init__(self, world, spec):
        self.world = world

        class S:
            a = util.Switch()
            b = util.Switch()
        self.S = S
        self.own = {}
        self.n = 0

    def use(self, i, how):
        t = self.world.sim.cur.name
        if how & 1 and t in self.own:
            o = self.own[t]
        else:
            o = self.own[t] = self.S()
        self.check_off(o)
        try:
            with o.a:
                fault()
                self.on(o)
                if how & 2:
                    with o.a:
                        self.on(o)
                        fault()
                    self.on(o)
                if how & 4:
                    with o.b:
                        if not o.b:
                            self.world.bad("switch", "switch is off inside its context")
                        self.on(o)
                self.on(o)
        finally:
            self.check_off(o)

    def on(self, o):
        self.world.sim.yield_point("switch")
        if not o.a:
            self.world.bad("switch", "switch is off inside its context")

    def check_off(self, o):
        if o.a or o.b:
            self.world.bad("switch", "switch is on outside its context")

    def check(self):
        pass

    def final(self):
        refs = [weakref.ref(o) for o in self.own.values()]
        self.own.clear()
        gc.collect()
        if any(r() is not None for r in refs):
            self.world.bad("leak", "a Switch keeps its instance alive")


CLASSES = dict(lang=LangUse, action=ActionUse, cfunc=CFunc, cmethod=CMethod, cprop=CProp, cdict=CDict, locker=LockerUse,
               disp=DispUse, switch=SwitchUse, transf=Transf, indent=Indenting, theme=ThemeUse, format=FormatUse,
               symbol=SymbolUse)

_number = 0


class World:
    def __init__(self, plan, checks):
        self.plan = plan
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        self.objs = [CLASSES[o["kind"]](self, o) for o in plan["objs"]]
        self.left = len(plan["threads"])

    def number(self):
        global _number
        _number += 1
        return _number

    def bad(self, kind, msg):
        self.sim.note_violation(kind, msg)

    def thread(self, ops):
        sim = self.sim
        for o, i, how in ops:
            obj = self.objs[o % len(self.objs)]
            kind = self.plan["objs"][o % len(self.objs)]["kind"]
            sim.count("use:" + kind)
            sim.log("use", kind, i, how)
            try:
                obj.use(i, how)
            except core.INJECTED:
                sim.count("use_failed")
                sim.log("failed")
            if sim.violation:
                sim.fail("", "")
        self.left -= 1

    def main(self):
        sim = self.sim
        for n, ops in enumerate(self.plan["threads"]):
            sim.spawn(lambda ops=ops: self.thread(ops), "user%d" % n)
        sim.settle()
        if self.left:
            sim.fail("stuck", "%d threads do not get their object" % self.left)
        # the faults have stopped; everything works, with the same objects
        sim.stop_faults()
        for obj in self.objs:
            if hasattr(obj, "final_use"):
                obj.final_use()
            else:
                for i in range(4 if not isinstance(obj, (ThemeUse, FormatUse)) else 3):
                    obj.use(i, 0)
                    if isinstance(obj, CMethod):
                        obj.use(i, 3)
        for obj in self.objs:
            obj.check()
            if hasattr(obj, "final"):
                obj.final()
        if sim.violation:
            sim.fail("", "")

    def run(self):
        sim = self.sim
        sim.spawn(self.main, "main")
        return core.finish(sim, sim.run())


def run(plan, checks):
    return World(plan, checks).run()
