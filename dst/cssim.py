"""Style sheets and other files that are read through a cache, while they change.

Files in a scratch directory are replaced (each time with another time stamp,
that may lie in the past), removed and created, while threads load them, via a
``util.file_cache``, ``StyleSheet.from_file`` with ``@import`` rules, and shared
``Theme`` objects.  Opening, reading, and requesting the time stamp can fail.
"""

import codecs
import itertools
import os
import shutil

import parce
from parce import css, util
import parce.action
import parce.theme

from . import core, iosim, langs

_real_stat = os.stat
MONITOR = ()

CHARSETS = [None, None, None, "utf-8", "latin1", "utf-16", "iso8859-15", "bom8", "bom16", "bom32", "none"]
DIRS = ["", "", "sub", "sub/deep", "other"]
CLASSES = ["comment", "literal string", "literal number", "keyword"]
ACTIONS = [parce.action.Comment, parce.action.String, parce.action.Number, parce.action.Keyword]


def sim_stat(path, *args, **kwargs):
    sim = core.SIM
    if sim is not None and not sim.ended and iosim.DIR and isinstance(path, str) \
            and path.startswith(iosim.DIR + os.sep):
        sim.yield_point("stat")
        f = sim.fault("stat")
        if f:
            raise iosim.injected(f["err"], path)
        r = _real_stat(path, *args, **kwargs)
        sim.yield_point("stat-done")
        return r
    return _real_stat(path, *args, **kwargs)


def setup():
    if iosim.ROOT is None:
        iosim.setup()
    os.stat = sim_stat
    # the lexicons of this language exist before the runs
    # (code that fails or never ends here is found by the runs)
    try:
        with langs.limited(5):
            s = css.StyleSheet.from_text('@charset "utf-8"; @import "x" screen; .a .b.c { color: #123; font-size: 12px; content: "\xe9" } @media print {.a {color: red}}',
                                         allow_import=False)
            t = parce.theme.Theme(stylesheet=".parce .comment {color: #123456; font-size: 3px}")
            t.textformat(ACTIONS[0])
            t.baseformat()
    except Exception:
        pass


# --------------------------------------------------------------------------
# plans

def gen_files(rng, cfg):
    n = rng.choice([1, 2, 3, 4])
    dirs = rng.random() < 0.5
    # a tree of imports, the parent of each file (or None), and some circular ones
    parents = [None] + [rng.choice([None] + list(range(i))) if rng.random() < 0.8 else None for i in range(1, n)]
    files = []
    for i in range(n):
        kids = [j for j in range(n) if parents[j] == i]
        anc = []
        p = i
        while p is not None:
            anc.append(p)
            p = parents[p]
        versions = []
        nv = rng.choice([1, 1, 2, 3, 5])
        for v in range(nv):
            if rng.random() < 0.12:
                versions.append(None)
                continue
            items = [["rule", rng.randrange(len(CLASSES)), rng.choice(["x", "\xe9", "caf\xe9\u20ac"])] for _ in range(rng.choice([0, 1, 1, 3]))]
            if rng.random() < 0.2:
                items.append(["media", rng.randrange(len(CLASSES)), rng.choice(["x", "\xe9"])])
            for j in kids:
                if rng.random() < 0.85:
                    items.append(["import", j, int(rng.random() < 0.35)])
            if rng.random() < 0.2:
                items.append(["import", rng.choice(anc), int(rng.random() < 0.35)])
            rng.shuffle(items)
            versions.append(dict(items=items, charset=rng.choice(CHARSETS)))
        # time stamps: all different
        t = 1700000000.0
        times = []
        for v in range(nv):
            t2 = t + rng.choice([1, 1, 3600, 0.25, 0.01, -0.25, -1, -86400, -1699999000.0])
            if rng.random() < 0.05:
                t2 = rng.choice([0.0, -5.0])
            if t2 < -1e9:       # a file system may not be able to store it
                t2 = 1700000000.0
            while t2 in times:
                t2 += 0.5
            t = t2
            times.append(t)
        files.append(dict(versions=versions, times=times, dir=rng.choice(DIRS) if dirs else ""))
    return files


def gen(rng, cfg):
    files = gen_files(rng, cfg)
    n = len(files)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 8, 14])):
            k = rng.choices(["get", "sheet", "theme", "write"], [8, 4, 3, 4])[0]
            i = rng.randrange(n)
            if k == "get":
                ops.append([k, int(rng.random() < 0.3), i])
            elif k == "sheet":
                ops.append([k, i, rng.choice([1, 1, 1, 0]), rng.randrange(3)])
            elif k == "theme":
                ops.append([k, rng.randrange(2), rng.randrange(len(ACTIONS) + 2)])
            else:
                ops.append([k, i])
        clients.append(ops)
    external = [rng.randrange(n) for _ in range(rng.choice([0, 0, 2, 5, 8]))]
    themes = [dict(files=rng.sample(range(n), rng.choice([1, 1, min(2, n)])), text=rng.random() < 0.3) for _ in range(2)]
    for t in themes:
        t["text"] = rng.choice([None, rng.randrange(n)]) if t["text"] else -1
    faults = []
    if rng.random() < cfg.get("faultp", 0.7):
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            site = rng.choice(["open", "read", "read", "stat", "func"])
            f = dict(site=site, nth=int(rng.expovariate(1 / 5.0)), err=rng.choice(["EIO", "EACCES", "EMFILE"]))
            if site == "read":
                f["kind"] = rng.choice(["error", "short"])
                f["n"] = rng.choice([1, 2, 10])
            if all((g["site"], g["nth"]) != (site, f["nth"]) for g in faults):
                faults.append(f)
    return dict(files=files, clients=clients, external=external, themes=themes, faults=faults,
                policy=core.sync_policy(rng) if rng.random() < 0.6 else
                core.random_policy(rng, "instr" if rng.random() < 0.08 else "line"))


# --------------------------------------------------------------------------
# the model: contents of files and what they mean

def fname(i):
    return "f%d.css" % i


def location(files, i):
    return os.path.join(files[i].get("dir", ""), fname(i))


def prop(i, v, k):
    """A number that is unique for each rule in each version of a file."""
    return (i * 50 + v) * 50 + k + 1


def source(files, i, v):
    """The bytes of version v of file i."""
    ver = files[i]["versions"][v]
    if ver is None:
        return None
    cs = ver["charset"]
    lines = []
    if cs and not cs.startswith("bom"):
        lines.append('@charset "%s";' % cs)
    for k, item in enumerate(ver["items"]):
        if item[0] == "rule":
            lines.append('.parce .%s { font-size: %dpx; content: "%s" }' % (CLASSES[item[1]].replace(" ", "."), prop(i, v, k), item[2]))
        elif item[0] == "media":
            lines.append('@media print { .parce .%s { font-size: %dpx; content: "%s" } }' % (
                CLASSES[item[1]].replace(" ", "."), prop(i, v, k), item[2]))
        else:
            path = os.path.relpath(location(files, item[1]), files[i].get("dir", "") or ".")
            lines.append('@import "%s"%s;' % (path, " screen" if item[2] else ""))
    lines.append(".parce { font-size: %dpx }" % prop(i, v, 49))
    text = "\n".join(lines) + "\n"
    if cs == "bom8":
        return codecs.BOM_UTF8 + text.encode("utf-8")
    if cs == "bom16":
        return codecs.BOM_UTF16_BE + text.encode("utf-16-be")
    if cs == "bom32":
        return codecs.BOM_UTF32_LE + text.encode("utf-32-le")
    if cs == "latin1":
        text = text.replace("\u20ac", "E")
    if cs == "utf-16":
        return text.encode("utf-16")        # has a BOM
    return text.encode(cs if cs and cs != "none" else "utf-8")


class Missing(Exception):
    pass


def expand(files, choice, i, imports=True, seen=None):
    """What the rules of a style sheet should be, as nested tuples; ``choice``
    is the version of each file."""
    seen = {i} if seen is None else seen
    ver = files[i]["versions"][choice[i]]
    if ver is None:
        raise Missing(i)
    result = []
    for k, item in enumerate(ver["items"]):
        if item[0] == "import":
            if not imports or item[1] in seen:
                continue
            seen.add(item[1])
            sub = expand(files, choice, item[1], imports, seen)
            if item[2]:
                result.append(("import", tuple(sub)))
            else:
                result.extend(sub)
        else:
            s = item[2].replace("\u20ac", "E") if ver["charset"] == "latin1" else item[2]
            r = ("rule", prop(i, choice[i], k), s)
            result.append(("media", (r,)) if item[0] == "media" else r)
    result.append(("rule", prop(i, choice[i], 49), None))
    return result


def sig(sheet):
    """The rules of a StyleSheet, like expand()."""
    result = []
    for r in sheet.rules:
        if isinstance(r, css.Condition):
            result.append((r.keyword, tuple(sig(r.style))))
        elif isinstance(r, css.Rule):
            c = r.properties.get("content")
            result.append(("rule", r.properties["font-size"][0].number, c[0].text if c else None))
        elif isinstance(r, css.Atrule) and r.keyword == "charset":
            pass
        else:
            result.append(("?", repr(r)))
    return result


def flatten(rules):
    for r in rules:
        if r[0] == "rule":
            yield r
        else:
            yield from flatten(r[1])


class Client:
    def __init__(self, world, n, ops):
        self.world = world
        self.sim = world.sim
        self.n = n
        self.ops = ops

    def fail(self, kind, message):
        with self.sim.atomic():
            self.sim.fail(kind, message.replace(iosim.DIR + os.sep, ""))

    def run(self):
        for op in self.ops:
            self.sim.count("op:" + op[0])
            self.sim.log("op", self.n, *op)
            getattr(self, "op_" + op[0])(*op[1:])

    def op_write(self, i):
        self.world.write(i)

    def op_get(self, c, i, last=False):
        w = self.world
        before = list(w.cur)
        try:
            value = w.caches[c][w.path(i)]
        except (OSError, core.InjectedExit) as e:
            return self.error(e, "reading %s through the cache" % fname(i), [i], before)
        if value[1] != i:
            self.fail("cache", "the cache returned the value of another file")
        versions = range(before[i], w.cur[i] + 1)
        good = []
        for v in versions:
            if c == 0:
                exp = source(w.files, i, v)
            else:
                try:
                    exp = expand(w.files, {i: v}, i, False)
                except Missing:
                    exp = None
            if exp is not None and exp == value[2]:
                good.append(v)
        if not good:
            self.fail("stale", "the file cache returned a value for %s that is not that of version %s" % (
                fname(i), "..".join(map(str, sorted({versions[0], versions[-1]})))))
        self.sim.count("get:ok")
        return value

    def error(self, e, what, roots, before):
        """An OSError was raised: is there a reason?"""
        w = self.world
        if getattr(e, "_injected", False):
            self.sim.count("load:failed")
            return
        if isinstance(e, FileNotFoundError):
            if any(w.files[i]["versions"][v] is None for i in range(len(w.files))
                   for v in range(before[i], w.cur[i] + 1)):
                self.sim.count("load:missing")
                return
        self.fail("error", "%s raised %r" % (what, e))

    def choices(self, before):
        w = self.world
        with self.sim.atomic():
            return list(itertools.product(*(range(b, c + 1) for b, c in zip(before, w.cur))))

    def op_sheet(self, i, imports, how):
        w = self.world
        before = list(w.cur)
        path = w.path(i)
        try:
            if how == 0:
                s = css.StyleSheet.from_file(path, allow_import=bool(imports))
            elif how == 1:
                s = css.StyleSheet.from_data(w.read(path), path, allow_import=bool(imports))
            else:
                s = css.StyleSheet.from_css(css.StyleSheet.load_from_file(path), path, allow_import=bool(imports))
        except (OSError, core.InjectedExit) as e:
            return self.error(e, "loading %s" % fname(i), [i], before)
        choices = self.choices(before)
        with self.sim.atomic():
            got = sig(s)
            exps = []
            for ch in choices:
                try:
                    exp = expand(w.files, ch, i, imports)
                except Missing:
                    continue
                if exp == got:
                    break
                exps.append(exp)
            else:
                self.sim.fail("sheet", "loading %s (imports: %r) gave the rules %r, expected %r" % (
                    fname(i), imports, got, exps[-1] if exps else "that a file is missing"))
            # the style contains all the rules
            if sorted(r.properties["font-size"][0].number for r in s.style.rules) != sorted(r[1] for r in flatten(got)):
                self.sim.fail("sheet", "the style of %s has not all the rules" % fname(i))
            names = sorted({os.path.basename(f) for f in s.filenames()})
            exp = sorted({fname(int((r[1] - 1) // 2500)) for r in flatten(got)})
            if names != exp:
                self.sim.fail("sheet", "the filenames of %s are %r, expected %r" % (fname(i), names, exp))
        self.sim.count("sheet:ok")
        return True

    def op_theme(self, t, what):
        w = self.world
        th = w.themes[t]
        if th["since"] is None:
            th["since"] = list(w.cur)
        loaded = th["good"] is not None
        try:
            if what < len(ACTIONS):
                size = th["theme"].textformat(ACTIONS[what]).font_size
            elif what == len(ACTIONS):
                size = th["theme"].baseformat().font_size
            else:
                size = len(th["theme"].style.rules)
        except (OSError, core.InjectedExit) as e:
            if loaded:
                self.fail("theme", "a theme that has been loaded raised %r" % e)
            return self.error(e, "using a theme", th["plan"]["files"], th["since"])
        with self.sim.atomic():
            good = []
            for rules in self.combinations(th):
                exp = len(rules) if what > len(ACTIONS) else self.lookup(rules, what)
                if exp == size:
                    good.append(rules)
            if not good:
                self.sim.fail("theme", "a theme gave %r for %s, not what is in the files" % (
                    size, CLASSES[what] if what < len(ACTIONS) else ["baseformat", "the number of rules"][what - len(ACTIONS)]))
            th["good"] = good
            self.sim.count("theme:ok")
        return True

    def combinations(self, th):
        """All the rules a theme can have: every sheet is loaded separately, at some moment."""
        if th["good"] is not None:
            return th["good"]
        w = self.world
        choices = self.choices(th["since"])
        sheets = []
        for i in th["plan"]["files"]:
            sheets.append(self.sheets(choices, i, {i}))
        if th["plan"]["text"] != -1:
            sheets.append([(("rule", 7777, ""),)])
            if th["plan"]["text"] is not None:
                sheets.append(self.sheets(choices, th["plan"]["text"], {th["plan"]["text"]}))
        return [sum(c, ()) for c in itertools.product(*sheets)]

    def sheets(self, choices, i, seen):
        result = set()
        for ch in choices:
            try:
                result.add(tuple(flatten(expand(self.world.files, ch, i, True, set(seen)))))
            except Missing:
                pass
        return sorted(result, key=repr)

    def lookup(self, rules, what):
        """The font size that follows from the rules: the last one counts."""
        w = self.world
        size = None
        for _, n, s in rules:
            if n == 7777:
                if what == 0:
                    size = n
                continue
            n = int(n) - 1
            i, v, k = n // 2500, n // 50 % 50, n % 50
            if k == 49:
                if what == len(ACTIONS):
                    size = n + 1
            elif w.files[i]["versions"][v]["items"][k][1] == what:
                size = n + 1
        return size


class World:
    def __init__(self, plan, checks):
        self.plan = plan
        self.files = plan["files"]
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        iosim.DIR = os.path.join(iosim.ROOT, str(os.getpid()))
        for d in DIRS:
            os.makedirs(os.path.join(iosim.DIR, d), exist_ok=True)
        del iosim.OPEN[:]
        self.cur = [0] * len(self.files)
        for i in range(len(self.files)):
            self.put(i, 0)
        self.calls = []

    def path(self, i):
        return os.path.join(iosim.DIR, location(self.files, i))

    def read(self, path):
        with open(path, "rb") as f:
            return f.read()

    def put(self, i, v):
        data = source(self.files, i, v)
        path = self.path(i)
        if data is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with iosim._real_open(path + "~", "wb") as f:
                f.write(data)
            t = self.files[i]["times"][v]
            os.utime(path + "~", (t, t))
            os.replace(path + "~", path)

    def write(self, i):
        """Replace the file with its next version."""
        with self.sim.atomic():
            v = self.cur[i] + 1
            if v >= len(self.files[i]["versions"]):
                return
            self.put(i, v)
            self.cur[i] = v
            self.sim.count("written" if self.files[i]["versions"][v] else "removed")
            self.sim.log("write", i, v)

    def make(self):
        def number(path):
            return int(os.path.basename(path)[1:-4])

        def func(c, path):
            f = self.sim.fault("func")
            if f:
                raise iosim.injected(f["err"], path)
            if c == 0:
                value = self.read(path)
            else:
                value = sig(css.StyleSheet.from_file(path, allow_import=False))
            self.calls.append((c, number(path)))
            return [c, number(path), value]

        self.caches = [util.file_cache(lambda p, c=c: func(c, p)) for c in range(2)]
        self.themes = []
        for t in self.plan["themes"]:
            kw = {}
            if t["text"] != -1:
                kw["stylesheet"] = ".parce .comment { font-size: 7777px }" + (
                    '@import "%s";' % location(self.files, t["text"]) if t["text"] is not None else "")
                kw["basename"] = os.path.join(iosim.DIR, "base.css")
            self.themes.append(dict(theme=parce.theme.Theme(*map(self.path, t["files"]), **kw),
                                    plan=t, since=None, good=None))

    def external(self):
        for i in self.plan["external"]:
            for _ in range(4):
                self.sim.yield_point("external")
            self.write(i)

    def main(self):
        sim = self.sim
        self.make()
        import threading
        threads = [threading.Thread(target=Client(self, n, ops).run) for n, ops in enumerate(self.plan["clients"])]
        threads.append(threading.Thread(target=self.external))
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        # nothing changes or fails any more
        sim.stop_faults()
        c = Client(self, -1, [])
        for i in range(len(self.files)):
            exists = self.files[i]["versions"][self.cur[i]] is not None
            for n in range(2):
                v1 = c.op_get(n, i)
                calls = len(self.calls)
                v2 = c.op_get(n, i)
                if exists and (v1 is None or v2 is not v1 or len(self.calls) != calls):
                    c.fail("cache", "the file cache loads an unchanged file again")
            c.op_sheet(i, 1, 0)
        for n in range(len(self.themes)):
            for what in range(len(ACTIONS) + 2):
                c.op_theme(n, what)

    def run(self):
        try:
            self.sim.spawn(self.main, "main")
            return core.finish(self.sim, self.sim.run())
        finally:
            shutil.rmtree(iosim.DIR, ignore_errors=True)


def run(plan, checks):
    return World(plan, checks).run()
