"""Editing histories: edit contexts, failures, undo/redo, cursors.

Every document has its own editing thread; all threads run under the
simulator, so first use of shared class level state, background tokenizing
and the other documents interleave with the edits.
"""

import errno
import os
import random
import re
import shutil
import tempfile

import parce
import parce.document
from parce.document import Cursor
from parce.work import BackgroundWorker, Worker

from . import core, langs, oracle
from .docsim import reverse

CHARS = ["a", "b", "c", "(", ")", '"', "\n", " ", "1", "é", "ab", "b\n", "  ", "<a>", "{", "}"]


def gen_text(rng, n):
    return "".join(rng.choice(CHARS) for _ in range(n))


def gen_pos(rng, n):
    return rng.randrange(n + 4)


def gen_edit(rng, n):
    kind = rng.choices(["slice", "insert", "append", "del", "char", "neg", "cursor", "iadd", "all"],
                       [10, 3, 1, 3, 2, 2, 2, 1, 0.5])[0]
    ins = "" if rng.random() < 0.2 else gen_text(rng, rng.choice([1, 1, 1, 2, 3, 6]))
    s = gen_pos(rng, n)
    return [kind, s, s + rng.choice([0, 0, 0, 1, 1, 2, 3, 8]), ins]


def gen_group(rng, n, depth=0, fail=0.0):
    """A nested edit context: list of items."""
    items = []
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.15 and depth < 3:
            items.append(["group", gen_group(rng, n, depth + 1, fail)])
        elif r < 0.15 + fail:
            items.append(["raise"])
        elif r < 0.22 + fail:
            items.append(["check"])
        elif r < 0.25 + fail:
            items.append(["bad", rng.choice(["undo", "set_text", "index"])])
        else:
            items.append(["e"] + gen_edit(rng, n))
    return items


def gen_ops(rng, cfg, n):
    ops = []
    fail = cfg.get("fail", 0.05)
    w = dict(e=8, g=5, undo=4, redo=3, replace=1, re_sub=1, translate=0.5, trim=0.4, set_text=0.4,
             save=1, setmod=0.6, clear=0.3, cursor=1.5, dropcursor=0.3, check=1, tabs=0)
    w.update(cfg.get("weights", {}))
    names = sorted(w)
    run = None
    for _ in range(rng.choice(cfg.get("nops", [4, 8, 14, 25]))):
        k = run if run and rng.random() < 0.5 else rng.choices(names, [w[x] for x in names])[0]
        run = k if k in ("undo", "redo") else None
        if k == "e":
            ops.append(["e"] + gen_edit(rng, n))
        elif k == "g":
            ops.append(["g", gen_group(rng, n, 0, fail * 2)])
        elif k == "replace":
            ops.append([k, gen_text(rng, rng.choice([1, 1, 2])), gen_text(rng, rng.choice([0, 1, 2])),
                        rng.choice([0, 0, gen_pos(rng, n)]), rng.choice([None, None, gen_pos(rng, n)]),
                        rng.choice([0, 0, 1, 2])])
        elif k == "re_sub":
            ops.append([k, rng.choice(["[ab]", r"(\w)", "b+", r"\s", "x*1"]), rng.choice(["Z", "", r"<\g<0>>", None]),
                        rng.choice([0, 0, gen_pos(rng, n)]), rng.choice([None, None, gen_pos(rng, n)]),
                        rng.choice([0, 0, 1, 3])])
        elif k == "translate":
            ops.append([k, {"a": "xx", "b": "", "ab": "Q"}, int(rng.random() < 0.3), int(rng.random() < fail * 2)])
        elif k == "set_text":
            ops.append([k, gen_text(rng, rng.choice([0, 3, 10]))])
        elif k == "setmod":
            ops.append([k, int(rng.random() < 0.3)])
        elif k == "save":
            ops.append([k, None if rng.random() < 0.7 else rng.choice(["enc", "dir"])])
        elif k == "cursor":
            p = gen_pos(rng, n)
            ops.append([k, p, rng.choice([p, p + rng.randrange(6), None, -1])])
        elif k == "dropcursor":
            ops.append([k, rng.randrange(5)])
        else:
            ops.append([k])
    return ops


def gen(rng, cfg):
    docs = []
    for i in range(rng.choice(cfg.get("ndocs", [1, 1, 2, 3]))):
        text = gen_text(rng, rng.choice([0, 3, 8, 20]))
        docs.append(dict(text=text, kind=rng.choices(["plain", "sync", "bg"], cfg.get("kinds", [6, 1, 2]))[0],
                         undo=int(rng.random() < 0.95),
                         cursors=[[gen_pos(rng, len(text)), rng.choice([0, 0, 1, 5, None])] for _ in range(rng.choice([0, 2, 4, 8]))],
                         ops=gen_ops(rng, cfg, len(text) + 5)))
    plan = dict(docs=docs, policy=core.random_policy(rng), faults=[])
    for site, mean, p in cfg.get("faults", ()):
        if rng.random() < p:
            for _ in range(rng.choice([1, 2, 3])):
                plan["faults"].append(dict(site=site, nth=int(rng.expovariate(1.0 / mean))))
    return plan


def norm(n, s, e):
    """Clip a range like Python slices do."""
    s = min(max(0, s), n)
    e = min(max(0, e), n)
    return s, max(s, e)


class Overlap(Exception):
    pass


class RefDoc:
    """Executable reference model of a document."""
    def __init__(self, text, undo=True):
        self.text = text
        self.enabled = undo
        self.undo, self.redo = [], []      # states: [text, modified, changes]
        self.modified = False
        self.pending = []
        self.depth = 0
        self.cursors = {}                  # id -> [lo_pos, hi_pos, lo_end, hi_end]
        self.notes = []                    # expected notifications
        self.revision = 0

    def edit(self, s, e, t):
        s, e = norm(len(self.text), s, e)
        if self.text[s:e] != t:
            self.pending.append((s, e, t))
            if not self.depth:
                self.apply()

    def cancel(self):
        self.pending = []
        self.depth = 0

    def merged(self):
        d = {}
        for s, e, t in self.pending:
            d.setdefault(s, []).append((e, t))
        out = []
        last = -1
        for s in sorted(d):
            if s < last:
                raise Overlap
            last = max(e for e, _ in d[s])
            out.append((s, last, "".join(t for _, t in d[s])))
        return out

    def apply(self):
        if not self.pending:
            return
        try:
            changes = self.merged()
        finally:
            self.pending = []
        if self.enabled:
            self.undo.append([self.text, self.modified, reverse(self.text, changes)])
            del self.redo[:]
        self.modified = True
        self.change(changes)

    def change(self, changes):
        old = self.text
        for s, e, t in reversed(changes):
            self.text = self.text[:s] + t + self.text[e:]
        lo, hi = changes[0][0], changes[-1][1]
        self.notes.append((lo, hi - lo, len(self.text) - len(old) + hi - lo))
        self.changes = changes
        self.revision += 1


class EditClient:
    def __init__(self, world, d, n):
        self.world = world
        self.sim = world.sim
        self.checks = world.checks
        self.d = d
        self.n = n
        self.events = []
        self.cursors = []
        self.ref = RefDoc(d["text"], bool(d["undo"]))

    tree = None

    def fail(self, kind, msg):
        self.sim.fail(kind, "doc%d: %s" % (self.n, msg))

    def main(self):
        d = self.d
        sim = self.sim
        if d["kind"] == "plain":
            self.doc = parce.document.Document(d["text"])
        else:
            cls = Worker if d["kind"] == "sync" else BackgroundWorker
            self.lex = langs.Mix.root
            from parce.treebuilder import TreeBuilder
            self.doc = parce.Document(self.lex, d["text"], worker=cls(TreeBuilder(self.lex)))
        if not d["undo"]:
            self.doc.undo_redo_enabled = False
        for name in ("text_change", "text_changed", "modification_changed", "undo_available", "redo_available"):
            self.doc.connect(name, self.handler(name))
        for p, l in d["cursors"]:
            p = min(p, len(d["text"]))
            self.add_cursor(p, None if l is None else min(p + l, len(d["text"])))
        self.mod_state = False
        self.undo_state = self.redo_state = False
        for op in d["ops"]:
            sim.log("op", self.n, *[str(x) for x in op])
            sim.count("op:" + op[0])
            self.do(op)
            self.verify(op)
        if d["kind"] != "plain":
            r = self.doc.get_root(True)
            with sim.atomic():
                self.tree = self.ref.text, oracle.sig(r)
        self.verify(["end"])

    def handler(self, name):
        def h(*args):
            self.events.append((name,) + args)
            self.sim.log("event", self.n, name, *args)
            if name == "text_change":
                # handlers see the new text
                self.seen = self.doc.text()
                # cursors already moved
                self.seen_cursors = [(c.pos, c.end) for c, _ in self.cursors]
        return h

    # -- operations -------------------------------------------------------------

    def do_edit(self, e):
        """Perform one edit on the document and the model."""
        kind, s, end, t = e
        doc, ref = self.doc, self.ref
        n = len(ref.text)
        if kind == "slice":
            doc[s:end] = t
            ref.edit(s, end, t)
        elif kind == "insert":
            doc.insert(s, t)
            ref.edit(s, s, t)
        elif kind == "append":
            doc.append(t)
            ref.edit(n, n, t)
        elif kind == "iadd":
            doc += t
            ref.edit(n, n, t)
        elif kind == "del":
            del doc[s:end]
            ref.edit(s, end, "")
        elif kind == "char":
            if n:
                s %= n
                doc[s] = t
                ref.edit(s, s + 1, t)
        elif kind == "neg":
            if n:
                s = s % n + 1
                doc[-s:] = t
                ref.edit(n - s, n, t)
        elif kind == "cursor":
            s, end = norm(n, s, end)
            c = Cursor(doc, s, end)
            doc[c] = t
            ref.edit(s, end, t)
        elif kind == "all":
            doc[:] = t
            ref.edit(0, n, t)

    def group(self, items):
        doc, ref = self.doc, self.ref
        before = ref.text
        with doc:
            ref.depth += 1
            for it in items:
                k = it[0]
                if k == "e":
                    self.do_edit(it[1:])
                elif k == "group":
                    self.group(it[1])
                elif k == "raise":
                    self.sim.count("fault:raise_in_context")
                    self.sim.fired += 1
                    raise core.injected("in context")
                elif k == "bad":
                    self.bad(it[1])
                elif k == "check":
                    pass
                if doc.text() != before:
                    self.fail("early", "text changed inside an edit context: %r instead of %r" % (doc.text(), before))
            if ref.depth == 1:
                self.closing()
        # not reached after an exception
        if ref.depth > 1:
            ref.depth -= 1

    def bad(self, what):
        """A forbidden operation in an edit context, caught by the client."""
        try:
            if what == "undo":
                self.doc.undo()
            elif what == "set_text":
                self.doc.set_text("zz")
            else:
                self.doc[len(self.doc) + 5] = "x"
        except (RuntimeError, IndexError):
            self.sim.count("fault:refused_in_context")
        else:
            self.fail("refuse", "%s in an edit context was not refused" % what)

    def closing(self):
        self.ref.depth = 0

    def do(self, op):
        doc, ref = self.doc, self.ref
        k = op[0]
        self.start = len(self.events)
        ref.notes = []
        ref.changes = None
        self.old = ref.text
        if k == "e":
            self.do_edit(op[1:])
        elif k == "g":
            state = (list(map(list, ref.undo)), list(map(list, ref.redo)))
            try:
                self.group(op[1])
            except core.INJECTED:
                ref.cancel()
            except RuntimeError as e:
                # the changes must really overlap
                ref.depth = 0
                try:
                    ref.merged()
                except Overlap:
                    self.sim.count("fault:overlap")
                    self.sim.fired += 1
                else:
                    raise
                ref.cancel()
            else:
                ref.depth = 0
                try:
                    ref.apply()
                except Overlap:
                    self.fail("overlap", "overlapping changes were not refused: %r" % (op[1],))
        elif k in ("undo", "redo"):
            a, b = (ref.undo, ref.redo) if k == "undo" else (ref.redo, ref.undo)
            self.undoing = bool(a)
            getattr(doc, k)()
            if a:
                text, mod, changes = a.pop()
                changes = merge([c for c in changes if ref.text[c[0]:c[1]] != c[2]])
                if changes:
                    b.append([ref.text, ref.modified, reverse(ref.text, changes)])
                    ref.change(changes)
                else:
                    # a step without any net effect vanishes when undone or redone
                    self.sim.count("vanished")
                if ref.text != text:
                    raise core.HarnessError("bad reverse changes")
                ref.modified = mod
        elif k == "replace":
            _, old, new, s, e, count = op
            self.op_replace(old, new, s, e, count)
        elif k == "re_sub":
            self.op_re_sub(*op[1:])
        elif k == "translate":
            self.op_translate(*op[1:])
        elif k == "trim":
            self.expect_sub(r"[ \t]+$", lambda m: "", 0, None, 0, re.M)
            doc.trim()
        elif k == "set_text":
            doc.set_text(op[1])
            ref.edit(0, len(ref.text), op[1])
        elif k == "setmod":
            doc.modified = bool(op[1])
            self.set_mod(bool(op[1]))
        elif k == "save":
            self.op_save(op[1])
        elif k == "clear":
            doc.clear_undo_redo()
            del ref.undo[:], ref.redo[:]
        elif k == "cursor":
            p = min(op[1], len(ref.text))
            self.add_cursor(p, op[2] if op[2] is None or op[2] == -1 else min(max(p, op[2]), len(ref.text)))
        elif k == "dropcursor":
            if self.cursors:
                del self.cursors[op[1] % len(self.cursors)]

    def set_mod(self, m):
        ref = self.ref
        ref.modified = m
        if not m:
            for st in ref.undo + ref.redo:
                st[1] = True

    def op_save(self, fault):
        if self.d["kind"] == "plain":
            # what a client with its own I/O does
            if fault is None:
                self.doc.modified = False
                self.set_mod(False)
            return
        path = os.path.join(self.world.dir, "doc%d" % self.n)
        try:
            if fault == "dir":
                self.doc.save(os.path.join(self.world.dir, "missing", "x"), encoding="utf-8")
            elif fault == "enc":
                self.doc.save(path, encoding="ascii")
            else:
                self.doc.save(path, encoding="utf-8")
        except (OSError, UnicodeError):
            self.sim.count("fault:save_failed")
            self.sim.fired += 1
            return
        self.set_mod(False)
        with open(path, "rb") as f:
            data = f.read()
        if data != self.ref.text.encode("utf-8"):
            self.fail("save", "saved file contains %r" % (data,))

    def expect_sub(self, pattern, repl, s, e, count, flags=0):
        """Tell the model about a substitution."""
        ref = self.ref
        s0, e0 = norm(len(ref.text), s, len(ref.text) if e is None else e)
        text = ref.text[s0:e0]
        ref.depth = 1
        for i, m in enumerate(re.finditer(pattern, text, flags), 1):
            ref.edit(s0 + m.start(), s0 + m.end(), repl(m))
            if i == count:
                break
        ref.depth = 0
        ref.apply()

    def op_replace(self, old, new, s, e, count):
        ref = self.ref
        s = min(s, len(ref.text))
        self.doc.replace(old, new, s, e, count)
        if old != new:
            self.expect_sub(re.escape(old), lambda m: new, s, e, count)

    def op_re_sub(self, pattern, repl, s, e, count):
        ref = self.ref
        s = min(s, len(ref.text))
        sim = self.sim
        if repl is None:
            def func(m):
                if sim.fault("repl"):
                    raise core.injected("replacement function")
                return "[" + m.group() + "]"
            try:
                self.doc.re_sub(pattern, func, s, e, count)
            except core.INJECTED:
                return
            self.expect_sub(pattern, lambda m: "[" + m.group() + "]", s, e, count)
        else:
            self.doc.re_sub(pattern, repl, s, e, count)
            self.expect_sub(pattern, lambda m: m.expand(repl), s, e, count)

    def op_translate(self, mapping, whole, broken):
        m = dict(mapping)
        keys = sorted(m, key=len, reverse=True)
        expr = "|".join(map(re.escape, keys))
        if whole:
            expr = r"\b(%s)\b" % expr
        if broken:
            # the mapping breaks for some key
            class Broken(dict):
                def __getitem__(self, key):
                    if key == "b":
                        raise core.injected("mapping")
                    return dict.__getitem__(self, key)
            hit = any(x.group() == "b" for x in re.finditer(expr, self.ref.text))
            try:
                self.doc.translate(Broken(m), whole_words=bool(whole))
            except core.INJECTED:
                if not hit:
                    raise
                self.sim.count("fault:mapping")
                self.sim.fired += 1
                return
        else:
            self.doc.translate(m, whole_words=bool(whole))
        self.expect_sub(expr, lambda x: m[x.group()], 0, None, 0)

    # -- cursors ------------------------------------------------------------------

    def add_cursor(self, pos, end):
        c = Cursor(self.doc, pos) if end == -1 else Cursor(self.doc, pos, end)
        if end == -1:
            end = pos
        if (c.pos, c.end) != (pos, end):
            self.fail("cursor", "new cursor is at %r" % ((c.pos, c.end),))
        self.cursors.append((c, [c.pos, c.end]))

    def check_cursors(self, op):
        """Every cursor must be where the edits put it."""
        ref = self.ref
        n = len(ref.text)
        for c, rec in self.cursors:
            pos, end = rec
            if ref.notes:
                changes = ref.changes
                self.check_cursor(c, pos, end, changes)
                rec[:] = [c.pos, c.end]
            elif (c.pos, c.end) != (pos, end):
                self.fail("cursor", "cursor moved from %r to %r without a change (%r)" % ((pos, end), (c.pos, c.end), op))
            if not 0 <= c.pos <= n or (c.end is not None and not c.pos <= c.end <= n):
                self.fail("cursor", "cursor %r is not within the text of length %d (was %r, changes %r)" % (
                    (c.pos, c.end), n, (pos, end), ref.changes))

    def check_cursor(self, c, pos, end, changes):
        lo, hi, only = place(changes, pos)
        if not lo <= c.pos <= hi or (only and c.pos not in (lo, hi)):
            self.fail("cursor", "cursor position went from %d to %d by %r (expected %s)" % (
                pos, c.pos, changes, lo if lo == hi else "%d..%d" % (lo, hi)))
        if end is None:
            if c.end is not None:
                self.fail("cursor", "open end became %r" % (c.end,))
            return
        if c.end is None:
            self.fail("cursor", "end %r became None" % (end,))
        lo, hi, only = place(changes, end)
        if not lo <= c.end <= hi or (only and c.end not in (lo, hi)):
            self.fail("cursor", "cursor end went from %d to %d by %r (expected %s)" % (
                end, c.end, changes, lo if lo == hi else "%d..%d" % (lo, hi)))
        # documented: text inserted at pos does not move pos; text inserted at the end moves end
        for i, (s, e, t) in enumerate(changes):
            if s == e and not touching(changes, i):
                shift = sum(len(t2) - (e2 - s2) for s2, e2, t2 in changes[:i])
                if pos == s and c.pos != s + shift:
                    self.fail("cursor", "text inserted at pos %d moved it to %d (changes %r)" % (pos, c.pos, changes))
                if end == s and c.end != s + shift + len(t):
                    self.fail("cursor", "text inserted at end %d moved it to %d (changes %r)" % (end, c.end, changes))

    # -- checks after every operation -----------------------------------------------

    def verify(self, op):
        doc, ref = self.doc, self.ref
        got = doc.text()
        if got != ref.text:
            self.fail("text", "after %r on %r: text is %r, expected %r" % (op, self.old, got, ref.text))
        if len(doc) != len(ref.text):
            self.fail("text", "len() is %d, expected %d" % (len(doc), len(ref.text)))
        new = self.events[self.start:] if op[0] != "end" else []
        # notifications
        notes = [e[1:] for e in new if e[0] == "text_change"]
        if len(notes) != len(ref.notes) or len([e for e in new if e[0] == "text_changed"]) != len(notes):
            self.fail("notify", "after %r on %r: notifications %r, expected %r" % (op, self.old, notes, ref.notes))
        for note, exp in zip(notes, ref.notes):
            if note != exp:
                self.fail("notify", "after %r on %r: notification %r, expected %r" % (op, self.old, note, exp))
            p, r, a = note
            if self.old[:p] != ref.text[:p] or self.old[p + r:] != ref.text[p + a:] or p + r > len(self.old) or p + a > len(ref.text):
                self.fail("notify", "after %r: notification %r does not describe %r -> %r" % (op, note, self.old, ref.text))
            if self.seen != ref.text:
                self.fail("notify", "text in handler was %r, expected %r" % (self.seen, ref.text))
            if self.seen_cursors != [(c.pos, c.end) for c, _ in self.cursors]:
                self.fail("cursor", "cursors were not updated when the change was announced")
        # modified, undo and redo
        if doc.modified != ref.modified:
            self.fail("modified", "after %r: modified is %r, expected %r" % (op, doc.modified, ref.modified))
        if (doc.can_undo(), doc.can_redo()) != (bool(ref.undo), bool(ref.redo)):
            self.fail("undo", "after %r: can undo/redo %r, expected %r" % (
                op, (doc.can_undo(), doc.can_redo()), (bool(ref.undo), bool(ref.redo))))
        for name, attr, now in (("modification_changed", "mod_state", ref.modified),
                                ("undo_available", "undo_state", bool(ref.undo)),
                                ("redo_available", "redo_state", bool(ref.redo))):
            for e in new:
                if e[0] == name:
                    if e[1] == getattr(self, attr):
                        self.fail("flags", "after %r: event %s(%r) while nothing changed" % (op, name, e[1]))
                    setattr(self, attr, e[1])
            if getattr(self, attr) != now:
                self.fail("flags", "after %r: last %s event said %r, but it is %r" % (op, name, getattr(self, attr), now))
        if doc.revision() != ref.revision:
            self.fail("text", "after %r: revision is %d, expected %d" % (op, doc.revision(), ref.revision))
        self.check_cursors(op)
        if op[0] == "check":
            self.check_blocks()
        self.start = len(self.events)
        ref.notes = []

    def check_blocks(self):
        """Blocks after any history: the lines of the text."""
        text = self.ref.text
        lines = text.split("\n")
        got = [b.text() for b in self.doc.blocks()]
        if got != lines:
            self.fail("blocks", "blocks are %r, expected %r" % (got, lines))
        if self.doc.block_count() != len(lines):
            self.fail("blocks", "block_count() is %d" % self.doc.block_count())


def merge(changes):
    """Changes at the same start are one change."""
    out = []
    for s, e, t in changes:
        if out and out[-1][0] == s:
            out[-1] = (s, max(e, out[-1][1]), out[-1][2] + t)
        else:
            out.append((s, e, t))
    return out


def touching(changes, i):
    """Is change i adjacent to another change?"""
    s, e, _ = changes[i]
    return any(j != i and (changes[j][1] == s or changes[j][0] == e) for j in range(len(changes)))


def place(changes, p):
    """The range of places where position p may be after the changes, and
    whether only the boundaries of that range are right.

    Changes that touch each other are one replaced range."""
    shift = 0
    i = 0
    while i < len(changes):
        s, e, t = changes[i]
        n = len(t)
        single = True
        while i + 1 < len(changes) and changes[i + 1][0] == e:
            i += 1
            e = changes[i][1]
            n += len(changes[i][2])
            single = False
        if p < s:
            break
        if p <= e:
            return s + shift, s + shift + n, single
        shift += n - (e - s)
        i += 1
    return p + shift, p + shift, True


class World:
    def __init__(self, plan, checks):
        self.plan = plan
        self.checks = checks
        self.refs = oracle.Refs()
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        self.clients = [EditClient(self, d, i) for i, d in enumerate(plan["docs"])]

    def run(self):
        sim = self.sim
        self.dir = tempfile.mkdtemp(prefix="dst-edit-")
        try:
            for c in self.clients:
                sim.spawn(c.main, "main%d" % c.n)
            core.finish(sim, sim.run())
            for c in self.clients:
                if sim.violation is None and c.tree is not None:
                    text, got = c.tree
                    want = self.refs.tree(text, c.lex)[0]
                    if got != want:
                        sim.violation = dict(kind="tree", message="doc%d: tree differs from a fresh parse of %r: %s" % (
                            c.n, text, oracle.diff(got, want)))
            return sim
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def run(plan, checks):
    return World(plan, checks).run()
