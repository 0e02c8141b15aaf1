"""Saving and loading documents, with failing files.

Real files in a scratch directory; every file opened below it by the code under
test goes through ``FaultRaw``, where the simulator makes opening, reading,
writing and closing fail, or only read or write a part.  Several documents in
threads of their own, and somebody who replaces shared files meanwhile.
"""

import atexit
import builtins
import codecs
import errno
import gc
import io
import os
import re
import shutil
import tempfile
import weakref

import parce
from parce.work import BackgroundWorker, Worker
from parce.treebuilder import TreeBuilder

from . import core, langs, oracle

_real_open = builtins.open
ROOT = None         # the scratch directory of this check
DIR = None          # the one of the current run
OPEN = []           # the open files

BOMS = [            # the longest first
    (codecs.BOM_UTF32_LE, "utf-32-le"),
    (codecs.BOM_UTF32_BE, "utf-32-be"),
    (codecs.BOM_UTF8, "utf-8"),
    (codecs.BOM_UTF16_LE, "utf-16-le"),
    (codecs.BOM_UTF16_BE, "utf-16-be"),
]

ENCODINGS = ["utf-8", "utf-8", "latin1", "ascii", "utf-16", "utf-16-be", "cp1252", "iso8859-15", "koi8-r", "utf-8-sig", "x-none"]
NEWLINES = [None, None, None, "", "\n", "\r\n", "\r"]
ERRORS = [None, None, None, "replace", "ignore"]
WORDS = ["a", "bc ", "{", "}", ": 1", "\n", "\n", "\r\n", "\r", "é", "€", "ж", "\U0001d11e", "\u2028", "<x>", '"', " ", "ab" * 40, "\ufeff"]

# file extension, declaration of an encoding in a document of that language
KINDS = {
    "css": ("css", '@charset "%s";\n'),
    "json": ("json", "/* encoding: %s */\n"),
    "xml": ("xml", '<?xml version="1.0" encoding="%s"?>\n'),
    "lilypond": ("ly", "%% encoding: %s\n"),
    "none": ("txt", "# encoding: %s\n"),
}
DEFAULTS = {}


class FaultRaw(io.RawIOBase):
    """A raw file that can fail."""
    def __init__(self, path, mode, fd=None):
        sim = core.SIM
        self._f = None
        if sim:
            sim.yield_point("open")
            f = sim.fault("open")
            if f:
                raise injected(f["err"], path)
        self._f = io.FileIO(path, mode)
        self._path = path
        self.name = path
        self.mode = self._f.mode
        OPEN.append(weakref.ref(self))

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def readinto(self, b):
        sim = core.SIM
        if sim:
            sim.yield_point("read")
            f = sim.fault("read")
            if f:
                if f["kind"] == "short" and len(b) > 1:
                    n = self._f.readinto(memoryview(b)[:max(1, min(f["n"], len(b) - 1))])
                    return n
                elif f["kind"] != "short":
                    raise injected(f["err"], self._path)
        return self._f.readinto(b)

    def write(self, b):
        sim = core.SIM
        if sim:
            sim.yield_point("write")
            f = sim.fault("write")
            if f:
                b = memoryview(b).cast("B")
                if f["kind"] == "short" and len(b) > 1:
                    return self._f.write(b[:max(1, min(f["n"], len(b) - 1))])
                elif f["kind"] == "torn":
                    self._f.write(b[:min(f["n"], len(b))])
                    raise injected(f["err"], self._path)
                elif f["kind"] != "short":
                    raise injected(f["err"], self._path)
        return self._f.write(b)

    def close(self):
        if self.closed or self._f is None:
            return
        sim = core.SIM
        try:
            super().close()     # flushes
        finally:
            self._f.close()
            OPEN[:] = [r for r in OPEN if r() not in (self, None)]
        if sim and not sim.ended:
            sim.yield_point("close")
            f = sim.fault("close")
            if f:
                raise injected(f["err"], self._path)


def injected(err, path):
    if core.EXITS:      # e.g. interrupted by the user
        e = core.InjectedExit("%s %s" % (err, os.path.basename(path)))
    else:
        e = OSError(getattr(errno, err), os.strerror(getattr(errno, err)), os.path.basename(path))
    e._injected = True
    return e


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = core.SIM
    try:
        path = os.fspath(file)
    except TypeError:
        path = None
    if sim is None or sim.ended or DIR is None or not isinstance(path, str) or opener \
            or not os.path.abspath(path).startswith(DIR + os.sep):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwxa+")
    raw = FaultRaw(path, rawmode)
    if buffering == 0 and binary:
        return raw
    if "+" in rawmode:
        buf = io.BufferedRandom(raw)
    elif rawmode[0] == "r":
        buf = io.BufferedReader(raw)
    else:
        buf = io.BufferedWriter(raw)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline)
    text.mode = mode
    return text


MONITOR = ()


def setup():
    global ROOT
    builtins.open = io.open = sim_open
    ROOT = tempfile.mkdtemp(prefix="dst-io-")
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(ROOT, ignore_errors=True)
    atexit.register(remove)
    for n in KINDS:
        l = parce.find(n) if n != "none" else None
        DEFAULTS[n] = l


# --------------------------------------------------------------------------
# plans

def gen_text(rng, n):
    k = rng.sample(WORDS, rng.choice([4, 8, len(WORDS)]))
    if rng.random() < 0.5:
        k = [w for w in k if w.isascii()] or ["a"]
    t = "".join(rng.choice(k) for _ in range(n))
    if rng.random() < 0.05:
        t += "\ud800"
    return t


def gen_data(rng, kind):
    """Return the contents of a file as written by somebody else."""
    text = gen_text(rng, rng.choice([0, 1, 5, 20, 80, 400 if rng.random() < .3 else 10]))
    if kind == "none" and rng.random() < 0.04:
        text = gen_text(rng, 400) * rng.choice([50, 150])
    decl = rng.choice(ENCODINGS) if rng.random() < 0.5 else None
    enc = rng.choice([decl or "utf-8", decl or "utf-8", rng.choice(ENCODINGS[:-1])])
    if decl:
        text = KINDS[kind][1] % decl + text
    try:
        data = text.encode(enc)
    except (UnicodeError, LookupError):
        data = text.encode("utf-8", "surrogatepass")
    bom = rng.random() < 0.2
    if bom:
        b, e = rng.choice(BOMS)
        data = b + text.encode(e, "surrogatepass")
    if rng.random() < 0.1:
        p = rng.randrange(min(len(data), 200) if decl else 0, len(data) + 1)    # not in the declaration
        data = data[:p] + bytes([rng.choice([0x80, 0xff, 0xc3, 0])]) + data[p:]
    return data.hex()


def gen_client(rng, cfg, nshared):
    kind = rng.choice(sorted(KINDS))
    ops = []
    w = dict(e=8, undo=1.5, redo=1, save=6, load=3, xwrite=2, bytes=1, shared=1.5 if nshared else 0)
    w.update(cfg.get("weights", {}))
    names = sorted(w)
    for _ in range(rng.choice([4, 8, 14])):
        k = rng.choices(names, [w[x] for x in names])[0]
        if k == "e":
            ops.append([k, rng.randrange(40), rng.choice([0, 0, 1, 3, 30, 1000 if rng.random() < .2 else 2]), gen_text(rng, rng.choice([0, 1, 2, 6, 300 if rng.random() < .05 else 3]))])
        elif k == "save":
            ops.append([k, rng.choice([None, None, 0, 1]), rng.choice(ENCODINGS) if rng.random() < 0.25 else None,
                        rng.choice(NEWLINES), int(rng.random() < 0.3)])
        elif k == "load":
            ops.append([k, rng.choice([0, 0, 1]), rng.choice(["true", "none", "name", "lexicon"]),
                        rng.choice(ENCODINGS) if rng.random() < 0.3 else None, rng.choice(ERRORS), rng.choice(NEWLINES),
                        rng.choice(["bg", "sync", None]), int(rng.random() < 0.3)])
        elif k == "shared":
            ops.append([k, rng.randrange(nshared), rng.choice([None, "replace"]), rng.choice(NEWLINES)])
        elif k == "xwrite":
            ops.append([k, rng.choice([0, 0, 1]), gen_data(rng, kind)])
        elif k == "bytes":
            ops.append([k, rng.choice(ENCODINGS) if rng.random() < 0.3 else None, rng.choice(NEWLINES)])
        else:
            ops.append([k])
    text = gen_text(rng, rng.choice([0, 3, 10, 40, 400 if rng.random() < .2 else 5]))
    decl = rng.choice(ENCODINGS) if rng.random() < 0.3 else None
    return dict(kind=kind, text=text, decl=decl, enc=rng.choice(ENCODINGS) if rng.random() < 0.2 else None,
                worker=rng.choice(["bg", "sync", None]), ops=ops,
                files=[gen_data(rng, kind) if rng.random() < 0.7 else None for _ in range(2)])


def gen(rng, cfg):
    nshared = rng.choice([0, 0, 1, 2])
    clients = [gen_client(rng, cfg, nshared) for _ in range(rng.choice(cfg.get("nclients", [1, 1, 2, 3])))]
    shared = [dict(kind=rng.choice(sorted(KINDS)), data=None) for _ in range(nshared)]
    for s in shared:
        s["data"] = [gen_data(rng, s["kind"]) for _ in range(rng.choice([1, 2, 4]))]
    faults = []
    if rng.random() < cfg.get("faultp", 0.75):
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            site = rng.choice(["open", "read", "read", "write", "write", "close"])
            f = dict(site=site, nth=int(rng.expovariate(1 / 4.0)))
            if site == "open":
                f["err"] = rng.choice(["EACCES", "EMFILE", "EROFS", "EIO", "ENOSPC"])
            elif site == "close":
                f["err"] = rng.choice(["EIO", "ENOSPC", "EDQUOT"])
            else:
                f["kind"] = rng.choice(["error", "short", "short"] if site == "read" else ["error", "short", "torn", "torn"])
                f["err"] = "EIO" if site == "read" else rng.choice(["ENOSPC", "EIO"])
                f["n"] = rng.choice([0, 1, 2, 7, 100, 5000])
            if all((g["site"], g["nth"]) != (site, f["nth"]) for g in faults):
                faults.append(f)
    return dict(clients=clients, shared=shared, faults=faults, policy=core.random_policy(rng))


# --------------------------------------------------------------------------
# what should happen

def known(enc):
    try:
        codecs.lookup(enc)
        return True
    except LookupError:
        return False


def declared(kind, text):
    """The encoding mentioned in the text (generated text has no other
    occurrences than the declaration at the start, that is never edited)."""
    before = KINDS[kind][1].partition("%s")[0].replace("%%", "%")
    if text.startswith(before):
        m = re.match(r"[\w-]+", text[len(before):])
        if m:
            return m.group()


def expect_bytes(text, kind, encoding, newline):
    """The contents of a saved file, or an exception type."""
    enc = encoding
    if not enc:
        enc = declared(kind, text)
        if enc and not known(enc):
            enc = None
        enc = enc or "utf-8"
    if newline in ("\r", "\r\n"):
        text = text.replace("\n", newline)
    try:
        return text.encode(enc)
    except LookupError:
        return LookupError
    except UnicodeError:
        return UnicodeError


def expect_text(data, kind, encoding, errors, newline):
    """(text, allowed values of the encoding attribute) or an exception type."""
    bom = None
    for b, e in BOMS:
        if data.startswith(b):
            bom = e
            data = data[len(b):]
            break
    decl = declared(kind, data[:5000].decode(bom or "latin1", "ignore"))
    if decl and not known(decl):
        decl = None
    enc = bom or decl or encoding or "utf-8"
    try:
        text = codecs.getincrementaldecoder(enc)(errors or "strict").decode(data, True)
    except LookupError:
        return LookupError
    except UnicodeError:
        return UnicodeError
    if newline is None:
        text = text.replace("\r\n", "\n").replace("\r", "\n")
    if encoding:
        allowed = [encoding]
    elif bom:
        allowed = [bom] + ([decl] if decl else [])
    else:
        allowed = [decl] if decl else [None, "utf-8"]
    return text, allowed


class Client:
    def __init__(self, world, n, plan):
        self.world = world
        self.sim = world.sim
        self.n = n
        self.plan = plan
        self.kind = plan["kind"]
        self.lex = DEFAULTS[self.kind]
        self.disk = list(map(_unhex, plan["files"]))     # None: does not exist; "?": unknown
        for i, d in enumerate(self.disk):
            if d is not None:
                world.put(self.path(i), d)
        text = plan["text"]
        if plan["decl"]:
            text = KINDS[self.kind][1] % plan["decl"] + text
        self.text = text
        self.guard = len(text) - len(plan["text"])
        self.undos, self.redos, self.modified = [], [], False
        self.enc = plan["enc"]
        self.doc = None
        self.nlex = self.lex

    def path(self, i):
        return os.path.join(DIR, "f%d%d.%s" % (self.n, i, KINDS[self.kind][0]))

    def url(self, i, scheme):
        p = self.path(i)
        return "file://" + p if scheme else p

    def fail(self, kind, message):
        with self.sim.atomic():
            self.sim.fail(kind, "doc%d: %s" % (self.n, message.replace(DIR, "")))

    def worker(self, how, lex):
        if how == "bg":
            return BackgroundWorker(TreeBuilder(lex))
        if how == "sync":
            return Worker(TreeBuilder(lex))

    def run(self):
        self.cururl = None
        self.doc = parce.Document(self.lex, self.text, None, self.enc, worker=self.worker(self.plan["worker"], self.lex))
        self.check("start")
        for op in self.plan["ops"]:
            self.sim.count("op:" + op[0])
            self.sim.log("op", self.n, *op)
            getattr(self, "op_" + op[0])(*op[1:])
            self.check(op[0])
        self.finish()

    def check(self, what):
        d = self.doc
        if d.text() != self.text:
            self.fail("text", "after %s the text is %s, expected %s" % (what, _cut(d.text()), _cut(self.text)))
        if d.modified != self.modified:
            self.fail("modified", "after %s modified is %r, expected %r" % (what, d.modified, self.modified))
        if (d.can_undo(), d.can_redo()) != (bool(self.undos), bool(self.redos)):
            self.fail("undo", "after %s can_undo, can_redo is %r" % (what, (d.can_undo(), d.can_redo())))
        with self.sim.atomic():
            if self.mine():
                gc.collect()
                if self.mine():
                    self.sim.fail("leak", "doc%d: after %s a file is still open" % (self.n, what))

    def mine(self):
        files = [r() for r in OPEN]
        return sum(f is not None and not f.closed and os.path.basename(f._path).startswith("f%d" % self.n) for f in files)

    # -- operations

    def op_e(self, pos, rem, ins):
        pos = min(self.guard + pos, len(self.text))
        end = min(pos + rem, len(self.text))
        new = self.text[:pos] + ins + self.text[end:]
        if self.text[pos:end] != ins:
            self.undos.append([self.text, self.modified])
            self.redos.clear()
            self.modified = True
        self.doc[pos:end] = ins
        self.text = new

    def op_undo(self):
        self.doc.undo()
        if self.undos:
            t, m = self.undos.pop()
            self.redos.append([self.text, self.modified])
            self.text, self.modified = t, m

    def op_redo(self):
        self.doc.redo()
        if self.redos:
            t, m = self.redos.pop()
            self.undos.append([self.text, self.modified])
            self.text, self.modified = t, m

    def op_bytes(self, encoding, newline):
        exp = expect_bytes(self.text, self.kind, encoding or self.enc, newline)
        try:
            r = self.doc.to_bytes(encoding, newline)
        except (UnicodeError, LookupError) as e:
            r = type(e)
        if not _same(r, exp):
            self.fail("bytes", "to_bytes(%r, %r) gave %s, expected %s" % (encoding, newline, _cut(r), _cut(exp)))

    def op_save(self, i, encoding, newline, scheme):
        if i is None and self.cururl is None:
            i = 0
        target = i if i is not None else self.cururl
        exp = expect_bytes(self.text, self.kind, encoding or self.enc, newline)
        before = self.disk[target]
        fired = dict(self.sim.counts)
        try:
            self.doc.save(None if i is None else self.url(i, scheme), encoding, newline)
        except (UnicodeError, LookupError) as e:
            if not _same(type(e), exp):
                self.fail("save", "save(%r, %r) of %s raised %r" % (encoding, newline, _cut(self.text), e))
            self.sim.count("save:unencodable")
            if before != "?" and self.world.get(self.path(target)) != before:
                self.fail("save", "text that can not be encoded altered the existing file")
        except (OSError, core.InjectedExit) as e:
            if not getattr(e, "_injected", False):
                self.fail("save", "save raised %r" % e)
            self.sim.count("save:failed")
            if isinstance(exp, type):
                self.fail("save", "text that can not be encoded, but a file was opened")
            self.disk[target] = "?"
        else:
            if isinstance(exp, type):
                self.fail("save", "save(%r, %r) of %s should raise %s" % (encoding, newline, _cut(self.text), exp.__name__))
            self.sim.count("save:ok")
            got = self.world.get(self.path(target))
            if got != exp:
                self.fail("save", "save(%r, %r) of %s succeeded, but the file contains %s, expected %s" % (
                    encoding, newline, _cut(self.text), _cut(got), _cut(exp)))
            self.disk[target] = exp
            self.modified = False
            for s in self.undos + self.redos:
                s[1] = True
            self.cururl = target
            if encoding:
                self.enc = encoding
            if self.doc.encoding != self.enc:
                self.fail("encoding", "after saving, encoding is %r, expected %r" % (self.doc.encoding, self.enc))
            if i is not None and self.doc.url != self.url(i, scheme):
                self.fail("encoding", "after saving, url is %r" % self.doc.url)
            return True
        # the attributes may or may not have been set
        if self.doc.encoding not in (self.enc, encoding or self.enc):
            self.fail("encoding", "after failed save, encoding is %r, was %r" % (self.doc.encoding, self.enc))
        self.enc = self.doc.encoding
        if self.doc.url:
            self.cururl = int(self.doc.url[-len(KINDS[self.kind][0]) - 2])

    def op_load(self, i, mode, encoding, errors, newline, worker, scheme):
        kind = self.kind
        if mode == "none" or kind == "none":
            lexarg, lex, kind = None, None, ("none" if self.kind == "none" else "?")
        elif mode == "true":
            lexarg, lex = True, self.lex
        elif mode == "name":
            lexarg, lex = kind, self.lex
        else:
            lexarg = lex = self.lex
        if kind == "?":
            # without a language, language specific declarations are not known
            if self.kind not in ("json", "lilypond", "xml"):
                kind = "none"
            else:
                kind = self.kind
        data = self.disk[i]
        if data == "?":
            data = self.world.get(self.path(i))
        exp = FileNotFoundError if data is None else expect_text(data, kind, encoding, errors, newline)
        try:
            doc = parce.Document.load(self.url(i, scheme), lexarg, encoding, errors, newline,
                                      worker=self.worker(worker, lex))
        except (UnicodeError, LookupError) as e:
            if not _same(type(e), exp):
                self.fail("load", "load(%r, %r, %r, %r) of %s raised %r, expected %s" % (lexarg, encoding, errors, newline, _cut(data), e, _cut(exp)))
            self.sim.count("load:undecodable")
        except (OSError, core.InjectedExit) as e:
            if not (exp is FileNotFoundError and isinstance(e, exp)) and not getattr(e, "_injected", False):
                self.fail("load", "load raised %r" % e)
            self.sim.count("load:failed")
        else:
            if isinstance(exp, type):
                self.fail("load", "load(%r, %r, %r, %r) of %s gave a document, expected %s" % (
                    lexarg, encoding, errors, newline, _cut(data), exp.__name__))
            self.loaded(doc, exp, lex, "load(%r, %r, %r, %r) of %s" % (lexarg, encoding, errors, newline, _cut(data)))
            if doc.url != self.url(i, scheme):
                self.fail("load", "url is %r" % doc.url)
            self.doc = doc
            self.text = exp[0]
            self.enc = doc.encoding
            self.undos, self.redos, self.modified = [], [], False
            self.cururl = i
            self.nlex = lex
            self.kind_now = kind
            # the declaration is never edited
            self.guard = min(len(self.text), 60) if "coding" in self.text[:60] or "charset" in self.text[:60] else 0
            if lex is None and self.kind not in ("none", "json", "lilypond", "xml"):
                # saving would not find the declaration either: start anew with the language
                self.doc.set_root_lexicon(self.lex)
                self.doc.get_root(True)

    def loaded(self, doc, exp, lex, what):
        text, allowed = exp
        if doc.text() != text:
            self.fail("load", "%s gave %s, expected %s" % (what, _cut(doc.text()), _cut(text)))
        if doc.modified or doc.can_undo() or doc.can_redo():
            self.fail("load", "a loaded document should not be modified, and have no history")
        if _norm(doc.encoding) not in [_norm(a) for a in allowed]:
            self.fail("load", "%s gave the encoding %r, expected %r" % (what, doc.encoding, allowed))
        if lex is not None and doc.root_lexicon() is not lex:
            self.fail("load", "%s: root lexicon is %r" % (what, doc.root_lexicon()))
        root = doc.get_root(True)
        # not in an atomic section: it uses locks that may be held by others
        exp = self.world.refs.tree(text, lex)[0] if lex is not None else None
        with self.sim.atomic():
            if lex is not None and oracle.sig(root) != exp:
                self.fail("load", "%s: the tree is not that of the text" % what)
        self.sim.count("load:ok")

    def op_shared(self, i, errors, newline):
        """Load a file that somebody else replaces meanwhile."""
        if i >= len(self.world.shared):
            return
        s = self.world.shared[i]
        b = s["v"]
        try:
            doc = parce.Document.load(s["path"], DEFAULTS[s["kind"]], None, errors, newline)
        except (OSError, core.InjectedExit) as e:
            if not getattr(e, "_injected", False):
                self.fail("load", "load raised %r" % e)
            return
        except (UnicodeError, LookupError) as e:
            got = type(e)
            text = None
        else:
            got = text = doc.text()
        for v in range(b, s["v"] + 1):
            exp = expect_text(bytes.fromhex(s["data"][v]), s["kind"], None, errors, newline)
            if isinstance(exp, type):
                if text is None and _same(got, exp):
                    break
            elif text == exp[0]:
                self.loaded(doc, exp, DEFAULTS[s["kind"]], "load of a shared file")
                break
        else:
            self.fail("load", "loading a file that is replaced gave %s, not one of the versions %d-%d" % (_cut(got), b, s["v"]))

    def op_xwrite(self, i, data):
        """Somebody else writes the file (not at the same moment)."""
        data = bytes.fromhex(data)
        self.world.put(self.path(i), data)
        self.disk[i] = data

    def finish(self):
        """Faults end: saving succeeds."""
        for _ in range(len(self.world.plan["faults"]) + 1):
            exp = expect_bytes(self.text, self.kind, "utf-16" if "\ud800" not in self.text else "utf-8", None)
            if isinstance(exp, type):
                break
            if self.op_save(0, "utf-16", "", 0):
                self.check("the last save")
                break
            self.check("failed save")
        else:
            self.fail("save", "saving does not succeed although nothing fails any more")


class World:
    def __init__(self, plan, checks):
        global DIR
        self.plan = plan
        self.sim = core.Sim(plan["policy"], plan["faults"], keep_trace=plan.get("trace", False))
        DIR = os.path.join(ROOT, str(os.getpid()))
        os.mkdir(DIR)
        del OPEN[:]
        self.refs = oracle.Refs()
        self.shared = []
        for i, s in enumerate(plan["shared"]):
            path = os.path.join(DIR, "s%d.%s" % (i, KINDS[s["kind"]][0]))
            self.shared.append(dict(s, path=path, v=0))
            self.put(path, bytes.fromhex(s["data"][0]))
        self.clients = [Client(self, i, c) for i, c in enumerate(plan["clients"])]

    def put(self, path, data):
        """Write atomically, bypassing the faults."""
        with _real_open(path + "~", "wb") as f:
            f.write(data)
        os.replace(path + "~", path)

    def get(self, path):
        try:
            with _real_open(path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def external(self):
        for s in self.shared:
            for v in range(1, len(s["data"])):
                for _ in range(3):
                    self.sim.yield_point("external")
                with self.sim.atomic():
                    self.put(s["path"], bytes.fromhex(s["data"][v]))
                    s["v"] = v
                self.sim.log("external", v)

    def run(self):
        sim = self.sim
        try:
            for c in self.clients:
                sim.spawn(c.run, "doc%d" % c.n)
            if any(len(s["data"]) > 1 for s in self.shared):
                sim.spawn(self.external, "external")
            outcome = sim.run()
            return core.finish(sim, outcome)
        finally:
            shutil.rmtree(DIR, ignore_errors=True)


def run(plan, checks):
    return World(plan, checks).run()


def _unhex(s):
    return None if s is None else bytes.fromhex(s)


def _same(got, exp):
    if isinstance(exp, type) and isinstance(got, type):
        return issubclass(got, exp)
    return got == exp


def _norm(enc):
    if enc is None:
        return None
    try:
        return codecs.lookup(enc).name
    except LookupError:
        return enc


def _cut(x):
    s = x.__name__ if isinstance(x, type) else repr(x)
    return s if len(s) < 200 else s[:140] + "..." + s[-50:]

