"""Reference model and tree checks."""

from parce.lexer import Lexer
from parce.treebuilder import build_tree

from . import langs


def sig(root):
    """A flat, comparable signature of a tree (iterative: trees can be deep)."""
    out = []
    stack = [iter((root,))]
    while stack:
        for n in stack[-1]:
            if n.is_token:
                out.append((n.pos, n.text, repr(n.action), n.group))
            else:
                out.append(("<", lexname(n.lexicon)))
                stack.append(iter(list(n)))
                break
        else:
            stack.pop()
            out.append(">")
    return tuple(out)


_lexids = {}


def lexname(lex):
    """Lexicons are compared on identity; give them a readable name too."""
    if lex is None:
        return None
    return (lex.fullname, lex.arg, _lexids.setdefault(id(lex), (len(_lexids), lex))[0])


def malformed(root, text):
    """Return a message if the tree is not well-formed, else None."""
    stack = [root]
    if root.parent is not None:
        return "root has a parent"
    pos = 0
    while stack:
        n = stack.pop()
        if n.is_token:
            if text is not None and text[n.pos:n.pos + len(n.text)] != n.text:
                return "token %r at %d is not in the text" % (n.text, n.pos)
            if not n.text:
                return "empty token at %d" % n.pos
            if n.pos < pos:
                return "token %r at %d overlaps or out of order (previous end %d)" % (n.text, n.pos, pos)
            pos = n.pos + len(n.text)
        else:
            if n is not root and not len(n):
                return "empty context %r" % (n.lexicon,)
            for m in n:
                if m.parent is not n:
                    return "wrong parent link at %r" % (m,)
            stack.extend(reversed(list(n)))
    return None


def open_lexicons(lex, text):
    if lex is None:
        return []
    l = Lexer([lex])
    for _ in l.events(text, 0):
        pass
    return l.lexicons[1:]


def char_map(root, length):
    """Per character: the token covering it and its ancestry (what a
    highlighter can see)."""
    m = [None] * length
    stack = [(root, ())]
    while stack:
        n, anc = stack.pop()
        if n.is_token:
            e = n.pos + len(n.text)
            for p in range(n.pos, min(e, length)):
                m[p] = (p - n.pos, n.text, repr(n.action), n.group, anc)
        else:
            anc = anc + (lexname(n.lexicon),)
            for c in n:
                stack.append((c, anc))
    return m


def flat(root):
    """All tokens with their ancestry."""
    out = []
    stack = [(root, ())]
    while stack:
        n, anc = stack.pop()
        if n.is_token:
            out.append((n.pos, n.text, repr(n.action), n.group, anc))
        else:
            anc = anc + (lexname(n.lexicon),)
            stack.extend((c, anc) for c in reversed(list(n)))
    return out


def diff(a, b):
    """Short description of the first difference between two signatures."""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "at %d: got %r, expected %r" % (i, x, y)
    return "length: got %d nodes, expected %d; first extra %r" % (
        len(a), len(b), (a[len(b):] or b[len(a):])[:1])


class Refs:
    """From-scratch results per (text, lexicon), computed before the run."""
    def __init__(self):
        self.cache = {}
        self.tcache = {}
        self.fcache = {}
        self.gcache = {}

    def tree(self, text, lex):
        k = text, id(lex)
        r = self.cache.get(k)
        if r is None:
            root = build_tree(lex, text)
            r = self.cache[k] = (sig(root), [lexname(l) for l in open_lexicons(lex, text)],
                                 char_map(root, len(text)))
        return r

    def flat(self, text, lex):
        k = text, id(lex)
        if k not in self.fcache:
            self.fcache[k] = flat(build_tree(lex, text))
        return self.fcache[k]

    def formats(self, text, lex, i):
        """Per character None (no token) or a one-tuple with the format, found
        without using the Formatter."""
        k = text, id(lex), i
        if k not in self.gcache:
            out = [None] * len(text)
            if lex is not None:
                for t in build_tree(lex, text).tokens():
                    f = langs.expected_format(i, t.parent.lexicon.language, t.action)
                    for p in range(t.pos, t.pos + len(t.text)):
                        out[p] = (f,)
            self.gcache[k] = out
        return self.gcache[k]

    def transform(self, text, lex, spec):
        """What transforming a from-scratch tree should give (computed without
        using the Transformer)."""
        k = text, id(lex), spec
        if k not in self.tcache:
            self.tcache[k] = expected_transform(lex and build_tree(lex, text), spec)
        return self.tcache[k]


def expected_transform(root, spec):
    if root is None or root.lexicon is None:
        return None
    d = langs.TRANSFORMS[spec]
    tag, without, untr = d["tag"], d.get("without", ()), d.get("untransformed", ())
    if root.lexicon.name in without:
        return None

    def ev(ctx):
        name = ctx.lexicon.name
        result = [tag, name, ctx.lexicon.arg]
        for n in ctx:
            if n.is_token:
                result.append(langs.ftok(n))
            elif n.lexicon.name in without:
                if name in untr:
                    result.append(("<untransformed>", langs.fctx(n)))
            else:
                result.append((n.lexicon.name, ev(n)))
        return tuple(result)
    return ev(root)
