"""Languages, transforms and text alphabets for the simulated clients.

The code in this file plays the role of *user* code: it is called by parce
from inside its threads, it can be preempted at every line, and the simulator
can make it raise (see :func:`user`).
"""

import contextlib
import signal
import sys
import types

from parce import Language, lexicon, skip, default_action, default_target
import parce.action as a
from parce import indent
from parce.formatter import Formatter
from parce.indent import Indent
from parce.theme import Theme
from parce.rule import (
    ARG, MATCH, TEXT, arg, bygroup, call, derive, ifmember, select, using)
from parce.transform import Transform, Transformer

from . import core


def user(site):
    """A fault point in simulated user code."""
    sim = core.SIM
    if sim is not None and not sim.paused:
        if sim.fault(site):
            raise core.injected(site)


def is_key(text):
    """Predicate used by dynamic rules; may be made to raise."""
    user("action")
    return text in ("if", "do", "let")


class Mix(Language):
    """Exercises every feature of the lexer that influences rebuilding."""
    @lexicon
    def root(cls):
        yield from cls.common()

    @classmethod
    def common(cls):
        yield r'"', a.String.Start, cls.string
        yield r"'", a.Quote, cls.squote
        yield r'\(', a.Delimiter, cls.paren
        yield r'\{', a.Bracket, cls.brace
        yield r'<(\w)>', a.Name.Tag, derive(cls.tag, MATCH[1])
        yield r'(@)(\w+)(=)?', bygroup(a.Delimiter, a.Name.Variable, a.Operator)
        yield r'(&)(\w+)(;)', bygroup(a.Delimiter, a.Name.Entity, a.Delimiter), cls.after
        yield r'/\*', a.Comment.Start, cls.comment
        yield r'#', a.Comment, cls.line
        yield r'=>', a.Operator, cls.two, cls.paren
        yield r'\$', a.ModeChange, cls.dflt
        yield r'\^', a.ModeChange, cls.cyc
        yield r'~', a.ModeChange, Sub.root
        yield r'`([^`\n]{0,6})`', using(Sub.root)
        yield r'[a-z]+', select(call(is_key, TEXT), a.Name, a.Keyword)
        yield r'\d+', a.Number

    @lexicon
    def string(cls):
        yield r'"', a.String.End, -1
        yield r'\\.', a.String.Escape
        yield default_action, a.String

    @lexicon(consume=True)
    def squote(cls):
        yield r"'", a.Quote, -1
        yield r'\w+', a.Text

    @lexicon
    def paren(cls):
        yield r'\)', a.Delimiter, -1
        yield r'\]', a.Delimiter, -2
        yield from cls.common()

    @lexicon(consume=True)
    def brace(cls):
        yield r'\}', a.Bracket, -1
        yield r';', a.Separator
        yield from cls.common()

    @lexicon
    def tag(cls):
        yield arg(prefix="</", suffix=">"), a.Name.Tag.End, -1
        yield from cls.common()

    @lexicon
    def after(cls):
        yield r'\+', a.Operator
        yield default_target, -1

    @lexicon
    def comment(cls):
        yield r'\*/', a.Comment.End, -1
        yield default_action, a.Comment

    @lexicon
    def line(cls):
        yield r'\n', a.Whitespace, -1
        yield r'\w+', a.Comment
        yield r'[^\w\n]+', a.Comment.Special

    @lexicon
    def two(cls):
        yield r'\.', a.Delimiter, -1
        yield r'[A-Z]', a.Name.Class
        yield from cls.common()

    @lexicon
    def dflt(cls):
        yield r'\d', a.Number
        yield r'(?=[a-z])', None, cls.words
        yield default_target, -1

    @lexicon
    def words(cls):
        yield r'[a-z]', a.Text
        yield default_target, -1


    @lexicon
    def cyc(cls):
        """Default targets that would go round for ever."""
        yield r'k', a.Name.Symbol
        yield r'!', a.Delimiter, -1
        yield default_target, cls.cyc2

    @lexicon
    def cyc2(cls):
        yield r'm', a.Name.Symbol
        yield r'!', a.Delimiter, -2
        yield default_target, -1, cls.cyc3

    @lexicon
    def cyc3(cls):
        yield r'n', a.Name.Symbol
        yield default_target, -1, cls.cyc2


class Sub(Language):
    """Embedded language, uses lexicon arguments for its state."""
    @lexicon
    def root(cls):
        yield r'~', a.ModeChange, -1
        yield r'\|(\w)', a.Name.Definition, -1, derive(cls.root, MATCH[1])
        yield r'\(', a.Delimiter, cls.root
        yield r'\)', a.Delimiter, -1
        yield r'(\w)', select(call(same, MATCH[1], ARG), a.Name, a.Name.Constant)
        yield r'"', a.String, cls.string
        yield r'`', a.Quote

    @lexicon(consume=True)
    def string(cls):
        yield r'"', a.String, -1
        yield default_action, a.String


def same(text, arg):
    user("action")
    return text == arg


def ftok(t):
    """Token in a transform result: no positions (a tail token may move)."""
    return (t.text, repr(t.action))


def fctx(c):
    """An untransformed context in a transform result."""
    return (repr(c.lexicon), c.lexicon.arg) + tuple(
        ftok(n) if n.is_token else fctx(n) for n in c)


def make_transform(tag, without=(), untransformed=()):
    """Return a Transform instance with methods for all lexicons, except those
    named in ``without``. Methods in ``untransformed`` get unknown contexts too.

    """
    def build(name):
        def method(self, items):
            user("transform")
            result = [tag, name, items.arg]
            for i in items:
                if i.is_token:
                    result.append(ftok(i))
                elif i.name == "<untransformed>":
                    result.append((i.name, fctx(i.obj)))
                else:
                    result.append((i.name, i.obj))
            return tuple(result)
        if name in untransformed:
            method.add_untransformed = True
        return method

    methods = {}

    class Tf(Transform):
        def __getattr__(self, name):
            if name.startswith("__") or name in without:
                raise AttributeError(name)
            m = methods.get(name)
            if m is None:
                m = methods[name] = build(name)
            return types.MethodType(m, self)
    return Tf()


TRANSFORMS = [
    dict(tag="A"),
    dict(tag="B", without=("paren", "string", "object", "tag"), untransformed=("root", "brace")),
    dict(tag="C", without=("comment", "words", "key", "attrs")),
    dict(tag="D", without=("root",)),
]


def make_transformer(spec):
    """Return a Transformer; spec is an index in TRANSFORMS."""
    t = Transformer()
    tf = make_transform(**TRANSFORMS[spec])
    for lang in LANGUAGES:
        t.add_transform(lang, tf)
    return t


LANGUAGES = []


def find_languages():
    result = [Mix, Sub, Lead]
    for name in sorted(sys.modules):
        if name.startswith("parce.lang."):
            for k, v in sorted(vars(sys.modules[name]).items()):
                if isinstance(v, type) and issubclass(v, Language) and v is not Language \
                        and v not in result:
                    result.append(v)
    return result


MIX = ['"', "'", '(', ')', '{', '}', '<a>', '</a>', '<b>', '</b>', '@x', '@yy=',
       '&amp;', '+', '/*', '*/', '#', '\n', '=>', '.', 'A', '$', '1a', '~', '|q',
       'q', 'if ', 'do ', 'let', 'abc ', ' ', '12', ']', ';', '%', '\\"', 'é', 'w ', '^', 'km', '!', 'n', '`a(b`']

ALPHABETS = {
    "drop": ["x", "y", "z", " "],
    "lead": ["x", "y", "z", "w", " ", "xy", "xyw", "zwz"],
    "mix": MIX,
    "sub": ['~', '|a', '|b', 'a', 'b', '(', ')', '"', ' ', 'x', '1'],
    "json": ['{', '}', '[', ']', '"', '"a"', ':', ',', '1', '-2.5e3', 'true', 'null',
             ' ', '\n', '\\n', '\\u00e9', '"k": 1, ', 'x'],
    "xml": ['<a>', '</a>', '<b c="d">', '</b>', '<!--', '-->', '&amp;', '&#65;', '<?p', '?>',
            '<![CDATA[', ']]>', 'text ', '"', '=', '/>', '<e/>', '\n', '<!DOCTYPE x', '>', '<'],
    "css": ['a', '{', '}', ':', ';', '.c', '#id', '@media', '(', ')', 'color', ' red', '"', "'",
            '/*', '*/', '12px', '%', '!important', '\n', ' > ', '[x=y]', 'url(', '\\', '#fff', ','],
    "html": ['<p>', '</p>', '<style>', '</style>', '<script>', '</script>', 'a{color:red}',
             'var x = 1;', '<b class="c">', '</b>', '<!--', '-->', '&lt;', ' text', '"', '>', '<br>',
             'style="color: red"'],
    "python": ['def f(x):\n', '    ', 'pass\n', '"', "'", '"""', "'''", '#c\n', 'f"', '{x}', '(', ')',
               '[', ']', '1.5', 'x', ' = ', 'if ', ':', '\\', '\n', 'lambda ', '@d\n', 'r"', 'b\'', ','],
    "scheme": ['(', ')', '"', ';c\n', '#|', '|#', "'", '#t', ' x', ' 1/2', '#\\a', '#(', '\\', '\n', '#!', '!#'],
    "javascript": ['function f(a) {', '}', '{', '(', ')', '"', "'", '`', '${', '/*', '*/', '//c\n', '/re/g',
                   ' x', ' = ', '1', ';', '\n', '[', ']', 'if ', '.y', '=>', '\\'],
    "tex": ['\\begin{a}', '\\end{a}', '{', '}', '$', '$$', '\\[', '\\]', '%c\n', ' text', '\\cmd', '[', ']',
            '\\begin{verbatim}', '\\end{verbatim}', '&', '\n', '\\begin{document}', '\\\\'],
    "lilypond": ['{', '}', "c'", ' d4', '<<', '>>', '<c e>', '\\relative ', '\\score', '\\lyricmode', '"', '%{',
                 '%}', '%c\n', '#(x', ')', "#'a", '\\markup', '(', ' = ', '\\\\', '|', '-.', ' text', '--', '\n', '#{', '#}'],
    "ini": ['[s]', '\n', 'k', '=', ' v', ';c', '#c', '"', '[', ']', ' ', '\\', ':'],
    "bash": ['if ', 'then\n', 'fi\n', '"', "'", '$x', '${', '}', '$(', ')', '(', '`', '#c\n', '\\', ' a', '\n',
             '<<E\n', 'E\n', '{', ';', '[[', ']]', '=', '|', 'case ', ' in ', 'esac', '$((', '))'],
    "csv": ['a', ',', '"', '\n', ' b', '""', '1'],
    "toml": ['[t]', '\n', 'k', ' = ', '"', "'", '"""', "'''", '1', '{', '}', '[', ']', '#c', ',', 'true', '.', '2020-01-01', '\\'],
    "c": ['int ', 'x', '{', '}', '(', ')', '"', "'", '/*', '*/', '//c\n', '#define ', '\n', '\\\n', '1.0', ';', '<', '>', 'struct '],
    "tcl": ['set ', 'x', ' ', '{', '}', '[', ']', '"', '$y', '#c\n', '\n', ';', '\\', '1'],
    "texinfo": ['@node ', '@c x\n', '@{', '{', '}', '@code{', '@verbatim\n', '@end verbatim\n', 'text', '\n', '@ignore\n', '@end ignore\n', '@b'],
    "troff": ['.TH x\n', '\\f', '\\"', '"', 'text ', '\n', '.de X\n', '..\n', "'", '\\(', '.\\"'],
    "xslt": ['<xsl:template match="a">', '</xsl:template>', '<b>', '</b>', '<!--', '-->', 'x', '&lt;', '<a b="{c}">', '"', '>', '<'],
    "docbook": ['<para>', '</para>', '<b>', '</b>', 'x', '&lt;', '<!--', '-->', '"', '>', '<'],
}

# Incremental tokenizing compares at least ten tokens before the change; it is
# exact only for languages whose patterns do not look further ahead than that.
# Only bundled languages with a bounded look-ahead are used (no JavaScript or
# HTML, where a regexp literal can extend over any number of tokens, no Python,
# C or TOML, which look for the end of the line in strings, etc).
_bundled = ["json", "xml", "css", "scheme", "lilypond", "ini", "csv", "tcl",
            "texinfo", "xslt", "docbook"]

LEXICONS = {}
FINDINGS = ("drop",)        # languages only used to show a known finding


class Drop(Language):
    """Matches with text that is in no token (see known_findings.jsonl)."""
    @lexicon
    def root(cls):
        yield r'(x)(y)(z)', bygroup(skip, a.Name, skip)
        yield r'y', a.Name
        yield r'z', a.Number


class Lead(Language):
    """Matches that start with text that is in no token."""
    @lexicon
    def root(cls):
        yield r'(x)(y)(w)', bygroup(skip, a.Name, a.Number)
        yield r'(x)(y)', bygroup(skip, a.Name)
        yield r'y', a.Name
        yield r'(z)(w)(z)', bygroup(a.Number, a.Name, a.Number)
        yield r'w', a.Name
        yield r'z', a.Number


def setup():
    """Fill LEXICONS: name -> list of root lexicons that may be set, and load
    everything once (no first-use effects inside a run)."""
    LANGUAGES[:] = find_languages()
    import parce
    from parce.treebuilder import build_tree
    LEXICONS["mix"] = [Mix.root, Mix.paren, Mix.tag("a"), Mix.tag("b"), Mix.tag, None, Mix.string, Sub.root("q")]
    LEXICONS["sub"] = [Sub.root, Sub.root("a"), Sub.root("b"), None, Mix.root, Sub.string]
    for n in _bundled:
        l = parce.find(n)
        if l is None:
            continue
        others = sorted({x for x in dir(l.language) if isinstance(getattr(l.language, x), type(l))} - {l.name})
        LEXICONS[n] = [l, None, Mix.root] + [getattr(l.language, x) for x in others]
    LEXICONS["drop"] = [Drop.root]
    LEXICONS["lead"] = [Lead.root, None]
    # code under test that fails or never ends here is found by the runs
    left = [10]
    for name, lexs in LEXICONS.items():
        for lex in lexs:
            if lex is not None and left[0] > 0:
                try:
                    with limited(5):
                        build_tree(lex, "".join(ALPHABETS[name]))
                except TookTooLong:
                    left[0] -= 5
                except Exception:
                    pass
    return LEXICONS


class TookTooLong(Exception):
    pass


@contextlib.contextmanager
def limited(secs):
    """Interrupt the code when it does not end in time (main thread, only
    before the runs)."""
    def stop(*args):
        raise TookTooLong
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def gen_text(rng, name, n):
    al = ALPHABETS[name]
    k = rng.choice([len(al)] * 6 + [max(3, len(al) // 3)] * 3 + [2, 3])
    sub = rng.sample(al, k)
    return "".join(rng.choice(sub) for _ in range(n))


def gen_lines(rng, name, n):
    """Text in lines with all kinds of indent and trailing blanks."""
    al = ALPHABETS[name]
    out = []
    for i in range(n):
        if rng.random() < 0.25:
            out.append(rng.choice(["", "", " ", "\t", "   "]) + "\n" + rng.choice(["", "", " ", "  ", "\t", "    "]))
        out.append(rng.choice(al))
    return "".join(out)


# --------------------------------------------------------------------------
# indenting

class MixIndent(Indent):
    """Indents Mix; needs the tree for it."""
    def events(self, block, tokens, prev_indents):
        if tokens and not tokens[0].is_first() and tokens[0].parent.lexicon == Mix.string and tokens[0].pos < block.pos:
            yield indent.NO_INDENT
            yield indent.NO_STRIP
        for t in tokens:
            if t.text in ("(", "{", "["):
                yield indent.INDENT
            elif t.text in (")", "}", "]"):
                yield indent.DEDENT
            elif t.action is a.Comment and t.pos == block.pos:
                yield indent.PREFER_INDENT, " "


def new_indenter(tabs):
    i = indent.Indenter()
    if tabs:
        i.indent_string = "\t"
        i.indent_blank_lines = False
    return i


# --------------------------------------------------------------------------
# formatting

SHEET1 = """
.parce { color: black; background: white; }
.parce .literal { color: red; }
.parce .string { color: green; }
.parce .comment { color: gray; font-style: italic; }
.parce .keyword { font-weight: bold; }
.parce .name { color: blue; }
.parce .name.tag { text-decoration: underline; }
.parce .delimiter { background: yellow; }
.parce .number { color: #123456; }
"""

SHEET2 = """
.parce { color: yellow; background: navy; }
.parce .name { color: lime; }
.parce .name.constant { color: white; }
.parce .string { font-weight: bold; }
.parce .delimiter { color: orange; }
.parce .modechange { color: orange; }
"""

SHEET3 = SHEET2 + """
.parce ._unparsed { color: silver; }
"""

#: sheet of the default theme, of the theme for other languages, add the base
#: format; gaps: text outside tokens gets no format
FORMATTERS = [
    dict(default=SHEET1, base=False, gaps=True),
    dict(default=SHEET1, other=SHEET2, base=False, gaps=True),
    dict(default=SHEET1, other=SHEET2, base=True, obase=False),
    dict(default=SHEET3, other=SHEET1, base=False, obase=True),
    dict(default=SHEET2, other=SHEET3, base=True, obase=True),
]


def other_languages():
    return [Sub] + [LEXICONS[n][0].language for n in ("css", "python", "scheme", "javascript") if n in LEXICONS]


def fmt(tf):
    return tuple(sorted(tf.css_properties().items())) or None


def make_formatter(i):
    spec = FORMATTERS[i]
    f = Formatter(None, fmt)
    f.add_theme(Theme(stylesheet=spec["default"]), None, spec["base"])
    if "other" in spec:
        t = Theme(stylesheet=spec["other"])
        for l in other_languages():
            f.add_theme(t, l, spec.get("obase", False))
    return f


_themes = {}


def expected_format(i, language, action):
    spec = FORMATTERS[i]
    sheet, base = spec["default"], spec["base"]
    if "other" in spec and language in other_languages():
        sheet, base = spec["other"], spec.get("obase", False)
    if sheet not in _themes:
        _themes[sheet] = Theme(stylesheet=sheet)
    t = _themes[sheet]
    tf = t.textformat(action)
    return fmt(t.baseformat() + tf if base else tf)


def gen_insert(rng, name):
    al = ALPHABETS[name]
    r = rng.random()
    if r < 0.15:
        return ""
    if r < 0.6:
        return rng.choice(al)
    if r < 0.75:
        s = rng.choice(al)
        return s[rng.randrange(len(s))]
    return "".join(rng.choice(al) for _ in range(rng.choice([2, 2, 3, 5, 12])))
