"""Which workloads, checks and parameters decide which property."""

REAL_DOC = ("real: parce.Document, WorkerDocumentMixin, Worker, BackgroundWorker, TreeBuilder, Lexer, Lexicon, "
            "Transformer, Observable, the bundled languages; stub: threading.Lock/RLock/Thread/Timer, queue and "
            "clock (simulated primitives under the seeded scheduler; real interpreter threads, one runs at a time)")

A_SC = "threads interleave at line or bytecode boundaries (sequentially consistent, as under the GIL)"
A_LOOK = "languages whose patterns do not look ahead further than ten tokens (stated limit of incremental tokenizing)"
A_MAIN = "text is only modified by one thread per document, as documented"


def p(parts, quick, thorough, components=REAL_DOC, assumptions=(A_SC, A_LOOK, A_MAIN)):
    return dict(parts=parts, quick=quick, thorough=thorough, components=components, assumptions=list(assumptions))


ALL = ["tree", "root", "range", "open", "trans", "cb", "window", "events"]

A_ONE = "every document is edited by one thread"
E_COMP = "real: parce.document.Document, parce.Document with Worker/BackgroundWorker, Cursor, docio; stub: thread primitives and clock (simulated)"
EDIT_F = [("repl", 8, 0.6)]

PROPS = {
    "C17": p([
        dict(workload="obssim", weight=5, checks=["all"]),
        dict(workload="obssim", weight=1, checks=["all"], cfg=dict(nthreads=[2, 3], weights=[2, 4, 1, 0, 6, 0.2], full=1)),
        ], 8000, 300000,
        "real: parce.util.Observable; stub: locks and threads (simulated); callbacks are simulated clients", (A_SC,)),
    "C11": p([dict(workload="editsim", checks=["all"], cfg=dict(fail=0.1, faults=EDIT_F))], 6000, 200000, E_COMP, (A_SC, A_ONE)),
    "C12": p([dict(workload="editsim", checks=["all"], cfg=dict(fail=0.03, faults=EDIT_F, weights=dict(undo=8, redo=6, save=2)))], 6000, 200000, E_COMP, (A_SC, A_ONE)),
    "C13": p([dict(workload="editsim", checks=["all"], cfg=dict(fail=0.03, weights=dict(g=8, cursor=4)))], 6000, 200000, E_COMP, (A_SC, A_ONE)),
    "C01": p([
        dict(workload="docsim", weight=4, checks=["tree", "root", "window"], cfg={}),
        dict(workload="docsim", weight=1, checks=["tree", "root", "window"],
             cfg=dict(nops=[8, 15, 25], ntok=[45, 80, 150], weights=dict(lex=1.5))),
        dict(workload="docsim", weight=1, checks=["tree", "root"], cfg=dict(ndocs=[2], tf=0.5)),
        dict(workload="docsim", weight=2, checks=["tree", "root", "window"], cfg=dict(mixp=0.02, weights=dict(lex=2))),
        dict(workload="tbsim", weight=1, checks=["tree"], cfg=dict(modes=[6, 4, 0])),
        ], 6000, 200000),
    "C02": p([
        dict(workload="docsim", weight=3, checks=["tree", "root", "open"],
             cfg=dict(tf=0.5, weights=dict(root=8, token=3, btok=2, ctok=2, trans=1, lex=1, tf=2), readers=[0, 1, 2, 3], workers=[10, 2, 2, 2], lines=1)),
        dict(workload="docsim", weight=1, checks=["tree", "root", "window"],
             cfg=dict(tf=0.5, weights=dict(root=8, token=3, peek=2, tf=1), nops=[8, 15])),
        ], 6000, 200000),
    "C03": p([
        dict(workload="docsim", weight=4, checks=["range", "open", "tree"], cfg=dict(weights=dict(open=1))),
        dict(workload="docsim", weight=1, checks=["range", "open", "tree"],
             cfg=dict(nops=[8, 15, 25], ntok=[45, 80, 150], tf=0.3, weights=dict(open=1, lex=1.5))),
        dict(workload="tbsim", weight=1, checks=["tree", "range", "open"], cfg=dict(modes=[8, 1, 0])),
        ], 6000, 200000),
    "C04": p([
        dict(workload="docsim", weight=3, checks=["tree", "trans"],
             cfg=dict(tf=1, weights=dict(tf=1, tfflip=1, trans=5, lex=1, ttext=1, swap=0.7), cb=0.1)),
        dict(workload="docsim", weight=2, checks=["tree", "trans"],
             cfg=dict(tf=1, ndocs=[2], weights=dict(tf=1, tfflip=0.7, trans=4, ttext=0.5))),
        dict(workload="tbsim", weight=1, checks=["tree", "trans"], cfg=dict(modes=[4, 2, 3])),
        ], 6000, 200000),
    "C05": p([
        dict(workload="docsim", weight=2, checks=["tree", "cb", "waits"],
             cfg=dict(tf=0.6, weights=dict(tf=0.6, trans=4, root=5), cb=0.3, readers=[1, 2, 3, 4], workers=[10, 2, 1, 3],
                      rops=["root", "trans", "wait", "waitt"])),
        dict(workload="docsim", weight=2, checks=["tree", "handlerfault"],
             cfg=dict(tf=0.7, weights=dict(tf=0.6, trans=4, root=5), cb=0.2, readers=[0, 1, 2, 3],
                      faults=["action", "transform", "thread_start", "handler"], recover=1)),
        ], 6000, 200000),
    "C06": p([
        dict(workload="docsim", weight=4, checks=["tree", "root", "trans", "open", "handlerfault"],
             cfg=dict(tf=0.7, weights=dict(tf=1, trans=3, lex=1), cb=0.2, workers=[10, 4, 3, 3], ndocs=[1, 1, 1, 2],
                      faults=["action", "transform", "thread_start", "handler"], recover=1)),
        dict(workload="docsim", weight=1, checks=["tree", "root", "trans"],
             cfg=dict(tf=0.7, weights=dict(tf=1, trans=3, lex=2), workers=[10, 4, 3, 3],
                      faults=["action", "action", "transform"], recover=1)),
        dict(workload="tbsim", weight=1, checks=["tree", "trans", "open"], cfg=dict(faults=1, modes=[6, 3, 1])),
        ], 6000, 200000),
    "C07": p([
        dict(workload="docsim", weight=4, checks=["tree", "trans", "cb"],
             cfg=dict(tf=0.6, weights=dict(trans=3, root=3, tf=0.4, settle=2, ask=6, swap=2), cb=0.8,
                      readers=[0, 0, 1, 2], rops=["root", "trans", "rootcb", "rootcb"])),
        dict(workload="docsim", weight=1, checks=["tree", "trans", "cb"],
             cfg=dict(tf=0.6, ndocs=[2], weights=dict(trans=5, root=6, ask=3, settle=2), cb=0.6)),
        dict(workload="docsim", weight=2, checks=["tree", "trans", "cb"],
             cfg=dict(tf=0.6, weights=dict(trans=3, root=3, ask=6, settle=2), cb=0.8,
                      faults=["callback", "callback", "callback", "action", "transform", "thread_start"], recover=1)),
        ], 6000, 200000),
    "C08": p([
        dict(workload="docsim", weight=4, checks=["tree", "root", "window", "events"],
             cfg=dict(tf=0.5, weights=dict(peek=3, tf=0.3, trans=1), cb=0.1)),
        dict(workload="docsim", weight=1, checks=["tree", "range", "window", "events"],
             cfg=dict(tf=0.5, weights=dict(peek=2), nops=[8, 15])),
        dict(workload="tbsim", weight=1, checks=["tree", "window", "events"], cfg=dict(modes=[6, 3, 0])),
        ], 6000, 200000),
    "C09": p([dict(workload="firstuse", checks=["all"])], 10000, 300000,
        "real: parce.lexicon, language, rule, standardaction, util (cached_*, caching_dict, object_locker, Dispatcher, Switch, "
        "Symbol), theme, formatter, transform, indent; stub: locks and threads (simulated); factories are simulated user code", (A_SC,)),
    "C10": p([
        dict(workload="docsim", weight=3, checks=["tree", "root", "trans", "cb", "window", "events", "open"],
             cfg=dict(ndocs=[2, 2, 3], tf=0.8, weights=dict(tf=0.5, trans=3), cb=0.2)),
        dict(workload="docsim", weight=1, checks=["tree", "range", "trans"],
             cfg=dict(ndocs=[2, 3], tf=0.5, weights=dict(trans=2))),
        dict(workload="editsim", weight=3, checks=["all"], cfg=dict(fail=0.05, ndocs=[2, 3])),
        dict(workload="tbsim", weight=1, checks=["tree", "trans", "range", "open", "events", "window"], cfg=dict(nclients=[2, 3], modes=[4, 3, 3])),
        dict(workload="tbsim", weight=1, checks=["trans"], cfg=dict(nclients=[2, 3], modes=[0, 0, 1], mixp=1)),
        ], 6000, 200000),
    "C14": p([dict(workload="iosim", checks=["all"])], 4500, 300000,
        "real: parce.docio, parce.Document, BackgroundWorker, Worker, registry, language IO classes, io buffering and codecs, the "
        "file system (scratch directory); stub: raw file access (FaultRaw), thread primitives and clock (simulated)",
        (A_SC, A_ONE, "a file is not written by two at the same time, except by replacing it")),
    "C15": p([dict(workload="cssim", checks=["all"])], 4500, 300000,
        "real: parce.util.file_cache, parce.css, parce.theme, the CSS language, lexer and transform, io buffering and codecs, the "
        "file system (scratch directory); stub: raw file access (FaultRaw), os.stat (can fail), time stamps of files (chosen by "
        "the plan), thread primitives (simulated)",
        (A_SC, A_ONE, "files are replaced as a whole, and every version of a file has its own time stamp",
         "imported files are in the same directory")),
    "C16": p([
        dict(workload="docsim", weight=4, checks=["tree", "root", "window", "peek", "range"],
             cfg=dict(peek=[1, 3, 8, 20, 60], ntok=[10, 25, 45, 80, 150], weights=dict(peek=1))),
        dict(workload="docsim", weight=1, checks=["tree", "window", "peek", "open"],
             cfg=dict(peek=[1, 3, 8, 20], tf=0.5, ntok=[45, 80, 150], weights=dict(lex=2))),
        ], 6000, 200000),
    "C18": p([
        dict(workload="docsim", weight=4, checks=["tree", "format"], cfg=dict(fmt=1, weights=dict(fmt=2, lex=1))),
        dict(workload="docsim", weight=1, checks=["tree", "format"],
             cfg=dict(fmt=1, langs=["lilypond", "lilypond", "sub", "css", "xslt"], weights=dict(fmt=2))),
        dict(workload="docsim", weight=1, checks=["tree", "format"], cfg=dict(fmt=1, ndocs=[2, 3], share=0.9, weights=dict(fmt=8))),
        ], 6000, 200000),
    "C19": p([
        dict(workload="docsim", weight=3, checks=["tree", "root"],
             cfg=dict(lines=1, langs=["css", "lilypond", "mix", "mix", "xml", "tcl"],
                      weights=dict(ind=6, btok=3, ctok=3, e=6, token=1))),
        dict(workload="docsim", weight=2, checks=["tree"],
             cfg=dict(lines=1, ndocs=[2, 3], share=0.9, langs=["css", "lilypond", "mix"], weights=dict(ind=12, btok=1, ctok=1, e=4))),
        ], 6000, 200000),
    "C20": p([dict(workload="lifesim", checks=["all"])], 4000, 200000,
        assumptions=(A_SC, A_LOOK, A_MAIN, "released: after a garbage collection; no collection is needed at any particular moment")),
}

NOTE = ("Sampling, not proof: no violation in the runs explored, each an exactly repeatable seeded execution of the real "
        "code; trusts the simulator and the oracle.")
NOTES = {}
_PURE = ("a pure function of its input: no concurrency, time, I/O, failure or history it could depend on, so there is no schedule or "
         "fault to search over; %s")
NA = {
    "N01": _PURE % "the simulation uses the same lexer as its reference, and would not see that both are wrong",
    "N02": _PURE % "the up-to-dateness of the tree these functions work on is decided in C02 and C19",
    "N03": _PURE % "patterns are computed once and then constant",
    "N04": _PURE % "incremental formatting is decided in C18, loading of style sheets in C15",
}


def modules(prop):
    return sorted({part["workload"] for part in PROPS[prop]["parts"]})
