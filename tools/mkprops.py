import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=state,meaning="state the property is about",where=files[0])],observe_at=[observe],hook_needed=None)))

p("C01","After any edits and any schedule, the token tree equals a fresh parse",
"Once no work is left, the token tree of a document equals, token for token and context for context, the tree that tokenizing the current text from scratch with the current root lexicon yields, and it is well formed. This holds for every sequence of edits, grouped edits, undo, redo and root lexicon changes, also when they arrive while an earlier update is still running, for every kind of worker and every interleaving of its threads.",
["schedules","inputs","histories"],"all edit histories x all interleavings of editing thread and background worker, for languages whose patterns look ahead at most ten tokens",
"The tests rebuild a few fixed texts synchronously; an edit arriving between any two steps of a running background rebuild is never controlled.",
["parce/treebuilder.py","parce/treebuilderutil.py","parce/work.py","parce/tree.py","parce/lexer.py"],
[("TreeBuilder.process/process_changes/build_new_tree/replace_tree","parce/treebuilder.py"),("Changes.add","parce/treebuilderutil.py"),("Worker.update/process","parce/work.py")],
"TreeBuilder.changes, the tree under TreeBuilder.root","Document.get_root() at quiescence")

p("C02","A root handed out is complete, current and stays intact until the next change",
"Whenever asking for the tree returns one (with waiting: always; without: if it is not None), it is the same root object as ever and is the complete tree of the text at that moment, never a partly updated or outdated one. It then stays unchanged until the text or the root lexicon is changed again. Looking up a token at a position, cursor or line right after an edit uses that same up-to-date tree.",
["schedules","histories"],"all moments of asking relative to edits and background progress, from the editing thread and from other threads",
"The race between announcing a finished build and a new edit needs a specific interleaving that the tests never produce.",
["parce/work.py","parce/treebuilder.py"],
[("Worker.get_root, Worker.process","parce/work.py"),("WorkerDocumentMixin.get_root/token","parce/work.py")],
"Worker job and build state","Document.get_root(wait), Document.token(), Cursor/Block tokens")

p("C03","Reported updated ranges cover every change in the token tree",
"The ranges reported in update events (by tree builder, worker and document, and by a tree builder used on its own) cover every text position whose token, token action or enclosing contexts changed since the previous report, so a highlighter that only refreshes reported ranges is always right in the end. After a finished update, the reported open lexicons are those left open by tokenizing the current text from scratch.",
["schedules","inputs","histories"],"all edit histories and interleavings, including builds that take several rounds because edits arrive meanwhile",
"Tests only look at single synchronous edits; merged and restarted builds are not reached.",
["parce/treebuilder.py","parce/work.py"],
[("TreeBuilder.replace_tree/process (start, end, tail)","parce/treebuilder.py"),("Worker tree_updated","parce/work.py")],
"TreeBuilder.start/end/lexicons","updated / tree_updated events, modified_range(), open_lexicons()")

p("C04","The transform result always equals transforming the tree from scratch",
"When asking for the transformed result returns a result, it equals what transforming a freshly parsed tree of the current text with the current transformer gives, whatever was cached from earlier versions. This holds for all edit histories and schedules, when edits interrupt a running transform, when the transformer is exchanged at any moment or shared by several documents, and for a transformer connected to tree builders directly. A transform that is interrupted stops soon and stores no result, and interrupting one never affects another.",
["schedules","inputs","histories"],"all histories of edits and transformer changes x all interleavings with a background transform",
"The tests transform a few texts once; cache invalidation while a transform is interrupted is never exercised.",
["parce/transform.py","parce/work.py"],
[("Transformer.transform_tree / invalidate_node / interrupt","parce/transform.py"),("Worker.get_transform/set_transformer","parce/work.py")],
"Transformer cache per context, Worker transform state","Document.get_transform(wait)")

p("C05","Waiting always ends: no deadlock, no lost wake-up, no endless rebuilding",
"Every call that waits for a tree or a transform returns after a bounded number of steps once editing stops, for every number of waiting threads and every schedule; called from an event handler that announces the result it returns at once. This includes runs in which user code called during the work raises an exception or a background thread cannot be started, and nothing keeps running or stays blocked for ever afterwards.",
["schedules","fault_sequences","histories"],"all interleavings of any number of waiters, edits, failing user code and failing thread starts",
"A lost notification or missing state reset only shows in a particular interleaving or after a failure at a particular moment.",
["parce/work.py","parce/treebuilder.py","parce/transform.py","parce/util.py"],
[("Worker.process, wait_build, wait_transform","parce/work.py"),("BackgroundWorker.run_process","parce/work.py")],
"Condition variable and job state of Worker","return of get_root(True), get_transform(True) in all threads")

p("C06","After a failure in user code the next edit restores everything",
"When code called during tokenizing, transforming or notifying raises an exception, or a thread cannot be started, at any moment, the text itself is unaffected and the document stays usable. Once the failures stop, the next edit brings tree and transform result back to exactly those of the current text and root lexicon.",
["schedules","fault_sequences","histories"],"all failure points in lexing, transforming, event handlers and thread start x schedules x later edits",
"No test makes user code fail inside a running build.",
["parce/work.py","parce/treebuilder.py","parce/transform.py"],
[("TreeBuilder.process cleanup","parce/treebuilder.py"),("Worker.process cleanup","parce/work.py")],
"pending changes, job state, transform cache","Document after the failing operation and the next edit")

p("C07","Completion callbacks are called exactly once and never too early",
"A callback given while asking for the tree or the transform result without waiting is called exactly once if no result was returned, and not at all if a result was returned immediately. When it is called, the tree (and the transform result) is that of the text at the moment of asking or of a later version, and it gets the object that was asked.",
["schedules","histories"],"all moments of registering callbacks relative to edits, builds, transforms and each other",
"Tests never register callbacks while a build is in progress in another thread.",
["parce/work.py"],
[("Worker.get_root/get_transform callback handling, _call_back","parce/work.py"),("WorkerDocumentMixin.get_root/get_transform","parce/work.py")],
"callback lists of Worker","the callbacks")

p("C08","Update events follow the documented order and the tree only changes inside it",
"Every update announces itself as started, then updated with a range, then finished, in this order and each exactly once, followed by the announcement of a finished transform when there is a transformer and no newer edit takes over. The tree visible to others never changes except between the announcement that it will be replaced and the updated event, at updated it is the exact parse of a version of the text, and the root object always stays the same.",
["schedules","histories"],"all edit histories and interleavings, observed at every event and at arbitrary moments in between",
"It is about what observers see at every moment of concurrent builds.",
["parce/treebuilder.py","parce/work.py"],
[("TreeBuilder events","parce/treebuilder.py"),("Worker.start_build/finish_build events","parce/work.py")],
"event sequence, the tree between events","events of TreeBuilder and Worker; polling the tree")

p("C09","Concurrent first use creates every shared object once, complete and usable",
"Lexicons, derived lexicons, standard actions, dispatch tables, text formats, per-language transforms and indenters and cached functions, methods, properties and dictionaries are safe to use from several threads at once: all threads get the identical, completely initialised object, and the factory code runs once per key. If the factory raises, the exception reaches the caller, nothing half-made is kept, no lock stays held and the next use simply tries again; a lock on an object excludes all other threads and is forgotten when nobody uses it.",
["schedules","fault_sequences"],"all interleavings of two or more threads at first use, with factories failing at any call",
"First use happens once per process, single threaded in the tests.",
["parce/lexicon.py","parce/standardaction.py","parce/util.py","parce/registry.py","parce/language.py","parce/indent.py","parce/transform.py"],
[("LexiconDescriptor.__get__, Lexicon.__call__, Lexicon.parse","parce/lexicon.py"),("StandardAction.__getattr__","parce/standardaction.py"),("cached_method, cached_func, caching_dict, object_locker, Dispatcher, Switch","parce/util.py")],
"module and class level caches","the objects returned in all threads, number of factory calls")

p("C10","Documents in different threads do not influence each other",
"Any number of documents, edited from their own threads and sharing languages, a transformer, a formatter or an indenter, behave exactly as when each was alone: trees, transform results, undo history, modified state, cursors and events of one document never depend on what happens to another.",
["schedules","histories"],"all interleavings of two or three documents and their workers, from the very first use of shared classes",
"Tests use one document at a time.",
["parce/work.py","parce/document.py","parce/transform.py","parce/lexicon.py","parce/util.py"],
[("Transformer caches","parce/transform.py"),("Switch","parce/util.py"),("Document undo/redo","parce/document.py")],
"shared class level state and shared Transformer","every document")

p("C11","Grouped edits are applied all or nothing",
"Edits made inside an edit context become visible together when the outermost context ends, as if applied at once to the text before the context, with one notification describing exactly the changed region. If an exception leaves the outermost context, or the edits overlap and cannot be applied, the text, the undo history, the cursors and the tree are as if the context never happened and the document accepts new edits; this includes replace, regular expression and translate operations whose user code fails half way.",
["histories","fault_sequences","inputs"],"all combinations of nested contexts, edits, failure points and conflicting edits",
"Tests do not raise at every point of nested edit contexts nor check the state afterwards.",
["parce/mutablestring.py","parce/document.py"],
[("__enter__/__exit__/_apply_changes/_get_changes","parce/mutablestring.py"),("re_sub/replace/translate","parce/document.py")],
"pending change list, edit context depth","text(), undo state, events, cursors")

p("C12","Undo and redo restore exactly the text and modified state of every step",
"After any history of edits, grouped edits, saves, undos and redos, each undo brings back exactly the text and modified state before the step, each redo exactly those after it, a new edit discards what could be redone, and the availability flags and their events tell the truth at every moment. Failing operations do not add, lose or reorder steps.",
["histories","fault_sequences","inputs"],"all histories of edits, groups, undo, redo, saves, clearing and failures, also with several documents in different threads",
"Tests sample a handful of edit/undo sequences.",
["parce/document.py","parce/docio.py"],
[("_store_undo, _apply_undo_redo, _check_undo_state, modified setter","parce/document.py")],
"undo and redo stacks, modified flag","text(), modified, can_undo/can_redo and events")

p("C13","Cursors stay at the same place in the text under every edit",
"A cursor whose position is outside every replaced range keeps pointing between the same characters, whatever edits, grouped edits, undos or redos are made; a position inside a replaced range ends at a boundary of the replacement. Text inserted exactly at the start or at the end of a selection becomes part of it. The selection start never passes its end, both stay within the text, and an open-ended selection stays open-ended.",
["histories","inputs"],"all cursor positions x all edit histories with one or more changes at once",
"Tests move few cursors over few single edits.",
["parce/document.py","parce/mutablestring.py"],
[("AbstractDocument._update_cursors","parce/document.py")],
"cursor pos/end","Cursor.pos, Cursor.end, Cursor.text()")

p("C14","Saving and loading are exact, and I/O errors never lose the document",
"When saving returns normally the file contains exactly the encoded current text and the document counts as unmodified; when it fails at any point an exception is raised, the text and undo history in memory are intact, the document still counts as modified if it was, and saving again later succeeds. Text that cannot be encoded leaves the existing file untouched. Loading gives exactly the decoded contents of the file as an unmodified document, also with short reads, or raises, and keeps no file open.",
["fault_sequences","schedules","histories"],"all failing, short or interrupted open, read, write and close calls, while background tokenizing and edits go on",
"Tests use intact files and no I/O faults.",
["parce/docio.py","parce/document.py"],
[("DocumentIOMixin.load/save","parce/docio.py"),("decode_data/encode_text","parce/docio.py")],
"file contents, modified flag","file system and the Document")

p("C15","Files read through the cache and style sheets are fresh, also under I/O errors",
"A file read through the file cache gives its contents as of some moment during the call, also when the modification time goes backwards, when the file changes while it is being read, disappears or appears, and when several threads read at once; an unchanged file is not loaded again. Loading a style sheet gives all rules of the file and everything it imports, in order, with the right encoding, each file once, also when imports are circular, and relative to the file that imports. A failing or missing file, including an imported one, raises and is not remembered: as soon as it can be read, it is used; a theme shared by several threads shows one consistent set of files.",
["fault_sequences","schedules","histories"],"all sequences of file replacements, time stamps, failing or short reads and concurrent loads",
"Tests read one unchanging file.",
["parce/util.py","parce/css.py","parce/theme.py"],
[("file_cache","parce/util.py"),("StyleSheet.from_file, import handling","parce/css.py"),("Theme._stylesheet, style, textformat","parce/theme.py")],
"file cache dictionary, style sheet of a Theme","file_cache()[name], StyleSheet.from_file(), Theme.textformat()")

p("C16","A preview tree shows the new tokens without touching the real tree",
"While a long update is running, a preview of the first new part may be announced: its tokens are exactly those the finished tree of some version of the text will have from the announced position on, and the visible tree stays untouched by it. It covers at least the requested number of characters, stays unchanged for its receiver, and the final tree and the reported range are right whether or not somebody looks at previews.",
["schedules","inputs","histories"],"all previews at all thresholds under all edit histories and interleavings",
"Previews only appear for long builds interrupted at particular moments.",
["parce/treebuilder.py"],
[("TreeBuilder.peek, peek_threshold","parce/treebuilder.py")],
"the peek tree","peek event")

p("C17","Event connections keep their contract with reentrant and concurrent callbacks",
"Emitting an event calls every function that is connected for the whole duration exactly once, in the order of priority and then of connecting, whatever other callbacks do: connect, disconnect, emit again or run in other threads. A callback that raises ends that emission with its exception, and leaves the connections intact. A once-connection is called at most once in total, a disconnected function is not called by emissions that start later, methods of deleted objects are silently dropped, contexts returned by callbacks are entered and exited exactly once, and asking what is connected tells the truth.",
["schedules","fault_sequences","programs"],"all programs of connects, disconnects, nested and concurrent emissions and raising callbacks",
"Tests connect and emit in one thread without reentrancy.",
["parce/util.py"],
[("Observable.connect/disconnect/emit, _Observer","parce/util.py")],
"connection lists","the calls received")

p("C18","Incremental highlighting ends up identical to formatting everything",
"A highlighter that formats only the reported ranges after each update and shifts the rest along with the edits ends up with exactly the formats of all tokens that formatting the whole document gives, with one or more themes for different languages. Formatting a part of a text gives the tokens in it the same formats as formatting everything, and a formatter can be shared between threads.",
["schedules","inputs","histories"],"all edit histories, interleavings, range boundaries and theme configurations",
"Tests format a few fixed texts entirely.",
["parce/formatter.py","parce/theme.py","parce/treebuilder.py","parce/work.py","parce/util.py"],
[("AbstractFormatter.format_ranges/format_text","parce/formatter.py"),("updated range","parce/treebuilder.py")],
"format caches, reported ranges","formatted ranges shown by the simulated highlighter")

p("C19","Indenting and line tokens never act on an outdated tree",
"Indenting lines, automatic indenting, stripping, and asking for the tokens of a line or a selection right after an edit, while the tree is still being updated in the background, give exactly the result they give on a freshly made document with the same text. The result does not depend on the schedule, nor on an indenter being shared between documents and threads.",
["schedules","histories"],"all interleavings of such operations with background updates",
"Tests indent documents that are completely tokenized.",
["parce/indent.py","parce/document.py","parce/work.py"],
[("Indenter.indent_events, AbstractIndenter.indent","parce/indent.py"),("Block.tokens, Cursor.tokens","parce/document.py")],
"the tree used by token lookups","text after indenting, returned tokens")

p("C20","An abandoned document ends its work by itself and everything is released",
"The last reference to a document may be dropped at any moment, also while its tree is built or transformed in the background, with callbacks pending or user code failing: the work ends without errors, no thread stays behind, and the document, its worker, tree builder and tree and what is cached for them are released, also when transformers are shared with documents that live on and stay right. Replaced parts of a tree, dropped cursors and the owners of connected methods are not kept alive either, callbacks still pending for a dropped document are not called any more, a cursor keeps its document alive and correct, and a token that is held keeps its text.",
["schedules","fault_sequences","histories"],"all moments of dropping documents, cursors, trees and handlers relative to background work, callbacks and failures",
"Tests keep their documents until the end, and do not look at what is left behind.",
["parce/work.py","parce/transform.py","parce/document.py","parce/tree.py","parce/util.py"],
[("BackgroundWorker._run_jobs, _callback_to_self","parce/work.py"),("Transformer caches","parce/transform.py"),("Document cursors","parce/document.py"),("weak method connections","parce/util.py")],
"references from threads, caches, connections and callbacks","weak references to all objects after a garbage collection, threads left")

p("N01","Tokenizing any text with any bundled language loses nothing and never fails",
"For every text and every bundled language, tokenizing ends without an exception, the tokens are in order, do not overlap and their text equals the text at their position; tokenizing in one piece, by events or as a tree gives the same tokens.",
["inputs"],"all texts in all languages",
"There are few example texts per language.",
["parce/lexer.py","parce/lexicon.py","parce/lang"],
[("Lexer.events","parce/lexer.py"),("Lexicon.parse","parce/lexicon.py")],
"none","tokens of a text")

p("N02","Tree navigation, searching and querying agree with the sequence of tokens",
"Finding tokens by position, slices, ancestors, ranges and query results agree with what a linear walk through all tokens gives, for every tree.",
["inputs"],"all trees, positions and queries",
"Tests query a few trees.",
["parce/tree.py","parce/query.py"],
[("Context.find_token, Range, Query","parce/tree.py")],
"none","returned nodes")

p("N03","Generated regular expressions match exactly the given words",
"The expression made from a list of words, or by combining patterns, matches exactly those words, for every list of words.",
["inputs"],"all lists of words",
"Tests use a few lists.",
["parce/regex.py"],
[("words2regexp, make_charclass","parce/regex.py")],
"none","matches")

p("N04","HTML output, selecting style rules and validating languages are exact",
"HTML output contains the text of the document, escaped, and nothing else, selectors select exactly the rules CSS prescribes, and validating a language reports exactly the errors in it.",
["inputs"],"all texts, style sheets and language definitions",
"Tests use a few.",
["parce/out/html.py","parce/css.py","parce/validate.py"],
[("HtmlFormatter","parce/out/html.py"),("Element.match","parce/css.py"),("validate_language","parce/validate.py")],
"none","output")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
