#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the wording of the properties is easy to edit."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
               "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


YH = "preemption points in the parser package, woven in at build time through go build -overlay; nothing in /repo"

prop("C01", "Parsers used on concurrent threads do not interfere with each other",
     "Any number of threads may each parse and render their own documents at the same time. Under every interleaving each thread gets exactly the trees, rendered text and errors that it would get running alone, and the library makes no unsynchronised access to memory shared between the threads.",
     ["schedules", "inputs"], "all interleavings of any number of parse/render calls on separate parser objects, over all documents (valid, invalid, damaged)",
     "The tests run one parser at a time on one goroutine; they never interleave two parses, so package-level state shared between parsers would go unnoticed.",
     ["parser/parser_common.go", "parser/lexer.go", "parser/keyword.go", "parser/set.go", "parser/helper.go", "parser/error.go", "parser/source.go", "parser/format.go"],
     [("all parse state lives in the parser object and its lexer", "parser/parser_common.go: type Parser; parser/lexer.go: type Lexer"),
      ("package-level tables (keywords, reserved keywords, interval units) are only read after init", "parser/keyword.go, parser/helper.go, parser/set.go")],
     ["result of ParseStmts", "text from Format / the beautifier", "*ParseError fields and text", "race detector reports"],
     [("keyword tables", "read-only after init", "parser/keyword.go")], YH)

prop("C02", "Concurrent readers of one syntax tree all see the tree they would see alone",
     "Once a tree has been built, any number of threads may format, beautify, walk, search, visit, measure and serialise the same tree (or overlapping parts of it) at the same time. Under every interleaving each reader gets the result it would get alone, no reader changes the tree, and there is no unsynchronised conflicting memory access.",
     ["schedules", "inputs"], "all interleavings of read operations by any number of threads on a shared tree, over all statement kinds",
     "Tests read a tree from one goroutine only; a read that caches into the node, sorts in place or patches a field passes them all.",
     ["parser/ast.go", "parser/format.go", "parser/walk.go", "parser/ast_visitor.go"],
     [("FormatSQL, Accept, Pos and End only read their receiver", "parser/ast.go, parser/format.go"), ("Walk passes nodes through without touching them", "parser/walk.go")],
     ["text from Format / Formatter", "callback sequences of Walk, Find, FindAll, Accept", "Pos/End of every node", "JSON of the tree", "deep dump of the tree"], None, YH)

prop("C03", "Results depend on the text alone, not on hidden sources of randomness",
     "Parsing, formatting, beautifying, walking, visiting and serialising the same text give identical results in every process and on every repetition. Hash seeds, map iteration order, object-pool hits, clock readings and what the process did before never show in a result or in an error.",
     ["configurations", "histories", "inputs"], "all values of the process's hidden randomness (hash seed, map order, pool behaviour, clock) and all earlier activity in the process, over all documents",
     "A test process has one hash seed and one order of subtests; golden files compare a single draw of the randomness and a result that varies one time in n passes most days.",
     ["parser/set.go", "parser/keyword.go", "parser/parser_common.go", "parser/format.go", "parser/walk.go", "parser/ast.go"],
     [("tables are only probed for membership, never iterated, while parsing or rendering", "parser/set.go, parser/keyword.go"), ("lists in the tree are slices in source order", "parser/ast.go")],
     ["deep dump of the tree", "rendered text", "callback order", "error text"], None,
     "seams in copies of the Go runtime's map randomness, sync.Pool and time.Now, put in place with go build -overlay")

prop("C04", "Reading a tree leaves it unchanged, even when the read is cut short",
     "Whatever sequence of reads (format, beautify, walk, search, visit, position queries, serialisation) is made on a tree, including reads whose callback stops early, returns an error or panics part-way, the tree stays exactly as parsed. Every later read gives the same result as the same read on a freshly parsed tree.",
     ["histories", "fault_sequences", "inputs"], "all sequences of read operations on a tree with callback stops, errors and panics at any point, over all statement kinds",
     "Tests make one or two successful reads per tree; residue from an earlier or aborted read (caches, flags, reordered children, indentation) is never looked for.",
     ["parser/ast.go", "parser/format.go", "parser/walk.go", "parser/ast_visitor.go"],
     [("readers hold their state in the call or in their own Formatter/visitor", "parser/format.go: type Formatter; parser/walk.go; parser/ast.go: Accept methods")],
     ["deep dump of the tree before and after", "result of each read compared with a fresh process"], None, YH)

prop("C05", "A failing visitor stops the traversal at once and its error comes back unchanged",
     "When a visitor's visit callback fails at any node, the traversal calls no further visit callback and enters no further node, and the very error the callback returned is what the caller gets. Every node that was entered is left again exactly once, innermost first, whether the traversal completes, fails or panics. In a run without failure each entered node is visited exactly once before it is left, after all its descendants.",
     ["fault_sequences", "inputs"], "a failure (error or panic) injected at any callback of any traversal, over all statement kinds",
     "There are about 190 hand-written traversal methods with one error check per child; the tests make a callback fail in almost none of those places.",
     ["parser/ast.go", "parser/ast_visitor.go"],
     [("each Accept checks and returns the error of every child", "parser/ast.go"), ("Enter and deferred Leave bracket every Accept", "parser/ast.go"), ("the default visitor forwards every node to Visit", "parser/ast_visitor.go: DefaultASTVisitor")],
     ["return value of Accept", "sequence of Enter/Visit/Leave callbacks"], None, None)

prop("C06", "A cancelled walk stops exactly where it was told to",
     "When the callback of a breakable walk returns false at any node, or a search predicate matches there, the callback is never called again, and the callbacks made until then are exactly the leading part of the uncancelled walk; the breakable walk then reports that it stopped, and a search returns that very node. For the plain walk, a false from the callback means that none of that node's descendants is visited. Collecting all matches returns every matching node once, in walk order.",
     ["fault_sequences", "inputs"], "a cancellation at any callback of any walk or search, over all statement kinds",
     "The walk is a 1700-line switch with one stop check per child field; the tests cancel at one place in one SELECT.",
     ["parser/walk.go"],
     [("every recursive call's result is checked and passed up", "parser/walk.go: Walk and helpers"), ("WalkWithBreak, Find, FindAll are built on Walk", "parser/walk.go")],
     ["sequence of callbacks", "return values of Walk, WalkWithBreak, Find, FindAll"], None, None)

prop("C07", "The command-line tool uses the whole input file or fails",
     "However the operating system delivers the file named with -f (short reads, interrupted calls, wrong or changing size, pipes and special files), the tool produces the output for exactly the bytes of the file. If opening or reading fails at any point, the tool prints nothing on standard output, reports the failure on standard error and exits with a non-zero status; the same holds for text that does not parse.",
     ["fault_sequences", "inputs", "configurations"], "all ways an operating system may deliver or fail to deliver a file, in all output modes, over all file contents",
     "main.go has no tests at all, and no test can make the kernel return short reads, EINTR or EIO at a chosen byte.",
     ["main.go"], [("os.ReadFile and its error check", "main.go: main"), ("parse error check and exit status", "main.go: main")],
     ["standard output, standard error and exit status of the process"], None,
     "a simulated kernel under the Go syscall package, put in place with go build -overlay; nothing in /repo")

prop("C08", "The command-line tool reports success only if its whole output was written",
     "In every mode the tool exits with status zero only if every byte of its output was accepted by standard output. If a write fails permanently at any byte (full disk, I/O error, closed pipe), the tool ends with a failure, and what was written is a leading part of the full output; writes that are merely short or interrupted lose and duplicate nothing.",
     ["fault_sequences", "inputs", "configurations"], "a write fault at any byte of the output, in all output modes, over all inputs",
     "main.go has no tests at all, and no test can make a write fail at a chosen byte.",
     ["main.go"], [("error checks on printing the result", "main.go: main")],
     ["bytes accepted by standard output", "exit status"], None,
     "a simulated kernel under the Go syscall package, put in place with go build -overlay; nothing in /repo")

prop("C09", "A torn document never silently loses a statement",
     "When a document of statements is cut off at any byte, or its tail is replaced with stale or zeroed bytes as after a crash, parsing either fails or returns exactly one statement for every non-empty semicolon-separated segment of what is left, equal to what that segment parses to on its own. An unterminated string, quoted identifier or block comment is always an error. Nothing after the last complete statement is dropped silently.",
     ["crash_points", "inputs"], "a crash at any byte of writing any document, with any of the usual remains after the cut",
     "Tests parse complete files and a few dozen hand-picked fragments; the cut points of every document are far too many to list.",
     ["parser/parser_table.go", "parser/lexer.go", "parser/parser_common.go"],
     [("end-of-input test in the statement loop", "parser/parser_table.go: ParseStmts, parseStmt"), ("unterminated token errors", "parser/lexer.go: consumeString, consumeIdent, consumeMultiLineComment")],
     ["number and rendering of returned statements", "error"], None, None)

prop("C10", "A damaged document never crashes the caller and gets a located error",
     "For a document of up to 64 KiB with any damage (truncation, flipped, lost, repeated, misplaced or zeroed bytes), parsing returns without panicking, also when a failed parser is asked again; whatever tree it returns can be formatted, beautified, walked, visited, searched, serialised and asked for the position of every node without panicking. A failure is a parse error whose offset lies within the document, whose line and column are the ones of that offset, and whose message shows that line with a caret under that column.",
     ["fault_sequences", "crash_points", "inputs"], "all damage to all documents up to 64 KiB",
     "Tests damage a few dozen short statements by hand; crashes need a particular cut or splice inside a particular clause.",
     ["parser/*.go"],
     [("nil checks on the lookahead token and optional children", "parser/parser_common.go, parser/parser_*.go, parser/ast.go, parser/format.go"), ("error finalisation", "parser/parser_common.go: wrapError; parser/source.go; parser/error.go")],
     ["return or panic of every public operation", "fields and text of *ParseError"], None, None)

prop("C11", "Parsing and rendering finish within a bounded number of steps",
     "For every document, valid or damaged, nested or flat, parsing performs a number of execution steps at most proportional to the length of the text times one plus the number of INTERVAL words in it, and rendering, walking and visiting a tree perform a number of steps at most proportional to the size of the tree plus the text produced. This holds for each thread no matter how long other threads are stalled.",
     ["inputs", "schedules", "fault_sequences"], "all documents and all stalls of other threads, on a simulated clock that counts executed steps",
     "Tests have no clock and no deep or adversarial inputs; backtracking that doubles per nesting level is invisible at the nesting depths they use.",
     ["parser/parser_column.go", "parser/parser_query.go", "parser/parser_table.go", "parser/lexer.go", "parser/parser_common.go", "parser/walk.go", "parser/format.go"],
     [("failed INTERVAL readings are remembered", "parser/parser_column.go: parseColumnExpr; parser/parser_common.go: failedIntervalOffsets"), ("bounded lookahead", "parser/lexer.go: peekToken"), ("every loop consumes a token or stops", "parser/parser_*.go")],
     ["step count of each operation"], [("failedIntervalOffsets", "positions whose INTERVAL reading failed", "parser/parser_common.go")], YH)

prop("C12", "Statements of one document do not influence each other",
     "Parsing a document built by appending statements one after another gives the same trees, shifted by their offsets, as parsing each statement on its own. If one of the statements is bad, the failure of the document is the failure of that statement on its own, at the shifted position, whatever statements came before it; statements after the bad one never change it.",
     ["histories", "inputs"], "all sequences of appended statements, good and bad, with any separators and comments between them",
     "Test files hold one or a few related statements; the parser object's left-over state after one statement meets few different next statements.",
     ["parser/parser_table.go", "parser/parser_common.go", "parser/lexer.go", "parser/parser_column.go", "parser/error.go", "parser/source.go"],
     [("statement loop resets nothing because no per-statement state exists", "parser/parser_table.go: ParseStmts"), ("the interval memo is keyed by absolute position", "parser/parser_column.go"), ("line index spans the document", "parser/source.go")],
     ["deep dump of the trees", "*ParseError fields"], None, None)

prop("C13", "Edits to a tree show fully in that tree and nowhere else",
     "After any history of in-place edits to a tree's fields, interleaved with reads by its owner and with other threads parsing, reading and editing their own trees, the tree holds exactly its parsed content plus its own edits, and rendering, walking and visiting reflect exactly that content, with nothing stale. Trees from separate parses, even of the same text, share no node, so an edit in one never shows in another.",
     ["histories", "schedules", "inputs"], "all histories of edits and reads on any number of trees under any interleaving of their owners",
     "Tests edit one tree once before the first read; caches filled by an earlier read and nodes shared between trees pass them.",
     ["parser/ast.go", "parser/format.go", "parser/walk.go", "parser/parser_common.go"],
     [("every parse allocates fresh nodes", "parser/parser_*.go"), ("rendering reads the fields at the time of the call", "parser/format.go")],
     ["deep dump and rendering of each tree after its edits"], None, YH)

prop("C14", "Callbacks may use the library re-entrantly",
     "A walk callback, search predicate, visitor callback or custom expression's rendering code may itself parse, format, walk, search or visit, on the same tree or on others, to any depth and at any callback, also with other threads doing the same. Inner and outer operations each give the result they would give on their own, and none of them deadlocks.",
     ["histories", "schedules", "inputs"], "all nestings of library calls inside callbacks, at any callback, under any interleaving of threads",
     "Tests call Format from a Walk callback in one or two places; a traversal-wide lock, shared stack or global cursor is not exercised.",
     ["parser/walk.go", "parser/ast.go", "parser/format.go", "parser/parser_common.go"],
     [("traversal state lives on the call stack", "parser/walk.go, parser/ast.go"), ("each Format call has its own Formatter", "parser/format.go: Format")],
     ["results of inner and outer operations", "progress of all threads"], None, YH)

prop("C15", "A formatter renders exactly what its owner wrote to it, in order",
     "For any history of writes, line breaks, indents, dedents, expression writes, mode and indent settings and reads of the result on a formatter, the result is the written text in order, each byte once, with one indent unit per level at the start of each non-empty line in beautify mode and nothing added otherwise. Reading the result changes nothing and dedenting below zero has no effect. No other formatter in use affects it, and an expression whose own rendering code panics part-way affects it no further than by the calls that code itself had made on it until then.",
     ["histories", "schedules", "fault_sequences"], "all histories of operations on any number of formatters, interleaved between threads, with custom expressions that panic",
     "Tests use a formatter for one WriteExpr and one String; histories of its operations and formatters used side by side are not tried.",
     ["parser/format.go"],
     [("WriteByte is the only place that emits bytes", "parser/format.go: Formatter.WriteByte, writeIndentIfNeeded"), ("builder, indent level and line state are per Formatter", "parser/format.go: type Formatter")],
     ["Formatter.String after every operation"], [("indentLevel, lineStart", "current nesting and whether the next byte starts a line", "parser/format.go")], YH)

# Pure functions of their input: listed because users rely on them, not claimed (see not_applicable in MANIFEST.json).
def pure(id, title, statement, text, why, files, mech, observe):
    prop(id, title, statement, ["inputs"], text, why, files, mech, observe)

pure("N01", "Formatting a parsed statement gives SQL that parses back to the same tree",
     "For every accepted statement, the compact rendering is accepted again and parses to the same tree up to positions; formatting that tree again gives the same text.",
     "all accepted statements", "Golden files cover a few hundred statements; combinations of clauses are unbounded.",
     ["parser/format.go", "parser/parser_*.go"], [("FormatSQL per node", "parser/format.go")], ["Format then ParseStmts"])
pure("N02", "Beautified SQL means the same as compact SQL",
     "For every accepted statement and indent string made of blanks, the beautified rendering parses to the same tree up to positions as the compact rendering, differing only in white space outside literals.",
     "all accepted statements and indents", "Beautified golden files are compared as text and never parsed back.",
     ["parser/format.go"], [("Break/NewLine/Indent around the same writes", "parser/format.go")], ["Formatter output in both modes"])
pure("N03", "Expressions group by ClickHouse's operator precedence and associativity",
     "Every accepted expression is grouped as ClickHouse's own expression parser groups it, for all operators, prefixes, lambdas and the ternary, at any nesting.",
     "all expressions", "A table of a few hundred expressions is checked.",
     ["parser/parser_column.go"], [("binding powers and the infix loop", "parser/parser_column.go: getNextPrecedence, parseInfixLoop")], ["tree shape"])
pure("N04", "Node positions span exactly the source text of the node",
     "For every node of every accepted statement, start is not after end, both lie in the text, children lie within their parent, and the text between them is the node's source.",
     "all nodes of all accepted statements", "Positions are asserted for a few nodes only.",
     ["parser/ast.go", "parser/parser_*.go"], [("Pos/End methods and recorded offsets", "parser/ast.go")], ["Pos and End"])
pure("N05", "Walk and Accept reach every node of the tree exactly once",
     "For every accepted statement both traversal engines visit every expression node reachable through the tree's fields exactly once.",
     "all accepted statements", "A static test compares the two engines with each other, not with the tree.",
     ["parser/walk.go", "parser/ast.go"], [("one case / method per node type", "parser/walk.go, parser/ast.go")], ["visited nodes"])
pure("N06", "Non-reserved keywords work as identifiers and reserved ones end clauses",
     "Every non-reserved keyword is accepted wherever a name is expected, in any letter case, and no reserved keyword is swallowed as a name where a clause may start.",
     "all keywords in all name positions", "Tests try a selection of keywords in a selection of positions.",
     ["parser/keyword.go", "parser/parser_common.go"], [("reservedKeywords", "parser/keyword.go"), ("matchTokenKind", "parser/parser_common.go")], ["accept/reject"])
pure("N07", "Names and literals keep their exact spelling and quoting",
     "Strings with escapes, quoted identifiers and numbers in every notation appear in the tree and in the rendering exactly as they were written.",
     "all literals and identifiers", "Tests use plain literals mostly.",
     ["parser/lexer.go", "parser/format.go"], [("token slices of the input", "parser/lexer.go")], ["token text, Format"])
pure("N08", "White space and comments between tokens do not change the meaning",
     "Adding, removing or changing white space and comments between tokens of a document changes neither acceptance nor the tree, except for positions.",
     "all documents and all placements of white space and comments", "Tests have a few commented statements.",
     ["parser/lexer.go"], [("skipSpace and skipComments", "parser/lexer.go")], ["tree up to positions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
