#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Parsing OGDL text is total",
 "Parsing any byte sequence as OGDL text, with or without type detection, terminates without panicking and returns a non-nil graph. "
 "Every character of every node of the result occurs in the input, in input order, and nothing is read beyond the end of the stream.",
 ["inputs"], "all byte sequences (including truncated quotes, mixed indentation, CR, control and non-ASCII bytes)",
 "The tests parse about fifteen short well-formed strings; totality is a claim about every malformed stream.",
 ["lexer.go", "block.go", "parser.go", "event.go"],
 [("lexer productions consume or unread", "lexer.go"), ("tree/line recursion", "block.go"), ("level bookkeeping", "event.go")],
 ["FromString/FromBytes/FromStringTypes return value"])

prop("C02", "Indentation, words, quotes, blocks and comments define the tree",
 "For well-formed OGDL text, the parsed graph is the one the grammar defines: a line is attached below the nearest preceding line that is indented less, consecutive words on a line are nested, a comment ('#' followed by space, to end of line) contributes nothing, "
 "a quoted scalar is one node with its quote escapes resolved, and a block ('\\' at end of line) is one node made of the following more-indented lines. "
 "LF and CR LF line ends are equivalent, and blank lines and trailing blanks are ignored.",
 ["inputs"], "all well-formed documents (any nesting shape, any indentation widths, any word contents)",
 "Tests cover fewer than twenty literal documents; the guarantee quantifies over all nestings, indentations and contents.",
 ["block.go", "lexer.go", "event.go", "parser.go"],
 [("line/tree indentation rules", "block.go: line"), ("scalars", "lexer.go: String, Quoted, Block, Comment, Break"), ("tree building from level events", "event.go: Tree")],
 ["FromString(...) graph compared with the grammar's tree"])

prop("C03", "The parse depends only on the bytes, not on how they are delivered",
 "The graph obtained from a stream is the same however the reader splits the stream into reads (including empty reads, one-byte reads, and data returned together with end-of-file), and is the same as parsing the same bytes in memory. "
 "It does not depend on where a token, quoted string, indentation, multi-byte character or line end falls relative to the parser's internal buffering.",
 ["inputs", "schedules"], "all ways of splitting a stream into reads, all positions of the content relative to buffer boundaries (streams longer than one buffer included)",
 "All tests use in-memory inputs far smaller than the 4096-byte buffer, delivered in a single read.",
 ["lexer.go", "parser.go"],
 [("sliding buffer refill", "lexer.go: fill"), ("multi-byte unread", "lexer.go: UnreadByte, UnreadRune"), ("end-of-stream detection", "lexer.go: Byte, Rune")],
 ["FromReader vs FromBytes; NewPath/NewTemplate on long inputs"],
 [("buf/r/lastByte", "window over the stream, read position, end mark", "lexer.go: Lexer")])

prop("C04", "Printing a graph as OGDL text and parsing it back gives the same graph",
 "For every graph whose top-level nodes are plain words and whose deeper nodes are arbitrary non-empty text (spaces, line feeds, commas, parentheses and both kinds of quotes included; backslashes, carriage returns, control characters and a leading back-quote or a leading comma excluded), printing it as OGDL text and parsing that text gives an equal graph. "
 "The printed form of a graph that holds a single value is that value itself (unless it has carriage returns or stands in double quotes), and a node shows as the text of a graph that holds it.",
 ["inputs"], "all graph shapes and all node contents in the stated class",
 "Only a handful of literal graphs are printed by the tests and almost none is parsed back.",
 ["graph.go", "lexer.go", "block.go"],
 [("text emitter: quoting and indentation", "graph.go: _text, Text"), ("quoted string reader", "lexer.go: Quoted")],
 ["FromString(g.Text()) vs g"])

prop("C05", "Type detection only affects unquoted scalars, and converts them faithfully",
 "Parsing with type detection gives a graph of the same shape as parsing without it; a quoted scalar or block stays a string, and an unquoted scalar becomes an int64 exactly when it is a decimal integer in range (with that value), a boolean exactly when it is 'true' or 'false', and otherwise a float64 if it is a number or else the identical string.",
 ["inputs"], "all documents",
 "Five literal documents are parsed with types by the tests.",
 ["lexer.go", "block.go", "event.go"],
 [("typed scalar production", "lexer.go: ScalarType"), ("typed line handling", "block.go: line, OgdlTypes")],
 ["FromStringTypes vs FromString"])

prop("C06", "Binary OGDL round trip",
 "Encoding any graph to binary OGDL and decoding it gives a graph with the same shape and the same node texts, provided contents are non-empty, contain no zero byte and do not begin with byte 0x01; any nesting depth is preserved. "
 "Encoding is deterministic, is unaffected by the native type holding the text, starts with the three byte header and ends with a zero byte.",
 ["inputs"], "all graphs in the stated class, all depths the format can express",
 "One two-node graph is encoded by the tests.",
 ["binary.go", "event.go", "gettypes.go"],
 [("encoder", "binary.go: Binary, bin, newVarInt"), ("decoder", "binary.go: parse, line, varInt"), ("tree building", "event.go: Tree")],
 ["FromBinary(g.Binary())"])

prop("C07", "The binary decoder implements the documented format and is total",
 "A stream laid out as documented (header, then level and text or binary node pairs, then zero; variable-length integers in one to four bytes; binary nodes as length-prefixed chunks) decodes to exactly the described graph, binary nodes keeping their bytes, and decoding consumes exactly that stream and no more. "
 "For every other byte sequence, truncated ones included, decoding terminates without panic, and a stream without the header yields nil.",
 ["inputs"], "all byte sequences; all graphs of text and binary nodes, all chunkings of binary content, all admissible integer encodings",
 "The tests decode three literal streams, all well-formed but one header variation.",
 ["binary.go", "event.go"],
 [("decoder productions", "binary.go: header, varInt, line, parse"), ("level to tree", "event.go: AddAt, AddBytesAt, Tree")],
 ["FromBinary / FromBinaryReader / FromBinaryBufioReader"])

prop("C08", "The log returns every appended object, in order, also after a torn write",
 "After any sequence of appends (objects or raw binary), every returned position reads back an object equal to the one appended there, following the reported next positions from zero visits all of them in append order and then reports the end, and the binary form read back is byte for byte what was appended. "
 "This also holds for every object completely written when the file is cut at an arbitrary byte, and reading at the torn tail terminates without panic.",
 ["histories", "crash_points"], "all append sequences, close/reopen points, interleaved reads, and all truncation points",
 "One test appends the same object three times and reads it back in order.",
 ["log.go", "binary.go"],
 [("append and position", "log.go: Add, AddBinary"), ("read and next position", "log.go: Get, GetBinary"), ("byte counting decoder", "binary.go: read")],
 ["positions and graphs returned by the Log API, file contents"])

prop("C09", "Remote calls deliver each message whole, once, however the network fragments it",
 "A client call delivers exactly the request graph (one with a first child, of text contents) to the server's handler, once as long as the connection is not lost, and returns exactly the non-empty graph the handler produced, for both protocol versions, any message size and any fragmentation of the byte stream in either direction; several calls on a connection stay matched with their own responses, also after a call that got no answer in time. "
 "Requests are dispatched to the handler registered for their first child, and unregistered ones are answered with the not-found reply. A connection closed or cut mid-message never causes a panic, a handler invocation on a partial message, or a call that returns a partial answer.",
 ["schedules", "fault_sequences", "inputs"], "all fragmentations of the streams, all connection cut points, message contents and call sequences",
 "There is no test of the remote function package at all.",
 ["ogdlrf/client.go", "ogdlrf/server.go"],
 [("length-prefixed framing", "ogdlrf/server.go: process; ogdlrf/client.go: callV2"), ("unframed protocol", "process1, callV1"), ("routing", "ogdlrf/server.go: router")],
 ["graph seen by handler, graph returned by Call"])

prop("C10", "Structural edits and copies do what they say",
 "Adding appends exactly one subnode at the end and returns it; deleting by content removes exactly the subnodes with that content and keeps the others in order; deleting by index removes exactly that subnode, and out-of-range indexes change nothing; node-or-new and create return the first subnode of that name or one new last subnode. "
 "A copy or clone equals its source and shares no nodes with it, so later edits to either never show in the other, and equality holds exactly when both graphs have the same shape and contents (byte-slice contents included).",
 ["histories", "inputs"], "all graphs and all sequences of edits on them",
 "Tests run one deletion sequence and one copy.",
 ["graph.go"],
 [("edit operations", "graph.go: Add, AddNodes, Delete, DeleteAt, Create, NodeOrNew, NodeSet, Clear"), ("copies and equality", "graph.go: Copy, Clone, Equals")],
 ["child lists before and after each operation"])

prop("C11", "A value that was set is what get returns, and nothing else changes",
 "Setting a path to a value and then getting that path yields that value, whether or not the path existed before, for name paths and for paths ending in an index; missing intermediate nodes are created. "
 "Everything outside the first node designated by the path is left unchanged, the rest of the graph stays usable (readable, printable, searchable), and an index that cannot exist is rejected without panic.",
 ["histories", "inputs"], "all graphs, all paths of names with an optional final index, all values, all sequences of sets",
 "Tests set three literal paths.",
 ["graph.go", "eval.go", "template.go"],
 [("path walk and creation", "graph.go: Set, set"), ("lookup", "eval.go: getPath"), ("index extension", "graph.go: set")],
 ["Get after Set; whole graph before and after"])

prop("C12", "A path designates the node its grammar says",
 "Getting a path of names separated by dots follows, at each step, the first subnode with that name and yields nil when there is none; quoted and bare names are equivalent; getting p.q equals getting q from the result of getting p. "
 "An index designates the subnode at that position, a selector {n} designates the subnodes of the n-th subnode bearing the preceding name, {} those of all of them; out-of-range positions yield nothing. A name after an index is looked up, by Get, in the list that the index gives, and when evaluated, in the subnode itself. An index or a selector may be an integer expression, and a parenthesised expression stands for the name that it evaluates to, both evaluated in the context graph. "
 "When a path is evaluated, a last element _len, _this, _thisString, _string or _json stands for the number of subnodes, the node, its own content as text, its text or its JSON. The typed getters return the first subnode's value or an error.",
 ["inputs"], "all graphs and all paths",
 "About twenty literal graph and path pairs are tested.",
 ["eval.go", "template.go", "graph.go", "gettypes.go"],
 [("path parser", "path.go/template.go: Path, Index, Selector"), ("path walker", "eval.go: getPath, evalPath"), ("typed getters", "gettypes.go: Get<Type>")],
 ["Get(...), Eval(NewPath(...))"])

prop("C13", "Expressions evaluate with the documented precedence and associativity",
 "An arithmetic, comparison or logical expression over constants and variables evaluates to the value given by the usual precedence levels (multiplicative over additive over comparison over and over or over assignment), left associativity and parentheses. "
 "Integer operands give exact 64-bit integer results, mixed or float operands give float64 results; assignments store the value in the context graph at the named path, compound assignments combining with the previous value.",
 ["inputs"], "all well-formed expressions (operators, operand values, groupings) and contexts",
 "Roughly forty literal expressions of two or three operands are tested.",
 ["expression.go", "eval.go", "template.go"],
 [("precedence climbing on the token list", "expression.go: _ast, precedence"), ("evaluation", "eval.go: evalExpression, evalBinary, calc, assign"), ("tokenizer", "template.go: Expression, UnaryExpression; lexer.go: Number, Operator")],
 ["Eval(NewExpression(...))"])

prop("C14", "Paths, expressions and templates never crash the host, whatever their text",
 "Parsing any byte sequence as a path, an expression or a template, and evaluating the result against any graph, terminates without panicking; malformed input is ignored or reported as an error value. "
 "In particular division by zero, missing operands, unbalanced brackets and control directives without arguments do not bring the program down.",
 ["inputs", "programs"], "all path, expression and template texts and all data graphs without embedded functions",
 "Tests only evaluate well-formed texts.",
 ["template.go", "expression.go", "eval.go", "lexer.go"],
 [("expression tree building", "expression.go: _ast"), ("evaluator guards", "eval.go: evalExpression, calc, index"), ("template interpreter", "template.go: process, flow")],
 ["NewPath/NewExpression/NewTemplate, Get, Eval, Process, Set"])

prop("C15", "Comparison and logic operators are consistent",
 "For any two integers, floats or strings, exactly one of == and != holds when they are of comparable kinds, < and > agree with >= and <= (>= being the negation of < for numbers other than NaN), and the result is the mathematical order of the values; the first operand's kind decides how the second is converted. "
 "And/or over boolean-convertible operands equal their truth tables, and an operand that is not convertible makes the comparison or logic operation false.",
 ["inputs"], "all pairs of operand values and types",
 "A dozen literal comparisons are tested.",
 ["eval.go", "gettypes.go"],
 [("comparison", "eval.go: compare"), ("logic", "eval.go: logic"), ("conversions", "gettypes.go: _int64f, _float64f, _boolf")],
 ["Eval of comparison and logic expressions over context values"])

prop("C16", "Templates copy literal text verbatim and interpret directives by their nesting",
 "Text outside variables is copied byte for byte, '$\\' produces a single dollar sign, each variable is replaced by the text of what it designates and a missing one by nothing; expression variables are evaluated silently, in order. "
 "An if chain outputs exactly the first branch whose condition is true (else the else branch, if any), a for outputs its body once per element in order with the loop variable bound to it, break ends the innermost loop, and this holds for every nesting of directives.",
 ["programs", "inputs"], "all templates built from text, variables and (nested) directives, and all data graphs",
 "About a dozen literal templates are tested, with at most one nested directive.",
 ["template.go", "eval.go"],
 [("template parser", "template.go: Template, Text, Variable"), ("directive nesting", "template.go: simplify, flow"), ("interpreter", "template.go: process")],
 ["NewTemplate(...).Process(...) output bytes"])

prop("C17", "Scalar conversions are faithful; defaults apply exactly when they fail",
 "A node holding a native number, boolean, string or byte slice converts to int64, float64, bool, string or bytes without changing its value whenever that value is representable, and a string converts to a number exactly when it denotes one. "
 "When conversion is impossible or the node is missing, the caller's default is returned (or the documented zero value without default, and an error from the error-returning getters), never a panic.",
 ["inputs"], "all native types and values, all strings, with and without defaults",
 "Tests convert a few literals per type.",
 ["gettypes.go"],
 [("conversion helpers", "gettypes.go: _int64f, _float64f, _boolf, _string, _bytes, number, isInteger"), ("getters", "gettypes.go: Int64, Float64, Bool, String, Scalar, Get<Type>")],
 ["return values of the typed getters"])

prop("C18", "Lookups can be chained without nil checks",
 "Every lookup, conversion and printing call that documents tolerance of missing nodes works on the result of any lookup, found or not: chains such as get-get-value on arbitrary graphs and paths never panic and behave as on an absent node, yielding nil, empty or the default. "
 "Edits through a missing node change nothing.",
 ["inputs", "histories"], "all graphs, all paths, all chains of lookups followed by a conversion, print or edit",
 "Tests chain two lookups on one graph.",
 ["graph.go", "gettypes.go", "eval.go"],
 [("nil receivers", "graph.go, gettypes.go method guards"), ("absent results", "eval.go: getPath")],
 ["chained calls on Get results"])

prop("C19", "Schema checking accepts exactly the conforming graphs",
 "Checking a graph against a schema returns true exactly when every schema node has a counterpart at the same position that equals it (literal) or whose content is of the named type (int, float, bool, string, binary), recursively; otherwise it returns false with a message. "
 "Checking never panics, whatever the two graphs, and modifies neither.",
 ["inputs"], "all pairs of schema and data graphs",
 "One example with four scalar types is tested, only the accepting case.",
 ["schema.go", "gettypes.go"],
 [("recursive check", "schema.go: Check, checkNode")],
 ["Check return values"])

prop("C20", "Sorting orders the subnodes and loses none",
 "After sorting by a field, the subnodes are a permutation of the original ones (same nodes, none lost or duplicated), ordered by the field's text, or by its integer value for the integer sort; subnodes without the field sort as empty or zero. The contents of the subnodes are unchanged.",
 ["inputs"], "all graphs and field paths",
 "Sorting is not tested at all.",
 ["sort.go"],
 [("comparators", "sort.go: Less"), ("swap", "sort.go: Swap")],
 ["g.Out before and after"])

prop("C21", "JSON import preserves structure and values; JSON export modifies nothing",
 "Importing JSON yields the nodes of its value: a string, boolean or number is one node holding it (integers in range as int64, other numbers as float64), null is nothing, an object is a node '_' with one subnode per member, named by its key and in the order of the keys, that holds the nodes of the member's value, and an array is a sequence of nodes '_' that hold the nodes of each element in order. The graph returned is the node of the value, or for an array a node holding all of its elements. Text that doesn't begin with a valid JSON value gives an error. "
 "Exporting a graph as JSON does not modify it and never panics. A graph that has the form of a JSON value (nodes '_' for lists, nodes with named inner nodes for maps, single leaves for scalars) is exported as valid JSON of that value: strings escaped, numbers with their value.",
 ["inputs"], "all JSON values and all graphs",
 "Two graphs are exported and printed without assertions; import is untested.",
 ["encoding.go"],
 [("import", "encoding.go: FromJSON, toGraph"), ("export", "encoding.go: JSON, json, writeString, writeValue")],
 ["FromJSON graph; graph before and after JSON()"])

prop("C22", "XML import mirrors the element structure",
 "Importing an XML document yields a graph whose nodes mirror the elements in document order: each element is a node named by its local name (with '-' replaced by '_'), its attributes come first as '@name' nodes holding their values, followed by trimmed non-empty text and child elements in order. Comments, processing instructions and directives give no nodes. No document, well-formed or not, makes the import panic. Simplifying such a graph gives the elements that begin with an '@id' its value as name (but for 'p') and only their last subnode, the 'field' elements that begin with an '@name' its value, and leaves the others as they are.",
 ["inputs"], "all well-formed XML documents (element nesting, attributes, text)",
 "There is no test of XML import.",
 ["io/gxml/xml.go"],
 [("token loop with stack", "io/gxml/xml.go: FromXML")],
 ["FromXML graph"])

prop("C23", "Reading operations never modify the graph",
 "Printing (text, with root, HTML, JSON, binary), comparing, searching, getting paths, converting, checking and cloning leave the graph exactly as it was: same nodes, same contents, same order. "
 "Evaluating a path or an expression without assignment operators does not modify the context either.",
 ["histories", "inputs"], "all graphs and all read-only operations and their arguments",
 "No test compares a graph before and after a read.",
 ["graph.go", "gettypes.go", "eval.go", "encoding.go", "html.go", "binary.go"],
 [("readers", "Text, Show, Html, JSON, Binary, Get*, Find, Eval, Equals, Clone, Check")],
 ["deep snapshot before and after"])

prop("C24", "Functions embedded in a graph are called with the evaluated arguments",
 "A path that applies a function stored in the context to a list of arguments calls it exactly once with the values of those arguments in order and yields its result, in which the rest of the path is then looked up; an argument without a value is passed as the zero value of its parameter. "
 "A wrong number of arguments or arguments of another type give an error instead of a call, never a panic. A method of a stored object is called likewise with its arguments converted to the parameter types; the ones missing are zero values, surplus ones are ignored. "
 "A function with the signature of remote functions receives one graph with the name and the values of the arguments in order.",
 ["inputs", "programs"], "all argument lists (counts, types, values, missing variables)",
 "Four literal calls, all correct, are tested.",
 ["function.go", "eval.go"],
 [("reflective call", "function.go: function, convert"), ("call sites", "eval.go: getPath, evalPath")],
 ["arguments received by the function; Eval result"])

prop("C25", "Merge and substitute affect exactly the designated nodes",
 "Merging a graph into another replaces the subnodes of every top-level node present in both by those of the source, appends the nodes present only in the source and leaves all others unchanged and in order. "
 "Substituting a content changes exactly the nodes below the root whose content equals it, at any depth, and nothing else.",
 ["inputs"], "all pairs of graphs, all contents",
 "Substitute is tested once; merge is untested.",
 ["graph.go"],
 [("merge", "graph.go: Merge"), ("substitute", "graph.go: Substitute")],
 ["graph before and after"])

prop("C26", "Reading tokens consumes exactly the token; unreading restores it",
 "Bytes and characters are read from a stream in order, without gaps or repetitions, and the end of the stream is reported as such and nothing before it; unreading bytes or characters that were read makes them be read again, and peeking changes nothing of what is read next, wherever the internal buffer is refilled. "
 "Each token reader (word, word with stop characters, token, integer, number, operator, blanks, white space, line end, comment, template text) returns the longest text of its kind at the current position, consumes that text and nothing else, and consumes nothing when there is none. Blanks are counted, with whether they are uniform.",
 ["inputs", "histories"], "all byte streams, all positions, all sequences of reads, unreads and peeks",
 "The tests of the lexer read a few short literal strings once; what a token leaves in the stream for the next one is not tested.",
 ["lexer.go"],
 [("window and unread", "lexer.go: Byte, UnreadByte, Rune, UnreadRune, PeekByte, PeekRune, End"), ("productions", "lexer.go: String, StringStop, Token8, Integer, Number, Operator, Space, SpaceMax, WhiteSpace, Break, Comment, TemplateText")],
 ["what each production returns, and the bytes read after it"])

prop("C27", "A sequence of events builds the tree that its levels describe",
 "The tree made by the event handler has one node per item added and not deleted, in the order of the events and with its content and kind (text, bytes or native), each below the last item before it that is one level up. "
 "Items are added at the given level or at the current one, which increments, decrements (never below zero) and settings change, also through a parser; deleting removes the last item only.",
 ["inputs", "histories"], "all sequences of events, all contents, levels at most one deeper than the item before",
 "The handler is only tested through whole documents that the parser reads.",
 ["event.go", "parser.go"],
 [("items and levels", "event.go"), ("tree", "event.go: Tree"), ("parser events", "parser.go: Emit, Inc, Dec, Handler")],
 ["Tree(), Graph(), Level()"])

prop("C28", "Searching returns exactly the subnodes that match",
 "Finding by a regular expression returns a graph with exactly the direct subnodes whose text matches, the same nodes in their order, and nothing when there are none or the graph is missing; an expression that is not one gives an error. The graph searched is left as it was.",
 ["inputs"], "all graphs and contents, expressions of each kind",
 "Searching is not tested.",
 ["gettypes.go"],
 [("find", "gettypes.go: Find")],
 ["result of Find"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
