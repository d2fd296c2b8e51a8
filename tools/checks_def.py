C("C06",
  ["trees of up to 3 (thorough 4) nodes of every shape, each text of 1..2 (thorough 3) symbolic bytes, held as string or byte slice",
   "ints in -1000..1000 and around 2^40, booleans, one float", "chains 126..300 and 16384..16386 deep (thorough also up to 2050)", "the encoding of every level below 2^28"],
  ["larger trees and texts"],
  [H("C06RoundTrip", "encode, compare with the documented encoding, decode, compare with the source tree", {"n": 3, "l": 2}, {"n": 4, "l": 2}, ["roundtrip"]),
   H("C06Types", "the same for native types", reach=["types"]),
   H("C06Deep", "chains whose level needs several bytes", {}, {"depth": 2048, "stack": 60000}, ["deep"], steps=60000000),
   H("C06Deep", "chains whose level needs three bytes", {"depth": 16384, "stack": 60000}, {"depth": 16384, "stack": 60000}, ["deep"], qb=200, steps=200000000),
   H("C06Var", "the encoding of any level", reach=["varint"])])

C("C07",
  ["all streams of up to 6 (thorough 7) bytes after the header, all streams of up to 5 bytes", "documented streams of 2 (thorough 3) nodes: levels and lengths in 1..4 bytes, texts and chunks of up to 2 symbolic bytes, up to 2 chunks",
   "chunks of 127..16385 (thorough 65537) bytes", "every cut of a two-node stream with symbolic contents", "every integer below 2^28 in every form that can hold it"],
  ["longer arbitrary streams", "chunks above 65537 bytes"],
  [H("C07Total", "arbitrary bytes after the header: no panic, termination, agreement with a reference decoder when well formed", {"n": 5}, {"n": 7}, ["total", "wellformed"]),
   H("C07Header", "only the exact header is accepted", {"n": 5}, {"n": 5}, ["header"]),
   H("C07Format", "documented streams decode to the described graph and consume exactly their bytes", {"n": 2, "l": 2, "chunks": 2}, {"n": 3, "l": 1, "chunks": 1}, ["format", "wellformed"]),
   H("C07Chunks", "long chunks", {}, {"long": 1}, ["chunks"], steps=60000000),
   H("C07Truncated", "truncated streams", reach=["cut"]),
   H("C07Var", "any integer in any of its forms", reach=["varint"]),
   H("C07File", "files and readers", {"n": 3}, {"n": 4}, ["file"])])

C("C01",
  ["every input of up to 5 (thorough 6) bytes, untyped; of up to 3 (thorough 4) bytes with type detection too", "documents of 2 (thorough 3) lines in chosen layouts (words, open quotes, blocks, comments, multi-line quotes) with up to 2 arbitrary bytes per line"],
  ["longer arbitrary inputs"],
  [H("C01Total", "arbitrary bytes, without type detection", {"n": 5}, {"n": 6}, ["total"], qb=200, tb=600),
   H("C01Total", "arbitrary bytes, with and without type detection", {"n": 3, "typed": 1}, {"n": 4, "typed": 1}, ["total"], qb=200),
   H("C01Lines", "lines with arbitrary bytes in them", {"n": 2, "typed": 1}, {"n": 3, "typed": 0}, ["lines"], qb=200, tb=600)])

C("C02",
  ["3 (thorough 4) one-word lines of every relative indentation up to 3, LF or CR LF, with an empty, blank or comment line before any of them; 6 (thorough 7) lines of every indentation below 6 (thorough 7)", "lines of 2 (thorough 3) words or quoted strings, followed by blanks or a comment and by a line at every depth",
   "quoted strings of 3 (thorough 4) parts: any byte, escaped quotes, backslashes, line breaks", "blocks of 2 (thorough 3) lines at depths 0..2"],
  ["longer lines and documents", "malformed text (see C01)", "mixed tabs and spaces", "blank lines inside blocks"],
  [H("C02Indent", "indentation defines the tree", {"n": 3}, {"n": 4, "ind": 3}, ["indent"], qb=200, tb=600),
   H("C02Indent", "more lines, of every indentation", {"bare": 1, "n": 6, "ind": 6}, {"bare": 1, "n": 7, "ind": 7}, ["indent"], qb=200, tb=600),
   H("C02Line", "scalars on a line are nested; comments", {"n": 2}, {"n": 3}, ["line"], qb=200),
   H("C02Quoted", "quoted strings", {"n": 3}, {"n": 5}, ["quoted"], qb=200),
   H("C02Block", "blocks", {"n": 2}, {"n": 4}, ["block"], qb=200)])

C("C03",
  ["arbitrary documents of up to 3 (thorough 4) bytes (also behind a fixed prefix), every fragmentation with up to 1 (thorough 2) empty reads, end of file reported with or after the data",
   "lines indented by 20 and 70 (thorough up to 1500) columns with the buffer boundary in each indentation", "documents of each construct with symbolic words at every offset -12..+1 (thorough -40..+4) around positions 2048, 4096 and 6144, read at once and in pieces of 700 bytes", "reads of 1..4097 bytes over 4, 5 and 6 kB"],
  ["more than 8 kB", "indentation of more than 2000 columns"],
  [H("C03Frag", "arbitrary fragmentation of arbitrary bytes", {"n": 3}, {"n": 4, "empty": 2}, ["frag"], qb=200),
   H("C03Boundary", "position relative to the buffer boundaries", {}, {"lo": -40, "span": 45}, ["boundary"], qb=200, steps=100000000),
   H("C03Deep", "deep indentation across the buffer boundaries", {}, {"deep": 1}, ["deep"], qb=200, steps=100000000),
   H("C03Chunks", "reads of fixed sizes", reach=["chunks"], qb=200, steps=100000000),
   H("C03File", "a file is parsed like its bytes in memory", {"n": 2}, {"n": 3}, ["file"], qb=200, tb=600, steps=30000000),
   H("C03Rune", "variables with multi-byte letters anywhere in a long template", reach=["rune"], qb=200)])

C("C04",
  ["trees of 3 (thorough 4) nodes of every shape, plain words of 1..2 bytes at top level, below them any text of 1..2 (thorough 3) bytes", "a text of 3 (thorough 4) parts (line feeds, blanks, any byte, quotes) at depth 1..3 with and without subnodes and siblings", "integers below 100000, booleans, byte slices, one float", "trees of 5 (thorough 6) nodes of every shape: words, with blanks, with line breaks, in double quotes", "single values of up to 3 (thorough 6) bytes other than CR"],
  ["larger trees and texts", "backslashes, carriage returns, control characters"],
  [H("C04RoundTrip", "print and parse any small tree", {"n": 3, "l": 2}, {"n": 4, "l": 2}, ["print"], qb=200),
   H("C04Long", "longer texts at several depths", {"parts": 3, "depth": 2}, {"parts": 4, "depth": 3}, ["long"], qb=200),
   H("C04Native", "native types", reach=["native"], qb=200),
   H("C04Shape", "larger trees with contents of four kinds", {"n": 5}, {"n": 6}, ["shape"], qb=200, tb=600),
   H("C04Leaf", "the text of a single value, and what a node shows", {"l": 3}, {"l": 6}, ["leaf"], qb=200, tb=600)])

C("C05",
  ["unquoted scalars of 1..3 (thorough 5) arbitrary bytes", "20-digit integers with an arbitrary last digit around the limits of int64 and uint64", "documents of 2 (thorough 3) lines mixing words, quoted scalars and blocks"],
  ["longer scalars"],
  [H("C05Scalar", "type and value of any short scalar", {"n": 3}, {"n": 4}, ["scalar", "int", "bool", "float", "text"], qb=200, tb=600),
   H("C05Limits", "limits of int64", reach=["in", "out"], qb=200),
   H("C05Shape", "same shape; quoted scalars stay text", {"n": 2}, {"n": 3}, ["shape", "int", "text"], qb=200)],
  ["the numeric value of decimal fractions is compared with strconv.ParseFloat, which the code under test also uses"])

C("C10",
  ["graphs of 2 (thorough 3) nodes below the root, of every shape; contents: text, byte slice or integer of one symbolic byte or digit", "every sequence of 2 (thorough 3) edits at any node: Add of a value or graph, Delete, DeleteAt (also out of range), NodeOrNew, Create, NodeSet, Clear, AddNodes, Node, GetAt",
   "copies and clones of 3 nodes with all content kinds, then any of six edits to either side", "equality of two graphs of up to 2 (thorough 3) nodes each"],
  ["larger graphs", "Go values other than the content kinds listed"],
  [H("C10Edit", "sequences of edits against a model", {}, {"n": 3, "kinds": 2}, ["edit"], qb=200, tb=600),
   H("C10Edit", "longer sequences on a small graph", {"ops": 3, "n": 1, "kinds": 1}, {"ops": 3, "n": 2, "kinds": 1}, ["edit"], qb=200, tb=600),
   H("C10Copy", "a copy equals its source and is independent of it", {}, {}, ["clone", "copy"], qb=200),
   H("C10Equals", "equality is equality of shape and contents", {}, {}, ["equal", "different"], qb=200)])

C("C11",
  ["graphs of 2 nodes with symbolic names, values of three kinds, paths of up to 2 bare or quoted names and an optional index 0..2", "sequences of 2 (thorough 3) sets with bare names", "ten indexes that make no sense or are computed", "sequences of 4 (thorough 5) settings and extensions of two places with a graph of up to 3 nodes"],
  ["longer paths; indexes above 2", "names beginning with '!' (the parser's own markers)", "an index inside a path"],
  [H("C11Set", "set, then get; everything else as before", {}, {}, ["index", "name"], qb=300, tb=600),
   H("C11Set", "sequences of sets", {"n": 1, "sets": 2, "steps": 2, "kinds": 1, "quoted": 0}, {"n": 2, "sets": 2, "steps": 2, "kinds": 1, "quoted": 0}, ["index", "name"], qb=200, tb=600),
   H("C11Graph", "graphs as values, at several places", {}, {"ops": 5}, ["graph"], qb=200, tb=600),
   H("C11Index", "set by index", reach=["index"], qb=200)])

C("C12",
  ["graphs of 3 (thorough 4) nodes with symbolic one-byte names of any shape", "paths of 2 (thorough 3) elements: bare or quoted names, indexes and selectors 0..3 (with blanks, with and without dot), {}; of 3 elements with bare names and indexes at any place", "3 (thorough 4) sibling nodes of the same or other names with up to 2 subnodes, at the top or below, and every index and selector of them, followed by a name or an index", "graphs of 2 (thorough 3) nodes and two variables: an index or a selector given by an integer variable (plus one or not), a name given by a parenthesised variable or text constant, first or after a name", "paths of up to 2 names and one of _len, _this, _thisString, _string and _json, on graphs of 2 (thorough 3) nodes"],
  ["longer paths and names", "a selector directly after an index or a selector", "names beginning with '!'"],
  [H("C12Get", "Get and Eval designate the nodes that the grammar says", {"n": 3, "steps": 2}, {"n": 4, "steps": 3}, ["all", "index", "name", "nothing", "selector"], qb=200, tb=600),
   H("C12Get", "the same with text and byte slice contents", {"n": 3, "steps": 2, "kinds": 2}, {"n": 3, "steps": 2, "kinds": 3}, ["all", "index", "name", "nothing", "selector"], qb=200, tb=600),
   H("C12Get", "longer paths, with indexes anywhere", {"n": 3, "steps": 3, "quoted": 0, "mid": 1}, {"n": 4, "steps": 3, "quoted": 0, "mid": 1}, ["all", "index", "name", "nothing", "selector"], qb=200, tb=600),
   H("C12Many", "selectors and indexes among nodes of the same name", {"n": 3}, {"n": 4}, ["many", "nothing"], qb=200, tb=600),
   H("C12Dyn", "indexes, selectors and names given by an expression", {}, {"n": 3}, ["found", "nothing"], qb=200, tb=600),
   H("C12Special", "what an element such as _len stands for", {"n": 2}, {"n": 3}, ["nothing", "special"], qb=200, tb=600),
   H("C12Typed", "typed getters", {"n": 3}, {"n": 4}, ["error", "number", "text"], qb=200)])

C("C17",
  ["all values of every native integer type (uint and uint64 up to 2^63-1); int to float within 2^20; integral floats within 2^10; all float64 values for the identity conversions, ten for the conversions through text",
   "texts of up to 3 (thorough 4) arbitrary bytes, 19-digit integers around the limits of int64, texts close to true and false"],
  ["float32 values that are not exact decimals (Float64 reads them through their decimal form)", "the value of decimal fractions, compared with strconv.ParseFloat, which the code under test also uses"],
  [H("C17Native", "native contents", reach=["boolean", "float", "integer"], qb=200),
   H("C17Text", "texts", {}, {"n": 4}, ["bool", "float", "int", "text"], qb=200, tb=600)])

C("C18",
  ["graphs of 2 nodes, one lookup (thorough two) by any path of 2 elements, any 2 bytes, any name or position; then every conversion, getter and printer", "15 kinds of edit through a node, missing or present, nine kinds of content"],
  ["longer chains"],
  [H("C18Chain", "lookups chain", {"ascii": 1, "n": 1}, {}, ["absent", "present"], qb=200, tb=800),
   H("C18Chain", "lookups in more nodes", {"ascii": 1, "n": 2, "kinds": 1, "quoted": 0}, {"chain": 2, "n": 1, "kinds": 1, "quoted": 0}, ["absent", "present"], qb=200, tb=800),
   H("C18Edit", "edits through missing nodes", reach=["absent", "present"], qb=200)])

C("C20",
  ["3 (thorough 4) subnodes, with or without the field, of symbolic contents, sorted as text or as integers"],
  ["more than 4 subnodes (the library sorts more than 12 with another algorithm)"],
  [H("C20Sort", "a sorted permutation of the same nodes", {}, {"n": 4}, ["ints", "strings"], qb=200)])

C("C23",
  ["graphs of 2 nodes of nine content kinds; every printer, getter, conversion, comparison, search, check and clone, paths of 2 elements, expressions and templates without assignment"],
  ["larger graphs", "functions embedded in the graph"],
  [H("C23Read", "reading leaves the graph as it is", {"quoted": 0}, {}, ["read"], qb=300, tb=800),
   H("C23Read", "quoted names in paths", {"n": 1}, {"n": 1}, ["read"], qb=200, tb=600)])

C("C25",
  ["two graphs of 3 (thorough 4) top-level nodes with symbolic names and contents of several kinds", "substitution of any content in graphs of 3 nodes"],
  ["several top-level nodes of the same name in the source of a merge"],
  [H("C25Merge", "merge", {"n": 3}, {"n": 4}, ["merge"], qb=200),
   H("C25Substitute", "substitute", reach=["changed", "substitute"], qb=200)])

C("C13",
  ["expressions of 3 (thorough 4) operands and any of 13 operators between them, any group, with or without spaces; operands: any int64, boolean or float64 variable, one-digit constants, negated or not", "expressions of 5 (thorough 6) variables of any value and operators of each level, any group",
   "two operands of any native kind; constants of up to 3 symbolic digits, five decimal ones, signed ones, quoted texts of up to 2 bytes", "six assignment operators, plain, nested and indexed targets, existing or not, any int64 values"],
  ["longer expressions", "% on floats", "operands of kinds that do not match (arithmetic on booleans, order of texts)", "compound assignment by *=, /=, %= to what has no previous value", "chained assignments"],
  [H("C13Big", "large integers", reach=["integer"], qb=200),
   H("C13Prec", "precedence, associativity, groups", {"kinds": 3}, {"n": 4, "kinds": 2}, ["bool", "float", "integer"], qb=200, tb=600),
   H("C13Prec", "with unary operators and constants", {"kinds": 2, "unary": 1}, {"kinds": 4, "unary": 1}, ["bool", "float", "integer"], qb=200, tb=600),
   H("C13Prec", "longer expressions", {"long": 1, "n": 5}, {"long": 1, "n": 6}, ["bool", "integer"], qb=200, tb=600),
   H("C13Kinds", "arithmetic on all native kinds", reach=["float", "integer", "text"], qb=200),
   H("C13Const", "constants", reach=["bool", "float", "integer", "string", "text"], qb=200),
   H("C13Assign", "assignments", reach=["assigned"], qb=200)])

C("C14",
  ["all texts of up to 2 (thorough 3) bytes and all ASCII texts of up to 3 (thorough 4) bytes as path, expression and template, also behind about ten prefixes", "all sequences of 3 (thorough 4) tokens out of about 28",
   "a context with any int64 (expressions) or a small integer, texts, nested and repeated nodes"],
  ["longer texts", "functions in the context (see C24)"],
  [H("C14Path", "any bytes as a path: Get, Eval, Set, typed getters, Sort", {}, {"n": 3}, ["path"], qb=200, tb=600),
   H("C14Path", "ASCII paths", {"n": 3, "ascii": 1}, {"n": 4, "ascii": 1}, ["path"], qb=200, tb=600),
   H("C14Path", "ASCII behind a prefix", {"n": 2, "ascii": 1, "prefix": 1}, {"n": 3, "ascii": 1, "prefix": 1}, ["path"], qb=200, tb=600),
   H("C14Expr", "any bytes as an expression", {"wide": 1}, {"wide": 1, "n": 3}, ["expression"], qb=200, tb=600),
   H("C14Expr", "ASCII expressions", {"n": 3, "ascii": 1, "wide": 1}, {"n": 4, "ascii": 1, "wide": 1}, ["expression"], qb=200, tb=600),
   H("C14Expr", "ASCII behind a prefix", {"n": 2, "ascii": 1, "prefix": 1, "wide": 1}, {"n": 3, "ascii": 1, "prefix": 1, "wide": 1}, ["expression"], qb=200, tb=600),
   H("C14Template", "any bytes as a template", {"n": 3}, {"n": 4}, ["template"], qb=200, tb=600),
   H("C14Template", "ASCII behind a prefix", {"n": 2, "ascii": 1, "prefix": 1}, {"n": 3, "ascii": 1, "prefix": 1}, ["template"], qb=200, tb=600),
   H("C14Tokens", "sequences of tokens", {"n": 3}, {"n": 4}, ["expression", "path", "template"], qb=200, tb=600)])

C("C15",
  ["all pairs of values of 12 native kinds: all integers and floats (floats within 10^15 where they are truncated), texts of up to 1 byte, booleans, missing variables", "logic over booleans, integers, texts close to true and false, floats, missing variables"],
  ["longer texts", "equality of a text with the text of a number"],
  [H("C15Big", "large integers", reach=["integers"], qb=200),
   H("C15Compare", "comparison", reach=["floats", "incomparable", "integers", "texts"], qb=200),
   H("C15Logic", "logic", reach=["logic"], qb=200)])

C("C16",
  ["templates of 3 (thorough 4) parts: a symbolic printable byte, texts that look like markers of the parser, '$\\\\', seven variables in three notations, silent expressions", "all templates of up to 3 (thorough 4) elements among text, variable, assignment, if/elseif/else, for, break, nested up to 3 deep; all of up to 5 (thorough 6) elements among text, if, for, break; conditions with symbolic outcomes",
   "nested loops that use the same variable, 4 (thorough 5) elements", "an if chain in a loop over up to 3 elements with symbolic contents", "loops over up to 3 (thorough 4) elements with up to 2 nodes, and over these"],
  ["larger templates", "control characters other than tab, LF, CR in the text", "text that continues a bare path", "a break outside a loop"],
  [H("C16Text", "text and variables", {"n": 2}, {"n": 3}, ["text"], qb=200, tb=600),
   H("C16Nest", "directives", {"n": 3}, {"n": 4}, ["nest"], qb=200, tb=600),
   H("C16Nest", "deeper nesting of directives", {"lean": 1, "n": 5}, {"lean": 1, "n": 6}, ["nest"], qb=200, tb=600),
   H("C16Nest", "loops that have the same variable", {"lean": 1, "same": 1, "n": 4}, {"lean": 1, "same": 1, "n": 5}, ["nest"], qb=200, tb=600),
   H("C16Loop", "loops over elements with nodes of their own", {}, {"n": 4}, ["loop"], qb=200, tb=600),
   H("C16If", "conditions on loop elements", reach=["if"], qb=200)])

C("C19",
  ["schemas of up to 2 (thorough 3) nodes: the five types, any other text of up to 2 bytes, against graphs of up to 2 (thorough 3) nodes with nine kinds of symbolic content", "schemas of 3 (thorough 4) nodes of any shape against graphs that follow them, with nodes changed or missing"],
  ["larger graphs", "!bool on integers and !int on floats are taken as the code has them (accepted)"],
  [H("C19Check", "any schema, any graph", reach=["accepted", "rejected"], qb=200),
   H("C19Deep", "deeper schemas", {"n": 3}, {"n": 4}, ["accepted", "rejected"], qb=200, tb=600)])

C("C24",
  ["functions of up to 2 parameters of the types int64, string, float64, bool; up to 3 arguments: any int64, float64, boolean or text of up to 1 byte in a variable, constants, an expression, missing variables", "functions that take or return graphs, with or without error, nil", "remote functions with up to 3 arguments",
   "methods of a stored object with parameters int64, string, float64, bool, int, *Graph, []string, and methods that return graphs in which the path goes on"],
  ["functions at deeper paths than the first element", "struct fields", "functions that panic", "conversion by methods of texts other than a few constants to floats and booleans"],
  [H("C24Func", "fixed signatures", reach=["call", "error", "number"], qb=200),
   H("C24Graph", "graphs", reach=["graph", "nothing"], qb=200),
   H("C24Remote", "remote functions", reach=["remote"], qb=200),
   H("C24Method", "methods", reach=["call", "error", "graph"], qb=200)])

C("C08",
  ["3 (thorough 4) operations: append of an object of up to 1 node (thorough also 2) with any text of 1 byte, as object or binary, read at any earlier position, reopening; then every object and the walk from zero", "cuts at every byte of logs of up to 2 objects of 2 nodes (thorough 3), then an append", "objects of about 4096 bytes and of about 127 levels", "raw binary objects with up to 2 nodes of up to 2 chunks of symbolic bytes",
   "the log in memory"],
  ["larger objects", "failing writes", "several processes on one file", "the file is a byte array in memory (model of os.File); the native replays use real files"],
  [H("C08Log", "appends, reads, reopenings", {"nodes": 1, "n": 3}, {"nodes": 1, "n": 4}, ["log"], qb=200, tb=600),
   H("C08Log", "objects of more nodes", {"nodes": 2, "n": 2}, {"nodes": 2, "n": 3}, ["log"], qb=200, tb=600),
   H("C08Cut", "torn writes", {}, {"nodes": 2, "n": 3}, ["cut"], qb=200, tb=800),
   H("C08Big", "large and deep objects", reach=["big"], qb=200),
   H("C08Raw", "binary nodes", reach=["raw"], qb=200),
   H("C08Memory", "in memory", reach=["memory"], qb=200)])

C("C21",
  ["JSON texts of up to 3 (thorough 4) values of any kind and nesting, strings of up to 1 plain byte, escapes, one-digit and two-digit integers, integers of up to 4 digits and at the edges of int64, ten decimal numbers, white space", "all texts of up to 3 (thorough 4) bytes, and of 2 (thorough 3) bytes behind nine prefixes",
   "export of graphs in the form of JSON values: up to 3 (thorough 5) nodes, texts of any ASCII byte, integers within 99, four floats", "every ASCII text of up to 2 (thorough 3) bytes as content or name"],
  ["larger texts and graphs", "numbers beyond float64", "text after the first value", "export of graphs that are not of the form of JSON values (leaf and inner nodes mixed), beyond being left unmodified (C23)", "strings that are not UTF-8", "encoding/json is a model written for this purpose (native replays use the real one)"],
  [H("C21Import", "structure", {"n": 3}, {"n": 4}, ["list", "object", "scalar"], qb=200, tb=800),
   H("C21Text", "white space", reach=["list", "object", "scalar"], qb=200),
   H("C21Number", "numbers and strings", {}, {"digits": 6}, reach=["scalar"], qb=200),
   H("C21Invalid", "any bytes", {"n": 3}, {"n": 4}, ["invalid", "valid"], qb=200, tb=600),
   H("C21Invalid", "any bytes behind a prefix", {"n": 2, "prefix": 1}, {"n": 3, "prefix": 1}, ["invalid", "valid"], qb=200, tb=600),
   H("C21Export", "export", {"n": 2}, {"n": 2}, ["export"], qb=200),
   H("C21Export", "export of nested graphs", {"n": 4, "depth": 3, "lean": 1}, {"n": 5, "depth": 3, "lean": 1}, ["export"], qb=200, tb=800),
   H("C21Strings", "texts", {}, {"l": 3}, ["name", "text"], qb=200, tb=600)])

C("C22",
  ["documents of up to 2 (thorough 3) elements, attributes or pieces of content (4, thorough 5, with less variety of names), nested up to 4 deep: names of ASCII letters, digits, '.', '_', '-' and prefixes, attributes (plain symbolic byte, entities, empty), texts of up to 2 symbolic bytes, entities, CDATA, comments, white space, CR LF, processing instruction, DOCTYPE", "all ASCII texts of up to 3 (thorough 4) bytes, and of 2 (thorough 3) bytes behind 11 prefixes"],
  ["larger documents", "names that are not ASCII (removal of accents by golang.org/x/text is modelled as the identity on ASCII)"],
  [H("C22Import", "structure", {"n": 2}, {"n": 3}, ["document"], qb=200, tb=800),
   H("C22Import", "nesting", {"n": 4, "lean": 1}, {"n": 5, "lean": 1}, ["document"], qb=200, tb=800),
   H("C22Any", "any bytes", {"n": 3}, {"n": 4}, ["any"], qb=200, tb=600),
   H("C22Simplify", "simplification of any graph", {"n": 5}, {"n": 6}, ["simplified"], qb=200, tb=600),
   H("C22Any", "any bytes behind a prefix", {"n": 2, "prefix": 1}, {"n": 3, "prefix": 1}, ["any"], qb=200, tb=600)])

C("C09",
  ["both protocol versions; requests to one of two registered names or any other name of 1 byte, with a payload of one text or byte slice of any 1 byte, or of about 250, 4090, 10000, 20000, 70000 bytes, with up to two more nodes at the top; their answers", "a request cut at up to 3 points into pieces that arrive on their own; 2 requests (thorough 3) in one go, cut at up to 2 points; 2 requests on any of 2 connections; messages on 2 (thorough 3) connections with their pieces interleaved in any order", "connections closed at every byte of a request, of an answer, before an answer",
   "2 calls (thorough 3) of a client with cuts at every point of the answers and at every attempt", "1 to 2 (thorough 3) calls of 2 clients against the server, with closed connections in between", "an answer that comes after the deadline"],
  ["the network is a model of byte streams in memory (native replays use TCP on the loopback interface)", "goroutines are interleaved where they block, not at every memory access", "several requests in one go in protocol 1", "requests without a first child, empty answers, handlers that panic", "messages that are not well-formed but complete", "deadlines of protocol 1"],
  [H("C09Server", "pieces", {"cuts": 3, "tail": 0, "names": 2, "kinds": 1}, {"cuts": 4, "tail": 0, "names": 3, "kinds": 2, "tops": 1}, ["server"], qb=200, tb=600),
   H("C09Server", "cut requests", {"cuts": 1, "tops": 2}, {"cuts": 1, "tops": 2, "tailcuts": 1, "names": 2, "kinds": 1}, ["server", "cut"], qb=200, tb=600),
   H("C09Server", "two connections", {"cuts": 0, "conns": 2, "reqs": 2, "names": 3, "kinds": 1}, {"cuts": 0, "conns": 2, "reqs": 3, "names": 3, "kinds": 1}, ["server", "cut"], qb=200, tb=600),
   H("C09Server", "several requests in one go", {"pipe": 1, "reqs": 2, "cuts": 2, "tail": 0, "names": 2, "kinds": 1}, {"pipe": 1, "reqs": 3, "cuts": 2, "tail": 0, "names": 2, "kinds": 1}, ["server"], qb=200, tb=600),
   H("C09Server", "large requests", {"kinds": 3, "names": 1, "cuts": 1, "tail": 0, "huge": 1}, {"kinds": 3, "names": 1, "cuts": 2, "tail": 0}, ["server"], qb=200, tb=600, steps=100000000),
   H("C09Inter", "interleaved connections", {"names": 2, "kinds": 1}, {"names": 1, "kinds": 1, "conns": 3}, ["inter"], qb=200, tb=800),
   H("C09Client", "client", {"calls": 1, "cuts": 2}, {"calls": 1, "cuts": 3}, ["whole", "cut", "again"], qb=200, tb=600),
   H("C09Client", "several calls", {"calls": 2, "names": 2, "kinds": 1}, {"calls": 2}, ["whole", "cut", "again"], qb=200, tb=800),
   H("C09Both", "client and server", {"calls": 2, "tops": 1}, {"calls": 3, "names": 2, "tops": 1}, ["both"], qb=200, tb=600),
   H("C09Both", "large messages", {"kinds": 3, "calls": 1, "huge": 1}, {"kinds": 3, "calls": 1, "load": 2, "huge": 1}, ["both"], qb=200, tb=600, steps=200000000),
   H("C09Late", "late answers", reach=["late"], qb=200)])
for h in checks["C09"]["harnesses"]:
    h["samples"] = 6

C("C26",
  ["any 3 (thorough 4) bytes at the start of a stream or in it", "sequences of 3 (thorough 4) reads, unreads and peeks of bytes and runes about the places where the buffer of the lexer is refilled, of 5 (thorough 6) at the start of the stream, with ASCII, two to four byte and truncated characters, and at the end of the stream"],
  ["Break on a lone CR, which is consumed", "Quoted, Block and Scalar (see C02, C04, C05)", "non-ASCII tokens (see C03, C18)", "more than one unread after the end"],
  [H("C26Token", "productions", {"n": 3}, {"n": 4}, ["number", "peek", "space", "token"], qb=200, tb=600),
   H("C26Unread", "unreading and peeking", {"n": 2, "ops": 3}, {"n": 3, "ops": 4}, ["unread"], qb=200, tb=500, steps=30000000),
   H("C26Unread", "longer sequences at the start of the stream", {"n": 3, "ops": 5, "far": 0}, {"n": 3, "ops": 6, "far": 0}, ["unread"], qb=200, tb=300, steps=30000000)])

C("C27",
  ["sequences of 4 (thorough 5) events of any kind, through the handler or through a parser, with levels up to 3; any int64, texts and bytes of one symbolic byte"],
  ["levels that skip the level above them", "deleting when there is nothing"],
  [H("C27Events", "events", {"ops": 4}, {"ops": 5}, ["tree"], qb=200, tb=800)])

C("C28",
  ["graphs of 2 (thorough 3) subnodes, with and without nodes of their own, of any ASCII text of up to 2 bytes, as string or bytes; ten expressions and three wrong ones"],
  ["other expressions: the regexp package is trusted to compile them, and is itself executed symbolically"],
  [H("C28Find", "find", {"n": 2}, {"n": 3}, ["found", "nothing", "wrong"], qb=200, tb=600)])
