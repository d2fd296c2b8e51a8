# ID -> (oracle, why the tests cannot)
O = {
"C01": "The oracle is the statement itself: no panic, bounded steps, a graph, and a subsequence test of the texts of all nodes against the input (a byte that isn't in the input, or out of order, fails). With type detection the texts of converted scalars are excluded and their presence is decided by C05.",
"C02": "A generator writes documents together with the tree that the grammar gives (a second, small description of the grammar, by construction and not by parsing): the tree is computed from the relative indentations chosen, and the symbolic word bytes are constrained to word characters.",
"C03": "Two runs of the real parser on the same symbolic bytes, one delivered at once and one through a reader that splits them at chosen places; results must be equal. Positions relative to the buffer are covered with a concrete filler of varying length before symbolic contents.",
"C04": "Print, parse, compare with the tree that was printed. Excluded contents are assumed away byte by byte.",
"C05": "A reference recogniser for integers, booleans and numbers over symbolic bytes, written from the statement; decimal values are compared with strconv.ParseFloat on enumerated texts.",
"C06": "A reference encoder following the documentation of the format (level and text), compared byte for byte; then the real decoder on it.",
"C07": "A reference decoder/recogniser of the documented grammar over the symbolic bytes. When it says well-formed, the graph must be the described one; otherwise only termination without panic. A byte counter checks that nothing beyond the end is consumed.",
"C08": "A list of what was appended and the positions returned. The file is cut at a chosen byte; entries completely before it must read back.",
"C09": "What the handlers received and what the calls returned, compared with the requests and the answers that the harness made; the network model delivers pieces at the chosen cuts, in the chosen interleaving, with time passing when nobody can run. Native replay uses real TCP.",
"C10": "A model graph of plain Go slices on which every edit is repeated; node identities are compared as well as contents. Copies are edited and the other side is compared with a snapshot.",
"C11": "A model of set on the harness's tree: first node by name per step, created if missing. Get afterwards, and a snapshot of everything outside.",
"C12": "A model of path resolution on the harness's tree, with quoted and bare names, indexes, selectors, also when they are given by expressions whose values the harness knows.",
"C13": "A precedence-climbing evaluator over the same operands, computing with SMT terms (64-bit integers, IEEE doubles): the queries compare the two terms for all values of the variables.",
"C14": "Totality only: no panic, bounded steps, for every text within the bounds, as path, expression and template, evaluated on a context with values of every kind.",
"C15": "Mathematical comparison of the two symbolic values, by kind of the first operand; truth tables.",
"C16": "A generator writes templates together with the output they must give, by construction; conditions have symbolic outcomes and loops run over symbolic elements.",
"C17": "Values as SMT terms before and after conversion; recognisers of numbers for texts; defaults are distinct symbolic values.",
"C18": "A model lookup says whether the path designates a node; the rest of the chain must behave as on a missing node if not. No call may panic.",
"C19": "A recursive conformance check written from the statement.",
"C20": "Permutation by node identity, and order by text or integer value of the field.",
"C21": "A generator writes JSON with the nodes it must give; a reference recogniser of JSON decides validity for arbitrary bytes; the exporter's output is read back by a JSON reader in the harness and compared with the value.",
"C22": "A generator writes XML with the nodes it must give. Arbitrary bytes: no panic.",
"C23": "A deep snapshot (node identities, contents, byte slices by value, order) before and after every reading operation.",
"C24": "Functions stored in the context record their arguments; counts, values and results are compared with what the harness wrote in the path.",
"C25": "A model of merging and substituting on the harness's tree.",
"C26": "Longest-prefix functions over the symbolic bytes for each production; after it, the rest of the stream is read byte by byte and must be the rest of the input. Unreading: a position in the known stream.",
"C27": "A list of (content, level), and a stack that gives each item its parent.",
"C28": "The meaning of each expression as a predicate on the symbolic text.",
}
