# id: (specified and compared, oracle, generator and bounds, why beyond tests)
ROWS = {
"P01": ("raw tokens concatenate to the input; the tree partitions the token range; leaves enumerate tokens; nothing synthetic except reported repairs, markers, final newline",
        "round trip plus partition invariants of the returned ranges; reported correction counts against the reference parse",
        "grammar-mixed code in 5 languages, up to 28 fragments: brackets, strings, comments, escapes, unterminated literals, odd white space, Unicode, indentation units 1-8; one case in 16 large (some 300 tokens) or deeply nested"),
"P02": ("text and kind of every token; index stability over a codec's life",
        "hand-written scanner without regular expressions; dictionary model of indices over a history of encodings",
        "code as P01; histories of up to 6 encodings with reuse"),
"P03": ("prefix and suffix of the repair, idempotence, pairing in the tree, strict and tolerant modes, verdict of the tree checker",
        "stack reference that pairs openers with nearest matching closers; partition test of deliberately damaged trees",
        "code as P01; token sequences up to 22 over up to 5 bracket pairs"),
"P04": ("position, number and balance of indentation markers, one block per marker pair",
        "line-based reference that never uses the parser",
        "programs of up to 10 logical lines with inconsistent indentation, blank lines, brackets, multi-line strings; units 1-8"),
"P05": ("statement groups of the tree, nesting of blocks under headers, token preservation, input unmodified",
        "recursive reference splitter",
        "code as P01; random trees with random terminator sets and protected kinds"),
"P06": ("truncation offset for every cursor",
        "offset tables over the reference parse: innermost block, first statement end, fallback; quote search for docstrings",
        "code as P01 with a cursor anywhere; explicit and default bracket kinds, terminators"),
"P07": ("inferred width; docstring offsets",
        "divisibility over reference block lines; reference docstring search, and planted docstrings with known offsets",
        "code as P04, random candidate lists (ascending)"),
"P08": ("node sequence against tree: text, group and leaf structure, kinds, decorations, subtokens; refusal of damaged trees",
        "reference conversion of the reference parse",
        "code as P01, flatten on and off, random decoration and subtoken kinds"),
"P09": ("subtokens of any string", "round trip, and cut positions from a class string", "strings up to 60 with long runs, camel case, any Unicode"),
"P10": ("each transform's output tree, text, input unmodified, strip round trip",
        "recursive references per transform", "node trees up to depth 4, random filters; every token kind for the region filter"),
"P11": ("tree after the cut", "path-based reference: each leaf's remaining text, groups on the path", "node trees with every offset class; parsed code split at any offset"),
"P12": ("packed indices, unpack, paths, traversal; both modes", "preorder index model of the tree", "node trees up to depth 4 with all node categories, valid and invalid paths"),
"P13": ("text, depth, walk, debug view", "recursive references", "node trees up to depth 5"),
"P14": ("log-probability per token, rejections, flattened and HTML views", "character-interval overlap model", "node trees with random segmentations, corrupted and left-over text"),
"P15": ("edges after pruning, numbering, rejections, build histories, scratch table reuse", "graph search; dictionary model of the builder", "graphs up to 20 edges, a part up to 120 edges, hash collisions forced by tiny scratch tables, several graphs per table"),
"P16": ("paths, costs, assignments of the packed graph; constrained and penalised best paths; rejections", "enumeration of all paths (at most 400)", "graphs with 0-5 variables of up to 7 values, skipped variables, value orders; layered graphs with exponentially many paths, judged by dynamic programming; fine, decimal and huge costs"),
"P17": ("every cost, marginal and cached prefix or suffix after each operation", "enumeration of all paths under the current penalties", "histories of up to 16 operations on variables of up to 7 values: penalties, partial updates, copies, queries; a part on graphs of up to 16 variables and 80 edges, judged by dynamic programming; fine, decimal and huge costs"),
"P18": ("bound against optimum, monotone, marginals equalised by weight, penalty sums, stopping and records of a full solve", "brute force over joint assignments; scripted clock", "systems of 1-3 graphs, 5 variables, weights, extra costs, infinite costs, fine and huge costs, small weights; a part with 4-6 graphs"),
"P19": ("system layout, edits, noise, copies, commitment, extraction", "brute force over joint assignments; step-by-step references of greedy choice and of the commitment rule", "histories of up to 10 operations, a part on systems of 4-6 graphs and 6 variables"),
"P20": ("cost of any decisions and the unconstrained optimum", "independent gap-based edit-distance dynamic program", "prototypes up to 10 nodes with groups, regions, exits; targets up to 8; random costs; both modes; a part up to some 25 nodes, deep nesting, long and strange texts, specialised packers"),
"P21": ("acceptance of complete decisions", "validity model; enumeration of all solutions of small prototypes", "prototypes up to 12 nodes; valid, mutated and random decisions; both modes; a part up to some 25 nodes, deep nesting, long and strange texts, specialised packers"),
"P22": ("cost of any selection, match groups", "alignment dynamic program over parts and target runs", "prototypes up to 10 nodes, random utilities; both modes; a part up to some 25 nodes, deep nesting, long and strange texts, specialised packers"),
"P23": ("annotated sequence, HTML, edit script, metrics", "output parsed back with an HTML parser and compared with decisions and cost parts", "prototypes and targets as P20 with markup characters, long texts, every step of shown edit scripts"),
"P24": ("prototype, cost of any annotation, solution, bound, ranks, averages, renderings; both modes", "independent parse, transforms and edit costs of the other references", "contexts and samples of up to 6 fragments, 5 samples and a part with 9-20, weights, all task parameters and the defaults; a part on slices of ordinary programs with the cursor anywhere, also inside a token"),
"P25": ("which choice is cheaper, as a function of probability", "the stated threshold itself", "probabilities around the precision, lengths 1-12, all costs; small solved systems"),
"P26": ("place of truncation, marked tokens", "one reference per rule; dynamic program for the least loss", "suggestions up to 9 fragments and a part with long ones, random segmentations, thresholds from 0 to 1 and the defaults, options and constants of the length-dependent rule"),
"P27": ("calls, classes, costs, counts, baselines; both modes", "independent extractor on the reference parse; alignment reference of P22", "contexts and suggestions of up to 10 fragments in Python and C++; a part on slices of ordinary programs with contexts of up to 6000 characters; other decorations; up to 9 samples; compiled mode with and without rewritten states"),
"P28": ("results, parts and every view of the demo runner", "references of the single steps; recorded output parsed back", "contexts and up to 4 samples, a part with long contexts and up to 10 samples, every prototype choice, three tasks"),
"P29": ("every drawn element, annotator layout, label geometry", "drawings parsed back and compared with graph and annotations", "drawing histories, random graphs up to 20 edges and a part up to 120, utility graphs up to 700 edges and a part up to 4000, notebook options"),
"P30": ("the answers of a session, the first question asked again at its end, and results looked at again later", "the same question asked alone in a new process with another hash seed", "sessions of 2-5 related questions: same text with another language, option, indentation, ending or single character; graphs pruned with one scratch table, solved with noise seeds, drawn; runners reused over contexts, samples, tasks and precisions; both modes"),
}
