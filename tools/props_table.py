# Executed by make_docs.py.
GEN = "Cases are generated within the stated size bounds; no claim beyond the explored cases."

prop("P01", "Parsing never loses or reorders text",
     "For any source text in any supported language, parsing succeeds and the returned raw tokens concatenate to exactly that text. The returned tree spans all tokens, every node's range is divided exactly among its children without gap or overlap, and its leaves enumerate the tokens in order. Tokens not taken from the text are only the reported bracket corrections, indentation markers, and one implied final newline in Python.",
     ["inputs"], "all source texts (including malformed, empty and non-ASCII text), all languages, all indentation widths",
     "Existing tests parse a few well-formed snippets; losslessness must hold for every malformed or truncated completion a model can emit.",
     [SP], [("regex tokenisation with a catch-all", SP + ":RegexCodec"), ("parse and correction", SP + ":PseudoParser.parse_and_maybe_preprocess"), ("range validation", SP + ":valid_parse_ranges")],
     "property-based testing: grammar-mixed and malformed code generator, round-trip and tree-partition invariants",
     "Code of up to about 28 fragments per case, one case in sixteen larger (up to some 300 tokens, or deeply nested). " + GEN, ["tree, tokens, types, raw tokens, correction counts"])

prop("P02", "Strings, comments and directives are lexed as single units",
     "Every language's tokeniser splits text into the documented lexical units: a string literal, comment, preprocessor directive, number, word, white space run or single symbol is exactly one token, of the kind that language assigns to it (C-family quoted literals share the block-comment kind). The index of a token never changes over the life of a tokeniser, is never shared by two tokens, and decodes to the same text and kind at any later time.",
     ["inputs", "histories"], "all source texts, and all sequences of encodings and added markers on one tokeniser",
     "Tests tokenise a few fixed snippets once; escapes, unterminated literals, and reuse of a tokeniser over many inputs are not sampled.",
     [SP], [("preset token patterns", SP + ":RegexCodec.preset"), ("index tables", SP + ":RegexCodec.encode/add_token/decode_token/decode_type")],
     "differential fuzzing against a hand-written scanner; stateful history of encodings against a dictionary model",
     "The reference scanner is written without regular expressions. " + GEN)

prop("P03", "Unbalanced brackets are repaired minimally and matched correctly",
     "Unmatched closing brackets are repaired by prepending exactly the openers they need and unmatched openers by appending exactly their closers in nesting order, a closing bracket of the wrong kind being left as an ordinary token; the repaired code needs no further repair. Each opener in the tree is paired with its own nearest matching closer. In strict mode unopened, mismatched or unclosed brackets are rejected with a parse error, and otherwise strict and tolerant modes agree. The tree checker accepts exactly the trees whose nodes are divided among their children without gap or overlap and cover all tokens.",
     ["inputs"], "all token sequences over any set of bracket pairs, and all source texts",
     "Tests check a handful of bracket strings; interleavings of wrong, missing and surplus brackets are unbounded.",
     [SP], [("error correction", SP + ":error_correcting_prefix_and_suffix"), ("bracket matching", SP + ":stack_based_bracket_match"), ("tree checker", SP + ":valid_parse_ranges")],
     "differential property-based testing against a reference pairing algorithm",
     "Token sequences up to 22 tokens over up to five bracket pairs, and code as in P01. " + GEN)

prop("P04", "Python indentation becomes balanced, correctly placed blocks",
     "In parsed Python, every change of indentation level between logical lines is represented by exactly that many markers: block openings before the deeper line's first token, block closings just before the line break that precedes the shallower line. Blank lines and lines inside brackets change nothing. Markers carry no text, are always balanced (open blocks are closed before the final line break), and every one becomes a block of the tree.",
     ["inputs"], "all Python-like texts, including inconsistent indentation, blank lines, open brackets and multi-line strings, for every indentation width",
     "Tests cover a few consistently indented functions.",
     [SP], [("indent preprocessing", SP + ":PseudoParser (Python preprocessing)")],
     "differential property-based testing against a line-based reference",
     "Programs of up to ten lines plus arbitrary fragments, one case in sixteen larger. " + GEN)

prop("P05", "Statements are grouped exactly at their terminators",
     "Within every bracket or block that may contain statements, consecutive nodes up to and including a statement terminator form one statement group, and a trailing run without terminator forms the last group; terminators inside protected brackets never split. Where asked (as for Python), the group that contains an indented block is nested together with the group before it, its header. Grouping adds no token, removes none, and leaves the input tree untouched.",
     ["inputs"], "all source texts and all trees, terminator sets and protected bracket kinds",
     "Tests compare a few printed trees.",
     [SP], [("statement splitting", SP + ":split_parse")],
     "differential property-based testing against a recursive reference splitter",
     GEN)

prop("P06", "Completions are cut at the end of the enclosing block or statement",
     "Given code and a cursor inside it, the truncation point lies between the cursor and the end of the code: it is the end of the innermost enclosing block (braces, or a Python indentation block) containing the first token after the cursor, together with the token that follows the block's closer, or, without such a block, the end of the first complete statement after the cursor, or else the end of the code. For a cursor just after an opening docstring quote it is the end of the next identical triple quote, and nothing if there is none.",
     ["inputs"], "all code, languages, cursor positions, bracket kinds and terminator sets",
     "Tests use a few fixed snippets with one cursor each.",
     [UT], [("enclosing group", UT + ":infer_match_pair_truncation_index"), ("statement end", UT + ":infer_split_truncation_index"), ("fallbacks", UT + ":infer_truncation_with_fallbacks"), ("docstring", UT + ":infer_truncation_pydocstring")],
     "differential property-based testing against offset-table references on the reference parse",
     GEN)

prop("P07", "Indentation width and docstring positions are inferred correctly",
     "The inferred indentation width of Python code is the largest candidate that divides the leading white space of every line that opens or closes a block, and one if there is no such line or candidate. The reported docstring positions are exactly the offsets just after the opening triple quotes of strings that directly follow a function header one indentation level deeper.",
     ["inputs"], "all Python-like texts and all candidate widths",
     "Tests use a few fixed functions with two or four spaces.",
     [UT], [("indent inference", UT + ":infer_python_spaces_per_indent"), ("docstring search", UT + ":find_python_function_docstrings")],
     "differential property-based testing; planted-docstring generator with known positions",
     "Candidates are given in ascending order. " + GEN)

prop("P08", "Parsed code becomes a node sequence with identical text and structure",
     "Converting code to a node sequence, in any supported language and with or without flattening, preserves the text exactly and mirrors the parse tree: one group per inner node and one leaf per token, with the kind of each. White space and empty leaves are decorations that never take part in matching, and string literals become groups of subtokens. A tree that does not cover all of its text is refused with an error.",
     ["inputs", "configurations"], "all code, languages, flatten settings and choices of decoration or subtokenised kinds",
     "Tests convert three snippets.",
     [SEQ, PT], [("conversion", SEQ + ":pseudo_parse_node_to_nested_sequence_node"), ("helper", PT + ":ParserHelper.parse_to_nodes")],
     "differential property-based testing against reference parse and conversion", GEN)

prop("P09", "Subtokenisation is lossless and follows the case and class rules",
     "Splitting a string into subtokens never loses, adds or reorders a character and never emits an empty subtoken. Splits fall exactly at changes of character class and at camel-case boundaries (the last capital before a lower-case run belongs to that run), white space runs are cut at twenty, and every line break stands alone.",
     ["inputs"], "all strings, including any Unicode",
     "No test targets the subtokeniser directly.",
     [SUB, SEQ], [("subtokeniser", SUB + ":code_to_tokens_simple_lossless"), ("nodes", SEQ + ":subtokenize_token")],
     "property-based testing: round trip plus differential against a class-string reference", GEN)

prop("P10", "Region and exit insertion adds exactly the promised markers",
     "Each structural transformation changes a node sequence only as documented: region markers enclose exactly the allowed nodes at every level (with empty-region markers only when asked), exit markers follow exactly the allowed nodes, flattening removes only group boundaries, and merging singleton groups combines the kinds in order. Text is preserved, the input is not modified, and removing the markers restores the unmarked sequence. Regions are never offered around single brackets, bracket contents or line breaks of parsed code.",
     ["inputs", "configurations"], "all node trees, filters and options",
     "Tests compare a few fixed trees per transform.",
     [TR, PT], [("transforms", TR), ("region filter", PT + ":allow_regions_around_pseudoparse_node")],
     "property-based testing over node trees against recursive references and an insert/strip round trip", GEN)

prop("P11", "Dropping a shared prefix keeps exactly the remaining text",
     "Cutting a node sequence at a character offset yields nodes whose text is exactly the text after that offset; a node that straddles the offset keeps its kind and only its remaining text. Every node after the cut keeps its position, groups containing the cut stay, cutting nothing changes nothing, and the input is not modified; for parsed code this makes context plus remainder equal to the code.",
     ["inputs"], "all node trees and offsets, and all code split at any point",
     "Tests cut a few fixed trees at a few offsets.",
     [TR], [("cut", TR + ":truncate_prefix_at_offset")],
     "property-based testing against a path-based reference", GEN)

prop("P12", "Packing a node tree is lossless and its indices agree",
     "Packing a node sequence and unpacking it gives the same sequence. In the packed form every node has a unique preorder index with the right category, contents, level, parent, position, path and children, paths resolve back to the same node, invalid paths are rejected, and text rendering equals the original text. The in-order traversal visits every group's start and end and every leaf in textual order, without decorations when asked, identically in interpreted and compiled mode.",
     ["inputs", "configurations"], "all node trees, interpreted and compiled mode",
     "No test that can run here covers packing.",
     [PSN], [("packing", PSN + ":pack/unpack"), ("traversal", PSN + ":in_order_traversal")],
     "property-based testing: round trip and index model",
     "Compiled mode runs numba overloads as Python (numba is not installed). " + GEN)

prop("P13", "Tree helpers report text, depth and walks faithfully",
     "For any node tree, the rendered text is the concatenation of its text leaves in order, the reported depth is the true nesting depth, and the walk visits every node exactly once in preorder with the path that leads to it. The debug view shows every node.",
     ["inputs"], "all node trees",
     "Tests walk one fixed tree.",
     [SNH, SN], [("helpers", SNH)],
     "property-based testing against recursive references", GEN)

prop("P14", "Model token probabilities are aligned with the parsed tokens they overlap",
     "Every parsed token receives the sum of the log-probabilities of exactly those model tokens that overlap its characters (a model token that straddles two parsed tokens counts fully in both; decorations consume characters but receive nothing). Any disagreement between the model's text and the parsed text, or left-over model text when all must be consumed, is rejected with an error. Flattened and rendered views show every token's text unchanged, with its probability as its colour.",
     ["inputs"], "all node trees and all segmentations of their text into scored model tokens",
     "Tests align two fixed strings.",
     [TPA], [("alignment", TPA)],
     "property-based testing: character-interval reference model, corruption and left-over rejection", "Log-probabilities are finite. " + GEN)

COMPILED = "Compiled mode runs numba overloads as Python (numba is not installed). "

prop("P15", "Pruning and renumbering a decision graph keeps exactly its useful part",
     "Pruning keeps exactly the edges that lie on some path of finite cost from start to end, in order and unchanged; renumbering then gives every remaining state its own number, consistently and without gaps, whatever the scratch table contains and however often it is reused, and a graph without any path is rejected. While a graph is built, an edge into a state that already has outgoing edges is rejected with an error and changes nothing, and every other edge is kept in order.",
     ["inputs", "histories"], "all graphs and edge orders, all histories of additions, and any sequence of graphs sharing a scratch table, interpreted and compiled",
     "The tests of this module need numba and cannot run here; collisions in the scratch table depend on hash values and history.",
     [GSD], [("pruning", GSD + ":prune_to_reachable"), ("renumbering", GSD + ":prune_unreachable_and_rewrite_states"), ("building", GSD + ":partial_state_dag_add_edge")],
     "property-based testing: graph-search reference and model-based histories", COMPILED + GEN)

prop("P16", "Packing a decision graph preserves every path, cost and assignment",
     "The packed form of a decision graph has exactly one path for every path of the original, with the same cost and edges, and it assigns every variable exactly once in order, using the default value where the original path assigned nothing; paths that assign variables out of order or twice are rejected. Variables and values are numbered in order (or in the order given), scaling changes only costs, and the cheapest path under constraints or penalties is the true cheapest one.",
     ["inputs", "configurations"], "all pruned decision graphs, default values, value orderings, constraints and penalties, interpreted and compiled",
     "The tests of this module need numba and cannot run here; the number of paths is exponential.",
     [PD], [("packing", PD + ":convert_dag_to_packed"), ("best path", PD + ":constrained_best_path"), ("extraction", PD + ":extract_minimal_cost_path_and_assignments")],
     "property-based testing: exhaustive path enumeration of generated graphs as the oracle", "At most 400 paths per graph when paths are enumerated; larger layered graphs are judged by dynamic programming and path counts. " + COMPILED + GEN)

prop("P17", "Cheapest costs and min-marginals stay exact under any sequence of updates",
     "After any interleaving of penalty changes, partial updates, copies and queries, every reported minimal cost, min-marginal and known prefix or suffix cost equals the true value for the current penalties, however it is computed. Copies are independent of each other, and neither queries nor updates change the graph or the penalties.",
     ["histories"], "all sequences of penalty updates, cache updates, copies and queries on any graph",
     "The caches are invalidated lazily, so errors need a particular order of updates and queries; the tests cannot run here.",
     [PD], [("cache updates", PD + ":update_prefixes_up_to"), ("penalties", PD + ":set_penalties"), ("queries", PD + ":compute_min_marginals_for_variable")],
     "stateful property-based testing against exhaustive path enumeration", COMPILED + GEN)

prop("P18", "The solver's bound never exceeds the optimum and never gets worse",
     "At every step of the solver, in any order of variables and for any weights and extra costs, the reported bound is at most the cost of the true best joint assignment, does not decrease, and equals what the current penalties imply; afterwards the graphs that share the variable agree on it in proportion to their weights. Penalties always add up to the requested extra costs and forbid only choices that no joint assignment can make. A full solve stops at the first sweep that exceeds the time limit or when a sweep brings no improvement above the tolerance, and its per-step and per-sweep records agree.",
     ["inputs", "histories"], "all systems of graphs, weights, extra costs, update orders, time limits and tolerances",
     "The tests of this module need numba and cannot run here; soundness of a bound is a statement about the best of exponentially many assignments.",
     [DS], [("averaging step", DS + ":min_marginal_average"), ("solver", DS + ":solve_system_with_sweeps")],
     "property-based testing against a brute-force optimum over all joint assignments", "At most 3 graphs, 4-5 variables of 3 values, and a smaller number of systems of up to 6 graphs and 6 variables. " + COMPILED + GEN)

prop("P19", "System edits, copies and extracted solutions mean what they say",
     "A system built from several graphs has their combined variables in order, and rejects an empty list or graphs with differing values. Constraining adds the given penalty to exactly the violating choices, noise stays in range and is reproducible, copies are independent, and committing forbids exactly the choices whose best cost is farther from the best bound than the requested gap, never all of a variable's, and never the optimum of a single graph. An extracted solution decides every variable by the best option given the decisions before it, its reported cost is its true total cost (infinite if inconsistent), extraction leaves the system unchanged, and a single graph is solved exactly.",
     ["inputs", "histories"], "all systems and all sequences of constraints, noise, updates, copies, commitments and extractions",
     "The tests of this module need numba and cannot run here; effects depend on the history of the system.",
     [DS], [("construction", DS + ":make_system"), ("extraction", DS + ":greedy_extract"), ("commitment", DS + ":partially_commit"), ("constraints", DS + ":constrain_system")],
     "stateful property-based testing against a brute-force model of joint assignments", "At most 3 graphs, 4-5 variables of 3 values, and a smaller number of systems of up to 6 graphs and 6 variables. " + COMPILED + GEN)

prop("P20", "The edit-distance utility is the true uncertainty-aware edit cost",
     "For any prototype, target and set of region and early-exit decisions, the cost assigned is the cheapest way of turning the kept prototype into the target: matched tokens (equal text and kind, within matching groups only) earn their per-character utility, deleted tokens cost theirs at the confidence of their region, each contiguous edit pays one start cost, each region its fixed cost, inserted text its own cost, and nothing after an early exit counts. Decisions that contradict each other have no cost at all (infinite), and the unconstrained optimum is the best over all consistent decisions.",
     ["inputs", "configurations"], "all prototypes with regions and exits, all targets, all decisions and all non-negative cost parameters, interpreted and compiled",
     "No test of this module can run here; the number of alignments and of decisions is exponential.",
     [ED], [("builder", ED + ":make_edit_dag_builder"), ("packing", ED + ":pack_dag")],
     "differential property-based testing against an independent gap-based edit-distance reference", "Prototypes of up to about ten nodes, and a smaller number of up to about 25. " + COMPILED + GEN)

prop("P21", "Exactly the well-nested region decisions are accepted",
     "The constraint accepts, at cost zero, exactly the complete sets of decisions in which every region that starts also ends at the same nesting level of the same group (unless an early exit inside it cuts it off), no region starts inside another, a node is marked as inside a region exactly if it is, and everything after an early exit is marked as not applicable; every other set is rejected.",
     ["inputs"], "all prototypes with region and exit markers and all decisions, interpreted and compiled",
     "No test of this module can run here; validity is a statement about every one of exponentially many decisions.",
     [CD], [("builder", CD + ":make_constraint_dag_builder")],
     "property-based testing against a validity model, with exhaustive enumeration of solutions on small prototypes", "Prototypes of up to about twelve nodes, and a smaller number of up to about 25. " + COMPILED + GEN)

prop("P22", "Selected parts are credited exactly when found in the target in order",
     "For any prototype, target and choice of parts, the cost is that of the best in-order, non-overlapping assignment of the selected parts to places in the target: a part found there as one consecutive run of equal tokens earns its tokens' utilities, any other selected part costs its tokens' deletion costs, and unselected text costs nothing. The reported match groups are those of such a best assignment.",
     ["inputs", "configurations"], "all prototypes, targets, selections and token utilities, interpreted and compiled",
     "No test of this module can run here; the number of assignments is exponential.",
     [PS], [("builder", PS + ":make_selection_dag_builder"), ("groups", PS + ":extract_match_groups")],
     "differential property-based testing against a sequence-alignment reference", "Prototypes of up to about ten nodes, and a smaller number of up to about 25. " + COMPILED + GEN)

prop("P23", "Rendered solutions show the true text, regions, edits and costs",
     "Whatever the decisions, the annotated sequence and its HTML show the kept suggestion text exactly (escaped, line breaks kept), mark exactly the text inside regions, and show nothing after an early exit. The rendered edit script starts from the kept suggestion and ends in the target, with every deleted, inserted and kept piece labelled as such, and the summary metrics count exactly those characters, edits and regions and add up to the total cost.",
     ["inputs"], "all prototypes, targets and decisions, including text with markup characters",
     "No test of these modules can run here.",
     [RD, ED], [("regions", RD + ":extract_sequence_with_regions"), ("region HTML", RD + ":render_regions_to_html"), ("edit script", ED + ":extract_edit_sequence_html"), ("metrics", ED + ":extract_edit_summary_metrics")],
     "property-based testing: rendered output is parsed back and compared with the decisions", "Token texts are not empty. " + GEN)

prop("P24", "The region and prefix tasks optimise exactly the problem the user posed",
     "Given code context, a suggestion and sampled continuations, the suggestion offered for annotation has exactly the remaining text and the documented decision points, and the system's cost of any valid annotation is the weighted average of its uncertainty-aware edit costs against the samples, under the documented parameters; badly nested regions are impossible. Solving returns a complete valid annotation with its true cost and a bound that no annotation beats, and reported costs, averages, ranks and renderings agree with it. Compiled and interpreted modes agree.",
     ["inputs", "configurations"], "all contexts, suggestions, samples, weights and task parameters in several languages",
     "The tests of these wrappers need numba and cannot run here, and use a few fixed programs.",
     [EW, UW, PW, WB, PT], [("prototype and system", EW + ":EditDistanceWrapperBase"), ("costs", UW + ":derive_uncertainty_region_costs"), ("sample costs", WB + ":compute_sample_system_info")],
     "end-to-end property-based testing against independent parse, transform and edit-cost references", "Suggestions of up to six fragments or ordinary statements, up to five samples. " + COMPILED + GEN)

prop("P25", "The precision setting is the probability at which text is marked or shown",
     "A suggested token that is right with some probability (and otherwise replaced by one of equal length) is best put in a low-confidence region exactly if that probability is below the configured precision, whatever its length, the editing cost and the sensitivity; at the precision itself both choices cost the same, and solving marks that token and no other. Likewise a call is shown exactly if it is right with a probability above the configured precision.",
     ["inputs", "configurations"], "all precisions, sensitivities, editing costs, token lengths, probabilities and surrounding tokens",
     "The wrappers' tests use default parameters and fixed programs, and cannot run here.",
     [UW, CW], [("derived costs", UW + ":derive_uncertainty_region_costs"), ("call utilities", CW + ":ApiCallSequenceWrapper")],
     "property-based testing of the threshold, on the derived costs and by solving weighted systems", GEN)

prop("P26", "Baselines truncate and mark exactly where their rule says",
     "Each truncation baseline stops at the place its rule names (last possible stop before the first token, or prefix, below a probability threshold, or else the first one after it; best average; the published length-dependent threshold; first stop after so many characters or lines), or keeps everything if there is none; its decisions are consistent and start no region. Each region baseline marks every token that its probability, position or depth rule selects and that can be marked at all, in a valid annotation that otherwise loses as little as possible.",
     ["inputs", "configurations"], "all suggestions, segmentations into scored model tokens and thresholds",
     "The tests of the wrappers need numba and cannot run here, and use one fixed program.",
     [PW, UW], [("truncation baselines", PW + ":PrefixByEditDistanceBaselineBuilder"), ("region baselines", UW + ":UncertaintyRegionsBaselineBuilder")],
     "differential property-based testing against rule-by-rule references and a dynamic program for the best marking", "Suggestions of up to nine fragments. " + GEN)

prop("P27", "The call task extracts, scores and reports calls as documented",
     "From the line of the cursor on, every call-like expression (a head directly followed by parentheses, not a function or class definition, the first one of its bracket level, nested ones only outside calls) is offered as one call with its possible starts and ends, its names classed as unseen exactly if they occur neither in the context nor among the language's built-in tokens. The cost of a selection is the weighted average over samples of the best in-order matching, in which unseen names weigh ten times as much as others; counts of correct and deleted names, rendered matches and the simple baselines agree with it, and compiled and interpreted modes agree.",
     ["inputs", "configurations"], "all contexts, suggestions, samples, weights and precisions",
     "The tests of this wrapper need numba and cannot run here, and use a few fixed programs.",
     [CW, WB], [("extraction", CW + ":ApiCallSequenceWrapper.process_prototype_and_context"), ("context tokens", CW + ":extract_context_tokens"), ("baselines", CW + ":ApiCallSequenceWrapper.build_baseline_assignments"), ("system", CW + ":ApiCallSequenceWrapper.build_system")],
     "differential property-based testing against an independent extractor and alignment reference", "Suggestions of up to ten fragments, or slices of ordinary programs. " + COMPILED + GEN)

prop("P28", "The demo runner answers from the user's own context and samples",
     "Combining a context with samples uses the chosen sample as prototype and all samples, in order, as targets, and reports a complete valid annotation of that prototype whose utility is minus the average cost over all samples, a bound that no annotation exceeds, and per-sample costs; an input without decisions gives an empty result that every view explains to the user. The extracted parts are the maximal runs of equal confidence and together are the kept text; the views show exactly that suggestion, those edits, utilities and solver curves, the baselines of the given scored tokens, and every model or parsed token of the completion with its own probability after the context.",
     ["inputs", "configurations"], "all contexts, lists of samples, prototype choices, tasks and scored model tokens",
     "This module has no tests (it needs a notebook).",
     [DR, WB], [("combination", DR + ":DemoRunner.combine"), ("baselines", DR + ":DemoRunner.build_baselines"), ("views", DR + ":DemoRunner.show_*"), ("parts", DR + ":DemoRunner.get_extracted_parts")],
     "end-to-end property-based testing against the references of the single steps; displayed output is recorded and parsed back",
     "Suggestions of up to five fragments, up to four samples. The notebook and plotting libraries are replaced by recorders. " + GEN)

prop("P29", "Drawings of decision graphs show exactly the graph",
     "Rendering a graph draws every state once in the box, with the text, hover text and reachability its annotation says, and every transition once as a line from the right side or bottom of its source to the left side or top of its destination with its label at the annotated place, emphasising exactly the requested transitions; everything drawn lies within the view. The annotators of the utility functions place states in disjoint boxes, never to the left of their predecessors, label transitions with their cost and decision, draw a box around the states of each compared pair of sequences, and show the prototype and target tokens in order in the margins. Labels are placed on the requested side of their point, at the requested distance, and all text is escaped.",
     ["inputs", "histories"], "all sequences of drawing operations, all graphs, annotations and emphasised transitions, and all utility graphs",
     "These modules have no tests.",
     [SVG, DAN, SDA, RND, R + "rendering/render_in_notebook.py", ED, CD, PS], [("renderer", SVG + ":SVGRenderer"), ("graph drawing", DAN + ":render_dag"), ("generic annotator", SDA + ":SimpleDAGAnnotator"), ("edit graphs", ED + ":EditDagGraphAnnotator"), ("constraint graphs", CD + ":ConstraintDagGraphAnnotator"), ("selection graphs", PS + ":PartSelectionGraphAnnotator")],
     "property-based testing: generated drawings are parsed back and compared with the graph and its annotations",
     "Graphs of up to 20 transitions and a part up to 120, utility graphs of up to 700 and a part up to 4000. " + GEN)

prop("P30", "An answer depends on nothing but the question",
     "Parsing, transforming, pruning, solving with a given seed, combining samples, building baselines and drawing give the same answer to the same question every time: whatever was asked before in the same process, with the same parser, task, demo runner or scratch table or with new ones, in any other process, and under any seed of Python's string hashing. A result already handed out does not change when further questions are asked.",
     ["histories", "configurations"], "all sequences of questions to shared objects, all hash seeds",
     "Tests ask single questions; what one question leaves behind for the next shows only over histories.",
     [PT, DR, EW, CW, UW, PW, DS, GSD, SP, SVG], [("parser", PT + ":ParserHelper"), ("runner", DR + ":DemoRunner"), ("tasks", EW + ":EditDistanceWrapperBase"), ("seeded noise", DS + ":break_symmetry_randomly"), ("scratch table", GSD + ":prune_unreachable_and_rewrite_states")],
     "stateful property-based testing: sessions against the same questions asked alone in fresh processes with another hash seed",
     "Sessions of up to five questions. Answers that took over four seconds are not compared, because the solver has a time limit. Floating-point values are compared to nine digits. " + GEN)
