MODEL = "runtime monitoring: generated queries on the real engine, online comparison with an independent reference interpreter"
NOTE = ("Held on the executions counted in the evidence file, whose cases are a pure function of VERIF_SEED; nothing is claimed about "
        "queries outside the generators. Trusts the harness's reference model and the Go runtime.")

prop("C01", "SELECT yields exactly the transformed rows that pass WHERE, in source order",
 "For a query without grouping, ordering or limit, every source row produces exactly one output row when there is no WHERE or its condition is truthy for that row, and none otherwise, in source order. "
 "The output row has exactly the declared columns in declaration order (a star contributes the source's columns, never overriding an explicitly declared one), each equal to its expression evaluated with that row's columns shadowing outer variables. "
 "The WHERE condition sees both the raw columns of the row and the declared output columns, the latter winning on a name clash.",
 ["inputs","programs"], "every source (row sets of any size, dict or struct rows), every column list, alias and WHERE expression",
 "The golden queries fix a few dozen column/WHERE combinations on tiny sources; nothing quantifies over column lists, name clashes or row counts.",
 ["vfilter.go","lazy.go","scope/scope.go"],
 [("transform each row, then filter it","vfilter.go:_Select.processSingleRow"),("column evaluation scope","vfilter.go:_SelectExpression.Transform"),("star merge","vfilter.go:mergeStarRow"),("lazy row materialization","lazy.go:MaterializedLazyRow")],
 ["rows read from the channel returned by evaluation"], MODEL, NOTE)

prop("C02", "Arithmetic, string and boolean expressions follow the documented semantics",
 "Expressions evaluate with grouping as written: membership/field access binds tightest, then * and /, then + and -, then one comparison, then NOT, then OR, then AND loosest, with equal-precedence operators associating to the left. "
 "Numeric operators compute the mathematical result (integers stay integral under + - *, division always gives a float, any float operand gives a float), + joins strings and lists, integer * string repetition works, and any operation that involves NULL, incompatible operands or a zero divisor gives NULL instead of failing. "
 "AND/OR/NOT follow truthiness (false, NULL, empty and non-positive numbers are false) and the symbolic forms && and || return the deciding operand.",
 ["inputs","programs"], "every expression over literals and variables of any combination of value kinds",
 "The unit tests evaluate about a hundred fixed expressions; operator/type-pair/nesting combinations are unbounded.",
 ["vfilter.go","protocols/protocol_add.go","protocols/protocol_sub.go","protocols/protocol_mul.go","protocols/protocol_div.go","protocols/protocol_bool.go"],
 [("precedence encoded by the grammar","vfilter.go:_AndExpression.._MemberExpression"),("operator protocols with type dispatch","protocols/*.go"),("lazy reduction of operands","protocols/utils.go")],
 ["value of a column holding the expression"], MODEL, NOTE)

prop("C03", "Comparison operators are mutually coherent",
 "For any two values a and b of the same comparable kind (numbers of any mix of integer, float and boolean; strings; points in time, which may be mixed with numbers, taken as seconds since 1970), exactly one of a<b, a=b, a>b holds, a<b equals b>a, equality is symmetric, and < is transitive. "
 "For any values whatever, a!=b is the negation of a=b, a<=b is exactly (a<b or a=b) and a>=b is exactly (a>b or a=b). "
 "Comparing values never depends on whether they arrive as literals, variables, row columns or lazily evaluated definitions.",
 ["inputs"], "all pairs and triples of values, in every way of supplying them",
 "Tests compare a handful of literal pairs; trichotomy, duality and transitivity are relations over all pairs/triples.",
 ["protocols/protocol_eq.go","protocols/protocol_lt.go","protocols/protocol_gt.go","vfilter.go"],
 [("equality dispatch","protocols/protocol_eq.go"),("less-than dispatch","protocols/protocol_lt.go"),("greater-than dispatch","protocols/protocol_gt.go"),("derived operators","vfilter.go:_ConditionOperand.Reduce")],
 ["boolean value of a comparison column"],
 "runtime monitoring: algebraic-law monitor (trichotomy, duality, negation, transitivity) over all pairs/triples of a value pool evaluated by the real engine", NOTE)

prop("C04", "Expressions are evaluated lazily: only when needed and at most once per row",
 "A function in a column is invoked at most once per source row however often WHERE and other consumers read that column, and not at all when the row is rejected by a WHERE that never mentions the column. "
 "The right operand of AND/OR is not evaluated when the left one decides, only the taken branch of a conditional is evaluated, and arguments a function never reads are never evaluated. "
 "A lazily defined variable or query is not evaluated until something uses it.",
 ["programs","inputs"], "every query shape in which a side-effecting function is placed in a column, operand, branch, argument or definition",
 "Lazy evaluation is tested with one counter in one query shape; the number of calls must be right for all placements and all row sets.",
 ["vfilter.go","lazy.go","functions/if.go","plugins/if.go","stored.go"],
 [("memoizing lazy row","lazy.go:LazyRowImpl.Get"),("memoizing lazy argument","lazy.go:LazyExprImpl.Reduce"),("short circuit","vfilter.go:_AndExpression.Reduce,_OrExpression.Reduce"),("branch selection","functions/if.go, plugins/if.go")],
 ["calls received by counting functions registered by the host"],
 "runtime monitoring: call-counting probes in every expression slot, exact call multiset predicted by a reference interpreter", NOTE)

prop("C05", "GROUP BY partitions the filtered rows and aggregates each group exactly",
 "A grouped query emits exactly one row per distinct value of the grouping expression among the rows that pass WHERE, in order of first appearance. "
 "In each group count, sum, min, max and enumerate cover exactly the rows of that group, once each and in order, and every other column holds the value of the group's last row. "
 "Aggregates in one query, group or column never mix with those of another, and re-running the query starts afresh.",
 ["inputs","programs"], "every row set, grouping key (single or several columns) and set of aggregate columns",
 "A few golden grouped queries exist; partition/conservation must hold for all key distributions.",
 ["vfilter_group.go","grouper/grouper.go","functions/aggregates.go","scope/aggregators.go"],
 [("bin per group key","grouper/grouper.go"),("aggregate context per bin","vfilter_group.go:GroupbyActor"),("aggregate functions","functions/aggregates.go")],
 ["rows of grouped queries"], MODEL + " (partition and conservation checker)", NOTE)

prop("C06", "ORDER BY emits a sorted permutation of the unordered result",
 "Adding ORDER BY to a query changes only the order of rows: the output is a permutation of the rows produced without it. "
 "Adjacent rows are in non-decreasing order of the sort column (non-increasing with DESC) with missing/NULL values lowest. "
 "Ordering is applied after grouping and before any limit.",
 ["inputs"], "every row set with comparable sort keys (numbers, strings, NULLs), ascending or descending, combined with GROUP BY and LIMIT",
 "Two or three golden orderings of fewer than ten rows; sortedness and conservation quantify over all row sets.",
 ["vfilter.go","sort/sort.go","protocols/protocol_lt.go"],
 [("default sorter","sort/sort.go"),("feeding the sorter","vfilter.go:_Select.Eval")],
 ["rows of ordered queries"], "runtime monitoring: sorted-permutation checker (unique row tags make conservation decidable) over generated row sets", NOTE)

prop("C07", "LIMIT n emits exactly the first min(n, available) rows",
 "A query with LIMIT n emits exactly the first n rows of the same query without the limit, or all of them if there are fewer, for every n including zero; a negative limit emits none. "
 "The limit applies after grouping and ordering. "
 "A streaming source is not asked for more than a small constant number of rows beyond what the limit and filter needed, so queries over endless sources with a LIMIT terminate.",
 ["inputs","programs"], "every n, every source (finite or endless), with or without WHERE, GROUP BY and ORDER BY",
 "Tests use two fixed limits on small finite sources; prefix-exactness and termination on endless sources are universally quantified.",
 ["vfilter.go"],
 [("limit goroutine cancels the inner query","vfilter.go:_Select.Eval")],
 ["rows emitted and rows pulled from a counting source plugin"], "runtime monitoring: prefix oracle plus counting/endless source plugins", NOTE)

prop("C08", "Lazy definitions track current values; materialized ones are computed once",
 "A definition made with = is re-evaluated on every use in the scope of the use, so its value follows whatever the variables it mentions currently are, whereas one made with <= is evaluated exactly once at definition time and every later use returns those same rows or value. "
 "A definition with parameters evaluates its body with each parameter bound to the argument (or its default when omitted), parameters shadowing outer variables. "
 "Reading a materialized query as a table, as a variable, by index or by field always shows the same rows.",
 ["programs","histories"], "every sequence of definitions, redefinitions and uses; every parameter list and call",
 "The tests check single definitions; sequences of redefinition and use, and call combinations, are unbounded.",
 ["vfilter.go","stored.go","materializer/in_memory.go","scope/scope.go"],
 [("definition statement","vfilter.go:VQL.Eval"),("stored query and expression","stored.go"),("in-memory materializer","materializer/in_memory.go")],
 ["rows/values observed after each statement, calls seen by counting plugins"], MODEL + " (stateful statement sequences)", NOTE)

prop("C09", "Variable lookup finds the innermost binding and inner scopes never leak outwards",
 "A name resolves to the most recently added binding in the innermost scope that has one, with outer scopes searched only when it is absent. "
 "Bindings, functions' local environments and column values introduced while evaluating a query, a call or a nested row are invisible after it, so evaluating a query leaves every previously visible variable's value unchanged unless the query is itself a definition. "
 "A copy of a scope sees its parent's bindings but its own additions are invisible to the parent and to sibling copies.",
 ["histories","programs"], "every sequence of scope copies, bindings, definitions and evaluations",
 "Scope tests do a few fixed operations; the stack discipline quantifies over all operation sequences.",
 ["scope/scope.go","scope/dispatcher.go","vfilter.go"],
 [("variable stack searched from the top","scope/scope.go:Resolve/Copy"),("per-row sub scopes","vfilter.go:_Select.processSingleRow")],
 ["resolve results through the scope API and through queries"], "runtime monitoring: stateful model-based testing of the scope stack against a functional environment model", NOTE)

prop("C10", "Combinator plugins (foreach, chain, flatten, range, if) conserve rows",
 "foreach emits, for every row of its row source, exactly the rows its body query produces with that row's columns visible, in order unless parallel workers are requested, in which case the same multiset of rows is emitted and at most the requested number of bodies run at once. "
 "chain emits the rows of each sub-query in argument order, flatten emits exactly the cartesian product of its list-valued columns for every row (an empty list stays as it is, NULL members of a list are skipped), range counts exactly from its start up to but excluding its end by its step, and if evaluates only the selected branch. "
 "No row is lost, duplicated or altered in any nesting of these.",
 ["programs","inputs","schedules"], "every nesting of the combinators over every row set and worker count",
 "Each plugin is tested with one or two golden queries; conservation must hold for every composition and schedule.",
 ["plugins/foreach.go","plugins/chain.go","plugins/flatten.go","plugins/range.go","plugins/if.go"],
 [("worker pool","plugins/foreach.go"),("chaining","plugins/chain.go"),("flattening","plugins/flatten.go")],
 ["rows emitted; concurrent bodies observed by a gauge function"], MODEL + ", unique row tags make loss/duplication visible; concurrency gauge for workers", NOTE)

prop("C11", "Destructors run exactly once, in reverse order, when their scope ends",
 "Every destructor accepted by a scope runs exactly once, no later than when that scope (or an ancestor) is closed, in reverse order of registration within a scope and children before their parents. "
 "A registration attempted after the scope was closed is refused with an error and that destructor is never run by the scope later, so each destructor is either run or reported as refused. "
 "Destructors registered while evaluating a row or query stay pending while that row's values may still be computed and have run by the time the query's result channel is closed and its scope is closed.",
 ["histories","schedules","programs"], "every interleaving of registrations, child scopes, evaluations and close calls, including concurrent and repeated close",
 "The tests close a scope once; exactly-once under nesting, repetition and concurrency quantifies over all histories.",
 ["scope/scope.go","vfilter.go","vfilter_group.go"],
 [("destructor list and retry on close","scope/scope.go:Close"),("parent/child tracking","scope/scope.go:Copy")],
 ["log of registration results and destructor executions"], "runtime monitoring: offline exactly-once/ordering checker over recorded registration and destruction logs, sequential and concurrent", NOTE,
 state=[("destructors","pending clean-up functions of a scope","scope/scope.go"),("children","live child scopes","scope/scope.go")])

prop("C12", "Cancelling a query ends it promptly, closes its channel and leaks nothing",
 "After the context of a running query is cancelled at any moment, its result channel is closed within bounded further progress even though the consumer keeps reading or has stopped reading altogether. "
 "All goroutines the query started finish once the host's own plugins return, and all scopes it created run their destructors. "
 "No rows are emitted after the channel is closed and nothing panics.",
 ["fault_sequences","schedules","programs"], "every query shape (joins, grouping, ordering, limits, workers, stored queries) and every cancellation point",
 "Cancellation is exercised by one test; cancellation points and shapes are unbounded, and leaks are invisible to value assertions.",
 ["vfilter.go","vfilter_group.go","plugins/foreach.go","plugins/chain.go","sort/sort.go","stored.go","materializer/in_memory.go"],
 [("context select around every channel send","vfilter.go, plugins/*.go"),("scope close on exit","vfilter.go:VQL.Eval")],
 ["goroutine census at quiescence inside a synctest bubble, channel state, destructor log"], "runtime monitoring: cancellation injected at the k-th source event, goroutine-leak census at virtual-time quiescence (testing/synctest), destructor log", NOTE)

prop("C13", "A query that stops early releases everything upstream",
 "When a consumer inside the language stops reading before a source is exhausted (a LIMIT, a truth test or index of a lazy query, a conditional, a parallel loop), the upstream sources observe cancellation and all their goroutines terminate without the host cancelling anything. "
 "This holds for endless sources, at any nesting depth. "
 "The values produced are the same as if the source had ended there.",
 ["programs","schedules"], "every query that reads a prefix of a lazy source, at every nesting",
 "No test counts goroutines; early termination points compose arbitrarily.",
 ["vfilter.go","protocols/stored_query.go","protocols/protocol_bool.go","protocols/protocol_associative.go","functions/if.go"],
 [("sub-context cancelled on return","vfilter.go:_Select.Eval"),("row iteration over stored queries","protocols/*.go")],
 ["cancellation observed by endless source plugins; goroutine census at quiescence"], "runtime monitoring: endless context-respecting sources and a goroutine-leak census at virtual-time quiescence", NOTE)

prop("C14", "Concurrent use of the engine is free of data races",
 "Evaluating queries concurrently (parallel loops, several goroutines evaluating the same parsed query in copies of one scope, with logging, tracing, explaining, statistics and throttling enabled) never makes two unsynchronised conflicting memory accesses. "
 "Reading statistics, logs and scope state while queries run is equally safe.",
 ["schedules","programs"], "every interleaving of concurrent evaluations over shared parsed queries and related scopes",
 "The test suite is not run under a race detector and has almost no concurrent test.",
 ["vfilter.go","scope/scope.go","scope/dispatcher.go","plugins/foreach.go","functions/aggregates.go","protocols"],
 [("mutexes on shared AST caches and scope state","vfilter.go, scope/scope.go, scope/dispatcher.go, lazy.go")],
 ["Go race detector reports with library frames"], "Go race detector over a repeated, diversified concurrent workload (reports deduplicated by stack pair)",
 "A clean run covers only the interleavings and code reached by the workload; the race detector has no false positives on pure Go code.")

prop("C15", "Concurrency is transparent: parallel evaluation gives sequential results",
 "Any number of goroutines evaluating the same parsed query in copies of one scope each obtain exactly the rows a lone evaluation obtains. "
 "A parallel loop gives the same multiset of rows as the sequential loop, whatever its worker count, and a lazily evaluated value shared by several workers is seen identically by all. "
 "Statement-level aggregates computed by concurrent evaluations do not mix between evaluations.",
 ["schedules","programs"], "every schedule of concurrent evaluations of every query",
 "Tests evaluate sequentially; schedules are unbounded.",
 ["vfilter.go","plugins/foreach.go","lazy.go","functions/aggregates.go","scope/scope.go"],
 [("per-node mutexes and caches","vfilter.go"),("worker pool","plugins/foreach.go")],
 ["rows per concurrent evaluation"], "runtime monitoring: differential oracle (concurrent vs lone evaluation vs reference interpreter), scheduling perturbed by yielding probe functions", NOTE)

prop("C16", "Unbounded recursion in a query is stopped with an error, not a crash",
 "A definition that refers to itself, directly or through others, as a value, function, query or table, terminates with a logged error and a NULL/empty result instead of exhausting the stack or hanging. "
 "Recursion that stays within the depth limit gives its normal result. "
 "After an overflow the same scope continues to evaluate further queries correctly.",
 ["programs"], "every cycle of definitions and every recursion depth",
 "Two self-recursive goldens exist; cycles through different constructs and the exact below/above-limit boundary are not covered.",
 ["scope/scope.go","vfilter.go","stored.go"],
 [("depth check on calls","scope/scope.go:CheckForOverflow"),("sub-scope depth","scope/scope.go:Copy")],
 ["process survival, log lines, results"], "runtime monitoring in crash-isolated child processes over generated definition cycles and bounded recursions", NOTE)

prop("C17", "No query text or value can crash the host process",
 "Parsing any byte string returns either statements or an error, never a panic, and in bounded time. "
 "Evaluating any statement that parses, on values of any kind the host may supply, never panics or corrupts the host: failures appear as NULL values, empty results and log messages. "
 "Formatting, tokenizing, outlining and describing any parsed statement never panics either.",
 ["inputs","programs"], "every byte string; every parsed statement; every mix of value kinds including nil pointers, typed nils, large numbers, deeply nested and unusual Go values",
 "Tests parse valid queries; hostile text and value kinds are unbounded.",
 ["vfilter.go","protocols","functions","plugins","utils/unquote.go","visitor.go"],
 [("dispatch falls back to NULL","protocols/*.go"),("parser error reporting","vfilter.go:reportError")],
 ["panics caught at the child-process boundary"], "runtime monitoring: mutation/grammar fuzzing in crash-isolated children with per-case journal", NOTE)

prop("C18", "Formatting a parsed query gives text that parses back to the same query",
 "For every statement that parses, the text produced by formatting it parses again without error, is a fixed point of format-then-parse, and evaluates to the same rows and logs no new errors. "
 "Nothing is dropped: clauses, aliases, call arguments, defaults, parameter lists, quoting of names, literals and operator grouping all survive. "
 "This holds with and without the pretty-printing options.",
 ["programs"], "every parseable statement",
 "The golden round-trip covers a fixed list of queries; the grammar is unbounded.",
 ["visitor.go","vfilter.go","utils/unquote.go"],
 [("AST visitor","visitor.go")],
 ["formatted text, reparsed evaluation"], "runtime monitoring: translation round-trip oracle on generated statements (structural token comparison plus evaluation equivalence)", NOTE)

prop("C19", "Reformatting preserves meaning and comments and is idempotent",
 "Reformatting any text that the comment-keeping parser accepts, in any layout, yields text with the same sequence of significant tokens (keywords regardless of case, numbers by value), so it evaluates to the same rows. "
 "Every comment of the input appears in the output exactly once, with its text. "
 "Reformatting its own output changes nothing.",
 ["programs","inputs"], "every parseable text with comments in any grammatical position and any layout",
 "A few golden files; layout and comment positions are unbounded.",
 ["reformat/visitor.go","visitor.go"],
 [("pretty printing visitor","visitor.go"),("entry point","reformat/visitor.go")],
 ["reformatted text"], "runtime monitoring: comment-conservation, idempotence and evaluation-equivalence oracles on generated text", NOTE)

prop("C20", "The tokenizer covers its input exactly, with true positions",
 "The tokens reported for any text are in order, do not overlap, carry exactly the input's characters at the offsets, lines and columns they report, and everything between them is only white space. "
 "Text that parses always tokenizes. "
 "Positions count every kind of token, including multi-line strings and comments, and non-ASCII text, correctly.",
 ["inputs"], "every text, including multi-line tokens and multi-byte characters",
 "One short golden file.",
 ["tokenizer.go"], [("position tracking","tokenizer.go:Tokenize,findEndPos")], ["token list"],
 "runtime monitoring: position/coverage oracle recomputed from the raw text", NOTE)

prop("C21", "Literals denote exactly the value written; quoted names exactly that name",
 "Integer literals (decimal, hexadecimal, octal form, negative) and float literals denote their exact value over the full 64-bit range. "
 "A quoted string denotes the characters written with the documented escapes decoded, a triple-quoted string denotes its raw contents, and every string can be written as a literal and read back unchanged. "
 "A backtick-quoted identifier with any characters (escapes mean nothing in it) names exactly that column, variable, argument or field.",
 ["inputs"], "every string, number and identifier",
 "Tests list a dozen escapes.",
 ["utils/unquote.go","vfilter.go","utils/utils.go"], [("unquoting","utils/unquote.go"),("number parsing","vfilter.go:_Value.maybeParseStrNumber"),("identifier unquoting","utils/utils.go")],
 ["value of literal columns"], "runtime monitoring: encode-evaluate-compare oracle with an independent encoder", NOTE)

prop("C22", "Argument parsing delivers exactly what was passed or reports an error",
 "When a function or plugin parses its arguments into a declared structure, each field receives the value of the argument of that name converted to the field's type, omitted optional arguments leave the field unchanged, and a missing required argument, an unknown argument or an unconvertible value yields an error naming the argument. "
 "Lazy arguments are reduced before delivery, a single value is accepted where a list is expected, a query given for a list or a string is delivered as its rows, and fields of lazy type are delivered without being evaluated. "
 "Parsing the same structure type repeatedly or concurrently gives the same result every time.",
 ["inputs","schedules"], "every combination of field types, tags and supplied values",
 "A table of about twenty fixed cases.",
 ["arg_parser/parser.go","arg_parser/args.go","arg_parser/cache.go"], [("per-field parsers","arg_parser/parser.go"),("extraction","arg_parser/args.go")],
 ["parsed structure and error"], "runtime monitoring: conversion-table oracle over generated argument dictionaries and structure types", NOTE)

prop("C23", "Marshalling a scope or value and restoring it preserves behaviour",
 "Every scope whose variables are plain values, stored expressions (with parameters) or stored queries can be serialised and restored into a fresh scope in which each variable has an equal value or evaluates to the same rows. "
 "Names and values containing quotes, backticks-quoted characters, newlines or non-ASCII text survive. "
 "Values without a JSON form (not-a-number, infinities, text that is not valid UTF-8, host objects) are outside this; the restoring scope has the same functions and plugins. "
 "Variables the host asks to ignore are left out and everything else is present.",
 ["inputs","programs"], "every set of variables and definitions",
 "One golden scope.",
 ["marshal.go","marshal","scope/marshal.go"], [("stored definitions re-parsed from text","marshal.go"),("scope serialisation","scope/marshal.go")],
 ["restored scope"], "runtime monitoring: save/restore/observe differential oracle", NOTE)

prop("C24", "Batched responses conserve rows, order and counts",
 "Reading a query as a sequence of payloads delivers every row exactly once and in order, each payload within the requested maximum size, numbered consecutively from zero, with its row count and column list matching its contents and encoded as valid documents. "
 "A partial batch is delivered no later than the requested maximum wait while the query is still running and the consumer keeps reading, and the channel closes after the last payload. "
 "The one-shot JSON output contains exactly the rows of the query in order.",
 ["inputs","schedules"], "every batch size, wait time, row arrival pattern and cancellation point",
 "One test with a fixed batch size.",
 ["api.go"], [("batching loop with timer","api.go:GetResponseChannel"),("one-shot output","api.go:OutputJSON")],
 ["payloads with virtual timestamps"], "runtime monitoring: conservation/ordering checker over payload logs under virtual time (testing/synctest)", NOTE)

prop("C25", "Converting a row to a plain dictionary resolves every lazy value completely",
 "A row converted for output contains the same columns in the same order with no unevaluated expression, stored query or lazy row left at any depth: stored queries become lists of dictionaries, lazy expressions their values, and a row that is a struct becomes its exported fields. "
 "Values the language treats as plain (struct values inside a row included) are unchanged and the conversion does not alter the original row. "
 "Nesting beyond the depth bound is cut off instead of recursing forever.",
 ["inputs"], "every nesting of lists, dictionaries, structs, lazy values and stored queries",
 "A few golden rows.",
 ["utils/dict","lazy.go","protocols"], [("row normalization","utils/dict")], ["converted dictionary"],
 "runtime monitoring: deep walker asserting full materialization and value equality with a model", NOTE)

prop("C26", "Regex matching is case-insensitive search and its caching is invisible",
 "value =~ pattern is true exactly when the value is a string in which the pattern, compiled case-insensitively, is found anywhere, or a list of which some member matches; the patterns '', '.' and '.*' match everything, and any other pair whose value or pattern is not a string never matches. "
 "Invalid patterns never match and never fail the query. "
 "The answer for a pattern is the same no matter which patterns or values were matched before it.",
 ["inputs","histories"], "every sequence of patterns and subjects",
 "A few fixed matches.",
 ["protocols/protocol_regex.go","scope/dispatcher.go"], [("pattern cache in the scope","protocols/protocol_regex.go")], ["match results"],
 "runtime monitoring: differential oracle against a freshly compiled pattern over long histories in one scope", NOTE)

prop("C27", "Membership, indexing, slicing and field access agree with the container",
 "x IN list is true exactly when some member equals x, x IN string is substring search, and x IN dictionary is key presence; IN any other value is false. "
 "Indexing with i gives the i-th member (from the end when negative) and NULL out of range, slicing gives the members between clamped bounds with Python conventions, and field access on a dictionary or struct gives that field (a struct field is reached by its own name first, then by its json name), on a list the (possibly empty) list of that field of the members that have it, and NULL when absent from a single container. "
 "These hold identically for literals, variables and lazily evaluated containers.",
 ["inputs"], "every container, index, bound and key",
 "A dozen golden expressions.",
 ["protocols/protocol_associative.go","protocols/protocol_membership.go","vfilter.go"], [("associative protocol","protocols/protocol_associative.go"),("membership protocol","protocols/protocol_membership.go")],
 ["value of access expressions"], MODEL, NOTE)

prop("C28", "Explaining, tracing, throttling and statistics never change results",
 "Running a query with EXPLAIN, tracing, an explainer, a logger or a throttler attached gives exactly the same rows as without them. "
 "The explainer reports each row it is told about consistently: rows in equal rows selected plus rows rejected, and selected rows are the ones emitted. "
 "The statistics counters equal the number of source rows scanned, table functions called and functions called (calls of definitions count too), and each scanned row is charged to the throttler.",
 ["programs","inputs"], "every query and every combination of instruments",
 "One golden explain test.",
 ["explain/logging_explainer.go","scope/scope.go","types/stats.go","vfilter.go","throttle.go"], [("explainer callbacks","vfilter.go:_Select"),("counters","types/stats.go")],
 ["rows, explainer callbacks, counters, throttler charges"], "runtime monitoring: metamorphic (instrumented vs bare) oracle plus accounting checker over explainer event logs", NOTE)

prop("C29", "A lambda evaluates its body with parameters bound positionally",
 "Reducing a lambda with a list of arguments evaluates its body with the i-th parameter bound to the i-th argument, shadowing outer variables and leaving the calling scope unchanged; calling it with a different number of arguments gives NULL and a logged error. "
 "Parsing a lambda's text keeps its parameter names, quoted or not, and its body in any layout. "
 "Reducing the same lambda repeatedly or concurrently with different arguments gives independent results.",
 ["inputs","programs","schedules"], "every parameter list, body and argument list",
 "Four golden lambdas.",
 ["lambda.go"], [("positional binding in a sub-scope","lambda.go:Reduce")], ["reduced value"], MODEL, NOTE)

prop("C30", "Outlines and call-site reports list exactly what the query contains",
 "The call sites collected from a statement are exactly the functions, table functions and bare names it uses, in the order and under the names the text gives them, each with its argument names and a position that points at its text, wherever they occur (arguments, defaults, conditions, sub-queries, indexes). "
 "The definitions reported for a sequence of statements are exactly the names defined by it, with their parameters and defaults. "
 "The outline of a statement is its definition, its query, and one entry per column in order (except a leading star) with the sub-query or the outermost function calls of that column below it, each at its true position. "
 "The type reported for a statement (lazy or materialized definition, explained or plain query) is the one its text has.",
 ["programs"], "every parseable statement",
 "A few golden files.",
 ["visitor.go","outline.go"], [("call-site collection","visitor.go"),("outline","outline.go")], ["collected reports"],
 "runtime monitoring: the generator's own record of what it emitted is the oracle for the collected reports", NOTE)

prop("C31", "Layout, comments and keyword case never change what a query means",
 "Changing white space between tokens, inserting comments between tokens, or changing the letter case of keywords leaves the parsed query's results unchanged. "
 "Parsing several statements at once gives the same statements, in order, as parsing each alone, and the comment-keeping parser gives the same statements for every text it accepts, which includes every text without comments. "
 "Syntax errors are reported as errors, never as a silently truncated query: the parsed statements represent every token of a text that is accepted.",
 ["programs","inputs"], "every statement and every re-layout of it",
 "Tests use one layout per query.",
 ["vfilter.go"], [("lexer rules","vfilter.go:vqlLexer"),("comment-dropping lexer","vfilter.go:droppingLexer")], ["formatted AST and rows"],
 "runtime monitoring: metamorphic oracle (re-laid-out text vs original) on generated statements", NOTE)

prop("C32", "Host-registered protocols, functions, plugins are honoured and contained",
 "An operator protocol registered by the host for its own types is used whenever an operand pair it declares applicable occurs, including for values reached lazily, and never for other values (pairs with a NULL or a list are decided by the language itself). "
 "Functions, plugins, protocols and variables registered on a scope are visible in it and all scopes copied from it, and never in unrelated scopes. "
 "A fresh scope derived for isolation sees the registered functions and protocols but none of the variables.",
 ["configurations","programs"], "every set of registered implementations and every operand pair",
 "Two protocol tests.",
 ["scope/dispatcher.go","scope/scope.go","protocols"], [("protocol dispatchers","scope/dispatcher.go"),("isolated scope","scope/scope.go:NewScope")], ["calls received by host implementations, results"],
 "runtime monitoring: recording host protocols with per-operand tags; containment monitor across scope families", NOTE)

prop("C33", "Built-in functions compute their documented results for all arguments",
 "dict, split, len, format, get, if, encode and timestamp return their documented value for every argument combination, evaluate lazily supplied arguments, and give NULL with a logged error when arguments are invalid. "
 "count, sum, min, max and enumerate used without grouping accumulate row by row within one query. "
 "No built-in modifies its arguments.",
 ["inputs"], "every builtin and argument combination",
 "One or two goldens per function.",
 ["functions"], [("function implementations","functions/*.go")], ["function result, log, argument snapshot"], MODEL, NOTE)

prop("C34", "Sub-queries used as values deliver all their rows",
 "A query used in a column yields its single value when it has exactly one row, the list of rows otherwise; used as a function or plugin argument it yields all its rows to the callee and sees the caller's current row. "
 "A lazily stored query read as a table from several places, or several times, delivers its complete rows each time. "
 "Field access on a query gives that field of every row in order.",
 ["programs","inputs"], "every correlated or uncorrelated sub-query in every position",
 "A few goldens.",
 ["vfilter.go","stored.go","protocols"], [("sub-select columns","vfilter.go:_AliasedExpression.Reduce"),("stored query call sites","stored.go")], ["rows"], MODEL, NOTE)

prop("C35", "Unresolved names and bad calls degrade to NULL or no rows with a logged error",
 "Using an unknown variable, function, field or plugin never aborts the query: the expression is NULL (the table empty), every other column and row is still produced, and for unknown top-level names an error naming them is logged. "
 "Passing unknown, missing or wrongly typed arguments to a built-in function or table function, an argument a definition used as a table does not declare, or leaving out an argument a definition needs, is reported in the log by name and leaves the rest of the query intact. "
 "A query in which every name resolves and every argument is valid logs no error.",
 ["programs","inputs"], "every query with any subset of names unresolved",
 "A few goldens.",
 ["vfilter.go","stored.go","scope/scope.go"], [("symbol resolution with logging","vfilter.go:_SymbolRef.getFunction,Plugin.resolveSymbol"),("argument checking","stored.go")], ["rows and log lines"],
 "runtime monitoring: log monitor plus row oracle on queries with injected unresolved names", NOTE)

prop("C36", "A parsed query is reusable: its result depends only on scope and inputs",
 "Evaluating the same parsed statement again, in the same or another scope with equal contents, gives the same rows, and in a scope with different contents gives the rows a freshly parsed copy would give there. "
 "No evaluation leaves state behind in the parsed query that influences another one: not counters, cached names, negations, functions or literals. "
 "Evaluation never alters the text the query formats to.",
 ["histories","programs"], "every sequence of evaluations of one parsed query in scopes of any contents",
 "Tests parse afresh for each evaluation.",
 ["vfilter.go","lazy.go"], [("per-node caches","vfilter.go:_SymbolRef,_Value,_AliasedExpression")], ["rows of repeated evaluations versus fresh parses"],
 "runtime monitoring: metamorphic history oracle (reused AST vs freshly parsed AST)", NOTE)

prop("C37", "Introspection describes exactly what is registered",
 "Describing a scope lists every function and plugin registered on it or on the scope it was made from, built-in ones included, exactly once under its latest registration, with the documentation, version, metadata and flags it was registered with. "
 "The argument type of each described item is present in the type map and lists exactly the exported fields of its argument structure in declaration order, each under its argument name with its tag, target type name and whether it is repeated; these are the arguments the argument parser accepts for that structure, and no others. "
 "version(function=) and version(plugin=) give the registered version or NULL for an unknown name, lookups by name succeed exactly for registered names, and the suggestions for a misspelt plugin are, sorted and without repetition, the registered plugins containing one of its underscore-separated parts.",
 ["histories","inputs"], "every sequence of registrations on families of scopes and every argument structure",
 "Tests register a fixed set of functions and compare one golden description.",
 ["types/introspection.go","scope/dispatcher.go","scope/version.go","functions/generic.go","plugins/generic.go","arg_parser/parser.go"],
 [("type map","types/introspection.go:TypeMap"),("registry","scope/dispatcher.go:Describe,AppendFunctions,AppendPlugins,GetSimilarPlugins"),("versions","scope/version.go")],
 ["ScopeInformation and TypeMap", "results of version() and lookups", "argument parser verdicts"],
 "runtime monitoring: online model of the registries of scope families, and of randomly built argument structures, compared with every description the real scopes give", NOTE)

prop("C38", "Sorter, grouper, materializer, loggers and context set by a host are used",
 "ORDER BY is performed by the sorter set on the scope, which receives exactly the rows the query would give without it, the output column's plain name and the direction, once per evaluation, and whatever it returns is the result (before LIMIT). GROUP BY is performed by the grouper, which through its actor gets exactly the filtered rows, each with its group's key, and whose output is the result (before ORDER BY and LIMIT). Every LET with <= of a query goes through the materializer exactly once with the definition's name, and all later uses read what it returned. "
 "Log lines of the scope reach its logger exactly once with their level as prefix (ERROR:, WARN:, DEBUG:, none for plain ones), and trace lines (TRACE:) only its tracer. "
 "All this is shared by a scope and its copies, whichever of them set it, inherited by NewScope() as it was at that moment, and independent afterwards; context values are likewise shared among a scope and its copies, but a NewScope(), and a scope whose context is cleared, starts with none.",
 ["histories","programs"], "every query using such a service, in every nesting, and every history of settings on families of scopes",
 "Tests install one sorter or materializer on one scope and run one query.",
 ["scope/scope.go","scope/dispatcher.go","vfilter.go","vfilter_group.go","types/grouper.go"],
 [("service delegation","scope/scope.go:Sort,Group,Materialize,Log,Trace"),("dispatcher sharing and copying","scope/dispatcher.go:Copy,WithNewContext"),("group actor","vfilter_group.go:GroupbyActor")],
 ["calls received by the host's services", "rows", "log lines per logger", "context values"],
 "runtime monitoring: recording host services with content-determined effects; results compared with the monitor applying the same service to the query without it, and a model of scope families", NOTE)

prop("C39", "Long-running queries and scopes retain nothing per row or use",
 "A streaming query (columns, filters, definitions, combinators, workers, sub-queries, grouping into a bounded number of groups) needs memory and goroutines independent of how many rows have passed through it: whatever a row needed is released when the row is done. "
 "Likewise evaluating statements again and again in one scope, copying and closing scopes, calling functions, lambdas and operators, stopping queries early, and making and closing new scopes leave the scope as small as before, apart from definitions the statements make and each distinct regular expression and context value used.",
 ["histories","programs"], "every streaming query over unbounded sources and every long history of uses of one scope",
 "Tests run queries of a few rows; retention shows only over thousands.",
 ["scope/scope.go","vfilter.go","lazy.go","stored.go","plugins/foreach.go"],
 [("child scopes","scope/scope.go:Copy,Close"),("per-row scopes","vfilter.go:processSingleRow"),("worker pool","plugins/foreach.go")],
 ["live heap after forced collection at intervals", "number of goroutines at intervals"],
 "runtime monitoring: heap and goroutine monitor inside the row source of long-running queries; steady growth over all intervals, confirmed over twice the length, is a violation", NOTE)
