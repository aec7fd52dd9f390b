prop('E01', 'ESTree output carries every part of each syntax node, in the right place',
 'For every program the parser accepts, converting its tree to ESTree yields for each node an object whose every attribute (children, names, operators, flags, raw texts) is taken from the corresponding part of the parsed node. No part that is present in the source node is lost, swapped with a sibling part, replaced by a constant, or filled from another part, and lists are converted completely and in order.',
 ['inputs', 'configurations'], 'every parsed program (all node kinds, every combination of optional parts present or absent), JavaScript, JSX and TypeScript',
 'The estree fixtures sample a few hundred programs; most combinations of optional parts (a rarely used flag with a rarely used child) never occur, and comparison there ignores properties the fixture does not list.',
 ['ecma/estree/convert.go', 'ecma/estree/ts_convert.go', 'ecma/estree/node.go', 'ecma/estree/jsx_node.go', 'ecma/estree/ts_node.go', 'ecma/parser/ast.go', 'ecma/parser/ts_ast.go', 'ecma/parser/jsx_ast.go'],
 [('conversion dispatch', 'ecma/estree/convert.go Convert'), ('TypeScript conversion', 'ecma/estree/ts_convert.go ConvertTsTyp')],
 'trace-partitioned provenance dataflow over SSA against a reviewed attribute table',
 'Per node kind, every ESTree attribute: which parser fields feed it on every trace; sound for the modelled operations, structural (which field feeds what), not arithmetic on values.')

prop('E02', 'ESTree nodes carry their own kind name and source extent',
 'Every ESTree node produced for a parsed node carries the type name ESTree assigns to that node kind and the start/end offsets and line/column positions of exactly that node. Extents that cover more than the node itself (type annotations, decorators, template quasis) are derived from the node that really delimits them, and start never trades places with end.',
 ['inputs', 'configurations'], 'every parsed program and every node in it, with and without line/column information requested',
 'Fixtures check positions only where they list them; a wrong extent for a rare combination of parts goes unnoticed.',
 ['ecma/estree/convert.go', 'ecma/estree/ts_convert.go', 'ecma/estree/node.go'],
 [('location helpers', 'ecma/estree/convert.go pos/loc/locWithTypeInfo'), ('dispatch on the node kind', 'ecma/estree/convert.go Convert')],
 'trace-partitioned provenance dataflow over SSA against a reviewed attribute table',
 'Type string and the provenance of Start/End/Loc of each emitted object per node kind and trace.')

prop('W01', 'A walk reaches every child of every node exactly once, in source order',
 'Walking a parsed tree with the default visitors dispatches, for each node, each of its present child nodes exactly once, in the documented order, under the key that names the child, with a context whose parent is the enclosing node. Absent children are skipped, children in lists are all visited, and no node kind the parser produces lacks a visitor or is treated as another kind of node.',
 ['inputs', 'programs'], 'every parsed program, hence every node kind with every combination of present and absent children',
 'The walker tests visit a dozen programs and check a handful of node kinds; there are over 140 kinds.',
 ['ecma/walk/visitor.go', 'ecma/walk/ctx.go', 'ecma/parser/ast.go', 'script/visitor_gen/main.go'],
 [('generated visitors', 'ecma/walk/visitor.go'), ('dispatch', 'ecma/walk/ctx.go VisitNode/VisitNodes/CallVisitor')],
 'trace-partitioned event-sequence analysis of every registered visitor over SSA, against a reviewed child table',
 'All registered visitors, all traces (stop requests and absent children included), plus the dispatch primitives they rely on.')

prop('W02', "A walk fires each node kind's own before/after events, scopes and stop",
 "Walking a node notifies the listeners of that node kind's own 'before' event once before any of its children is visited and of its 'after' event once after all of them; all listeners of an event run in order of registration. The scope reported during the walk is entered and left in balance at the nodes that open one, and once a listener asks the walk to stop no further node is visited.",
 ['inputs', 'programs', 'histories'], 'every parsed program, every node kind, every set of registered listeners and every point at which one of them stops the walk',
 'Existing tests listen to a few event kinds on small programs; a listener registered for another kind would silently never fire.',
 ['ecma/walk/visitor.go', 'ecma/walk/ctx.go'],
 [('event identifiers and tables', 'ecma/walk/visitor.go'), ('listener notification', 'ecma/walk/ctx.go CallListener'), ('scope bookkeeping', 'ecma/walk/ctx.go PushScope/PopScope')],
 'trace-partitioned event-sequence analysis of every visitor over SSA; table and constant consistency',
 'All visitors and all traces; event ids, tables, listener registration and scope stack primitives.')

PT = ['ecma/parser/parser.go']
DT = 'decision-table extraction over SSA (canonical guard texts as BDDs, provenance texts for values, unreviewed helpers looked through), compared with a reviewed table'
DTN = 'Structural equivalence of every selected step with its reviewed condition, on all paths (loops per iteration); relies on the reviewed table being right and on library calls meaning what their names say; not a proof of the grammar itself.'

prop('R01', 'Early errors of JavaScript are reported wherever they occur',
 'A JavaScript program that breaks a static rule the parser enforces (redeclarations, invalid assignment and update targets, misplaced return/break/continue/yield/await/super/new.target, strict-mode restrictions, duplicate parameters, labels, constructors, default clauses and exports, unresolved private names and exports, reserved words as names and the like) is rejected with that rule\'s error at the offending place, in every context in which the rule applies. A program that breaks none of them is not rejected by them, and an error found in any part of a program becomes the result of parsing the whole.',
 ['inputs', 'programs', 'configurations'], 'every JavaScript program, strict and sloppy, script and module, every position in which a rule can apply',
 'Each rule applies in dozens of syntactic contexts; the fixtures exercise one or two of them per rule.',
 ['ecma/parser/parser.go', 'ecma/parser/symtab.go', 'ecma/parser/errors.go'],
 [('error raising and hand-over in the productions', 'ecma/parser/parser.go'), ('name clash rules', 'ecma/parser/symtab.go')],
 DT, DTN)

prop('R02', 'Errors of TypeScript and JSX syntax are reported wherever they occur',
 'A program that breaks a static rule of the TypeScript or JSX syntax (misplaced or conflicting modifiers, parameter properties and abstract members where they are not allowed, malformed index signatures, type predicates, enums, namespaces and declarations, unbalanced JSX tags and the like) is rejected with that rule\'s error at the offending place in every context the rule applies to. A program that breaks none is not rejected by them, and errors found inside types, declarations or elements become the result of parsing the whole.',
 ['inputs', 'programs', 'configurations'], 'every TypeScript and JSX program',
 'The babel fixtures sample each rule once or twice; the rules interact with modifiers, ambient contexts and speculative parses.',
 ['ecma/parser/ts.go', 'ecma/parser/jsx.go'],
 [('TypeScript productions', 'ecma/parser/ts.go'), ('JSX productions', 'ecma/parser/jsx.go')],
 DT, DTN)

prop('B01', 'The syntax tree of JavaScript records every part of what was parsed',
 'For every accepted JavaScript program, each tree node holds exactly the parts that were parsed for it: its operands, bodies, names, flags (async, generator, computed, shorthand, static, optional, prefix, directive and so on), operators and list elements in source order, of the node kind the grammar calls for. No part is lost, swapped with another, or set when the source does not have it, whichever optional parts are present.',
 ['inputs', 'programs'], 'every accepted JavaScript program, hence every node kind with every combination of optional parts',
 'The tree tests compare a few hundred small programs, mostly one construct each; flags and rare part combinations are not compared.',
 PT, [('node construction', 'ecma/parser/parser.go'), ('cover grammar reinterpretation', 'ecma/parser/parser.go argToParam/exprToPattern')],
 DT, DTN)

prop('B02', 'The syntax tree of TypeScript keeps all type-level information',
 'For every accepted TypeScript program, each type, declaration and class or interface member in the tree holds exactly what was written: annotations, type arguments and parameters with constraints and defaults, modifiers (readonly, abstract, declare, override, accessibility, optional, definite), implemented and extended types, names and members in order. Nothing is lost, attached to another node, or invented.',
 ['inputs', 'programs'], 'every accepted TypeScript program, hence every type construct with every combination of modifiers',
 'The fixtures sample single constructs; combinations of modifiers, and type information on rarely typed nodes, are not covered.',
 ['ecma/parser/ts.go', 'ecma/parser/typinfo.go'], [('type productions', 'ecma/parser/ts.go'), ('type information records', 'ecma/parser/typinfo.go')],
 DT, DTN)

prop('B03', 'JSX elements are parsed into trees that mirror their markup',
 'For every accepted JSX program, an element\'s tree holds its name, attributes, spread attributes, children, expression containers and white-space text in source order, with text and attribute values decoded as the markup means them (entities resolved, raw text kept), and an opening tag pairs only with the closing tag of the same name. Fragments, member and namespaced names, self-closing tags and empty expressions are told apart.',
 ['inputs', 'programs'], 'every accepted JSX program',
 'JSX tests cover about fifty snippets; nesting, white space around children and entities combine freely.',
 ['ecma/parser/jsx.go', 'ecma/parser/lexer.go'], [('JSX productions', 'ecma/parser/jsx.go'), ('JSX text', 'ecma/parser/lexer.go readJSXTxt/readJsxStr')],
 DT, DTN)

prop('A01', 'Node accessors return the very part of the node they are named after',
 'Every accessor of a tree node (and every setter) reads or writes the part it is named after, of that node and no other, for every node type that offers it; predicates on node kinds and feature sets answer true exactly for the kinds and features they name. Type-level accessors answer "absent" rather than something else when the node carries no type information.',
 ['inputs', 'programs'], 'every node of every parsed program, every accessor',
 'Over 700 accessors exist and most are never called by a test.',
 ['ecma/parser/ast.go', 'ecma/parser/ts_ast.go', 'ecma/parser/jsx_ast.go', 'ecma/parser/typinfo.go', 'ecma/parser/feature.go'],
 [('accessors', 'ecma/parser/ast.go, ts_ast.go, jsx_ast.go'), ('type information', 'ecma/parser/typinfo.go')],
 DT, DTN)

prop('D01', 'Each JavaScript production parses its parts in order and in the right context',
 'While a JavaScript construct is parsed, each of its parts is parsed by the production the grammar names for it, in source order, with the context the grammar prescribes (whether `in`, `yield`, `await`, `return`, patterns, initialisers, commas or type annotations are allowed, which scope is open, which strictness is in force), and tokens are consumed exactly once. Optional parts are parsed exactly when the token that introduces them is present.',
 ['inputs', 'programs'], 'every JavaScript program, accepted or not',
 'A wrong context flag shows only in programs that nest a construct in an unusual position; tests nest few constructs.',
 PT, [('productions', 'ecma/parser/parser.go'), ('token consumption', 'ecma/parser/parser.go nextMustTok/advanceIfTok')],
 DT, DTN)

prop('D02', 'Each TypeScript production parses its parts in order and in the right context',
 'While a TypeScript construct is parsed, each of its parts is parsed by the production the grammar names for it, in source order, with the prescribed context (ambient or not, type or value, optional types, conditional-type extends, arrow ambiguity), and tokens are consumed exactly once. A speculative parse that fails leaves the input and the parser where they were before it.',
 ['inputs', 'programs'], 'every TypeScript program, accepted or not, including those that need backtracking',
 'Backtracking and context flags interact; tests contain few ambiguous programs.',
 ['ecma/parser/ts.go'], [('type productions and speculation', 'ecma/parser/ts.go')],
 DT, DTN)

prop('S01', 'Scopes and bindings reflect where each name is declared',
 'For every program, a scope is opened and closed at exactly the constructs that have one, carries the attributes of that construct (strict, function, async, generator, class, loop, switch, module and so on, inherited where the language says so), and holds exactly the names declared in it, with their kind and declaring node. Looking a name up finds the innermost declaration visible from the scope, and names are merged or reported as clashing exactly as their kinds demand.',
 ['inputs', 'programs'], 'every program, every nesting of scopes and mixture of declaration kinds',
 'Scope tests check a few programs; the matrix of declaration kinds, scope kinds and nestings is far larger.',
 ['ecma/parser/symtab.go', 'ecma/parser/parser.go'], [('scopes and references', 'ecma/parser/symtab.go'), ('scope entry, exit and declaration', 'ecma/parser/parser.go')],
 DT, DTN)

prop('L01', 'Source text is split into the tokens the language defines',
 'Every character sequence is tokenised by the longest applicable rule: each punctuator, keyword, name, private name, literal start, template part, comment, white space or line terminator is recognised for exactly the characters that form it under the mode in force (regular expression or division, template, JSX, strict), with its kind, extent, escape and line-break attributes. Characters that form no token are reported as such.',
 ['inputs', 'configurations'], 'every source text, every lexing mode',
 'The lexer tests list some token sequences; multi-character punctuators after unusual predecessors and in unusual modes are untested.',
 ['ecma/parser/lexer.go', 'ecma/parser/token.go'], [('token recognition', 'ecma/parser/lexer.go'), ('token predicates', 'ecma/parser/token.go')],
 DT, DTN)

prop('L02', 'Literals are delimited, validated and decoded as the language defines',
 'Numeric literals of every base, separators and bigint suffixes, string escapes (including octal, hex, unicode and line continuations), template chunks with cooked and raw text, and regular expressions with their flags are accepted exactly when well formed, end where they should, and give the decoded value. Legacy forms are flagged so that strict code can reject them.',
 ['inputs'], 'every literal text, well formed or not',
 'Literal grammars have unbounded inputs; tests hold a few dozen samples.',
 ['ecma/parser/lexer.go', 'ecma/parser/astutil.go'], [('literal readers', 'ecma/parser/lexer.go read*'), ('values of literals', 'ecma/parser/astutil.go')],
 DT, DTN)

prop('L03', 'Lookahead and backtracking never change what is parsed',
 'Peeking at tokens any number of times and saving, restoring or dropping a lexer state leaves the token sequence as if it had been read once from left to right: a restored state resumes at exactly the saved place with the saved modes, line-break and comment information, and buffered tokens are handed out once each, in order. Lexer modes are pushed and popped in balance, and comments are kept with the token they precede.',
 ['inputs', 'histories'], 'every sequence of peek, consume, save, restore, drop and mode operations the parser performs on any input',
 'A stale buffered token or unrestored flag shows only after a particular backtracking sequence.',
 ['ecma/parser/lexer.go', 'span/source.go'], [('token buffer and states', 'ecma/parser/lexer.go'), ('source cursor states', 'span/source.go')],
 DT, DTN)

prop('L04', 'Every token and node carries its exact source position',
 'Offsets, line numbers and columns advance correctly over every kind of line break and over multi-byte characters, and the extent of each token and node starts at its first character and ends after its last one, parentheses, decorators and modifiers included as the node kind demands. Error positions point at the offending token.',
 ['inputs', 'programs'], 'every source text and every node parsed from it',
 'Positions are compared only where a fixture lists them, mostly on one-line ASCII programs.',
 ['span/source.go', 'ecma/parser/parser.go', 'ecma/parser/lexer.go', 'ecma/parser/ts.go'], [('cursor', 'span/source.go'), ('ranges of nodes', 'ecma/parser/parser.go rng/finRng'), ('ranges of tokens', 'ecma/parser/lexer.go')],
 DT, DTN)

prop('K01', 'The control-flow graph follows the control flow of each statement',
 'For every function and program analysed, each statement and expression contributes the blocks and edges its control flow has: both outcomes of every condition, loop back edges, jumps of break, continue, return and throw to the construct they leave, fall-through between switch cases, exceptional flow into catch and finally, and short-circuit evaluation. No edge joins points between which control cannot pass, and code after an unconditional jump is marked unreachable.',
 ['programs'], 'every program, every nesting of control statements',
 'Graph tests compare printed graphs of some hundred snippets; nestings are unbounded.',
 ['ecma/analysis/ctrlflow.go'], [('statement handlers', 'ecma/analysis/ctrlflow.go handleBefore/handleAfter')],
 DT, DTN)

prop('K02', 'Control-flow graph edges are kept consistent by every graph operation',
 'Linking, joining, grouping and cutting blocks keeps the graph consistent: an edge is known to both of its ends, carries the kind and tag it was made with, is found by lookups exactly when it matches what is asked for, and iterating or printing a graph visits every reachable block and edge exactly once.',
 ['programs', 'histories'], 'every sequence of graph operations performed while a program is analysed',
 'Only whole printed graphs are compared; dead edges and duplicate visits depend on the shape of the graph.',
 ['ecma/analysis/graph.go'], [('blocks and edges', 'ecma/analysis/graph.go')],
 DT, DTN)

prop('X01', 'Static evaluation of an expression yields the value JavaScript defines',
 'Evaluating a side-effect-free expression against given variables yields the value its literals, operators, property accesses and built-in calls define, operands being taken in source order, with conversions to number, string and boolean as JavaScript prescribes for the supported types. Expressions that are not supported give an error or no value, never the value of another operator.',
 ['inputs', 'programs'], 'every expression and variable environment',
 'The evaluator tests run some thirty expressions.',
 ['ecma/exec/vm.go'], [('operator listeners and value stack', 'ecma/exec/vm.go')],
 DT, DTN)

prop('X02', 'Tree utilities report exactly the names, branches and dependencies present',
 'The tree utilities select from a conditional construct exactly the branches that can be taken under the given variables, report the names a declaration or import binds and the property names it denotes, find enclosing nodes, and build a dependency graph whose edges are exactly the uses of one function or declaration by another. Kind predicates on values and nodes hold exactly for those kinds.',
 ['inputs', 'programs'], 'every program, every variable environment',
 'The helper tests cover a dozen programs.',
 ['ecma/astutil/astutil.go'], [('branch selection', 'ecma/astutil/astutil.go SelectTrueBranches'), ('names and dependencies', 'ecma/astutil/astutil.go')],
 DT, DTN)

prop('U01', 'Containers keep insertion order, contents and capacity as documented',
 'The ordered map iterates in insertion order with each key once, the least-recently-used cache never exceeds its capacity and evicts the entries used longest ago, and set, slice, map-merge and object-path helpers return exactly the elements their operation defines without disturbing their inputs beyond what they document.',
 ['histories', 'inputs'], 'every sequence of operations and every contents',
 'No or few tests exist for these helpers; their bugs depend on the operation history.',
 ['util/map.go', 'util/lru.go', 'util/sets.go', 'util/slice.go', 'util/merge.go', 'util/obj.go'], [('containers', 'util/*.go')],
 DT, DTN)

prop('I01', 'The command line reports every failure and writes what was asked for',
 'The command-line tool passes each option to the stage it configures, reads the requested file, and reports every failure (missing file, syntax error, unwritable output) on its error output with a failing exit status instead of printing a partial or empty tree as if it succeeded. The tree is written to the requested destination, and nowhere else.',
 ['inputs', 'configurations', 'fault_sequences'], 'every combination of options, input files and failures of reading, parsing, encoding and writing',
 'The command-line program has no tests.',
 ['cli/main.go', 'cli/ast.go'], [('option handling', 'cli/main.go'), ('tree printing', 'cli/ast.go')],
 DT, DTN)

EF = 'interprocedural effect analysis over SSA (which memory each function may change, by the variable or parameter it is reached from) over everything the library can reach'
EFN = 'All functions reachable from the library packages; memory is followed by root (variable, parameter, field), not by address, so the answer errs towards reporting; effects of standard-library calls are taken from a table.'

prop('G01', 'Work on one program never affects another and touches nothing outside',
 'Parsing, converting, walking, analysing and evaluating keep no state outside the objects the caller created for that piece of work: whatever was processed before or is processed at the same time, a program gives the same tree, events, graph and value as it would alone in a fresh process. The library reads no clock or random source, touches no file, network or standard stream, starts no concurrent activity and never ends the process.',
 ['histories', 'schedules', 'inputs'], 'every sequence and every interleaving of uses of the library in one process',
 'Leaks between uses show only for particular sequences of programs, or as data races between goroutines; tests run programs one by one in fresh objects.',
 ['ecma/parser/parser.go', 'ecma/parser/lexer.go', 'ecma/walk/ctx.go', 'ecma/walk/visitor.go', 'ecma/exec/vm.go', 'ecma/estree/convert.go'],
 [('package-level tables', 'ecma/parser/token.go, ts.go, html_entity.go; ecma/walk/visitor.go; ecma/exec/vm.go'), ('per-use state', 'ecma/parser/parser.go Setup, ecma/walk/ctx.go NewWalkCtx')],
 EF, EFN)

prop('G02', 'Consumers of a parsed tree leave the tree, scopes and source unchanged',
 'Converting a tree to ESTree, walking it, building its control-flow graph, evaluating an expression of it or querying it with the tree utilities changes nothing in the tree, its scopes or its source: the same tree can be given to any of them in any order, any number of times and from several goroutines at once, always with the same result. Parse options given to a parser are likewise left as they were.',
 ['histories', 'schedules', 'programs'], 'every program and every sequence or interleaving of consumers of its tree',
 'Tests give each tree to one consumer once.',
 ['ecma/estree/convert.go', 'ecma/estree/ts_convert.go', 'ecma/walk/ctx.go', 'ecma/analysis/ctrlflow.go', 'ecma/astutil/astutil.go', 'ecma/exec/vm.go'],
 [('consumers', 'ecma/estree, ecma/walk, ecma/analysis, ecma/astutil, ecma/exec'), ('mutators of nodes', 'ecma/parser/ast.go Set*')],
 EF, EFN)

prop('G03', 'Results never depend on the iteration order of maps',
 'Parsing, converting, walking, evaluating and querying a program gives the same tree, errors, events in the same order and the same values each time it is done. No result, list order or choice among several candidates depends on an order the language leaves unspecified, such as that of iterating over a hash map.',
 ['inputs', 'histories'], 'every program, every run',
 'An order dependence makes a test fail only now and then, if at all.',
 ['ecma/parser/symtab.go', 'ecma/walk/visitor.go', 'ecma/exec/vm.go', 'util/map.go'],
 [('loops over maps', 'ecma/parser/symtab.go EnterScope, ecma/walk/visitor.go AddBeforeListener')],
 'order-sensitivity analysis of every loop over a map reachable from the parser, converter, walker, evaluator and tree utilities (SSA)',
 'Every loop over a map in reach; what the loop keeps, returns, calls and changes. The control-flow graph package, which keeps edge sets in maps, is left to K01/K02.')

LK = 'lock-state dataflow over SSA (guarded containers found by type) and decision-table extraction'
prop('C01', 'The parse cache parses each key once and answers every caller exactly once',
 'However many callers ask the parse cache for the same key, concurrently or later, the key is parsed once and each caller receives the one result exactly once; different keys never wait for or receive the result of one another. The caches\' tables are touched only under their lock, which is released on every path.',
 ['schedules', 'histories'], 'every interleaving of callers, keys and parse durations',
 'The cache tests run a few sequential calls; lost answers and races need particular interleavings.',
 ['parseutil/cache.go', 'util/lru.go'], [('entries and waiters', 'parseutil/cache.go Parse'), ('locks', 'parseutil/cache.go, util/lru.go')],
 LK, 'Lock state at every access to the guarded containers on all paths; the steps of the cache against a reviewed table. Liveness of the user\'s own parser is assumed.')

prop('C02', 'A directory walk handles each file once, then ends and frees its workers',
 'Walking a directory tree hands every directory and file below it to the handler exactly once, a directory before what it contains, and returns only when all of them have been handled or the walk was stopped. A stop or a read failure is kept as the error of the walk, ends it, and leaves no worker waiting.',
 ['schedules', 'fault_sequences', 'inputs'], 'every directory tree, worker count, interleaving of workers and moment of stopping',
 'The walk tests run small trees with default scheduling and never stop mid-way under load.',
 ['util/walkdir.go'], [('queue and workers', 'util/walkdir.go walk/shift/push'), ('end of the walk', 'util/walkdir.go Walk/Stop')],
 LK, 'Lock state of the queue on all paths, every channel, wait-group and handler step against a reviewed table; the scheduling argument itself is in the reviewed table, not recomputed.')

prop('Z01', 'Unpacking and downloading stay within their destination and report failures',
 'Unpacking an archive creates files and directories only below the destination given, whatever names the archive contains, with the recorded contents and modes; an entry that would escape is refused. Every failure to open, decode, create, write or close during unpacking and downloading is returned to the caller, and file predicates answer true only for what exists and is of the kind asked for.',
 ['inputs', 'fault_sequences'], 'every archive, every destination, every failing file operation',
 'No test unpacks a hostile or truncated archive.',
 ['util/shell.go'], [('unpacking', 'util/shell.go UnTarGz'), ('download and predicates', 'util/shell.go')],
 DT, DTN)

prop('T01', 'Operators, reserved words and type names mean what the language defines',
 'In every program binary operators group by the precedence levels of ECMAScript, only exponentiation groups to the right, exactly the operators of the language are recognised as binary, unary or assignment operators, and a slash starts a regular expression after exactly those tokens that an operand may follow. Exactly the reserved words of the language (and, in strict mode code, of strict mode) are reserved, and TypeScript keyword types are parsed as the types they name.',
 ['inputs', 'programs'], 'every operator, keyword, token kind and keyword type, hence every program combining them',
 'Fixtures combine a few operators each; a wrong precedence, missing reserved word or slash flag for a rare token only shows in programs that use just that pair of tokens.',
 ['ecma/parser/token.go', 'ecma/parser/parser.go', 'ecma/parser/ts.go'],
 [('token table', 'ecma/parser/token.go TokenKinds'), ('reserved words', 'ecma/parser/token.go Keywords, StrictKeywords; ecma/parser/parser.go prohibitedNames'), ('keyword types', 'ecma/parser/ts.go builtinTyp')],
 'constant propagation of package initialisers over SSA, against tables written down from the language definition',
 'Complete for the tables (every row and flag); how the parser uses them is decided by D01, L01 and R01.')

prop('T02', 'Every HTML character reference decodes to the characters it names',
 'For every named character reference of HTML occurring in JSX text or attributes, the decoded text is exactly the characters the HTML standard assigns to it; no other name is decoded.',
 ['inputs'], 'all 2125 named character references',
 'Fixtures use half a dozen references; the table has over two thousand rows of numbers.',
 ['ecma/parser/html_entity.go', 'ecma/parser/lexer.go'],
 [('entity table', 'ecma/parser/html_entity.go HTMLEntities'), ('its use', 'ecma/parser/lexer.go readJSXTxt')],
 'constant propagation of package initialisers over SSA, against the table of the HTML standard',
 'Complete for the table (names, code points, UTF-8 bytes, maximal length); how text is scanned for references is decided by B03.')

prop('E03', 'ESTree JSON uses the attribute names, kinds and lists ESTree defines',
 'Serialising the converted tree writes every attribute of every node exactly once, under the name ESTree, its JSX extension or the documented TypeScript extension gives it, always with the same kind of JSON value, and never leaves one out because of its value. An attribute that is a list is written as a list even when it is empty, never as null, except for the lists a node kind cannot have at all.',
 ['inputs', 'programs'], 'every converted program, hence every node structure with every attribute',
 'Comparison in the fixtures ignores attributes the expected text does not list, so a misspelled, duplicated or dropped attribute name of a rare node goes unnoticed.',
 ['ecma/estree/node.go', 'ecma/estree/ts_node.go', 'ecma/estree/jsx_node.go', 'ecma/estree/convert.go', 'ecma/estree/ts_convert.go'],
 [('attribute names', 'ecma/estree/node.go structure tags'), ('list building', 'ecma/estree/convert.go elems/statements/...')],
 'type-level query over structure tags against the ESTree definition and a reviewed table; nilness dataflow of list attributes over SSA',
 'All structures and all construction sites; names of the standard node types come from the ESTree documents, those of the TypeScript extension from a reviewed table.')

prop('P01', 'Parsing always comes to an end',
 'For every input, however truncated or malformed, and every feature setting, scanning and parsing end with a tree or an error: no loop of the scanner or the parser goes round again without consuming input, or keeps going once the input is used up.',
 ['inputs', 'configurations'], 'every input and option set; every loop and every way round it',
 'The inputs that hang a parser are truncated or malformed in one particular place (an unterminated comment inside a template inside JSX); fixtures hold a handful of them.',
 ['ecma/parser/lexer.go', 'ecma/parser/parser.go', 'ecma/parser/ts.go', 'ecma/parser/jsx.go', 'span/source.go'],
 [('character loops', 'ecma/parser/lexer.go readStr/readRegexp/readTplChs/readMultilineComment/readJSXTxt'), ('token loops', 'ecma/parser/parser.go stmts/classBody/argList/...; ecma/parser/ts.go; ecma/parser/jsx.go')],
 'interprocedural constant propagation from the end-of-input state through every loop over SSA; consumption dataflow on every cyclic path',
 'All loops of scanner and parser; every one of them ends with the input and one consumes for a reviewed reason (spec/loops.json). That a production called in a loop consumes on the way actually taken is proved for 38 of 53 loops and assumed for the others. Depth of recursion is not bounded: nesting in the input bounds it.')

prop('N01', 'The parser accepts exactly the ECMAScript/TypeScript grammar',
 'A source text is accepted if and only if the ECMAScript grammar with its early errors (or the TypeScript grammar, where enabled) derives it.',
 ['inputs'], 'all source texts and feature settings', 'There are infinitely many programs on both sides of the line.',
 ['ecma/parser/parser.go', 'ecma/parser/ts.go', 'ecma/parser/jsx.go', 'ecma/parser/lexer.go'], [('parser', 'ecma/parser')],
 na='Language equality between a hand-written backtracking parser and a grammar is undecidable in general, and no sound static abstraction in reach bounds it; the decisions the parser takes are compared with a reviewed table instead (R01, R02, D01, D02, L01, L02).')
prop('N02', 'The control-flow graph has exactly the paths the program can take',
 'A path exists in the graph of a function exactly when some execution of the analysed program can follow it.',
 ['programs'], 'all analysed programs', 'Executability depends on run-time values of the analysed program.',
 ['ecma/analysis/ctrlflow.go'], [('graph construction', 'ecma/analysis/ctrlflow.go')],
 na='The statement is about executions of the analysed programs, which source inspection of the analyser cannot settle; how each construct is translated is decided by K01 and K02.')
prop('N03', 'Removing comments from JSON leaves exactly the same JSON value',
 'For every JSON text with comments, the text with the comments removed denotes the same value, whatever its strings contain.',
 ['inputs'], 'all JSON texts with comments', 'The tests strip half a dozen texts.',
 ['util/str.go'], [('comment stripping', 'util/str.go RemoveJsonComments')],
 na='Input/output equality of a character loop whose decisions depend on text matched so far; it is also known not to hold for a quote after an escaped backslash or comment marks in strings (see DESIGN.md), and a structural check could only restate the loop.')
prop('N04', 'Parsing takes time linear in the length of the input',
 'The time to parse a text grows linearly with its length, for every text.',
 ['inputs'], 'all source texts', 'Tests run small inputs and measure no time.',
 ['ecma/parser/parser.go', 'ecma/parser/ts.go', 'ecma/parser/lexer.go'], [('saved states and retries', 'ecma/parser/ts.go')],
 na='The number of retries from saved states depends on the input; bounding it needs an amortised argument over run-time quantities that no static rule in reach gives.')
