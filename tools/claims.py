T = 'contract-based deductive verification of the Go code (weakest-precondition style VCG over go/ssa, obligations discharged by z3/cvc5)'
SEMN = 'Every obligation of the contracts of Walk, evaluateBinaryExpression, evaluateUnaryExpression and processValue for this property is generated from /repo on every run and discharged for all inputs, unbounded; other functions are inlined. Trusted: go/ssa, the VCG, the solvers, contracts of the standard library functions listed in the evidence, and TSLNode.Type/Value (property T01).'
CLAIMS = {p: dict(technique=T, note=SEMN) for p in ('E01', 'E02', 'E03', 'E04', 'E05', 'E06', 'E07')}
SQLN = 'Every obligation of the contract of sql.Walk, by induction over the tree, is generated from /repo on every run and discharged for all trees, unbounded; helpers are inlined, the IN loop by a closed-form summary. Trusted: go/ssa, the VCG, the solvers, the assumed contracts of squirrel.Expr/And/Or and of TSLNode.Type/Value (property T01).'
CLAIMS.update({p: dict(technique=T, note=SQLN) for p in ('Q01', 'Q02')})

CLAIMS['M01'] = dict(technique=T, note='Every obligation of the contracts of MarshalJSON and MarshalYAML, by induction over the tree and for every kind, is generated from /repo on every run and discharged, unbounded; Kind.String and Operator.String are inlined. Trusted: go/ssa, the VCG, the solvers, the assumed contract of encoding/json and yaml (structs by their tags) and of TSLNode.Type/Value (property T01).')
TC = 'contract-based deductive verification of the Go code (go/ssa) and of the C code (clang LLVM IR, ownership contracts), obligations discharged by z3/cvc5'
TREEN = 'Every obligation of the contracts of the Go methods (over contracts of the native functions) and of the native functions themselves (on the IR clang makes of tsl_ast.c) is generated from /repo on every run and discharged for all trees, unbounded. Trusted: go/ssa, clang, the VCGs, the solvers, cgo, the assumed contracts of malloc, free, strdup, strtod, time.Parse; trees are finite and unshared, malloc succeeds.'
CLAIMS.update({p: dict(technique=TC, note=TREEN) for p in ('T01', 'T02', 'T03')})
CLAIMS['L01'] = dict(technique='contract-based deductive verification of the C parser (clang LLVM IR): inductive invariant of the LR automaton, checked for every state, token and production against the grammar; semantic actions against ownership and tree contracts by z3/cvc5',
                     note='On every run the automaton is taken from the IR of yyparse by executing its driver for every state, token and stack size; the LR(1) invariant is checked for every state (unbounded: it covers every token sequence); every semantic action is verified for all operand trees. Trusted: clang, the VCG, the solvers, malloc succeeds, the LR(1) validation argument (Jourdan, Pottier, Leroy 2012); texts that need more than 10000 parser stack entries are refused.')
CLAIMS['L02'] = dict(technique='contract-based deductive verification of the C scanner (clang LLVM IR): closure of an inductive state invariant over the loops of yylex against the automaton of the specified tokens; the action of every rule against token and value contracts by z3/cvc5, with loop invariants over character sequences',
                     note='On every run yy_scan_string, yylex and yy_delete_buffer are executed from the IR on a symbolic text; the states at the loop heads close under every continuation of the text, so longest match and rule choice are decided for every text, unbounded. The actions (unescaping, recognition of dates in strings, columns, ownership of values) are discharged for all texts of their class. Trusted: clang, the VCG, the solvers, the C library contracts, malloc succeeds, texts below 2^31 bytes.')
CLAIMS['L03'] = dict(technique='contract-based deductive verification of the Go entry point (go/ssa) and the C shells around scanner and parser (clang LLVM IR): contracts with ownership of memory, discharged by z3/cvc5; LR automaton invariant and scanner closure for acceptance',
                     note='ParseTSL and SyntaxError.Error are verified over the contracts of the native functions for every text; parse_input_string, cleanup and the error getters for every state between calls; acceptance, error positions and memory left at a rejection follow from the obligations of the automaton (L01) and the scanner (L02), generated again on every run. Trusted: go/ssa, clang, the VCGs, the solvers, cgo, the C library contracts, malloc succeeds, texts below 2^31 bytes.')
CLAIMS['L04'] = dict(technique='contract-based deductive verification of the Go entry point (lock discipline, go/ssa) and of the C code (clang LLVM IR): every native entry point against its contract from every state earlier calls can leave; frame condition between parser and functions called without the lock; discharged by z3/cvc5',
                     note='Independence is the contract of parse_input_string, yylex and yyparse holding from every state a call can leave; safety under concurrency is that ParseTSL holds the mutex around all uses of parser state and that the native functions called without it share no variable with the parser (all call paths). Trusted: go/ssa, clang, the VCGs, the solvers, cgo, sync.Mutex, thread safety of malloc and free.')
CLAIMS['I01'] = dict(technique=TC, note='ident.Walk and its recursive helper are verified over the contracts of the tree methods (T01-T03) and of ParseTSL for every tree and every check function (an arbitrary stateful function): result, calls in order, errors, ownership of native memory; the loop over array elements by an invariant. Trusted: go/ssa, the VCG, the solvers, cgo; the check function does not touch the tree.')
CLAIMS['G01'] = dict(technique=TC, note='graphviz.Walk and the step of its recursion are verified for every kind of node, operator, prefix and identifier over the contracts of the tree methods (T01) and of the recursive calls; the text they build is read as DOT statements and compared with the node: one vertex with its kind and value or operator (values escaped), the statements of every child once, one edge statement in order, distinct identifiers, the prefix once; the loop over array elements by an invariant. Trusted: go/ssa, the VCG, the solvers, the models of fmt and strings; an identifier given by the caller is a DOT identifier.')
EVN = 'Every obligation of the contracts of Walk and its helpers is generated from /repo on every run and discharged for all trees and records, unbounded, by induction over the tree and over how far the sides of a condition are from values; handlers are inlined, their loops by closed-form summaries. Trusted: go/ssa, the VCG, the solvers, the contracts of the standard library functions listed in the evidence (regexp, strings, time).'
CLAIMS.update({p: dict(technique=T, note=EVN) for p in ('E51', 'E41')})
CLAIMS['G51'] = dict(technique=T, note='As G01, for the trees of v4 and v5: graphviz.Walk and the step of its recursion are verified for every operator, kind of literal, prefix and identifier over the contract of the recursive calls; the text they build is read as DOT statements and compared with the node (one vertex with its operator and value, values escaped; the statements of every child once; one edge statement in order; distinct identifiers; the prefix once); the loop over the elements of a list by an invariant. Trusted: go/ssa, the VCG, the solvers, the models of fmt and strings; an identifier given by the caller is a DOT identifier.')
CLAIMS['I51'] = dict(technique=T, note='ident.Walk of v4 and v5 is verified for every operator and kind of literal against the fold of an arbitrary check function with a state over the tree (calls, their order and arguments; the tree; the first error), by induction over the tree. Trusted: go/ssa, the VCG, the solvers; the check function does not touch the tree; lists hold literals only, as the grammar has it.')
CLAIMS['Q51'] = dict(technique=T, note='sql.Walk of v4 and v5 is verified for every operator against the text and the bound arguments specified for the tree, by induction over the tree; the ToSql methods of the package are executed symbolically where their values become conditions; the loop over the elements of a list by a closed form. Trusted: go/ssa, the VCG, the solvers, the assumed contracts of squirrel (Expr, And, Or, Placeholders, ToSql).')
CLAIMS['N51'] = dict(technique=T, note='mongo.Walk of v4 and v5 is verified for every operator against a relation between trees and documents (which key, which operator, which value, in which order; an error where there is no such document), by induction over the tree; the loop over the elements of a list by a closed form. Trusted: go/ssa, the VCG, the solvers.')
NA = {
 'L51': "the v4 and v5 parsers are an interpreter of tables (ANTLR's ATN, adaptive LL(*) prediction, in the antlr4 Go runtime, a dependency): the property is about every text, so about that interpreter, whose prediction is a run-time search over the serialised ATN with caches. No contract within reach of the verifier states what it accepts; verifying the listener alone against an assumed parser would leave the deciding part assumed. The defects seen by reading (ParseTSL walks the tree before it looks at syntax errors, IN lists come out reversed) are not decided by any check here",
 'D01': "not reached: the filter loop is the body of main of a command (flags, standard output, process exit), not a function with a result; its evaluation of one record is E01 to E07",
}
