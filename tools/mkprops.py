#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
S6="v6/pkg/walkers/semantics/"
p("E01","v6 evaluator: comparisons mean what they say for every pair of values",
  "Evaluating =, !=, <, <=, > and >= in v6 compares numbers of every Go numeric type by numeric value, dates (time values, RFC3339 strings and YYYY-MM-DD strings, in any mix) by instant, and for = and != also strings, booleans and null by equality; != is always the negation of =. An ordering comparison of operands that are not both numbers or both dates is an error, and no operand, whatever Go value the record holds (maps, slices, structs, nil), makes a comparison panic.",
  ["inputs"],"every operator, every pair of operand values of any dynamic Go type (twelve numeric types, NaN, infinities, times in different zones, date-like strings, nil, uncomparable values)",
  "The tests compare a few dozen fixed rows; mixed numeric widths, NaN, zones, date-like strings on either side and uncomparable record values multiply into a space no table samples.",
  [S6+"walk.go",S6+"numeric.go",S6+"dates.go"],[("evaluateEquality / evaluateCompareExpressions",S6+"walk.go"),("toFloat64",S6+"numeric.go"),("toDate",S6+"dates.go")],["semantics.Walk result"])
p("E02","v6 evaluator: logical operators, null tests and error propagation",
  "In v6, AND, OR and NOT yield the Boolean combination of their operands' values and are an error when an operand is not Boolean; IS NULL is true exactly when the operand is null. Evaluation of an expression depends only on the values of its own sub-expressions: an error in any operand is the error of the whole, an unknown key is reported as a key-not-found error naming that key, and the record is never modified.",
  ["inputs","programs"],"every expression tree of any depth and shape and every record (callback) that answers consistently",
  "Tests evaluate fixed expressions over two sample records; that the result of every node is a function of its operands holds by induction over all trees, not by sampling.",
  [S6+"walk.go",S6+"evaluators.go"],[("Walk, handleBinaryExpression, evaluateLogicalExpression, evaluateUnaryExpression",S6+"walk.go"),("handleIdentifier",S6+"evaluators.go")],["semantics.Walk result and error"])
p("E03","v6 evaluator: array operands broadcast; LEN, ANY, ALL and SUM fold",
  "In v6, a binary operator whose left operand is an array yields the array, of the same length and order, of the operator applied to each element (recursively for nested arrays), and NOT and unary minus apply element by element; the first failing element's error is the result. LEN is the number of elements, ANY is true exactly when some element is true, ALL exactly when the array is non-empty and every element is true, and SUM is the sum of the numeric elements in order (an error when one is not a number), each an error on a non-array.",
  ["inputs"],"arrays of any length, nesting and element types, every operator and right operand",
  "Tests use a handful of arrays of length up to four; off-by-one, first/last-element and nested-array behaviour is quantified over every length.",
  [S6+"walk.go"],[("evaluateBinaryExpression (array case), evaluateArrayUnaryExpression",S6+"walk.go")],["semantics.Walk result"])
p("E04","v6 evaluator: IN is membership by =, BETWEEN is the inclusive range",
  "In v6, x IN [v1..vn] is true exactly when x = vi is true for some i (false for a null x), and x BETWEEN a AND b gives exactly the value of x >= a AND x <= b, for numbers and for dates. An operand that is not a string, number, date or Boolean (IN), or bounds that cannot be compared with the operand (BETWEEN), is an error and never a panic.",
  ["inputs"],"every left value, every list of any length and mix of element types, every pair of bounds",
  "Tests try a few lists and bounds of one type each; agreement with = and >=/<= must hold for every mix of numbers, dates, date strings, NaN and null.",
  [S6+"evaluators.go",S6+"walk.go"],[("isValueInArray, isValueInRange",S6+"evaluators.go")],["semantics.Walk result"])
p("E05","v6 evaluator: LIKE, ILIKE and the regex operators match exactly",
  "In v6, s LIKE p is true exactly when the whole of s matches p with % standing for any sequence of characters (newlines included), _ for any single character and every other character for itself; ILIKE is the same ignoring letter case. ~= is true exactly when s contains a match of the regular expression p, ~! is its negation, an invalid regular expression is an error, and operands that are not strings are an error.",
  ["inputs"],"every string and every pattern, including patterns with regular-expression metacharacters, newlines and non-ASCII characters",
  "Tests use three or four plain patterns; metacharacters, newlines and invalid patterns are not sampled and the claim is over all strings and patterns.",
  [S6+"evaluators.go"],[("evaluateLikePattern, evaluateIlikePattern, evaluateRegexMatch",S6+"evaluators.go")],["semantics.Walk result"])
p("E06","v6 evaluator: arithmetic is exact float64 arithmetic and never panics",
  "In v6, +, -, *, / and unary minus over operands of any numeric type yield the float64 result of that operation on their values, and % yields the remainder of the operands truncated to integers, with the sign of the left operand. Division by zero and modulus by an operand that truncates to zero are division-by-zero errors, a non-numeric operand is an error, and no operands make evaluation panic.",
  ["inputs"],"every pair of operands of any dynamic type, including NaN, infinities, negative zero, fractions below one and values beyond the int64 range",
  "Tests compute a few sums; fractional divisors, extreme values and mixed types are not sampled and a panic needs only one of them.",
  [S6+"walk.go",S6+"numeric.go"],[("evaluateMathExpression, evaluateSingularUnaryExpression",S6+"walk.go"),("toFloat64",S6+"numeric.go")],["semantics.Walk result"])
p("E07","v6 evaluator: record values are normalised uniformly, at every nesting level",
  "In v6, the value of an identifier is the record's value with every number (of any Go numeric type) read as float64, every time value, RFC3339 string and YYYY-MM-DD string read as that instant, and arrays normalised element by element with length and order preserved; all other values, including null, are unchanged. Literals evaluate to their own value, a null literal to null, and an array literal to the array of its elements' values in order.",
  ["inputs"],"every record value of any dynamic type and nesting, every literal",
  "Tests store a few ints and strings; the twelve numeric types, nested arrays and borderline date strings are not enumerated.",
  [S6+"evaluators.go",S6+"numeric.go",S6+"dates.go"],[("processValue, processArray",S6+"evaluators.go"),("handleArrayLiteral",S6+"walk.go")],["semantics.Walk result"])
Q6="v6/pkg/walkers/sql/walk.go"
p("Q01","v6 SQL: every literal is a bound parameter, in order",
  "The SQL condition built from a v6 expression carries every literal of the expression as a bound argument, in left-to-right order and with its value (numbers as float64, strings as is, dates as formatted timestamps, booleans as 1 or 0), one placeholder each. The SQL text itself depends only on operators, array lengths and identifier names, never on the content of a literal, so no literal can inject SQL.",
  ["inputs","programs"],"every expression tree of any depth, every literal content",
  "Tests compare the SQL of a dozen fixed phrases; that no literal reaches the text and that the argument order matches holds over all trees.",
  [Q6],[("Walk, binaryStep, unaryStep, walkArrayValues, placeholders",Q6)],["SQL text and args of sql.Walk(tree).ToSql()"])
p("Q02","v6 SQL: the condition keeps the expression's operators and structure",
  "The SQL condition built from a v6 expression applies, at every node, the SQL operator corresponding to the expression's operator to the conditions of its operands in the same order, grouped so that the operator structure of the SQL is the structure of the expression. An operator or node SQL cannot express yields an error, never a panic or a silently different condition.",
  ["inputs","programs"],"every expression tree of any depth, every operator at every position",
  "Fixed phrases do not cover operator nesting; grouping must survive every combination of parent and child operators.",
  [Q6],[("Walk, binaryStep, unaryStep",Q6)],["SQL text of sql.Walk(tree).ToSql()"])
p("I01","v6 ident: every identifier is checked and replaced, the input is untouched",
  "ident.Walk in v6 returns a tree equal to its input with every identifier, wherever it occurs (array elements included), replaced by the expression the check function names for it, each occurrence being offered to the check function from left to right. When the check function rejects one, that error is returned; in every case the input tree is unchanged and no node is leaked or freed twice.",
  ["inputs","programs"],"every tree and every check function, including ones that map a name to an expression or fail part-way",
  "Tests rename a few identifiers in two trees; occurrence everywhere in every tree, the failing paths and memory ownership are not sampled.",
  ["v6/pkg/walkers/ident/walk.go","v6/pkg/tsl/tsl.go"],[("Walk, walkAndReplace, processIdentifier","v6/pkg/walkers/ident/walk.go")],["returned tree, check calls, input tree afterwards"])
p("G01","v6 graphviz: one declared vertex per node, edges exactly parent to children",
  "graphviz.Walk in v6 emits, for every node of the tree, exactly one vertex statement carrying that node's kind and value or operator, and for every inner node one edge statement listing the vertices of its children from left to right. The caller's prefix appears exactly once, at the start.",
  ["inputs","programs"],"every tree of any depth and width",
  "The existing test checks one small tree; counts and edges are quantified over all trees, including null literals and arrays.",
  ["v6/pkg/walkers/graphviz/walk.go"],[("Walk, handleChildren","v6/pkg/walkers/graphviz/walk.go")],["returned dot text"])
p("M01","v6 JSON/YAML output mirrors the tree",
  "Marshalling a v6 tree to JSON or YAML yields, for every node, its kind name and, for operators, the operator's name with the operands under left and right, for arrays the elements in order, and for literals and identifiers their value. Distinct operators and distinct kinds have distinct names.",
  ["inputs","programs"],"every tree, every operator and kind code",
  "Tests marshal a handful of phrases; every operator, kind and nesting is not sampled.",
  ["v6/pkg/tsl/marshal.go","v6/pkg/tsl/kind.go","v6/pkg/tsl/operator.go"],[("MarshalJSON, MarshalYAML","v6/pkg/tsl/marshal.go"),("Kind.String, Operator.String","v6/pkg/tsl/kind.go, operator.go")],["json.Marshal / yaml.Marshal output"])
T6="v6/pkg/tsl/tsl.go"; C6="v6/pkg/tsl/tsl_ast.c"
p("T01","v6 tree: a node reports the kind and value it was built with",
  "For every node of a parsed v6 tree, Type is the kind the node was created with and Value is that kind's value: the float of a number, the Boolean of a Boolean, the text of a string or identifier, the instant of a timestamp, the operator with its operand nodes, or the elements of an array in order. The Go kind and operator codes agree with the native node and token codes, so no kind or operator is ever taken for another.",
  ["inputs"],"every node of every kind, arrays of every size, every operator",
  "Tests read a few nodes; agreement of the two code tables and of every accessor is universal.",
  [T6,"v6/pkg/tsl/kind.go","v6/pkg/tsl/operator.go",C6,"v6/pkg/tsl/tsl_ast.h","v6/pkg/tsl/tsl_parser.tab.h"],[("Type, Value",T6),("ast_create_*, get_*",C6)],["TSLNode.Type, TSLNode.Value"])
p("T02","v6 tree: Clone is deep and equal; Free releases every node exactly once",
  "Cloning a v6 tree yields a tree with the same structure, kinds and values that shares no memory with the original, so using or freeing either never affects the other. Free releases every node, string and array of the tree exactly once, and freeing an already freed handle has no effect.",
  ["inputs","histories"],"every tree of any depth and width and every order of Clone and Free calls",
  "A test clones one small tree; sharing, leaks and double frees depend on node kind and depth and are invisible to value comparison.",
  [C6,T6],[("ast_clone, ast_free",C6),("Clone, Free",T6)],["tree contents, native allocations"])
p("T03","v6 tree: attach and detach move ownership of exactly one child",
  "Attaching a child to an operator node replaces exactly that operand, releases the operand it replaces and reports success, and detaching an operand hands it back intact and leaves its place empty; everything else in the tree is unchanged. On a node of the wrong kind, or with no child given, they change nothing and report failure.",
  ["inputs","histories"],"every node kind, every child, every sequence of attach and detach",
  "There are no tests of detach and few of attach; ownership mistakes show only as leaks or use-after-free.",
  [C6,T6],[("ast_attach_*, ast_detach_*",C6),("Attach*, Detach*",T6)],["tree contents, native allocations"])
p("L01","v6 parser: the tree is the one the grammar and precedences define",
  "Parsing in v6 accepts exactly the token sequences of the grammar and yields the tree that grammar defines: OR binds loosest, then AND, then the comparison, pattern, membership, range and null tests (one level), then + and -, then * / and %, then NOT, LEN, ANY, ALL and SUM, then the sign; binary operators group to the left and parentheses override. NOT LIKE, NOT ILIKE, NOT IN, NOT BETWEEN and IS NOT NULL are the negations of their positive forms, list elements and range bounds keep their order. Only texts nested so deeply that they need more than 10000 pending symbols are refused.",
  ["inputs"],"every token sequence of any length and nesting",
  "Tests parse about a hundred phrases; precedence and associativity are claims about every operator pair at every depth.",
  ["v6/pkg/tsl/tsl_parser.tab.c","v6/pkg/parser/tsl_parser.y"],[("parser tables and semantic actions","v6/pkg/tsl/tsl_parser.tab.c")],["tree from tsl.ParseTSL"])
p("L02","v6 lexer: every character sequence is split into the documented tokens",
  "The v6 lexer recognises the documented keywords in any letter case, operators and their synonyms, numbers with optional fraction, exponent and SI suffix (k, M, G, T, P and the i-forms), quoted strings with escaped quotes and backslashes, dates, timestamps and (dotted, slashed, indexed) identifiers, always taking the longest token, and yields for each its exact value. White space separates tokens and is otherwise ignored.",
  ["inputs"],"every input string",
  "Tests use a few dozen literals; the claim is about every string, including near-keywords, suffix and escape combinations.",
  ["v6/pkg/tsl/lex.yy.c","v6/pkg/parser/tsl_lexer.l",C6],[("scanner tables and actions","v6/pkg/tsl/lex.yy.c"),("ast_create_number, ast_create_string, check_date_formats",C6)],["tokens and literal values seen in the tree"])
p("L03","v6 parser: bad input is always a reported error, never accepted or a panic",
  "ParseTSL in v6 succeeds only when the whole input text is a well-formed expression: a text with a character, token or tail that the grammar does not allow yields a syntax error. The error's position lies within the input, it carries the input, and rendering it never panics; nothing a rejected text allocated stays behind.",
  ["inputs"],"every byte string, including empty, unterminated, NUL-containing and non-ASCII ones",
  "Tests try a few malformed phrases; a silently ignored tail or an out-of-range position needs only one particular input.",
  ["v6/pkg/tsl/tsl.go","v6/pkg/tsl/errors.go","v6/pkg/tsl/lex.yy.c","v6/pkg/tsl/tsl_parser.tab.c"],[("ParseTSL",T6),("SyntaxError.Error","v6/pkg/tsl/errors.go"),("yylex default rule, yyerror","v6/pkg/tsl/lex.yy.c, tsl_parser.tab.c")],["error of tsl.ParseTSL and its Error()"])
p("L04","v6 parser: parses are independent of each other and safe to run concurrently",
  "The result of parsing a text in v6 depends only on that text: earlier parses, successful or not, leave nothing behind that changes a later one, and calls from several goroutines at once behave as if made one after another.",
  ["histories","schedules"],"every sequence of earlier inputs and every interleaving of concurrent calls",
  "Tests parse one phrase at a time from one goroutine; left-over scanner or parser state and data races appear only for particular histories and schedules.",
  [T6,"v6/pkg/tsl/lex.yy.c","v6/pkg/tsl/tsl_parser.tab.c"],[("ParseTSL, parse_input_string, cleanup_parser_memory",T6+", v6/pkg/tsl/tsl_parser.tab.c")],["tree or error from tsl.ParseTSL"],[("root, error_msg, scanner buffers","process-wide parser state","v6/pkg/tsl/tsl_parser.tab.c, lex.yy.c")])
S5="v5/pkg/walkers/semantics/walk.go"; S4="v4/pkg/walkers/semantics/walk.go"
p("E51","v5 evaluator: every operator means what it says for every record",
  "Evaluating a v5 tree gives a Boolean that is the Boolean combination (AND, OR, NOT) of its leaf conditions, each leaf comparing the record's value with the literal by its operator: = != < <= > >= and the regex and LIKE/ILIKE operators, membership for IN, start inclusive and end exclusive for BETWEEN, and IS NULL, for strings, numbers, booleans and dates (equal when the same instant), a list of strings matching IN if any element does; an identifier or one arithmetic operation (+ - * /) over identifiers and numbers may stand on either side; each negated operator is the negation of its positive form on a non-null value. This holds for every record value: a key that is missing or null makes IS NULL true and every comparison false; a value or operand of a type the operator does not take, or an expression the evaluator does not support, is an error; evaluation never panics.",
  ["inputs","programs"],"every well-formed tree and every record value of a supported type",
  "Tests evaluate a table of phrases over one record; operator, type and null combinations are not enumerated.",
  [S5],[("Walk and its handlers",S5)],["semantics.Walk result and error"])
p("E41","v4 evaluator: every operator means what it says for every record",
  "Evaluating a v4 tree gives a Boolean that is the Boolean combination (AND, OR, NOT) of its leaf conditions, each leaf comparing the record's value with the literal by its operator: = != < <= > >= and the regex and LIKE/ILIKE operators, membership for IN, start inclusive and end exclusive for BETWEEN, and IS NULL, for strings and numbers, a Boolean record value standing for 'true' or 'false'; each negated operator is the negation of its positive form on a non-null value. This holds for every record value: a key that is missing or null makes IS NULL true and every comparison false; a value or operand of a type the operator does not take, or an expression the evaluator does not support, is an error; evaluation never panics.",
  ["inputs","programs"],"every well-formed tree and every record value of a supported type",
  "Tests evaluate a table of phrases over one record; operator, type and null combinations are not enumerated.",
  [S4],[("Walk and its handlers",S4)],["semantics.Walk result and error"])
p("Q51","v4/v5 SQL: literals are bound parameters and operators keep their meaning",
  "The SQL condition built from a v4 or v5 tree carries every literal as a bound argument in left-to-right order, its text depending only on operators and identifiers, and applies the SQL counterpart of each operator to the same operands in the same structure. A tree it cannot express yields an error.",
  ["inputs","programs"],"every well-formed tree, every literal content",
  "Tests compare a dozen fixed phrases.",
  ["v5/pkg/walkers/sql/walk.go","v5/pkg/walkers/sql/ops.go","v4/pkg/walkers/sql/walk.go","v4/pkg/walkers/sql/ops.go"],[("Walk, binaryStep, unaryStep","v5/pkg/walkers/sql/walk.go, ops.go")],["SQL text and args of ToSql()"])
p("N51","v4/v5 mongo: the filter document keeps every operator, key and value",
  "The MongoDB filter built from a v4 or v5 tree combines the leaf filters with $and, $or and $not exactly as the tree does, and each leaf filter names the identifier and applies the operator's MongoDB counterpart to the literal value(s), in order. A tree it cannot express yields an error.",
  ["inputs","programs"],"every well-formed tree, every literal content",
  "Tests compare a few phrases.",
  ["v5/pkg/walkers/mongo/walk.go","v4/pkg/walkers/mongo/walk.go"],[("Walk","v5/pkg/walkers/mongo/walk.go")],["returned bson document"])
p("I51","v4/v5 ident: every identifier is checked and replaced, the input is untouched",
  "ident.Walk in v4 and v5 returns a tree equal to its input with every identifier replaced by the name the check function gives for it, offering each occurrence to the check function once, and returns the check function's error when it rejects one. The input tree is never modified.",
  ["inputs","programs"],"every tree and every check function",
  "Tests rename identifiers in a few trees.",
  ["v5/pkg/walkers/ident/walk.go","v4/pkg/walkers/ident/walk.go"],[("Walk","v5/pkg/walkers/ident/walk.go")],["returned tree, check calls, input tree afterwards"])
p("G51","v4/v5 graphviz: one declared vertex per node, edges exactly parent to children",
  "graphviz.Walk in v4 and v5 emits for every node of the tree exactly one vertex statement, of a name no other node has, with that node's operator and value, and for every inner node an edge statement to the vertices of its operands from left to right. The caller's prefix appears exactly once, at the start.",
  ["inputs","programs"],"every tree",
  "The existing test checks one small tree.",
  ["v5/pkg/walkers/graphviz/walk.go","v4/pkg/walkers/graphviz/walk.go"],[("Walk","v5/pkg/walkers/graphviz/walk.go")],["returned dot text"])
p("L51","v4/v5 parser: every text becomes the tree the grammar defines, or an error",
  "For every text the v4 or v5 grammar accepts, the resulting tree has the operators, identifiers and literal values of the text in the documented shape (number values with their SI multiple, strings unquoted, NOT forms as negated operators, IN and BETWEEN with their value lists). A text it does not accept yields an error and never a panic.",
  ["inputs"],"every input text",
  "Tests parse a fixed list of phrases.",
  ["v5/pkg/tsl/listener.go","v5/pkg/tsl/tsl.go","v4/pkg/tsl/listener.go","v4/pkg/tsl/tsl.go"],[("Listener Exit* callbacks","v5/pkg/tsl/listener.go"),("ParseTSL","v5/pkg/tsl/tsl.go")],["tree or error from tsl.ParseTSL"])
p("D01","v6 in-memory filter returns exactly the matching records, in order",
  "The v6 in-memory search command keeps exactly those of its records for which the expression evaluates to true, in their original order, and reports an evaluation error instead of a result when one occurs.",
  ["inputs"],"every expression and record list",
  "The command has no tests.",
  ["v6/cmd/tsl_mem/main.go","v6/cmd/tsl_mem/model.go"],[("main filter loop","v6/cmd/tsl_mem/main.go")],["records printed"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
