"""What decides each property: contexts, contracts, units, concrete harnesses, known findings."""
import json, os
from gomodels import *
from gounits import GoContext, GoUnit, GoHarness
import ctx
from ctx import V

REPO6 = 'github.com/yaacov/tree-search-language/v6/pkg'


def known(pid):
    f = os.path.join(V, 'known-findings.json')
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f)) if x.get('property') == pid and x.get('status') == 'finding']


class Prop:
    level = 'proof'
    bounded = []
    assumptions = []
    allow_empty = False
    checker_cmd = 'python3-vt vc/check.py <id>: obligations generated from the go/ssa form of /repo, discharged by z3 (and cvc5)'
    rule = ''
    note = ''
    trusted = ['go/ssa (x/tools) as the meaning of the Go source', 'the VCG in /verif/vc', 'z3, cvc5', 'the Go compiler and runtime']

    def __init__(self, pid, units, harnesses, **kw):
        self.pid = pid
        self._units = units
        self._h = harnesses
        for k, v in kw.items():
            setattr(self, k, v)

    def units(self, tier):
        us = self._units(tier)
        for u in us:
            c = getattr(u, 'ctx', None)
            if c:
                c.load()
        return us

    def harnesses(self):
        return self._h()


PROPS = {}
GO_TRUST = Prop.trusted + ['go memory model for single-goroutine code; no data race in the evaluators (they share no state)']

# ------------------------------------------------------------------ v6 evaluator
SEM6 = REPO6 + '/walkers/semantics.'
SPEC6 = os.path.join(V, 'spec', 'v6')


def sem6_contracts():
    S = 'verif/spec6/sem.'
    w = Contract('Walk', SEM6 + 'Walk', S + 'PostWalk', prepy=lambda ex, a: wf_node(ex, a[0]), unfold=['Eval', 'EvalErr', 'Raw'], measure=lambda ex, a: [ex.rank(a[0])])
    w.entry = True
    return [w,
            Contract('evaluateBinaryExpression', SEM6 + 'evaluateBinaryExpression', S + 'PostBinary', unfold=['Binary', 'BinaryErr', 'Raw'], measure=lambda ex, a: [ex.rank(a[1])]),
            Contract('processValue', SEM6 + 'processValue', S + 'PostProcess', unfold=['Norm', 'Raw'], measure=lambda ex, a: [ex.rank(a[0])]),
            Contract('evaluateUnaryExpression', SEM6 + 'evaluateUnaryExpression', S + 'PostUnary', unfold=['Raw', 'Unary'], leaf=['verif/spec6/sem.Raw'])]


def sem6_setup(ex):
    ex.rank_axioms = lambda: tree_rank_axioms(ex) + val_rank_axioms(ex)


sem6 = GoContext(SPEC6, REPO6 + ',verif/spec6,verif/gh', ['./...', REPO6 + '/walkers/semantics'], sem6_contracts, sem6_setup, dict(opaque=['Unary']))

CMP = (288, 289, 290, 291, 292, 293)
LOGIC = (260, 261, 264)
MEM = (262, 263)
MATCH = (258, 259, 294, 295)
MATH = (278, 279, 280, 281, 282)
FOLD = (269, 270, 271, 272)
BINOPS = CMP + LOGIC + MEM + MATCH + MATH


def isarr(ex, v):
    p = ex.p
    return p.ctor_of[p.bystr['[]interface{}']][1](v)


def bcase(ops, arr):
    def f(ex, a, st):
        o = Or(*[a[0] == x for x in ops]) if ops else Not(Or(*[a[0] == x for x in BINOPS]))
        return And(o, isarr(ex, a[1]) if arr else Not(isarr(ex, a[1])))
    return f


def ucase(ops, arr=None):
    def f(ex, a, st):
        o = Or(*[a[0] == x for x in ops]) if ops else Not(Or(*[a[0] == x for x in FOLD + (266, 296)]))
        if arr is None:
            return o
        return And(o, isarr(ex, a[1]) if arr else Not(isarr(ex, a[1])))
    return f


def wcase(kinds, ops=None, nil=False, notops=None):
    def f(ex, a, st):
        t = tree(ex)
        c = t.cn(a[0])
        isnil = t.P.recognizer(0)(a[0])
        if nil:
            return isnil
        r = [Not(isnil), Or(*[t.kind(c) == k for k in kinds])]
        if ops:
            r.append(Or(*[t.op(c) == o for o in ops]))
        if notops:
            r.append(Not(Or(*[t.op(c) == o for o in notops])))
        return And(*r)
    return f


B, U, W, P = 'evaluateBinaryExpression', 'evaluateUnaryExpression', 'Walk', 'processValue'


def bu(name, ops, arr=False):
    return GoUnit(sem6, B, bcase(ops, arr), name)


def uu(name, ops, arr=None):
    return GoUnit(sem6, U, ucase(ops, arr), name, optional=True)


def ww(name, kinds, ops=None, **kw):
    return GoUnit(sem6, W, wcase(kinds, ops, **kw), name)


SEM_UNITS = {
    'E01': lambda t: [bu('op %d' % o, (o,)) for o in CMP] + [ww('comparison node', (3,), CMP)],
    'E02': lambda t: [bu('logical', LOGIC), bu('other operators', ()), uu('NOT', (266,), False), uu('other operators', ()),
                      ww('logical node', (3,), LOGIC), ww('NOT node', (4,), (266,)), ww('other binary node', (3,), notops=BINOPS),
                      ww('other unary node', (4,), notops=FOLD + (266, 296)), ww('no node', (), nil=True)],
    'E03': lambda t: [bu('array, comparison', CMP, True), bu('array, arithmetic', MATH, True), bu('array, logical', LOGIC, True), bu('array, matching', MATCH, True), bu('array, membership', MEM, True)] +
                     [uu('ANY', (270,)), uu('ALL', (271,)), uu('LEN', (269,)), uu('SUM', (272,)), uu('NOT of array', (266,), True), uu('minus of array', (296,), True), ww('binary node', (3,), BINOPS), ww('unary node', (4,), FOLD + (266, 296))],
    'E04': lambda t: [bu('IN', (263,)), bu('BETWEEN', (262,)), ww('membership node', (3,), MEM), ww('array literal', (7,))],
    'E05': lambda t: [bu('LIKE', (258,)), bu('ILIKE', (259,)), bu('~= and ~!', (294, 295)), ww('matching node', (3,), MATCH)],
    'E06': lambda t: [bu('op %d' % o, (o,)) for o in MATH] + [uu('unary minus', (296,), False), ww('arithmetic node', (3,), MATH), ww('unary minus node', (4,), (296,))],
    'E07': lambda t: [GoUnit(sem6, P), ww('identifier', (2,)), ww('literal', (0, 1, 5, 6, 8, 9)), ww('array literal', (7,))],
}
H6_RULE = 'expression text and record: systematic (operator x value pairs over a value pool incl. constants of the code) then seeded random; distinct (text, record) pairs counted as non-trivial'


def h6():
    return [GoHarness(SPEC6, './h6', 'h6', dict_from=lambda: (sem6.load(), ['walkers/semantics', 'pkg/tsl']))]


for _pid, _u in SEM_UNITS.items():
    PROPS[_pid] = Prop(_pid, _u, h6, rule=H6_RULE, note='postconditions of Walk, evaluateBinaryExpression, evaluateUnaryExpression and processValue against the specification in spec/v6/sem, every other function inlined at its call',
                       assumptions=['float64 arithmetic of the Go compiler is IEEE; int conversion as modelled', 'recursion measures: a tree or record value is finite and acyclic'])

# ------------------------------------------------------------------ v6 SQL
import gosql
SQL6 = REPO6 + '/walkers/sql.'


def sql6_contracts(post):
    def f():
        w = Contract('Walk', SQL6 + 'Walk', 'verif/spec6/sqls.' + post, prepy=lambda ex, a: And(Not(tree(ex).P.recognizer(0)(a[0])), wf_node(ex, a[0])),
                     unfold=['OK', 'Text', 'Bound', 'Unit'], measure=lambda ex, a: [ex.rank(a[0])])
        w.entry = True
        return [w]
    return f


def tree_setup(ex):
    ex.rank_axioms = lambda: tree_rank_axioms(ex)


def sql6_ctx(post):
    return GoContext(SPEC6, REPO6 + ',verif/spec6/sqls,verif/gh,github.com/Masterminds/squirrel', ['./sqls', REPO6 + '/walkers/sql'], sql6_contracts(post), tree_setup, dict(through=['Unit']))


SQLB = CMP + LOGIC[:2] + MATCH + MATH
SQLCASES = [('literal %d' % k, (k,), None, None) for k in (0, 1, 2, 5, 6, 8, 9, 7)] + [('op %d' % o, (3,), (o,), None) for o in SQLB + MEM + (264,)] + \
           [('other binary', (3,), None, SQLB + MEM + (264,)), ('NOT', (4,), (266,), None), ('minus', (4,), (296,), None), ('other unary', (4,), None, (266, 296))]
for _pid, _post in (('Q01', 'PostArgs'), ('Q02', 'PostText')):
    _c = sql6_ctx(_post)

    def _mk(c):
        return lambda t: [GoUnit(c, W, wcase(k, o, notops=no), nm) for nm, k, o, no in SQLCASES]
    PROPS[_pid] = Prop(_pid, _mk(_c), lambda: [GoHarness(SPEC6, './h6', 'h6', dict_from=lambda: (sem6.load(), ['walkers/sql', 'pkg/tsl']))], rule='expression texts: every operator with every literal, nested, then random; distinct texts counted as non-trivial',
                       note='postcondition of sql.Walk against the specification in spec/v6/sqls, by induction over the tree; every other function of the package is inlined at its call',
                       assumptions=['recursion measure: a tree is finite and acyclic'])

# ------------------------------------------------------------------ v6 JSON and YAML
import gojson
NODE6 = '(*%s/tsl.TSLNode)' % REPO6


def marsh_contracts():
    pre = lambda ex, a: wf_node(ex, a[0])
    m = lambda ex, a: [ex.rank(a[0])]
    cs = [Contract('MarshalJSON', NODE6 + '.MarshalJSON', 'verif/spec6/marsh.PostJSON', prepy=pre, unfold=['Enc', 'OK'], measure=m),
          Contract('MarshalYAML', NODE6 + '.MarshalYAML', 'verif/spec6/marsh.PostYAML', prepy=pre, unfold=['Enc', 'OK'], measure=m)]
    for c in cs:
        c.entry = True
    return cs


marsh6 = GoContext(SPEC6, REPO6 + ',verif/spec6/marsh,verif/gh', ['./marsh', REPO6 + '/tsl'], marsh_contracts, tree_setup)
MCASES = [('nil', (), None, None)] + [('literal %d' % k, (k,), None, None) for k in (0, 1, 2, 5, 6, 8, 9)] + [('array', (7,), None, None), ('binary', (3,), None, None), ('unary', (4,), None, None)]
PROPS['M01'] = Prop('M01', lambda t: [GoUnit(marsh6, c, wcase(k, o, notops=no, nil=nm == 'nil'), nm) for c in ('MarshalJSON', 'MarshalYAML') for nm, k, o, no in MCASES],
                    h6, rule='expression texts: every operator, kind and literal of the pool, nested, then random; distinct texts counted as non-trivial',
                    note='postconditions of MarshalJSON and MarshalYAML against the document specification in spec/v6/marsh, by induction over the tree',
                    assumptions=['recursion measure: a tree is finite and acyclic'])

# ------------------------------------------------------------------ v6 tree: native nodes and their Go handles
import gotree, cspec
from cspec import CUnit
nodes6 = GoContext(SPEC6, REPO6 + ',verif/spec6/nodes,verif/gh', ['./nodes', REPO6 + '/tsl'], lambda: [], tree_setup,
                   roots=[NODE6 + '.' + m for m in ('Type', 'Value', 'Clone', 'Free', 'AttachLeft', 'AttachRight', 'AttachChild', 'AttachElement', 'DetachLeft', 'DetachRight', 'DetachChild')] + ['verif/spec6/nodes.Codes'])
TU = gotree.mk_units(nodes6)


def tu(prefixes):
    return [u for n, u in TU.items() if any(n.startswith(x) for x in prefixes)]


C_TRUST = ['clang 18 with mem2reg and instsimplify as the meaning of the C source', 'the VCG in /verif/vc', 'z3, cvc5', 'cgo', 'the C compiler and library']
C_ASSUME = ['a native tree is finite, no node is shared, and malloc succeeds', 'C int arithmetic on sizes does not overflow', 'one goroutine uses a tree at a time']
TREE_UNITS = {
    'T01': lambda t: tu(['Type', 'Value']) + [gotree.CodesUnit(nodes6)] + [CUnit(n) for n in cspec.MAKERS + cspec.GETTERS],
    'T02': lambda t: tu(['Clone', 'Free']) + [CUnit(n) for n in ('ast_clone', 'ast_free')] + [CUnit(n) for n in cspec.MAKERS],
    'T03': lambda t: tu(['Attach', 'Detach']) + [CUnit(n) for n in cspec.CONTRACTS if 'tach' in n] + [CUnit('ast_free')],
}
for _pid, _rule, _note in (
        ('T01', 'expression texts: every token next to every other, then random expressions; distinct texts counted as non-trivial', 'contracts of TSLNode.Type and Value over the accessor contracts, and the native constructors and accessors (clang IR of tsl_ast.c) against theirs; the codes of the two sides by evaluation'),
        ('T02', 'sequences of parse, clone, free, attach and detach on a pool of trees, mirrored on reference trees, with every native allocation counted and guarded', 'contracts of TSLNode.Clone and Free over the contracts of ast_clone and ast_free; these (clang IR) are verified against a tree and ownership semantics: result equal, every cell owned once, nothing shared, nothing leaked'),
        ('T03', 'sequences of parse, clone, free, attach and detach on a pool of trees, mirrored on reference trees, with every native allocation counted and guarded', 'contracts of the Attach and Detach methods over those of ast_attach_* and ast_detach_*, which (clang IR) are verified against a tree and ownership semantics')):
    PROPS[_pid] = Prop(_pid, TREE_UNITS[_pid], h6, rule=_rule, note=_note, trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=C_ASSUME)

# ------------------------------------------------------------------ v6 parser
import lrcheck
PROPS['L01'] = Prop('L01', lambda t: lrcheck.units(), h6, rule='token sequences: every pair and triple of tokens around an expression, long and deep texts, then random expressions; distinct texts counted as non-trivial',
                    note='the automaton of yyparse, taken from its clang IR by executing the driver for every state, token and stack size, is validated against spec/v6/gram/tsl.gram by an inductive invariant (LR(1) item sets) checked state by state; each semantic action is verified against the tree of its production with ownership contracts',
                    trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=['malloc succeeds', 'the lexer returns the token codes of tsl_parser.tab.h (property L02)', 'texts that need more than 10000 stack entries are refused by the parser'])

# ------------------------------------------------------------------ v6 scanner
import lexcheck
PROPS['L02'] = Prop('L02', lambda t: lexcheck.units(t), h6, rule='texts: every pair of token texts with and without a separator, every byte, quoted strings with escapes, near-dates, numbers with suffixes, then random; distinct texts counted as non-trivial',
                    note='yy_scan_string, yylex and yy_delete_buffer (clang IR of lex.yy.c) are executed with a symbolic text: the closure of the states at the loop heads shows the longest match of spec/v6/gram/tsl.gram is taken on every text; the action of each rule is verified against the token and value of its class, with invariants for the loops over characters',
                    trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=['malloc succeeds', 'a text is shorter than 2^31 bytes'])

# ------------------------------------------------------------------ v6 errors and histories of the parser
import parsecheck
parse6 = GoContext(SPEC6, REPO6 + ',verif/spec6/nodes,verif/gh', ['./nodes', REPO6 + '/tsl'], lambda: [], tree_setup,
                   roots=list(nodes6.roots) + [REPO6 + '/tsl.ParseTSL', '(*%s/tsl.SyntaxError).Error' % REPO6])
PROPS['L03'] = Prop('L03', lambda t: parsecheck.units03(parse6, t), h6, rule='texts: token sequences cut, spliced and with foreign bytes, unterminated literals, NULs, random bytes; distinct texts counted as non-trivial',
                    note='ParseTSL and SyntaxError.Error (go/ssa) over contracts of the native entry points; parse_input_string, yyerror, the error getters and cleanup_parser_memory (clang IR) for every state between two calls; what the scanner and the automaton of the parser do with a text that is not well-formed, and what they release, are the units of L02 and L01',
                    trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=['malloc succeeds', 'a text is shorter than 2^31 bytes', 'cgo copies texts as documented'])
PROPS['L04'] = Prop('L04', lambda t: parsecheck.units04(parse6, t) + [CUnit(n) for n in cspec.MAKERS], h6, rule='histories of texts, well-formed and not, each compared with a parse in a fresh process state; concurrent parses of several texts compared with parses one after another',
                    note='parse_input_string and cleanup_parser_memory (clang IR) from every state between two calls; the scanner and the parser start from arbitrary left-over variables (L02 and L01 units); ParseTSL (go/ssa) holds one lock around every native call of the parser and releases it; the native functions called without the lock share no variable with the parser (call graph of the clang IR)',
                    trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=['a mutex of package sync excludes', 'malloc succeeds', 'a text is shorter than 2^31 bytes'])

# ------------------------------------------------------------------ v6 ident
import identcheck
ident6 = GoContext(SPEC6, REPO6 + ',verif/spec6/nodes,verif/gh', ['./nodes', REPO6 + '/walkers/ident'], lambda: [], tree_setup, roots=[NODE6 + '.' + m for m in ('Type', 'Value', 'Clone', 'Free')] + [identcheck.IDN + 'Walk'])
PROPS['I01'] = Prop('I01', lambda t: identcheck.units(ident6), h6, rule='expression texts and check functions that replace, reject or name an expression: every operator with identifiers in every place, arrays included, then random; distinct pairs counted as non-trivial',
                    note='postconditions of ident.Walk and its recursive helper against the fold of the check function over the tree, by induction over the tree and over the elements of an array; native memory by ownership',
                    trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=C_ASSUME + ['the check function does not touch the tree'])

# ------------------------------------------------------------------ v6 graphviz
import gvcheck
gv6 = GoContext(SPEC6, REPO6 + ',verif/spec6/nodes,verif/gh', ['./nodes', REPO6 + '/walkers/graphviz'], lambda: [], tree_setup, roots=[NODE6 + '.' + m for m in ('Type', 'Value')] + [gvcheck.View6.pkg + '.Walk'])
PROPS['G01'] = Prop('G01', lambda t: gvcheck.units6(gv6), h6, rule='expression texts: every operator and kind of literal in every place, values with every special character, wide and deep trees, then random; distinct texts counted as non-trivial',
                    note='postconditions of graphviz.Walk and of the step of its recursion for every kind of node and operator: the text they build, a sequence of constant pieces, escaped values and the texts of the subtrees (by contract), is read as DOT statements and compared with the node; the loop over the elements of an array by an invariant',
                    trusted=sorted(set(Prop.trusted + C_TRUST)), assumptions=C_ASSUME)

# ------------------------------------------------------------------ v5 and v4 evaluators
import five


def h5(v, dirs=('walkers/semantics', 'pkg/tsl'), c=None):
    return lambda: [GoHarness(five.SPEC[v], './h%d' % v, 'h%d' % v, dict_from=lambda: ((c or five.sem[v]).load(), list(dirs)))]


for _v, _pid in ((5, 'E51'), (4, 'E41')):
    PROPS[_pid] = Prop(_pid, (lambda v: lambda t: five.sem_units(v))(_v), h5(_v), rule='trees and records: every operator over pairs of literals and record values of every type, identifiers and arithmetic on either side, then random; distinct (tree, record) pairs counted as non-trivial',
                       note='postconditions of Walk and its helpers against the specification in spec/v%d/sem, by induction; the handlers are inlined' % _v,
                       assumptions=['float64 arithmetic of the Go compiler is IEEE', 'recursion measure: a tree is finite', 'conditions are trees as ParseTSL builds them (spec function WF); the lookup function is a function of the key'])

PROPS['G51'] = Prop('G51', lambda t: five.gv_units(5) + five.gv_units(4), lambda: [h for v in (5, 4) for h in h5(v, ('walkers/graphviz',), five.gv[v])()], rule='trees: every operator and kind of literal in every place, values with every special character, wide and deep trees, then random; distinct (tree, prefix, identifier) cases counted as non-trivial',
                    note='postconditions of graphviz.Walk and of the step of its recursion for every operator and kind of literal, in both versions: the text they build is read as DOT statements and compared with the node; the loop over the elements of a list by an invariant',
                    assumptions=['recursion measure: a tree is finite', 'conditions are trees as ParseTSL builds them: the operands of an operator are nodes, those of a list a slice of nodes'])

# ------------------------------------------------------------------ v5 and v4 ident
import ident5
PROPS['I51'] = Prop('I51', lambda t: ident5.units(5) + ident5.units(4), lambda: [h for v in (5, 4) for h in h5(v, ('walkers/ident',), ident5.ident[v])()], rule='trees and check functions (with a state; that reject a call): every operator with identifiers and literals in every place, then random; distinct pairs counted as non-trivial',
                    note='postcondition of ident.Walk in both versions, for every operator and kind of literal, against the fold of an arbitrary check function with a state over the tree, by induction; a write to memory of the caller is not accepted',
                    assumptions=['recursion measure: a tree is finite', 'conditions are trees as ParseTSL builds them: the operands of an operator are nodes, the elements of a list literals', 'the check function does not touch the tree'])

# ------------------------------------------------------------------ v5 and v4 mongo
import mongo5
PROPS['N51'] = Prop('N51', lambda t: mongo5.units(5) + mongo5.units(4), lambda: [h for v in (5, 4) for h in h5(v, ('walkers/mongo',), mongo5.mongo[v])()], rule='trees: every operator over pairs of identifiers, literals and arithmetic, lists of them, nested conditions, then random; distinct trees counted as non-trivial',
                    note='postcondition of mongo.Walk in both versions (spec/v5/mong: what document a tree stands for, and for which trees there is one), by induction over the tree; bsonFromArray and identString are inlined, the loop over the elements by a closed form',
                    assumptions=['recursion measure: a tree is finite', 'conditions are trees as ParseTSL builds them (spec function WF)'])

# ------------------------------------------------------------------ v5 and v4 SQL
import sql5
PROPS['Q51'] = Prop('Q51', lambda t: sql5.units(5) + sql5.units(4), lambda: [h for v in (5, 4) for h in h5(v, ('walkers/sql',), sql5.sql[v])()], rule='trees: every operator over pairs of identifiers, literals and arithmetic, lists of them, nested conditions, then random; distinct trees counted as non-trivial',
                    note='postcondition of sql.Walk in both versions (spec/v5/sqls: the text with one ? per bound value and the bound values in order, and the trees that have neither), by induction over the tree; the steps are inlined, the loop over a list by a closed form; ToSql of the condition types of the package is executed where one of them becomes a condition',
                    assumptions=['recursion measure: a tree is finite', 'conditions are trees as ParseTSL builds them (spec function WF)'])
