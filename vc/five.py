"""The modules v4 and v5: contexts, contracts and units. Their trees are values: Node{Func, Left, Right}."""
import os
from gomodels import *
from gounits import GoContext, GoUnit, GoHarness
from ctx import V

REPO = {5: 'github.com/yaacov/tree-search-language/v5/pkg', 4: 'github.com/yaacov/tree-search-language/v4/pkg'}
SPEC = {5: os.path.join(V, 'spec', 'v5'), 4: os.path.join(V, 'spec', 'v4')}


class Tree5:
    """the sorts of Node and its parts"""

    def __init__(self, ex):
        p = ex.p
        self.nt = next(t for t in range(len(p.types)) if p.types[t]['str'].endswith('/pkg/tsl.Node') and p.types[t]['kind'] == 'named')
        self.N = p.sort(self.nt)
        u = p.under(self.nt)
        ix = {f['name']: i for i, f in enumerate(u['fields'])}
        self.acc = {n: self.N.accessor(0, i) for n, i in ix.items()}
        self.mk = self.N.constructor(0)
        self.order = [f['name'] for f in u['fields']]
        self.V = p.ctor_of[self.nt]                 # (constructor, recognizer, accessors) of a node in an interface
        self.sl = p.bystr[p.types[self.nt]['str'].join(['[]', ''])]
        self.A = p.ctor_of.get(self.sl)
        self.p = p

    def func(self, n):
        return self.acc['Func'](n)

    def left(self, n):
        return self.acc['Left'](n)

    def right(self, n):
        return self.acc['Right'](n)

    def isnode(self, v):
        return self.V[1](v)

    def node(self, v):
        return self.V[2][0](v)

    def wrap(self, n):
        return self.V[0](n)


def tree5(ex):
    if not hasattr(ex, '_tree5'):
        ex._tree5 = Tree5(ex)
    return ex._tree5


def rank5(ex, n):
    return Function('rank_Node', tree5(ex).N, IntSort())(n)


def rank_axioms5(ex):
    t = tree5(ex)
    n = Const('n', t.N)
    out = [ForAll([n], rank5(ex, n) >= 0, patterns=[rank5(ex, n)])]
    for f in ('Left', 'Right'):
        x = t.acc[f](n)
        out.append(ForAll([n], Implies(t.isnode(x), rank5(ex, t.node(x)) < rank5(ex, n)), patterns=[t.node(x)]))
    if t.A:
        s, j = Const('s', ex.p.sort(t.sl)), Int('j')
        el = ex.p.sat(s, j, t.nt)
        out.append(ForAll([n, j], Implies(And(t.A[1](t.right(n)), j >= 0, j < ex.p.slen(t.A[2][0](t.right(n)))),
                                          rank5(ex, ex.p.sat(t.A[2][0](t.right(n)), j, t.nt)) < rank5(ex, n)), patterns=[ex.p.sat(t.A[2][0](t.right(n)), j, t.nt)]))
    return out


def one_of(t, ops):
    return Or(*[t == z3.StringVal(o) for o in ops])


def setup5(ex):
    ex.rank_axioms = lambda: rank_axioms5(ex)
    ex.merge = False


# ------------------------------------------------------------ semantics
BOOL = ('$and', '$or', '$not')
MATH = ('$add', '$subtract', '$multiply', '$divide', '$modulo')
CMP = ('$eq', '$ne', '$lt', '$lte', '$gt', '$gte')
MATCH = ('$regex', '$nregex', '$like', '$ilike')
MEM = ('$in', '$nin', '$between', '$nbetween')
EX = ('$exists', '$nexists')


def pending(ex, v):
    """how far a side of a condition is from a value"""
    t = tree5(ex)
    return If(And(t.isnode(v), one_of(t.func(t.node(v)), ('$ident',) + MATH)), IntVal(1), IntVal(0))


def sem_measure(ex, a):
    t = tree5(ex)
    n = a[0]
    b = one_of(t.func(n), BOOL)
    return [If(b, IntVal(1), IntVal(0)), If(b, rank5(ex, n), IntVal(0)), pending(ex, t.left(n)) + pending(ex, t.right(n))]


def sem_callunfold(ex, a, st):
    t = tree5(ex)
    return not ex.feasible(st, one_of(t.func(a[0]), BOOL))


def sem_contracts(v):
    def f():
        S = 'verif/spec%d/sem.' % v
        w = Contract('Walk', REPO[v] + '/walkers/semantics.Walk', S + 'PostWalk', pre=S + 'PreWalk', unfold=['WF', 'Res'], measure=sem_measure, callunfold=sem_callunfold)
        w.entry = True
        e = Contract('evalIdentNode', REPO[v] + '/walkers/semantics.evalIdentNode', S + 'PostIdent', pre=S + 'PreIdent')
        l = Contract('handleIdent', REPO[v] + '/walkers/semantics.handleIdent', S + 'PostLeft', pre=S + 'PreLeft')
        m = Contract('handleMathOp', REPO[v] + '/walkers/semantics.handleMathOp', S + 'PostMath', pre=S + 'PreMath')
        c = Contract('contains', REPO[v] + '/walkers/semantics.contains', S + 'PostContains')
        return [w, e, m, c] if v == 5 else [w, l]
    return f


sem = {v: GoContext(SPEC[v], REPO[v] + ',verif/spec%d/sem,verif/gh' % v, ['./sem', REPO[v] + '/walkers/semantics'], sem_contracts(v), setup5, dict(codes=True)) for v in (4, 5)}


def fcase(ops):
    return lambda ex, a, st: one_of(tree5(ex).func(a[0]), ops)


VALS = ('$string', '$number', '$boolean', '$date', '$null', '$array')


def lrcase(ops, left, right=None):
    """the operator, and what is on the left and on the right"""
    def f(ex, a, st):
        t = tree5(ex)
        r = [one_of(t.func(a[0]), ops), t.isnode(t.left(a[0])), one_of(t.func(t.node(t.left(a[0]))), left)]
        if right is not None:
            r += [t.isnode(t.right(a[0])), one_of(t.func(t.node(t.right(a[0]))), right)]
        return And(*r)
    return f


def sem_units(v):
    def W(case, name, opaque=()):
        return GoUnit(sem[v], 'Walk', case, name, opts=dict(opaque=list(opaque)))
    us = [W(fcase((o,)), o) for o in BOOL]
    if v == 5:
        us.append(GoUnit(sem[v], 'evalIdentNode', optional=True))
        us += [GoUnit(sem[v], 'handleMathOp', (lambda o: lambda ex, a, st: tree5(ex).func(a[0]) == z3.StringVal(o))(o), o, optional=True) for o in MATH]
        us.append(GoUnit(sem[v], 'contains', optional=True))
    else:
        us.append(GoUnit(sem[v], 'handleIdent', optional=True))
    far = [('identifier', ('$ident',))] + [(m[1:], (m,)) for m in MATH]
    for nm, l in far:
        us.append(W(lrcase(EX, l), 'IS NULL, %s' % nm))
        us.append(W(lrcase(CMP + MATCH, l), 'comparison, %s on the left' % nm, ('Compare', 'Right')))
        us.append(W(lrcase(MEM, l), 'membership, %s on the left' % nm, ('Member',)))
        us.append(W(lrcase(CMP + MATCH, VALS, l), 'comparison, %s on the right' % nm, ('Compare',)))
    us.append(W(lrcase(EX, VALS), 'IS NULL, value'))
    for l in VALS:
        for r in VALS[:-1]:
            us.append(W(lrcase(CMP + MATCH, (l,), (r,)), 'comparison of %s and %s' % (l[1:], r[1:])))
        us.append(W(lrcase(MEM, (l,)), 'membership of %s' % l[1:]))
    return us


# ------------------------------------------------------------ graphviz
import gvcheck

BIN5 = CMP + MATCH + ('$and', '$or') + MATH + MEM
UN5 = ('$not', '$exists', '$nexists')


class View5:
    def __init__(self, v, op):
        self.pkg = REPO[v] + '/walkers/graphviz'
        self.op = op
        self.leaf = op in ('$ident', '$string', '$number', '$boolean', '$date')

    def isnode(self, p, t):
        return p.types[t]['str'].endswith('/pkg/tsl.Node') and p.types[t]['kind'] == 'named'

    def parts(self, ex):
        t, p = tree5(ex), ex.p
        V = lambda tn, x: p.ctor_of[p.bystr[tn]][0](x)
        if self.op in ('$ident', '$string'):
            return V('string', Const('n_text', StringSort())), p.Vnil
        if self.op == '$number':
            return V('float64', Const('n_num', p.sort(p.bystr['float64']))), p.Vnil
        if self.op == '$boolean':
            return V('bool', Const('n_bool', BoolSort())), p.Vnil
        if self.op == '$date':
            return V('time.Time', Const('n_time', p.sort(p.bystr['time.Time']))), p.Vnil
        if self.op == '$null':
            return p.Vnil, p.Vnil
        if self.op == '$array':
            return p.Vnil, t.A[0](Const('n_list', p.sort(t.sl)))
        return t.wrap(Const('n_left', t.N)), p.Vnil if self.op in UN5 else t.wrap(Const('n_right', t.N))

    def root(self, ex):
        t = tree5(ex)
        l, r = self.parts(ex)
        d = {'Func': z3.StringVal(self.op), 'Left': l, 'Right': r}
        return t.mk(*[d[n] for n in t.order])

    def arg(self, ex, fr, ins, st, a):
        return ex.term(st, a, tree5(ex).nt), ex.where(fr, ins)

    def descend(self, ex, st, c, w):
        ex.oblige(st, rank5(ex, c) < rank5(ex, st.ext['root']), 'termination: the recursion goes to a smaller tree', w)

    def kids(self, ex, st):
        t = tree5(ex)
        return [t.node(x) for x in self.parts(ex) if z3.is_true(simplify(t.isnode(x)))]

    def size(self, ex, st):
        t = tree5(ex)
        return ex.p.slen(Const('n_list', ex.p.sort(t.sl))) if self.op == '$array' else None

    def child(self, ex, k):
        t = tree5(ex)
        return ex.p.sat(Const('n_list', ex.p.sort(t.sl)), k, t.nt)

    def child_facts(self, ex, st, k):
        st.fact(Implies(And(k >= 0, k < self.size(ex, st)), rank5(ex, self.child(ex, k)) < rank5(ex, self.root(ex))))

    def facts(self, ex, st):
        for x in self.kids(ex, st):
            st.fact(rank5(ex, simplify(x)) < rank5(ex, self.root(ex)))
        if self.op == '$array':
            j = Int('j')
            st.fact(self.size(ex, st) >= 0)
            st.fact(ForAll([j], Implies(And(j >= 0, j < self.size(ex, st)), rank5(ex, self.child(ex, j)) < rank5(ex, self.root(ex))), patterns=[self.child(ex, j)]))

    def shown(self, ex, cx, st, h):
        p = ex.p
        V = self.parts(ex)[0]
        f = lambda n: Function(n, p.Val, StringSort())(V)
        if self.op in ('$ident', '$string'):
            return self.op, ('text', [Const('n_text', StringSort())])
        if self.op == '$number':
            return self.op, ('num', [f('fmt_v'), f('fmt_g')])
        if self.op == '$date':
            return self.op, ('num', [f('fmt_v')])
        if self.op == '$boolean':
            b = Const('n_bool', BoolSort())
            return self.op, ('word', ([('true', b), ('false', Not(b))], [f('fmt_v'), f('fmt_t')]))
        return self.op, None


def gv_setup(view, named, prefixed, inner=False):
    def setup(ex, st):
        root = view.root(ex)
        view.facts(ex, st)
        i, d = Const('prefix', StringSort()), Const('id', StringSort())
        st.ext.update(root=root, subs=(), top='inside' if inner else 'outside')
        if named:
            st.fact(d != z3.StringVal(''))
        cx = dict(id=d if named else None, prefix=i if prefixed else None)
        if not inner:
            if prefixed:
                st.fact(i != z3.StringVal(''))
            return [i if prefixed else z3.StringVal(''), root, d if named else z3.StringVal('')], cx
        ro = ex.roles
        out = [None] * ro.n
        out[ro.node], out[ro.id] = root, d
        if ro.pre is not None:
            out[ro.pre] = z3.StringVal('')
        if ro.ids is not None:
            R, U = Const('root_id', StringSort()), Int('used_before')
            st.fact(And(R != z3.StringVal(''), U >= 0))
            f = [None, None]
            f[ro.r], f[ro.u] = R, U
            out[ro.ids] = ex.alloc(st, ro.tid, gvcheck.StructV(ro.tid, f))
        gvcheck.enter(ex, st, out)
        return out, cx
    return setup


gv = {v: GoContext(SPEC[v], REPO[v] + ',verif/spec%d/sem,verif/gh' % v, ['./sem', REPO[v] + '/walkers/graphviz'], lambda: [], setup5, roots=[REPO[v] + '/walkers/graphviz.Walk']) for v in (4, 5)}


def gv_units(v):
    us = []
    for j, o in enumerate(('$ident',) + tuple(x for x in VALS if v == 5 or x in ('$string', '$number', '$null', '$array')) + BIN5 + UN5):
        w = View5(v, o)
        W = w.pkg + '.Walk'
        us.append(gvcheck.GvUnit(gv[v], 'v%d: a step of the recursion[%s]' % (v, o), W, w, gv_setup(w, True, False, True), True))
        few = o in BIN5 + UN5 and o not in ('$eq', '$not')
        for named, pre in ((True, False),) if few else ((True, False), (False, True), (True, True)):
            us.append(gvcheck.GvUnit(gv[v], 'v%d: Walk[%s%s%s]' % (v, o, '' if named else ', no id', ', prefix' if pre else ''), W, w, gv_setup(w, named, pre)))
    return us
