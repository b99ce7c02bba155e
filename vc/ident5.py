"""ident.Walk of v4 and v5 (property I51). The check function is a state machine: an unknown world is threaded through its calls,
so they are compared in number, order and arguments. A call of the recursion is its contract: rN, rE, rW (the tree, the error and
the world it yields) of its tree and world."""
import z3
from gomodels import *
from goexec import Unsupported, short
import goexec2
from gotree import PyUnit
from gounits import GoContext
from five import REPO, SPEC, View5, BIN5, UN5, VALS, tree5, rank5, rank_axioms5, setup5
from identcheck import World, chkS, chkW

SS = StringSort()


class Spec:
    def __init__(self, ex):
        N, E = tree5(ex).N, ex.p.Val
        self.chkE = Function('check_e', World, SS, E)
        self.N = Function('replaced5', N, World, N)
        self.E = Function('rejected5', N, World, E)
        self.W = Function('world5', N, World, World)


class Exec5(goexec2.Exec):
    def call_opaque(self, fn, args, ins, st):
        t = self.p.types[self.curf['params'][1]['type']]['str']
        chk = st.ext.get('check')
        if chk is None or not self.valid(st.formulas(), self.term(st, fn, self.curf['params'][1]['type']) == chk):
            raise Unsupported('a call of an unknown function')
        s = self.term(st, args[0], self.p.bystr['string'])
        W = st.ext['W']
        st.ext['W'] = chkW(W, s)
        return TupleV([chkS(W, s), Spec(self).chkE(W, s)])


def i_walk(ex, fr, ins, a, st):
    n = ex.term(st, a[0], tree5(ex).nt)
    w = ex.where(fr, ins)
    ty = ex.curf['params'][1]['type']
    ex.oblige(st, ex.term(st, a[1], ty) == st.ext['check'], 'the check function is passed on', w)
    ex.oblige(st, rank5(ex, n) < rank5(ex, st.ext['root']), 'termination: the recursion goes to a smaller tree', w)
    f, W = Spec(ex), st.ext['W']
    st.ext['W'] = f.W(n, W)
    return TupleV([f.N(n, W), f.E(n, W)])


def setup(view):
    def g(ex, st):
        ex.curf = ex.p.funcs[view.walk]
        root = view.root(ex)
        view.facts(ex, st)
        W = Const('world0', World)
        chk = ex.fresh('check', ex.p.sort(ex.curf['params'][1]['type']))
        st.fact(chk != Const('nil_' + chk.sort().name(), chk.sort()))
        st.ext.update(W=W, check=chk, root=root)
        return [root, chk], (root, W)
    return g


def post(view, top):
    def g(ex, cx, st, res):
        t, f = tree5(ex), Spec(ex)
        n, W = cx
        rn = ex.term(st, res[0], t.nt)
        err = ex.term(st, res[1], ex.curf['results'][1])
        W1, nil = st.ext['W'], ex.p.Vnil
        if top:
            bad = f.E(n, W) != nil
            return [(err == f.E(n, W), 'the error is the one of the recursion'), (Implies(Not(bad), And(rn == f.N(n, W), W1 == f.W(n, W))), 'the tree is the one of the recursion')]
        NM = dict(e='the error is the one of the first identifier rejected, if any', w='each identifier is offered to the check function once, from left to right', n='the tree returned is the input with its identifiers replaced')
        fun = z3.StringVal(view.op)
        mk = lambda l, r: t.mk(*[dict(Func=fun, Left=l, Right=r)[x] for x in t.order])
        if view.op == '$ident':
            s = Const('n_text', SS)
            e, w, x = f.chkE(W, s), chkW(W, s), mk(ex.p.ctor_of[ex.p.bystr['string']][0](chkS(W, s)), nil)
        else:
            k = view.kids(ex, st)
            e, w, c = nil, W, []
            for y in k:
                y = simplify(y)
                e, c, w = If(e != nil, e, f.E(y, w)), c + [t.wrap(f.N(y, w))], f.W(y, w)
            l, r = view.parts(ex)
            x = mk(c[0] if c else l, c[1] if len(c) > 1 else r)
        return [(err == e, NM['e']), (Implies(e == nil, W1 == w), NM['w']), (Implies(e == nil, rn == x), NM['n'])]
    return g


class Unit5(PyUnit):
    Ex = Exec5

    def __init__(self, context, name, view, top):
        super().__init__(context, name, None, setup(view), post(view, top))
        self.view, self.top = view, top

    def axioms(self, ex):
        return []

    def run(self, tier):
        p, cs, dropped = self.ctx.program()
        none = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=[], assumed=[], inlined=[], funcs=[])
        W = self.view.pkg + '.Walk'
        self.view.walk = W
        if W not in p.funcs:
            none['unsupported'] = 'the function is not there any more'
            return none
        sig = lambda f: ([p.types[x['type']]['str'] for x in p.funcs[f]['params']], [p.types[x]['str'] for x in p.funcs[f]['results']])
        rec = [f for f in p.funcs if f.startswith(self.view.pkg + '.') and f in p.sccs() and '$' not in f and sig(f) == sig(W)]
        if W in rec:
            rec = [W]
        if len(rec) != 1:
            none['unsupported'] = 'the function that recurs is not known'
            return none
        if self.top and rec[0] == W:
            return none
        self.fn = W if self.top else rec[0]
        self.extra = {rec[0]: i_walk}
        TRUST[rec[0]] = 'contract of %s (verified on its body)' % short(rec[0])
        return super().run(tier)


ident = {v: GoContext(SPEC[v], REPO[v] + ',verif/spec%d/sem,verif/gh' % v, ['./sem', REPO[v] + '/walkers/ident'], lambda: [], setup5, roots=[REPO[v] + '/walkers/ident.Walk', 'verif/spec%d/sem.WF' % v]) for v in (4, 5)}


def units(v):
    us = []
    for o in ('$ident',) + tuple(x for x in VALS if v == 5 or x in ('$string', '$number', '$null', '$array')) + BIN5 + UN5:
        for top in (False, True) if o in ('$ident', '$eq', '$not') else (False,):
            w = View5(v, o)
            w.pkg = REPO[v] + '/walkers/ident'
            us.append(Unit5(ident[v], 'v%d: Walk[%s]%s' % (v, o, ' around the recursion' if top else ''), w, top))
    return us
