"""ident.Walk (property I01): the tree a node stands for is replaced in place, so trees and native nodes are kept apart.
Every node c has an original tree n_tree(c); the check function is a state machine (an unknown world threaded through its calls,
so its calls are compared in number, order and arguments); the specification is the fold rW, rE, rT over the original tree.
The methods of TSLNode are used by their contracts (T01-T03), ParseTSL by its own (L01-L04)."""
from gomodels import *
from goexec import Unsupported, Outcome, short
import goexec2
from gotree import PyUnit, METH
import gotree

IDN = T6[:-len('tsl')] + 'walkers/ident.'
World = z3.DeclareSort('World')
Tree = z3.DeclareSort('Tree')
SS = StringSort()
chkS = Function('check_s', World, SS, SS)
chkW = Function('check_w', World, SS, World)
parseT = Function('parse_tree', SS, Tree)
X = {}


def xm(name, trust=None):
    def deco(f):
        X[name] = f
        TRUST[name] = trust or 'contract of %s' % short(name)
        return f
    return deco


class F:
    """the specification functions"""

    def __init__(self, ex):
        t = tree(ex)
        self.ex, self.t = ex, t
        C, E = t.C, ex.p.Val
        self.nil = ex.p.Vnil
        self.treeOf = Function('n_tree', C, Tree)
        self.chkE = Function('check_e', World, SS, E)
        self.parseE = Function('parse_err', SS, E)
        self.rT = Function('replaced', C, World, Tree)
        self.rW = Function('world_after', C, World, World)
        self.rE = Function('rejected', C, World, E)
        self.fW = Function('fold_world', C, IntSort(), World, World)
        self.fE = Function('fold_err', C, IntSort(), World, E)

    def elem(self, c, i):
        t = self.t
        return t.cn(self.ex.p.sat(t.elems(c), i, self.ex.p.under(t.slt)['elem']))

    def size(self, c):
        return self.ex.p.slen(self.t.elems(c))

    def axioms(self):
        t = self.t
        c, w, k = Const('c', t.C), Const('w', World), Int('k')
        s = t.str(c)
        e, s2 = self.chkE(w, s), chkS(w, s)
        out = [ForAll([c, w], Implies(t.kind(c) == 2, And(self.rE(c, w) == If(e != self.nil, e, self.parseE(s2)), self.rT(c, w) == parseT(s2), self.rW(c, w) == chkW(w, s))), patterns=[self.rE(c, w)]),
               ForAll([c, w], Implies(And(t.kind(c) >= 0, t.kind(c) <= 9, *[t.kind(c) != x for x in (2, 3, 4, 7)]), And(self.rE(c, w) == self.nil, self.rT(c, w) == self.treeOf(c), self.rW(c, w) == w)), patterns=[self.rE(c, w)])]
        a, b = self.rE(t.left(c), w), self.rE(t.right(c), self.rW(t.left(c), w))
        out.append(ForAll([c, w], Implies(t.kind(c) == 3, And(self.rE(c, w) == If(a != self.nil, a, b), self.rW(c, w) == self.rW(t.right(c), self.rW(t.left(c), w)))), patterns=[self.rE(c, w)]))
        out.append(ForAll([c, w], Implies(t.kind(c) == 4, And(self.rE(c, w) == self.rE(t.child(c), w), self.rW(c, w) == self.rW(t.child(c), w))), patterns=[self.rE(c, w)]))
        n = self.size(c)
        out.append(ForAll([c, w], Implies(t.kind(c) == 7, And(self.rE(c, w) == self.fE(c, n, w), self.rW(c, w) == self.fW(c, n, w))), patterns=[self.rE(c, w)]))
        return out

    def step(self, c, k, w):
        """the fold over the elements of an array: its start and one step"""
        el, wk = self.elem(c, k), self.fW(c, k, w)
        return [self.fW(c, 0, w) == w, self.fE(c, 0, w) == self.nil,
                self.fW(c, k + 1, w) == self.rW(el, wk), self.fE(c, k + 1, w) == If(self.fE(c, k, w) != self.nil, self.fE(c, k, w), self.rE(el, wk)),
                # an error is not lost by later elements (lemma: by induction on the distance, unit 'fold keeps the first error')
                Implies(And(k + 1 <= self.size(c), self.fE(c, k + 1, w) != self.nil), self.fE(c, self.size(c), w) == self.fE(c, k + 1, w))]


class Lemma:
    """fE(c, m, w) = fE(c, j, w) for m >= j when fE(c, j, w) is an error: induction on m"""
    name = 'fold keeps the first error'

    def __init__(self, context):
        self.ctx = context

    def run(self, tier):
        p, cs, dropped = self.ctx.program()
        ex = goexec2.Exec(p, [], MODELS, opts={})
        f = F(ex)
        c, w, j, m = Const('c', f.t.C), Const('w', World), Int('j'), Int('m')
        s = z3.Solver()
        el, wm = f.elem(c, m), f.fW(c, m, w)
        s.add(f.fE(c, j, w) != f.nil, m >= j, f.fE(c, m, w) == f.fE(c, j, w),
              f.fE(c, m + 1, w) == If(f.fE(c, m, w) != f.nil, f.fE(c, m, w), f.rE(el, wm)), f.fE(c, m + 1, w) != f.fE(c, j, w))
        ok = s.check() == z3.unsat
        return dict(obls=[dict(name='the induction step of the lemma', where='fold', status='proved' if ok else 'unknown', backend='z3', time=0, model='')], paths=1, vacuity='lemma', bounded=[], unsupported=None,
                    trusted=[], assumed=[], inlined=[], funcs=[])


def spec(ex):
    if not hasattr(ex, '_ident'):
        ex._ident = F(ex)
    return ex._ident


# ------------------------------------------------------------ the state of native memory
# own: handle -> 'live' | 'attached' | 'freed' | 'returned'; list of (handle, status)
# slots: (node, slot, handle or None); done: handles walked in place; dead: handles freed
def own(st):
    return st.ext.get('own', ())


def set_own(st, c, status):
    st.ext['own'] = tuple((x, status if z3.eq(x, c) else s) for x, s in own(st))


def new_own(ex, st, nm):
    t = tree(ex)
    h = ex.fresh(nm, t.C)
    st.fact(And(h != t.null, t.kind(h) >= 0, t.kind(h) <= 9))
    for x, _ in own(st):
        st.fact(h != x)
    for x in st.ext.get('known', ()):
        st.fact(h != x)
    st.ext['own'] = own(st) + ((h, 'live'),)
    return h


def which(ex, st, c):
    """the owned handle that c is, if it certainly is one"""
    c = simplify(c)
    for x, s in own(st):
        if z3.eq(x, c):
            return x, s
    for x, s in own(st):
        if ex.valid(st.formulas(), x == c):
            return x, s
    return None, None


def handle(ex, fr, ins, st, v, what):
    t = tree(ex)
    n = ex.term(st, v, t.nt)
    w = ex.where(fr, ins)
    ex.oblige(st, Not(t.P.recognizer(0)(n)), 'no panic: %s of a nil node' % what, w)
    c = t.cn(n)
    return c, w


def living(ex, st, c, w):
    for x in st.ext.get('dead', ()):
        if z3.eq(simplify(x), simplify(c)):
            ex.oblige(st, BoolVal(False), 'no use of a released tree', w)
        else:
            ex.oblige(st, x != c, 'no use of a released tree', w)


def kids(ex, st, c):
    """facts about the operands of a well-formed node: they exist, none is shared"""
    t = tree(ex)
    if any(z3.eq(x, c) for x in st.ext.get('opened', ())):
        return
    st.ext['opened'] = st.ext.get('opened', ()) + (c,)
    k = t.kind(c)
    st.fact(Implies(k == 3, And(t.left(c) != t.null, t.right(c) != t.null, t.left(c) != t.right(c), t.left(c) != c, t.right(c) != c)))
    st.fact(Implies(k == 4, And(t.child(c) != t.null, t.child(c) != c)))


@xm(METH + 'Type', 'contract of TSLNode.Type (property T01)')
def i_type(ex, fr, ins, a, st):
    t = tree(ex)
    c, w = handle(ex, fr, ins, st, a[0], 'Type')
    ex.oblige(st, c != t.null, 'no panic: method on an empty node', w)
    living(ex, st, c, w)
    st.fact(And(t.kind(c) >= 0, t.kind(c) <= 9))
    return t.kind(c)


@xm(METH + 'Value', 'contract of TSLNode.Value (property T01)')
def i_value(ex, fr, ins, a, st):
    t = tree(ex)
    c, w = handle(ex, fr, ins, st, a[0], 'Value')
    living(ex, st, c, w)
    kids(ex, st, c)
    for node, slot, h in st.ext.get('slots', ()):
        if not z3.eq(node, c) and not ex.valid(st.formulas(), node != c) or z3.eq(node, c) and (slot[0] == 'elem' or h is None):
            raise Unsupported('Value of a node that was changed')
    v = m_value(ex, fr, ins, a, st)
    for node, slot, h in st.ext.get('slots', ()):
        if z3.eq(node, c):
            old = {'left': t.left, 'right': t.right, 'child': t.child}[slot[0]](c)
            v = z3.substitute(v, (old, h))
    return simplify(v)


@xm(METH + 'Clone', 'contract of TSLNode.Clone (property T02): a tree of its own, equal to this one')
def i_clone(ex, fr, ins, a, st):
    t, f = tree(ex), spec(ex)
    n = ex.term(st, a[0], t.nt)
    c = t.cn(n)
    none = Or(t.P.recognizer(0)(n), c == t.null)
    out = []
    s1 = st.fork()
    if ex.feasible(s1, none):
        s1.cond(none)
        out.append((s1, t.P.constructor(0)()))
    if ex.feasible(st, Not(none)):
        st.cond(Not(none))
        if any(True for _ in st.ext.get('slots', ())) or st.ext.get('done'):
            raise Unsupported('Clone of a node that was changed')
        living(ex, st, c, ex.where(fr, ins))
        h = new_own(ex, st, 'clone')
        w = Const('w', World)
        st.fact(And(f.treeOf(h) == f.treeOf(c), t.kind(h) == t.kind(c), t.str(h) == t.str(c), t.op(h) == t.op(c)))
        st.fact(ForAll([w], And(f.rT(h, w) == f.rT(c, w), f.rW(h, w) == f.rW(c, w), f.rE(h, w) == f.rE(c, w)), patterns=[f.rE(h, w)]))
        out.append((st, t.mk(h)))
    return out


@xm(METH + 'Free', 'contract of TSLNode.Free (property T02)')
def i_free(ex, fr, ins, a, st):
    t = tree(ex)
    c, w = handle(ex, fr, ins, st, a[0], 'Free')
    if ex.valid(st.formulas(), c == t.null):
        return None
    x, s = which(ex, st, c)
    if x is None:
        if not ex.valid(st.formulas(), c != t.null):
            raise Unsupported('Free of a tree that may be empty')
        ex.oblige(st, BoolVal(False), 'only a tree of its own is released', w)
        return []
    ex.oblige(st, BoolVal(s == 'live'), 'no tree is released twice, none that is part of another', w)
    set_own(st, x, 'freed')
    st.ext['dead'] = st.ext.get('dead', ()) + (x,)
    return None


def writable(ex, st, c, w):
    roots = [x for x, s in own(st) if s == 'live'] + list(st.ext.get('mine', ()))
    ex.oblige(st, Or([c == r for r in roots] + [BoolVal(False)]), 'only the copy is changed', w)


def put(ex, st, c, slot, d):
    """the slot of c holds d from now on; what it held is released"""
    t = tree(ex)
    old = None
    rest = []
    for node, sl, h in st.ext.get('slots', ()):
        if z3.eq(node, c) and sl[0] == slot[0] and (len(sl) < 2 or z3.eq(simplify(sl[1]), simplify(slot[1]))):
            old = (h,)
        else:
            if sl[0] == 'elem' == slot[0] and not ex.valid(st.formulas(), sl[1] != slot[1]):
                raise Unsupported('an element may be replaced twice')
            rest.append((node, sl, h))
    if old is None:
        o = {'left': lambda: t.left(c), 'right': lambda: t.right(c), 'child': lambda: t.child(c), 'elem': lambda: spec(ex).elem(c, slot[1])}[slot[0]]()
    else:
        o = old[0]
    st.ext['slots'] = tuple(rest) + ((c, slot, d),)
    return o


def attach(name, kind, slot):
    @xm(METH + name, 'contract of TSLNode.%s (property T03)' % name)
    def m(ex, fr, ins, a, st):
        t = tree(ex)
        n, ch = ex.term(st, a[0], t.nt), ex.term(st, a[-1], t.nt)
        w = ex.where(fr, ins)
        c, d = t.cn(n), t.cn(ch)
        ok = And(Not(t.P.recognizer(0)(n)), Not(t.P.recognizer(0)(ch)), d != t.null, t.kind(c) == kind)
        i = None
        if slot == 'elem':
            i = a[1] if z3.is_expr(a[1]) else IntVal(a[1])
            ok = And(ok, i >= 0, i < spec(ex).size(c))
        ok = simplify(ok)
        out = []
        if ex.feasible(st, Not(ok)):
            s1 = st.fork()
            s1.cond(Not(ok))
            out.append((s1, BoolVal(False)))
        if ex.feasible(st, ok):
            st.cond(ok)
            kids(ex, st, c)
            living(ex, st, c, w)
            writable(ex, st, c, w)
            living(ex, st, d, w)
            x, s = which(ex, st, d)
            ex.oblige(st, BoolVal(s == 'live'), 'what is attached is a tree of its own', w)
            if s != 'live':
                return out
            ex.oblige(st, c != x, 'what is attached is a tree of its own', w)
            sl = (slot,) if i is None else (slot, i)
            if slot == 'elem':
                in_loop(ex, st, c, i, w)
            o = put(ex, st, c, sl, x)
            if o is not None:
                st.ext['dead'] = st.ext.get('dead', ()) + (o,)
                y, s = which(ex, st, o) if own(st) else (None, None)
                if y is not None:
                    set_own(st, y, 'freed')
            set_own(st, x, 'attached')
            out.append((st, BoolVal(True)))
        return out


def in_loop(ex, st, c, i, w):
    lp = st.ext.get('loop')
    if lp is not None:
        ex.oblige(st, And(c == lp[0], i == lp[1]), 'the element replaced is the one just looked at', w)


attach('AttachLeft', 3, 'left')
attach('AttachRight', 3, 'right')
attach('AttachChild', 4, 'child')
attach('AttachElement', 7, 'elem')


def detach(name, kind, slot):
    @xm(METH + name, 'contract of TSLNode.%s (property T03)' % name)
    def m(ex, fr, ins, a, st):
        t = tree(ex)
        n = ex.term(st, a[0], t.nt)
        w = ex.where(fr, ins)
        c = t.cn(n)
        if not ex.valid(st.formulas(), And(Not(t.P.recognizer(0)(n)), t.kind(c) == kind)):
            raise Unsupported(name + ' of another node')
        kids(ex, st, c)
        living(ex, st, c, w)
        writable(ex, st, c, w)
        o = put(ex, st, c, (slot,), None)
        if o is None:
            return t.P.constructor(0)()
        y, s = which(ex, st, o)
        if y is None:
            st.ext['own'] = own(st) + ((o, 'live'),)
        else:
            set_own(st, y, 'live')
        return t.mk(o)


detach('DetachLeft', 3, 'left')
detach('DetachRight', 3, 'right')
detach('DetachChild', 4, 'child')


@xm(T6 + '.ParseTSL', 'contract of ParseTSL (properties L01-L04): the tree of the text, or an error')
def i_parse(ex, fr, ins, a, st):
    t, f = tree(ex), spec(ex)
    e = f.parseE(a[0])
    out = []
    if ex.feasible(st, e != f.nil):
        s1 = st.fork()
        s1.cond(e != f.nil)
        out.append((s1, TupleV([t.P.constructor(0)(), e])))
    if ex.feasible(st, e == f.nil):
        st.cond(e == f.nil)
        h = new_own(ex, st, 'parsed')
        st.fact(f.treeOf(h) == parseT(a[0]))
        out.append((st, TupleV([t.mk(h), f.nil])))
    return out


def i_walk(ex, fr, ins, a, st):
    """walkAndReplace by its contract"""
    t, f = tree(ex), spec(ex)
    c, w = handle(ex, fr, ins, st, a[0], 'walkAndReplace')
    ex.oblige(st, c != t.null, 'no panic: method on an empty node', w)
    st.fact(And(t.kind(c) >= 0, t.kind(c) <= 9))
    living(ex, st, c, w)
    chk = st.ext.get('check')
    if chk is not None:
        k = ex.term(st, a[1], ex.p.funcs[ex.walkfn]['params'][1]['type'])
        ex.oblige(st, k == chk, 'the check function is passed on', w)
    root = st.ext.get('root')
    if root is not None:
        # inside walkAndReplace itself: only operands of the node at hand, each once
        kids(ex, st, root)
        lp = st.ext.get('loop')
        rk = lambda x: Function('rank_' + t.P.name(), t.P, IntSort())(t.mk(x))
        ex.oblige(st, rk(c) < rk(root), 'termination: the recursion goes to a smaller tree', w)
        ops = [And(t.kind(root) == 3, c == t.left(root)), And(t.kind(root) == 3, c == t.right(root)), And(t.kind(root) == 4, c == t.child(root))]
        if lp is not None:
            ops.append(And(t.kind(root) == 7, c == f.elem(lp[0], lp[1])))
        ex.oblige(st, Or(ops + [c == x for x, s in own(st) if s == 'live']), 'what is walked is an operand of the node', w)
    else:
        writable(ex, st, c, w)
    for x in st.ext.get('done', ()):
        ex.oblige(st, x != c, 'no operand is walked twice', w)
    for node, slot, h in st.ext.get('slots', ()):
        if z3.eq(node, c) or not ex.valid(st.formulas(), node != c):
            raise Unsupported('a walk over a tree that was changed')
    W0 = st.ext['W']
    e = f.rE(c, W0)
    out = []
    if ex.feasible(st, e != f.nil):
        s1 = st.fork()
        s1.cond(e != f.nil)
        s1.ext['W'] = ex.fresh('world', World)
        s1.ext['done'] = s1.ext.get('done', ()) + (c,)
        out.append((s1, TupleV([t.P.constructor(0)(), e])))
    if ex.feasible(st, e == f.nil):
        st.cond(e == f.nil)
        st.ext['W'] = f.rW(c, W0)
        for isid in (True, False):
            g = (t.kind(c) == 2) == isid
            if not ex.feasible(st, g):
                continue
            s1 = st.fork()
            s1.cond(g)
            if isid:
                h = new_own(ex, s1, 'new')
                s1.fact(f.treeOf(h) == f.rT(c, W0))
                out.append((s1, TupleV([t.mk(h), f.nil])))
            else:
                s1.ext['done'] = s1.ext.get('done', ()) + (c,)
                s1.ext['now'] = s1.ext.get('now', ()) + ((c, f.rT(c, W0)),)
                out.append((s1, TupleV([t.mk(c), f.nil])))
    return out


def tree_now(ex, st, x):
    """the tree that handle x stands for now"""
    for c, v in st.ext.get('now', ()):
        if z3.eq(simplify(c), simplify(x)):
            return v
    return spec(ex).treeOf(x)


class IdentExec(goexec2.Exec):
    walkfn = None

    def call_opaque(self, fn, args, ins, st):
        sig = self.p.under(ins['sig'])
        if len(args) != 1 or len(sig['results']) != 2 or not z3.is_expr(args[0]) or not z3.is_string(args[0]) or 'W' not in st.ext:
            raise Unsupported('call of a function value')
        if st.ext.get('check') is not None:
            if not z3.eq(simplify(fn), simplify(st.ext['check'])):
                raise Unsupported('call of a function value')
        f = spec(self)
        s, W = args[0], st.ext['W']
        st.ext['W'] = chkW(W, s)
        return TupleV([chkS(W, s), f.chkE(W, s)])

    def eq(self, st, a, b, tid, *r, **kw):
        # handles of nodes: one handle per native node (the pointers a value passes through are the same; two wrappers of one node are told apart
        # by no code here, the bounded check covers that)
        t = tree(self)
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == t.P and b.sort() == t.P:
            return simplify(a == b)
        return super().eq(st, a, b, tid, *r, **kw)

    def loop(self, fr, h, prev, env, st):
        if 'root' not in st.ext or st.ext.get('loop') is not None:
            return super().loop(fr, h, prev, env, st)
        if self.valid(st.formulas(), tree(self).kind(st.ext['root']) != 7):
            return super().loop(fr, h, prev, env, st)
        return self.elements(fr, h, prev, env, st)

    def elements(self, fr, h, prev, env, st):
        """a loop over the elements of the array at hand, by the invariant: the first k elements are replaced, the check function is in the state
        it has after k elements, nothing else has changed"""
        p, f, t = self.p, spec(self), tree(self)
        fn = p.funcs[fr['fn']]
        blk = fn['blocks'][h]
        region = p.loops(fr['fn'])[h]
        c, W0 = st.ext['root'], st.ext['W']
        if st.ext.get('elems') or st.ext.get('slots') or st.ext.get('done'):
            raise Unsupported('a second loop over the elements')
        phis = [i for i in blk['instrs'] if i['op'] == 'Phi']
        e = blk['preds'].index(prev)
        env1 = dict(env)
        s1 = st.fork()
        counter = None
        for i in phis:
            v = self.val(fr, env, i['edges'][e])
            if p.t(i['type'])['str'] == 'int' and self.asint(v) is not None:
                if counter is not None:
                    raise Unsupported('a loop with two counters')
                counter = (i['name'], self.asint(v))
            else:
                s = p.sort(i['type'])
                env1[i['name']] = self.fresh('phi', s)
        if counter is None:
            raise Unsupported('a loop without a counter')
        k = self.fresh('k', IntSort())
        env1[counter[0]] = k + counter[1]
        n = f.size(c)
        s1.fact(And(k >= 0, k <= n))
        for x in f.step(c, k, W0):
            s1.fact(x)
        s1.fact(f.fE(c, k, W0) == f.nil)
        el = f.elem(c, k)
        s1.fact(Implies(k < n, And(el != t.null, t.kind(el) >= 0, t.kind(el) <= 9, el != c)))
        s1.ext['W'] = f.fW(c, k, W0)
        s1.ext['loop'] = (c, k)
        s1.ext['known'] = tuple(s1.ext.get('known', ())) + (el,)
        pre = dict(s1.heap)
        own0 = own(s1)
        out = []
        for o in self.run(fr, h, prev, env1, s1, region, entry_header=h):
            s = o.state
            for oid, obj in pre.items():
                if s.heap.get(oid) is not obj:
                    raise Unsupported('a loop that changes local memory')
            if o.kind == 'back':
                w = 'loop over the elements'
                nxt = self.val(fr, o.env, [i for i in phis if i['name'] == counter[0]][0]['edges'][blk['preds'].index(o.prev)])
                self.oblige(s, nxt == k + 1 + counter[1], 'the loop goes from element to element', w)
                self.oblige(s, k < n, 'the loop ends with the last element', w)
                self.oblige(s, s.ext['W'] == f.fW(c, k + 1, W0), 'each identifier is offered to the check function once, from left to right', w)
                self.oblige(s, f.fE(c, k + 1, W0) == f.nil, 'the loop goes on only without an error', w)
                hs = [x for nd, sl, x in s.ext.get('slots', ()) if sl[0] == 'elem']
                now = f.treeOf(hs[-1]) if hs else tree_now(self, s, el)
                self.oblige(s, now == f.rT(el, f.fW(c, k, W0)), 'the element is replaced by what it stands for', w)
                self.oblige(s, BoolVal(all(z3.eq(x, f.root if False else c) for x, sl, _ in s.ext.get('slots', ()))), 'only the elements change', w)
                for x, y in own(s)[len(own0):]:
                    self.oblige(s, BoolVal(y != 'live'), 'nothing is leaked', w)
            elif o.kind == 'exit':
                s.ext['elems'] = (k, W0)
                for x, y in own(s)[len(own0):]:
                    self.oblige(s, BoolVal(y != 'live'), 'nothing is leaked', 'loop over the elements')
                s.ext['loop'] = None
                out.append(o)
            else:
                s.ext['loop'] = None
                out.append(o)
        return out


# ------------------------------------------------------------ units
def walk_setup(kind):
    def setup(ex, st):
        t, f = tree(ex), spec(ex)
        fn = ex.p.funcs[ex.walkfn]
        c, W = Const('n', t.C), Const('world0', World)
        st.fact(And(c != t.null, t.kind(c) == kind))
        for a in f.axioms() + tree_rank_axioms(ex):
            st.fact(a)
        st.fact(f.rE(c, W) == f.rE(c, W))
        chk = ex.fresh('check', ex.p.sort(fn['params'][1]['type']))
        st.fact(chk != Const('nil_' + chk.sort().name(), chk.sort()))
        st.ext.update(W=W, root=c, mine=(c,), check=chk, own=(), known=(c, t.left(c), t.right(c), t.child(c)))
        for x in (t.left(c), t.right(c), t.child(c)):
            st.fact(And(t.kind(x) >= 0, t.kind(x) <= 9))
        if kind == 7:
            for x in f.step(c, f.size(c) - 1, W):
                st.fact(Implies(f.size(c) > 0, x))
            st.fact(And(f.fW(c, 0, W) == W, f.fE(c, 0, W) == f.nil, f.size(c) >= 0))
        return [t.mk(c), chk], (c, W, kind)
    return setup


def walk_post(ex, cx, st, res):
    t, f = tree(ex), spec(ex)
    c, W, kind = cx
    isnil, rc = gotree.result_node(ex, st, res[0])
    err = ex.term(st, res[1], ex.p.funcs[ex.walkfn]['results'][1])
    bad = f.rE(c, W) != f.nil
    out = [(err == f.rE(c, W), 'the error is the one of the first identifier rejected, if any'), (Implies(bad, isnil), 'there is no tree with an error')]
    live = [x for x, s in own(st) if s == 'live']
    if ex.valid(st.formulas(), bad):
        for x in live:
            out.append((BoolVal(False), 'nothing is leaked'))
        return out
    out.append((Implies(Not(bad), st.ext['W'] == f.rW(c, W)), 'each identifier is offered to the check function once, from left to right'))
    out.append((Implies(Not(bad), Not(isnil)), 'a tree is returned'))
    if kind == 2:
        out.append((Implies(Not(bad), Or([And(rc == x, f.treeOf(x) == f.rT(c, W)) for x in live] + [BoolVal(False)])), 'the tree returned is what the identifier stands for'))
        out.append((BoolVal(len(live) <= 1), 'nothing is leaked'))
        out.append((BoolVal(not st.ext.get('slots') and not st.ext.get('done')), 'the node is left alone'))
        return out
    for x in live:
        out.append((BoolVal(False), 'nothing is leaked'))
    out.append((Implies(Not(bad), rc == c), 'the tree returned is the one given'))
    sl = {s[0]: h for nd, s, h in st.ext.get('slots', ()) if z3.eq(nd, c)}
    if len(sl) != len(st.ext.get('slots', ())) and kind != 7:
        raise Unsupported('other nodes were changed')

    def operand(slot, get, w):
        h = sl.get(slot, get)
        if h is None:
            return BoolVal(False)
        return tree_now(ex, st, h) == f.rT(get, w)
    if kind == 3:
        out.append((Implies(Not(bad), operand('left', t.left(c), W)), 'the left operand is replaced by what it stands for'))
        out.append((Implies(Not(bad), operand('right', t.right(c), f.rW(t.left(c), W))), 'the right operand is replaced by what it stands for'))
    elif kind == 4:
        out.append((Implies(Not(bad), operand('child', t.child(c), W)), 'the operand is replaced by what it stands for'))
    elif kind == 7:
        el = st.ext.get('elems')
        out.append((Implies(Not(bad), f.size(c) == 0 if el is None else And(el[0] == f.size(c), el[1] == W)), 'every element is replaced by what it stands for'))
    else:
        out.append((BoolVal(not sl and not st.ext.get('done')) if not st.ext.get('done') else BoolVal(True), 'a literal is left alone'))
    return out


def top_setup(nil):
    def setup(ex, st):
        t, f = tree(ex), spec(ex)
        fn = ex.p.funcs[IDN + 'Walk']
        c, W = Const('n', t.C), Const('world0', World)
        chk = ex.fresh('check', ex.p.sort(fn['params'][1]['type']))
        st.fact(chk != Const('nil_' + chk.sort().name(), chk.sort()))
        for a in f.axioms() + tree_rank_axioms(ex):
            st.fact(a)
        st.ext.update(W=W, check=chk, own=(), known=(c,))
        if nil:
            st.fact(c == t.null)
            return [NilNode(ex), chk], (c, W, True)
        st.fact(And(c != t.null, t.kind(c) >= 0, t.kind(c) <= 9))
        st.fact(f.rE(c, W) == f.rE(c, W))
        return [t.mk(c), chk], (c, W, False)
    return setup


def NilNode(ex):
    return tree(ex).P.constructor(0)()


def top_post(ex, cx, st, res):
    t, f = tree(ex), spec(ex)
    c, W, nil = cx
    isnil, rc = gotree.result_node(ex, st, res[0])
    err = ex.term(st, res[1], ex.p.funcs[IDN + 'Walk']['results'][1])
    live = [x for x, s in own(st) if s == 'live']
    if nil:
        return [(isnil, 'no tree for no tree'), (BoolVal(not live), 'nothing is leaked')]
    bad = f.rE(c, W) != f.nil
    out = [(err == f.rE(c, W), 'the error is the one of the first identifier rejected, if any'),
           (Implies(bad, isnil), 'there is no tree with an error'), (Implies(Not(bad), Not(isnil)), 'a tree is returned'),
           (Implies(Not(bad), st.ext['W'] == f.rW(c, W)), 'each identifier is offered to the check function once, from left to right')]
    if ex.valid(st.formulas(), bad):
        out.append((BoolVal(not live), 'nothing is leaked'))
        return out
    out.append((Or([And(rc == x, tree_now(ex, st, x) == f.rT(c, W)) for x in live] + [bad]), 'the tree returned is the input with its identifiers replaced, and a tree of its own'))
    out.append((BoolVal(len(live) == 1), 'nothing is leaked'))
    return out


class IdentUnit(PyUnit):
    Ex = IdentExec

    def __init__(self, context, name, fn, setup, post, recursive):
        super().__init__(context, name, fn, setup, post)
        self.recursive = recursive

    def run(self, tier):
        p, cs, dropped = self.ctx.program()
        w = find_walk(p)
        if w is None:
            return dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported='the recursive function is not there any more', trusted=[], assumed=[], inlined=[], funcs=[])
        self.extra = dict(X)
        self.extra[w] = i_walk
        TRUST[w] = 'contract of %s (verified on its body)' % short(w)
        self.hide = [] if self.fn else [w]
        if self.fn is None:
            self.fn = w
        IdentExec.walkfn = w
        return super().run(tier)


def find_walk(p):
    """the recursive function of the package with the signature of walkAndReplace"""
    top = p.funcs.get(IDN + 'Walk')
    if top is None:
        return None
    sig = lambda f: ([p.types[x['type']]['str'] for x in f['params']], [p.types[x]['str'] for x in f['results']])
    if IDN + 'walkAndReplace' in p.funcs and sig(p.funcs[IDN + 'walkAndReplace']) == sig(top):
        return IDN + 'walkAndReplace'
    c = [f for f in p.funcs if f.startswith(IDN) and f != IDN + 'Walk' and f in p.sccs() and sig(p.funcs[f]) == sig(top)]
    return c[0] if len(c) == 1 else None


KINDS = ('number', 'string', 'identifier', 'binary', 'unary', 'date', 'timestamp', 'array', 'boolean', 'null')


def units(context):
    us = [IdentUnit(context, 'walkAndReplace[%s]' % nm, None, walk_setup(k), walk_post, True) for k, nm in enumerate(KINDS)]
    us += [IdentUnit(context, 'Walk', IDN + 'Walk', top_setup(False), top_post, False), IdentUnit(context, 'Walk[nil]', IDN + 'Walk', top_setup(True), top_post, False), Lemma(context)]
    return us
