"""The Go methods of TSLNode over the contracts of the native functions (properties T01-T03): a native node is an abstract handle,
its kind and payload are functions of it, and every native call that changes memory is recorded as an effect of the path."""
import time, os, traceback
from gomodels import *
from goexec import Unsupported, short
import goexec2
import discharge as D
import cexec, cir, cspec

M = T6 + '._Cfunc_'
CG = {}


def cg(name, trust=None):
    def deco(f):
        CG[M + name] = f
        TRUST[M + name] = trust or 'native function %s: its contract in vc/cspec.py (verified on its body)' % name
        return f
    return deco


def h(ex, st, a, t):
    """the handle term of a native pointer argument"""
    return ex.term(st, a, t)


def ptype(ex, ins, i):
    return ex.p.under(ins['sig'])['params'][i]


def alive(ex, fr, ins, st, c, what='no use of a released tree'):
    for g, nm, args in st.ext.get('eff', []):
        if nm == 'ast_free':
            ex.oblige(st, Not(And(g, args[0] == c)), what, ex.where(fr, ins))


def unchanged(st, name):
    if any(n != 'ast_clone' for _, n, _ in st.ext.get('eff', [])):
        raise Unsupported('%s after a change of the tree' % name)


def effect(st, guard, name, args):
    st.ext['eff'] = st.ext.get('eff', []) + [(guard, name, tuple(args))]


STRKINDS = (1, 2, 5, 6)


def getter(name, kinds, val):
    @cg(name)
    def m(ex, fr, ins, a, st):
        t = tree(ex)
        c = h(ex, st, a[0], ptype(ex, ins, 0))
        w = ex.where(fr, ins)
        ex.oblige(st, c != t.null, 'no dereference of a null native node: ' + name, w)
        ex.oblige(st, Or([t.kind(c) == k for k in kinds]), 'the accessor %s fits the kind of the node' % name, w)
        alive(ex, fr, ins, st, c)
        unchanged(st, name)
        return val(ex, t, c, a, st, ins, w)


def cstr(ex, t, c, sort):
    return Function('n_cstr', t.C, sort)(c)


getter('get_number_value', (0,), lambda ex, t, c, a, st, ins, w: t.num(c))


@cg('get_boolean_value')
def m_bool(ex, fr, ins, a, st):
    t = tree(ex)
    c = h(ex, st, a[0], ptype(ex, ins, 0))
    w = ex.where(fr, ins)
    ex.oblige(st, c != t.null, 'no dereference of a null native node: get_boolean_value', w)
    ex.oblige(st, t.kind(c) == 8, 'the accessor get_boolean_value fits the kind of the node', w)
    alive(ex, fr, ins, st, c)
    unchanged(st, 'get_boolean_value')
    r = ex.fresh('truth', IntSort())
    st.fact((r != 0) == t.bool(c))
    return r


def g_str(ex, t, c, a, st, ins, w):
    rt = ex.p.under(ins['sig'])['results'][0]
    s = ex.p.sort(rt)
    r = cstr(ex, t, c, s)
    st.fact(r != Const('nil_' + s.name(), s))
    st.fact(Function('gostr', s, StringSort())(r) == t.str(c))
    return r


getter('get_string_value', STRKINDS, g_str)
getter('get_binary_op', (3,), lambda ex, t, c, a, st, ins, w: t.op(c))
getter('get_unary_op', (4,), lambda ex, t, c, a, st, ins, w: t.op(c))
getter('get_binary_left', (3,), lambda ex, t, c, a, st, ins, w: t.left(c))
getter('get_binary_right', (3,), lambda ex, t, c, a, st, ins, w: t.right(c))
getter('get_unary_child', (4,), lambda ex, t, c, a, st, ins, w: t.child(c))


def g_size(ex, t, c, a, st, ins, w):
    st.fact(And(ex.p.slen(t.elems(c)) >= 0, ex.p.slen(t.elems(c)) < 2 ** 31))
    return ex.p.slen(t.elems(c))


getter('get_array_size', (7,), g_size)


def g_elem(ex, t, c, a, st, ins, w):
    i = a[1] if z3.is_expr(a[1]) else IntVal(a[1])
    ex.oblige(st, And(i >= 0, i < ex.p.slen(t.elems(c))), 'the index of get_array_element is in range', w)
    return t.cn(ex.p.sat(t.elems(c), i, ex.p.under(t.slt)['elem']))


getter('get_array_element', (7,), g_elem)


@cg('GoString', 'cgo: C.GoString copies the NUL-terminated text')
def m_gostring(ex, fr, ins, a, st):
    c = h(ex, st, a[0], ptype(ex, ins, 0))
    return Function('gostr', c.sort(), StringSort())(c)


@cg('ast_free')
def m_free(ex, fr, ins, a, st):
    c = h(ex, st, a[0], ptype(ex, ins, 0))
    alive(ex, fr, ins, st, c, 'no double free')
    effect(st, c != tree(ex).null, 'ast_free', [c])
    return None


@cg('ast_clone')
def m_clone(ex, fr, ins, a, st):
    t = tree(ex)
    c = h(ex, st, a[0], ptype(ex, ins, 0))
    alive(ex, fr, ins, st, c)
    unchanged(st, 'ast_clone')
    r = ex.fresh('cloned', t.C)
    st.fact((r == t.null) == (c == t.null))
    effect(st, c != t.null, 'ast_clone', [c, r])
    return r


def detach(name, kind, get):
    @cg(name)
    def m(ex, fr, ins, a, st):
        t = tree(ex)
        c = h(ex, st, a[0], ptype(ex, ins, 0))
        alive(ex, fr, ins, st, c)
        unchanged(st, name)
        ok = And(c != t.null, t.kind(c) == kind)
        effect(st, ok, name, [c])
        return If(ok, get(t)(c), t.null)


def attach(name, kind):
    @cg(name)
    def m(ex, fr, ins, a, st):
        t = tree(ex)
        c, d = h(ex, st, a[0], ptype(ex, ins, 0)), h(ex, st, a[1], ptype(ex, ins, 1))
        w = ex.where(fr, ins)
        ex.oblige(st, d != t.null, 'the native attach is given a child', w)
        alive(ex, fr, ins, st, c)
        alive(ex, fr, ins, st, d)
        unchanged(st, name)
        ok = And(c != t.null, t.kind(c) == kind)
        effect(st, ok, name, [c, d])
        return If(ok, IntVal(1), IntVal(0))


detach('ast_detach_binary_left', 3, lambda t: t.left)
detach('ast_detach_binary_right', 3, lambda t: t.right)
detach('ast_detach_unary_child', 4, lambda t: t.child)
attach('ast_attach_binary_left', 3)
attach('ast_attach_binary_right', 3)
attach('ast_attach_unary_child', 4)


@cg('ast_attach_array_element')
def m_attach_element(ex, fr, ins, a, st):
    t = tree(ex)
    c, d = h(ex, st, a[0], ptype(ex, ins, 0)), h(ex, st, a[2], ptype(ex, ins, 2))
    w = ex.where(fr, ins)
    ex.oblige(st, d != t.null, 'the native attach is given a child', w)
    alive(ex, fr, ins, st, c)
    alive(ex, fr, ins, st, d)
    unchanged(st, 'ast_attach_array_element')
    i = a[1] if z3.is_expr(a[1]) else IntVal(a[1])
    ok = And(c != t.null, t.kind(c) == 7, i >= 0, i < ex.p.slen(t.elems(c)))
    effect(st, ok, 'ast_attach_array_element', [c, i, d])
    return If(ok, IntVal(1), IntVal(0))


# ------------------------------------------------------------------ units
class PyUnit:
    """one Go function, its contract given in Python: setup(ex, st) -> (arguments, context), post(ex, cx, state, results) -> [(formula, name)]"""

    Ex = Exec

    def __init__(self, context, name, fn, setup, post, hide=(), extra=None):
        self.ctx, self.name, self.fn, self.setup, self.post, self.hide = context, name, fn, setup, post, hide
        self.extra = extra or {}

    def axioms(self, ex):
        return axioms(ex)

    def run(self, tier):
        p, cs, dropped = self.ctx.program()
        r = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=[], assumed=[], inlined=[], funcs=[])
        if self.fn not in p.funcs:
            r['unsupported'] = 'the function is not there any more'
            return r
        models = {k: v for k, v in MODELS.items() if k not in self.hide}
        models.update(CG)
        models.update(self.extra)
        ex = self.Ex(p, [], models, opts=dict(self.ctx.opts))
        ex.deadline = time.time() + (100 if tier == 'quick' else 400)
        ex.cur = self.name
        ex.curc = None
        st = State()
        try:
            args, cx = self.setup(ex, st)
            for a in self.axioms(ex):
                st.fact(a)
            e0 = st.fork()
            outs = [o for o in ex.exec_fn(self.fn, list(args), st) if o.kind == 'return']
            goals = []
            for o in outs:
                for g, nm in self.post(ex, cx, o.state, o.res):
                    goals.append(G.Obligation(ex.cur, nm, o.state.formulas(), g, short(self.fn), cls='post'))
            ex.obls += goals
        except Unsupported as e:
            r['unsupported'] = str(e)
            return r
        except RecursionError:
            r['unsupported'] = 'recursion too deep for the symbolic execution'
            return r
        except Exception as e:
            r['unsupported'] = 'the verification condition generator gave up: %s' % str(e)[:300]
            r['trace'] = traceback.format_exc()[-2500:]
            if os.environ.get('VCDEBUG'):
                traceback.print_exc()
            return r
        r['paths'] = len(outs)
        r['funcs'] = [short(self.fn)]
        r['inlined'] = [short(f) for f in ex.inlined]
        r['trusted'] = sorted(set(TRUST.get(m, 'assumed contract of ' + short(m)) for m in ex.used_models if not m.startswith('verif/')))
        r['bounded'] = [str(b) for b in ex.bounded]
        return discharge_all(ex, r, e0, outs, self.fn, tier)


def discharge_all(ex, r, e0, outs, fn, tier):
    nbad = 0
    t_end = time.time() + (150 if tier == 'quick' else 420)
    for ob in ex.obls:
        to = 10 if nbad < 2 else 3
        if tier == 'thorough':
            to *= 3
        if nbad >= 5 or time.time() > t_end:
            ob.status, ob.backend = 'not attempted', 'none'
        else:
            try:
                if not D.discharge(ex, ob, timeout=to, use_cvc5=nbad < 2):
                    nbad += 1
            except Exception as e:
                ob.status, ob.model = 'unknown', 'solver error: %s' % str(e)[:200]
                nbad += 1
        m = str(ob.model)[:3000] if ob.status != 'proved' and ob.model is not None else ''
        r['obls'].append(dict(name=ob.kind, where=ob.where, status=ob.status, backend=ob.backend, time=round(ob.time or 0, 3), model=m))
    s = z3.Solver()
    s.set('timeout', 3000)
    for f in e0.formulas():
        if not has_quant(f):
            s.add(f)
    e = s.check()
    live = 0
    for oo in outs[:200]:
        s = z3.Solver()
        s.set('timeout', 500)
        for f in oo.state.formulas():
            if not has_quant(f):
                s.add(f)
        if s.check() != z3.unsat:
            live += 1
    r['vacuity'] = 'entry state %s; %d of %d return paths satisfiable' % (e, live, len(outs))
    ok = not (e == z3.unsat or live == 0 and not any(o.status != 'proved' for o in ex.obls))
    r['obls'].append(dict(name='canary: the contract is not vacuous', where=short(fn), status='proved' if ok else 'refuted', backend='z3', time=0, model='' if ok else r['vacuity']))
    return r


def axioms(ex):
    """what a native pointer's fields are: the field _type is the kind"""
    p = ex.p
    t = tree(ex)
    out = []
    ct = p.under(p.bystr[T6 + '.TSLNode'])['fields'][0]['type']      # *C.ast_node
    st = p.under(p.under(ct)['elem'])
    for i, f in enumerate(st.get('fields', [])):
        if f['name'] in ('_type', 'type'):
            c = Const('c', t.C)
            fn = Function('fld_%s_%d' % (t.C.name(), i), t.C, p.sort(f['type']))
            out.append(ForAll([c], fn(c) == t.kind(c), patterns=[fn(c)]))
    return out


def node(ex, st, name, nil=False):
    """a *TSLNode argument that is not nil: a cell of its own holding an arbitrary native pointer"""
    t = tree(ex)
    tid = ex.p.bystr[T6 + '.TSLNode']
    c = Const(name, t.C)
    st.fact(And(t.kind(c) >= 0, t.kind(c) <= 9))
    ptr = ex.alloc(st, tid, StructV(tid, [c]))
    return ptr, c


def cnow(ex, st, ptr):
    return ex.term(st, ex.field(st, st.heap[ptr.oid].v, 0), ex.p.under(ex.p.bystr[T6 + '.TSLNode'])['fields'][0]['type'])


def result_node(ex, st, v):
    """(is nil, native pointer) of a returned *TSLNode"""
    t = tree(ex)
    n = ex.term(st, v, t.nt)
    return t.P.recognizer(0)(n), t.cn(n)


def effects_are(st, cond, want):
    """exactly the wanted native effects (name, args) under the condition"""
    eff = st.ext.get('eff', [])
    out = []
    for nm, args in want:
        hits = [And(g, *[x == y for x, y in zip(a, args) if y is not None]) for g, n, a in eff if n == nm]
        out.append((Implies(cond, Or(hits + [BoolVal(False)])), 'the native call %s is made' % nm))
    if len(want) == 1 and eff:
        nm, args = want[0]
        for i in range(len(eff)):
            for j in range(i):
                out.append((Implies(cond, Not(And(eff[i][0], eff[j][0]))), 'native memory is changed once'))
    if not want:
        for g, n, a in eff:
            out.append((Implies(cond, Not(g)), 'native memory is not changed (%s)' % n))
    return out


METH = '(*%s.TSLNode).' % T6


def mk_units(ctx):
    U = {}

    # Type and Value
    def s_any(nil=None, kind=None, nonnull=True):
        def f(ex, st):
            n, c = node(ex, st, 'n')
            t = tree(ex)
            if nonnull:
                st.fact(c != t.null)
            if kind is not None:
                st.fact(t.kind(c) == kind)
            return [n], (n, c)
        return f

    def p_type(ex, cx, st, res):
        t = tree(ex)
        return [(res[0] == t.kind(cx[1]), 'Type is the kind of the node'), (cnow(ex, st, cx[0]) == cx[1], 'the node is not changed')] + effects_are(st, BoolVal(True), [])
    U['Type'] = PyUnit(ctx, 'Type', METH + 'Type', s_any(), p_type, hide=[METH + 'Type', METH + 'Value'])

    def p_value(kind):
        def f(ex, cx, st, res):
            t = tree(ex)
            p = ex.p
            c = cx[1]
            got = ex.term(st, res[0], p.under(p.funcs[METH + 'Value']['results'][0]) and p.funcs[METH + 'Value']['results'][0])
            want = value_spec(ex, st, c, kind)
            goals = []
            if kind == 7:
                at = p.bystr[T6 + '.TSLArrayLiteral']
                ct = p.ctor_of[at]
                goals.append((ct[1](got), 'the value of an array is an array'))
                sl = p.sort(at).accessor(0, 0)(ct[2][0](got))
                et = p.under(t.slt)['elem']
                goals.append((And(p.slen(sl) == p.slen(t.elems(c)), Not(ex.slnil(sl))), 'the array has its size'))
                i = ex.fresh('i', IntSort())
                goals.append((Implies(And(i >= 0, i < p.slen(t.elems(c))), p.sat(sl, i, et) == t.mk(t.cn(p.sat(t.elems(c), i, et)))), 'the array has its elements in order'))
            else:
                goals.append((got == want, 'Value is the value of the node'))
            return goals + [(cnow(ex, st, cx[0]) == c, 'the node is not changed')] + effects_are(st, BoolVal(True), [])
        return f
    for k in range(10):
        U['Value[kind %d]' % k] = PyUnit(ctx, 'Value[kind %d]' % k, METH + 'Value', s_any(kind=k), p_value(k), hide=[METH + 'Type', METH + 'Value'])

    # Free
    def p_free(ex, cx, st, res):
        t = tree(ex)
        n, c = cx
        return [(cnow(ex, st, n) == t.null, 'the handle is empty afterwards')] + effects_are(st, c != t.null, [('ast_free', [c])]) + effects_are(st, c == t.null, [])
    U['Free'] = PyUnit(ctx, 'Free', METH + 'Free', s_any(nonnull=False), p_free, hide=[METH + 'Type', METH + 'Value'])

    def s_nil(ex, st):
        return [G.NilV(tree(ex).nt)], (None, tree(ex).null)

    # Clone
    def p_clone(ex, cx, st, res):
        t = tree(ex)
        n, c = cx
        isnil, rc = result_node(ex, st, res[0])
        out = [(isnil == (c == t.null), 'there is a clone exactly when there is a tree')]
        eff = [(g, a) for g, nm, a in st.ext.get('eff', []) if nm == 'ast_clone']
        out.append((Implies(c != t.null, Or([And(g, a[0] == c, a[1] == rc) for g, a in eff] + [BoolVal(False)])), 'the result is a clone of this tree'))
        if n is not None:
            out.append((cnow(ex, st, n) == c, 'the node is not changed'))
        return out + effects_are(st, c != t.null, [('ast_clone', [c, None])]) + effects_are(st, c == t.null, [])
    U['Clone'] = PyUnit(ctx, 'Clone', METH + 'Clone', s_any(nonnull=False), p_clone, hide=[METH + 'Type', METH + 'Value'])
    U['Clone[nil]'] = PyUnit(ctx, 'Clone[nil]', METH + 'Clone', s_nil, p_clone, hide=[METH + 'Type', METH + 'Value'])

    # Detach
    def p_detach(cname, kind, get):
        def f(ex, cx, st, res):
            t = tree(ex)
            n, c = cx
            isnil, rc = result_node(ex, st, res[0])
            ok = BoolVal(False) if n is None else t.kind(c) == kind
            old = get(t)(c)
            out = [(isnil == Not(And(ok, old != t.null)), 'an operand is handed back exactly when there is one'),
                   (Implies(And(ok, old != t.null), rc == old), 'it is the operand of the node')]
            if n is not None:
                out.append((cnow(ex, st, n) == c, 'the handle is not changed'))
            eff = st.ext.get('eff', [])
            hit = Or([And(g, a[0] == c) for g, nm, a in eff if nm == cname] + [BoolVal(False)])
            out.append((Implies(And(ok, old != t.null), hit), 'the operand is detached'))
            for g, nm, a in eff:
                out.append((Implies(g, And(ok, a[0] == c)) if nm == cname else Not(g), 'nothing else is changed (%s)' % nm))
            return out
        return f

    # Attach
    def s_attach(which):
        def f(ex, st):
            t = tree(ex)
            n = d = None
            c = e = t.null
            if which == 'nil':
                n = G.NilV(t.nt)
            else:
                n, c = node(ex, st, 'n')
                st.fact(c != t.null)
            if which == 'nochild':
                d = G.NilV(t.nt)
            else:
                d, e = node(ex, st, 'child')
                st.fact(Or(e == t.null, e != c))
            return [n, d], (n if which != 'nil' else None, c, d if which != 'nochild' else None, e)
        return f

    def p_attach(cname, kind):
        def f(ex, cx, st, res):
            t = tree(ex)
            n, c, d, e = cx
            ok = BoolVal(False) if n is None or d is None else And(t.kind(c) == kind, e != t.null)
            out = [(res[0] == ok, 'success is reported exactly when the child is attached')]
            if n is not None:
                out.append((cnow(ex, st, n) == c, 'the handle is not changed'))
            return out + effects_are(st, ok, [(cname, [c, e])]) + effects_are(st, Not(ok), [])
        return f
    for side, cn, kind, get in (('Left', 'binary_left', 3, lambda t: t.left), ('Right', 'binary_right', 3, lambda t: t.right), ('Child', 'unary_child', 4, lambda t: t.child)):
        hide = [METH + 'Type', METH + 'Value']
        U['Detach' + side] = PyUnit(ctx, 'Detach' + side, METH + 'Detach' + side, s_any(), p_detach('ast_detach_' + cn, kind, get), hide=hide)
        U['Detach%s[nil]' % side] = PyUnit(ctx, 'Detach%s[nil]' % side, METH + 'Detach' + side, s_nil, p_detach('ast_detach_' + cn, kind, get), hide=hide)
        for w in ('', 'nil', 'nochild'):
            nm = 'Attach' + side + ('[%s]' % w if w else '')
            U[nm] = PyUnit(ctx, nm, METH + 'Attach' + side, s_attach(w), p_attach('ast_attach_' + cn, kind), hide=hide)
    def s_elem(which):
        def f(ex, st):
            args, cx = s_attach(which)(ex, st)
            i = Const('index', IntSort())
            st.fact(And(i >= -2 ** 63, i < 2 ** 63))
            return [args[0], i, args[1]], cx + (i,)
        return f

    def p_elem(ex, cx, st, res):
        t = tree(ex)
        n, c, d, e, i = cx
        ok = BoolVal(False) if n is None or d is None else And(t.kind(c) == 7, e != t.null, i >= 0, i < ex.p.slen(t.elems(c)))
        out = [(res[0] == ok, 'success is reported exactly when the child is attached')]
        if n is not None:
            out.append((cnow(ex, st, n) == c, 'the handle is not changed'))
        return out + effects_are(st, ok, [('ast_attach_array_element', [c, i, e])]) + effects_are(st, Not(ok), [])
    for w in ('', 'nil', 'nochild'):
        nm = 'AttachElement' + ('[%s]' % w if w else '')
        U[nm] = PyUnit(ctx, nm, METH + 'AttachElement', s_elem(w), p_elem, hide=[METH + 'Type', METH + 'Value'])
    return U


def value_spec(ex, st, c, k):
    p = ex.p
    t = tree(ex)

    def V(tn, x):
        return p.ctor_of[p.bystr[tn]][0](x)
    E = p.sort(p.bystr[T6 + '.TSLExpressionOp'])
    if k == 8:
        return V('bool', t.bool(c))
    if k == 0:
        return V('float64', t.num(c))
    if k in (1, 2):
        return V('string', t.str(c))
    if k in (5, 6):
        ok, tv = tparse(ex, z3.StringVal('2006-01-02T15:04:05Z07:00'), t.str(c))
        return If(ok, V('time.Time', tv), V('string', t.str(c)))
    if k == 3:
        return V(T6 + '.TSLExpressionOp', E.constructor(0)(t.op(c), t.mk(t.left(c)), t.mk(t.right(c))))
    if k == 4:
        return V(T6 + '.TSLExpressionOp', E.constructor(0)(t.op(c), t.P.constructor(0)(), t.mk(t.child(c))))
    if k == 9:
        return V('string', z3.StringVal('NULL'))
    return None


# ------------------------------------------------------------------ agreement of codes
OPNAMES = 'K_LIKE K_ILIKE K_AND K_OR K_BETWEEN K_IN K_IS K_NOT K_LEN K_ANY K_ALL K_SUM PLUS MINUS STAR SLASH PERCENT EQ NE LT LE GT GE REQ RNE UMINUS'.split()
KINDNAMES = 'AST_NUMBER AST_STRING AST_IDENTIFIER AST_BINARY_OP AST_UNARY_OP AST_DATE AST_RFC3339 AST_ARRAY AST_BOOL AST_NULL'.split()


class CodesUnit:
    """the Go operator and kind codes are the native ones, and the codes are distinct"""
    name = 'operator and kind codes'

    def __init__(self, context):
        self.ctx = context

    def run(self, tier):
        p, cs, dropped = self.ctx.program()
        r = dict(obls=[], paths=1, vacuity='constants', bounded=[], unsupported=None, trusted=['clang 18 as the meaning of the C headers'], assumed=[], inlined=[], funcs=['operator codes', 'kind codes'])
        ex = Exec(p, [], MODELS, opts={})
        ex.cur = self.name
        ex.curc = None
        for fn, names in (('Codes', OPNAMES), ('Kinds', KINDNAMES)):
            o = ex.exec_fn('verif/spec6/nodes.' + fn, [], State())[0]
            sl = o.res[0]
            vals = [simplify(x).as_long() for x in o.state.heap[sl.oid].c]
            native = native_codes(names)
            for nm, v, w in zip(names, vals, native):
                r['obls'].append(dict(name='the Go code of %s is the native code' % nm, where='operator.go, kind.go / tsl_parser.tab.h, tsl_ast.h', status='proved' if v == w else 'refuted', backend='evaluation', time=0, model='' if v == w else 'Go %d, native %d' % (v, w)))
            r['obls'].append(dict(name='the codes are distinct', where=fn, status='proved' if len(set(vals)) == len(vals) else 'refuted', backend='evaluation', time=0, model=str(vals)))
        return r


def native_codes(names):
    """the values of native enumerators, read by the compiler from the headers of /repo"""
    import tempfile, re
    d = tempfile.mkdtemp(dir=cspec.BUILD)
    try:
        f = os.path.join(d, 'codes.c')
        open(f, 'w').write('#include "tsl_ast.h"\n#include "tsl_parser.tab.h"\n' + ''.join('const int code_%s = %s;\n' % (n, n) for n in names))
        m = cir.parse(cir.compile_ir(f, cspec.TSL))
        out = []
        for n in names:
            v = m.globals['@code_' + n]
            out.append(v)
        return [cval(v) for v in out]
    finally:
        import shutil
        shutil.rmtree(d)


def cval(g):
    while isinstance(g, tuple) or isinstance(g, list):
        nums = [x for x in g if isinstance(x, int) and not isinstance(x, bool)]
        if nums:
            return nums[-1]
        g = [x for x in g if isinstance(x, (tuple, list))][-1]
    return getattr(g, 'init', g)
