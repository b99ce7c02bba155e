"""Assumed contracts of functions outside /repo (Go standard library, squirrel, cgo accessors) and
the meaning of the contract vocabulary verif/gh.  Everything here is part of the trusted base."""
from goexec2 import *

MODELS = {}
TRUST = {}


def model(*names, trust=None):
    def deco(f):
        for n in names:
            MODELS[n] = f
            if trust:
                TRUST[n] = trust
        return f
    return deco


def lower(ex, st, args, ins, i):
    """argument i as a term; its static type comes from the signature"""
    sig = ex.p.under(ins['sig'])
    return ex.term(st, args[i], sig['params'][i])


def closure(v):
    if not isinstance(v, Clo):
        raise Unsupported('quantified predicate is not a function literal')
    return v


# ---------------------------------------------------------------- verif/gh
def qvar(ex, n='j'):
    return Int('%s!%d' % (n, next(ex.cnt)))


def addfacts(st, j, rng, facts):
    for f in facts:
        if is_true(f):
            continue
        st.fact(ForAll([j], Implies(rng, f)))


@model('verif/gh.First')
def m_first(ex, fr, ins, args, st):
    n, p = args[0], closure(args[1])
    j = qvar(ex)
    P, facts = ex.bound_eval(st, p, j)
    rng = And(j >= 0, j < n)
    addfacts(st, j, rng, facts)
    f = ex.fresh('first', IntSort())
    st.fact(And(f >= 0, Or(f <= n, n < 0)))
    st.fact(Implies(n <= 0, f == 0))
    st.fact(Implies(n >= 0, f <= n))
    st.fact(ForAll([j], Implies(And(j >= 0, j < f), Not(P))))
    st.fact(Implies(f < n, substitute(P, (j, f))))
    return f


def exists(ex, st, n, p):
    j = qvar(ex)
    P, facts = ex.bound_eval(st, closure(p), j)
    rng = And(j >= 0, j < n)
    addfacts(st, j, rng, facts)
    return j, P, rng


@model('verif/gh.Exists')
def m_exists(ex, fr, ins, args, st):
    j, P, rng = exists(ex, st, args[0], args[1])
    b = ex.fresh('ex', BoolSort())
    w = ex.fresh('w', IntSort())
    st.fact(Implies(b, And(w >= 0, w < args[0], substitute(P, (j, w)))))
    st.fact(ForAll([j], Implies(And(rng, P), b)))
    return b


@model('verif/gh.Forall')
def m_forall(ex, fr, ins, args, st):
    j, P, rng = exists(ex, st, args[0], args[1])
    b = ex.fresh('all', BoolSort())
    w = ex.fresh('w', IntSort())
    st.fact(Implies(Not(b), And(w >= 0, w < args[0], Not(substitute(P, (j, w))))))
    st.fact(ForAll([j], Implies(And(rng, b), P)))
    return b


@model('verif/gh.Seq')
def m_seq(ex, fr, ins, args, st):
    n, p = args[0], closure(args[1])
    j = qvar(ex)
    P, facts = ex.bound_eval(st, p, j)
    rng = And(j >= 0, j < n)
    addfacts(st, j, rng, facts)
    s = ex.fresh('seq', ex.p.sort(ins['type']))
    et = ex.p.under(ins['type'])['elem']
    st.fact(ex.p.slen(s) == If(n < 0, 0, n))
    st.fact(Not(ex.slnil(s)))
    st.fact(ForAll([j], Implies(rng, ex.p.sat(s, j, et) == P), patterns=[ex.p.sat(s, j, et)]))
    return s


@model('verif/gh.Fold')
def m_fold(ex, fr, ins, args, st):
    n, init, p = args[0], args[1], closure(args[2])
    j = qvar(ex)
    t = ins['type']
    init = ex.term(st, init, t)
    uf = ex.freshfun('fold', IntSort(), ex.p.sort(t))
    P, facts = ex.bound_eval(st, p, j, (uf(j),))
    rng = And(j >= 0, j < n)
    addfacts(st, j, rng, facts)
    st.fact(uf(IntVal(0)) == init)
    m = simplify(If(n < 0, 0, n))
    st.fact(Implies(m > 0, uf(m) == substitute(P, (j, simplify(m - 1)))))
    ex.folds.append(dict(kind='spec', uf=uf, init=init, up=P, k=j, cont=BoolVal(True), n=n))
    return uf(m)


@model('verif/gh.Imp')
def m_imp(ex, fr, ins, args, st):
    return Implies(args[0], args[1])


@model('verif/gh.Same')
def m_same(ex, fr, ins, args, st):
    a, b = [ex.term(st, x, ex.p.under(ins['sig'])['params'][0]) for x in args]
    return same_val(ex, a, b)


def same_val(ex, a, b):
    return a == b


@model('verif/gh.GoEq')
def m_goeq(ex, fr, ins, args, st):
    a, b = [ex.term(st, x, ex.p.under(ins['sig'])['params'][0]) for x in args]
    return ex.goeq(st, a, b, total=True)


# ---------------------------------------------------------------- time
def tparse(ex, layout, s):
    ok = Function('time_parse_ok', StringSort(), StringSort(), BoolSort())
    v = Function('time_parse', StringSort(), StringSort(), ex.p._time())
    return ok(layout, s), v(layout, s)


def mkerr(ex, tag, *args):
    """an error value of a type outside /repo, determined by args"""
    f = Function('err_' + tag, *[a.sort() for a in args], IntSort())
    import zlib
    return ex.p.ctor['V_other'][0](IntVal(1000 + zlib.crc32(tag.encode()) % 100000), f(*args))


@model('time.Parse', trust='time.Parse is a deterministic function of layout and string')
def m_tparse(ex, fr, ins, args, st):
    ok, v = tparse(ex, args[0], args[1])
    z = Const('zeroTime', ex.p._time())
    return TupleV([If(ok, v, z), If(ok, ex.p.Vnil, mkerr(ex, 'timeparse', args[0], args[1]))])


def tm(name, f):
    @model('(time.Time).' + name, trust='time.Time Equal/Before/After compare instants, a total order')
    def m(ex, fr, ins, args, st):
        a = ex.term(st, args[0], ex.p.bystr['time.Time'])
        b = ex.term(st, args[1], ex.p.bystr['time.Time'])
        return simplify(f(ex.p.inst(a), ex.p.inst(b)))


tm('Equal', lambda a, b: a == b)
tm('Before', lambda a, b: a < b)
tm('After', lambda a, b: a > b)


@model('(time.Time).Compare')
def m_tcmp(ex, fr, ins, args, st):
    a, b = [ex.p.inst(ex.term(st, x, ex.p.bystr['time.Time'])) for x in args]
    return If(a < b, IntVal(-1), If(a == b, IntVal(0), IntVal(1)))


@model('(time.Time).Format', trust='time.Time.Format is a deterministic function of the time and the layout')
def m_tfmt(ex, fr, ins, args, st):
    a = ex.term(st, args[0], ex.p.bystr['time.Time'])
    f = Function('time_format', a.sort(), StringSort(), StringSort())
    return f(a, args[1])


# ---------------------------------------------------------------- strings, regexp, fmt
def ufun(name, *sorts):
    return Function(name, *sorts)


def strfun(goname, name, arity, ret=None, trust=None):
    @model(goname, trust=trust or goname + ' is a deterministic function of its arguments')
    def m(ex, fr, ins, args, st):
        sig = ex.p.under(ins['sig'])
        ts = [ex.term(st, a, t) for a, t in zip(args, sig['params'])]
        conc = concrete(name, ts)
        if conc is not None:
            return conc
        f = Function(name, *[t.sort() for t in ts], ex.p.sort(sig['results'][0]))
        return f(*ts)


def pystr(t):
    """python bytes of a concrete z3 string, or None"""
    if not z3.is_string_value(t):
        return None
    s = t.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def concrete(name, ts):
    vs = []
    for t in ts:
        if z3.is_string(t):
            v = pystr(t)
        elif z3.is_int_value(t):
            v = t.as_long()
        else:
            v = None
        if v is None:
            return None
        vs.append(v)
    if name == 'strings_ReplaceAll':
        if vs[1] == '':
            return None
        return bstr(vs[0].replace(vs[1], vs[2]).encode('latin1'))
    if name == 'strings_ToLower' and all(ord(c) < 128 for c in vs[0]):
        return bstr(vs[0].lower().encode())
    if name == 'strings_ToUpper' and all(ord(c) < 128 for c in vs[0]):
        return bstr(vs[0].upper().encode())
    return None


strfun('strings.ReplaceAll', 'strings_ReplaceAll', 3)
strfun('strings.ToLower', 'strings_ToLower', 1)
strfun('strings.ToUpper', 'strings_ToUpper', 1)
strfun('strings.TrimSpace', 'strings_TrimSpace', 1)
strfun('strings.Trim', 'strings_Trim', 2)
strfun('strings.Join', 'strings_Join', 2)
strfun('strings.Repeat', 'strings_Repeat', 2)
strfun('strings.EqualFold', 'strings_EqualFold', 2)
strfun('regexp.QuoteMeta', 'regexp_QuoteMeta', 1)


@model('strings.Replace')
def m_replace(ex, fr, ins, args, st):
    sig = ex.p.under(ins['sig'])
    ts = [ex.term(st, a, t) for a, t in zip(args, sig['params'])]
    if z3.is_int_value(ts[3]) and ts[3].as_long() < 0:
        f = Function('strings_ReplaceAll', StringSort(), StringSort(), StringSort(), StringSort())
        return concrete('strings_ReplaceAll', ts[:3]) or f(*ts[:3])
    vs = [pystr(t) for t in ts[:3]]
    if all(v is not None for v in vs) and z3.is_int_value(ts[3]):
        return bstr(vs[0].replace(vs[1], vs[2], ts[3].as_long()).encode('latin1'))
    if z3.is_int_value(ts[3]) and ts[3].as_long() == 1:
        return z3.Replace(ts[0], ts[1], ts[2])
    f = Function('strings_Replace', StringSort(), StringSort(), StringSort(), IntSort(), StringSort())
    return f(*ts)


@model('strings.Contains')
def m_contains(ex, fr, ins, args, st):
    return z3.Contains(args[0], args[1])


@model('strings.HasPrefix')
def m_hasprefix(ex, fr, ins, args, st):
    return z3.PrefixOf(args[1], args[0])


@model('strings.HasSuffix')
def m_hassuffix(ex, fr, ins, args, st):
    return z3.SuffixOf(args[1], args[0])


def re_ok(ex):
    return Function('re_ok', StringSort(), BoolSort())


def canon(t):
    """a pattern with the flags set at its start, (?i)(?s) or (?si), in one group in the order of the alphabet"""
    import re
    t = simplify(t)
    if t.decl().kind() == z3.Z3_OP_ITE:
        return If(t.arg(0), canon(t.arg(1)), canon(t.arg(2)))
    parts, todo = [], [t]
    while todo:
        x = todo.pop(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            todo = x.children() + todo
        else:
            parts.append(x)
    lead = ''
    while parts and pystr(parts[0]) is not None:
        lead += pystr(parts.pop(0))
    m = re.match(r'(\(\?[imsU]+\))+', lead)
    if not m:
        return t
    flags = ''.join(sorted(set(re.sub(r'[()?]', '', m.group(0)))))
    parts = [z3.StringVal('(?%s)' % flags + lead[m.end():])] + parts
    return parts[0] if len(parts) == 1 else simplify(z3.Concat(*parts))


def re_match(ex):
    return Function('re_match', StringSort(), StringSort(), BoolSort())


@model('regexp.MatchString', trust='regexp.MatchString is a deterministic function of pattern and string; it reports an error exactly for invalid patterns')
def m_match(ex, fr, ins, args, st):
    args = [canon(args[0])] + list(args[1:])
    ok = re_ok(ex)(args[0])
    return TupleV([And(ok, re_match(ex)(args[0], args[1])), If(ok, ex.p.Vnil, mkerr(ex, 'regexp', args[0]))])


@model('regexp.Compile')
def m_compile(ex, fr, ins, args, st):
    args = [canon(args[0])] + list(args[1:])
    ok = re_ok(ex)(args[0])
    s = ex.p.sort(ex.p.under(ins['sig'])['results'][0])
    f = Function('re_compiled', StringSort(), s)
    g = Function('re_source', s, StringSort())
    r = f(args[0])
    st.fact(g(r) == args[0])
    st.fact(Implies(ok, r != Const('nil_' + s.name(), s)))
    return TupleV([If(ok, r, Const('nil_' + s.name(), s)), If(ok, ex.p.Vnil, mkerr(ex, 'regexp', args[0]))])


@model('regexp.MustCompile')
def m_mustcompile(ex, fr, ins, args, st):
    args = [canon(args[0])] + list(args[1:])
    ok = re_ok(ex)(args[0])
    pat = pystr(args[0])
    if pat is None:
        ex.oblige(st, ok, 'no panic: MustCompile of a valid pattern', ex.where(fr, ins))
    s = ex.p.sort(ex.p.under(ins['sig'])['results'][0])
    f = Function('re_compiled', StringSort(), s)
    g = Function('re_source', s, StringSort())
    r = f(args[0])
    st.fact(g(r) == args[0])
    st.fact(r != Const('nil_' + s.name(), s))
    return r


@model('(*regexp.Regexp).MatchString')
def m_rematch(ex, fr, ins, args, st):
    s = args[0].sort()
    g = Function('re_source', s, StringSort())
    return re_match(ex)(g(args[0]), args[1])


def fmtval(ex, v):
    return Function('fmt_v', ex.p.Val, StringSort())(v)


@model('fmt.Sprintf', trust='fmt.Sprintf is a deterministic function of format and arguments; %s of a string inserts it, %v and %d of a string or int its text')
def m_sprintf(ex, fr, ins, args, st):
    return sprintf(ex, st, args)


def sprintf(ex, st, args):
    import re
    p = ex.p
    f = pystr(args[0])
    va = args[1]
    n = ex.asint(ex.sl_len(st, va))
    if n is None:
        raise Unsupported('Sprintf with unknown arguments')
    any_t = p.bystr.get('interface{}', p.bystr.get('any'))
    vals = [ex.term(st, ex.sl_get(st, va, IntVal(i), any_t), any_t) for i in range(n)]
    if f is None:
        g = Function('sprintf_%d' % n, StringSort(), *[p.Val] * n, StringSort())
        return g(args[0], *vals)
    parts = []
    i = 0
    pos = 0
    strc = p.ctor_of[p.bystr['string']]
    for m in re.finditer(r'%([-+# 0]*\d*(?:\.\d+)?)([a-zA-Z%])', f):
        if m.start() > pos:
            parts.append(bstr(f[pos:m.start()].encode('latin1')))
        pos = m.end()
        if m.group(2) == '%':
            parts.append(bstr(b'%'))
            continue
        if i >= n:
            parts.append(bstr(b'%!' + m.group(2).encode() + b'(MISSING)'))
            continue
        v = vals[i]
        i += 1
        verb = m.group(1) + m.group(2)
        rec = simplify(strc[1](v))
        txt = Function('fmt_' + verb, p.Val, StringSort())(v)
        if verb in ('s', 'v'):
            if is_true(rec):
                parts.append(simplify(strc[2][0](v)))
            elif is_false(rec):
                parts.append(txt if verb == 's' else Function('fmt_v', p.Val, StringSort())(v))
            else:
                parts.append(If(rec, strc[2][0](v), txt))
        elif verb == 'q' and is_true(rec) and pystr(simplify(strc[2][0](v))) is not None and re.fullmatch(r'[ !#-\[\]-~]*', pystr(simplify(strc[2][0](v)))):
            parts.append(bstr(b'"' + pystr(simplify(strc[2][0](v))).encode() + b'"'))
        elif verb == 'd':
            parts.append(Function('fmt_v', p.Val, StringSort())(v))
        else:
            parts.append(txt)
    if pos < len(f):
        parts.append(bstr(f[pos:].encode('latin1')))
    if i < n:
        parts.append(Function('fmt_extra_%d' % (n - i), *[p.Val] * (n - i), StringSort())(*vals[i:]))
    if not parts:
        return z3.StringVal('')
    return simplify(z3.Concat(*parts)) if len(parts) > 1 else parts[0]


@model('fmt.Sprint')
def m_sprint(ex, fr, ins, args, st):
    t = ex.term(st, args[0], ex.p.under(ins['sig'])['params'][0])
    return Function('fmt_sprint', t.sort(), StringSort())(t)


@model('fmt.Errorf', 'errors.New')
def m_errorf(ex, fr, ins, args, st):
    c = ex.fresh('err', IntSort())
    return ex.p.ctor['V_other'][0](IntVal(999), c)


@model('errors.As', 'errors.Is')
def m_errorsas(ex, fr, ins, args, st):
    raise Unsupported('errors.As')


@model('reflect.TypeOf')
def m_typeof(ex, fr, ins, args, st):
    any_t = ex.p.under(ins['sig'])['params'][0]
    v = ex.term(st, args[0], any_t)
    return ('rtype', v)


@model('reflect.ValueOf')
def m_valueof(ex, fr, ins, args, st):
    any_t = ex.p.under(ins['sig'])['params'][0]
    return ('rvalue', ex.term(st, args[0], any_t))


@model('(reflect.Value).Comparable', trust='reflect.Value.Comparable reports whether == would not panic')
def m_rcomparable(ex, fr, ins, args, st):
    v = args[0][1]
    return simplify(Or(ex.p.ctor['V_nil'][1](v), ex.comparable_val(v)))


@model('(reflect.Value).IsValid')
def m_risvalid(ex, fr, ins, args, st):
    return simplify(Not(ex.p.ctor['V_nil'][1](args[0][1])))


@model(('invoke', 'reflect.Type', 'Comparable'))
def m_rtcomparable(ex, fr, ins, args, st):
    v = args[0][1]
    ex.oblige(st, Not(ex.p.ctor['V_nil'][1](v)), 'no panic: TypeOf(nil).Comparable', ex.where(fr, ins))
    return simplify(ex.comparable_val(v))


@model('math.Trunc', 'math.Floor', 'math.Mod', 'math.Abs', 'math.Inf', 'math.Pow')
def m_math(ex, fr, ins, args, st):
    f = Function('math_' + (ins.get('static') or 'f').split('.')[-1], *[a.sort() for a in args], F64)
    return f(*args)


@model('math.IsNaN')
def m_isnan(ex, fr, ins, args, st):
    return z3.fpIsNaN(args[0])


@model('math.IsInf')
def m_isinf(ex, fr, ins, args, st):
    x, s = args
    return Or(And(s >= 0, x == z3.fpPlusInfinity(F64)), And(s <= 0, x == z3.fpMinusInfinity(F64)))


# ---------------------------------------------------------------- v6 tree accessors
T6 = 'github.com/yaacov/tree-search-language/v6/pkg/tsl'
KINDS = dict(NUMBER=0, STRING=1, IDENT=2, BINARY=3, UNARY=4, DATE=5, RFC=6, ARRAY=7, BOOL=8, NULL=9)


class Tree6:
    """abstract view of a native node c: kind, payload and operands"""

    def __init__(self, ex):
        p = ex.p
        self.ex = ex
        nt = p.bystr['*' + T6 + '.TSLNode']
        self.nt = nt
        self.P = p.sort(nt)
        self.S = p.sort(p.bystr[T6 + '.TSLNode'])
        self.C = self.S.accessor(0, 0).range()
        C = self.C
        self.kind = Function('n_kind', C, IntSort())
        self.num = Function('n_num', C, F64)
        self.str = Function('n_str', C, StringSort())
        self.bool = Function('n_bool', C, BoolSort())
        self.op = Function('n_op', C, IntSort())
        self.left = Function('n_left', C, C)
        self.right = Function('n_right', C, C)
        self.child = Function('n_child', C, C)
        sl = p.bystr.get('[]*' + T6 + '.TSLNode')
        self.elems = Function('n_elems', C, p.sort(sl)) if sl is not None else None
        self.slt = sl
        self.null = Const('nil_' + C.name(), C)

    def cn(self, n):
        return simplify(self.S.accessor(0, 0)(self.P.accessor(1, 0)(n)))

    def mk(self, c):
        return self.P.constructor(1)(self.S.constructor(0)(c))


def tree(ex):
    if not hasattr(ex, '_tree6'):
        ex._tree6 = Tree6(ex)
    return ex._tree6


def t_check(ex, fr, ins, n, st):
    t = tree(ex)
    ex.oblige(st, Not(t.P.recognizer(0)(n)), 'no panic: method on a nil node', ex.where(fr, ins))
    c = t.cn(n)
    ex.oblige(st, c != t.null, 'no panic: method on an empty node', ex.where(fr, ins))
    return c


@model('(*%s.TSLNode).Type' % T6, trust='contract of TSLNode.Type (property T01)')
def m_type(ex, fr, ins, args, st):
    t = tree(ex)
    n = ex.term(st, args[0], t.nt)
    c = t_check(ex, fr, ins, n, st)
    st.fact(And(t.kind(c) >= 0, t.kind(c) <= 9))
    return t.kind(c)


@model('(*%s.TSLNode).Value' % T6, trust='contract of TSLNode.Value (property T01)')
def m_value(ex, fr, ins, args, st):
    p = ex.p
    t = tree(ex)
    n = ex.term(st, args[0], t.nt)
    c = t_check(ex, fr, ins, n, st)
    k = t.kind(c)
    st.fact(And(k >= 0, k <= 9))
    def V(tn, x):
        return p.ctor_of[p.bystr[tn]][0](x)
    ET = p.bystr[T6 + '.TSLExpressionOp']
    E = p.sort(ET)
    # the operands of a node are smaller; they exist in a well-formed tree
    for (kk, ch) in ((3, t.left(c)), (3, t.right(c)), (4, t.child(c))):
        st.fact(Implies(k == kk, ch != t.null))
    st.fact(Implies(Or(k == 3, k == 4), And(t.op(c) >= 258, t.op(c) <= 296)))
    ok, tv = tparse(ex, z3.StringVal('2006-01-02T15:04:05Z07:00'), t.str(c))
    vals = {}
    vals[8] = V('bool', t.bool(c))
    vals[0] = V('float64', t.num(c))
    vals[1] = vals[2] = V('string', t.str(c))
    vals[5] = vals[6] = If(ok, V('time.Time', tv), V('string', t.str(c)))
    vals[3] = V(T6 + '.TSLExpressionOp', E.constructor(0)(t.op(c), t.mk(t.left(c)), t.mk(t.right(c))))
    vals[4] = V(T6 + '.TSLExpressionOp', E.constructor(0)(t.op(c), t.P.constructor(0)(), t.mk(t.child(c))))
    AT = p.bystr[T6 + '.TSLArrayLiteral']
    vals[7] = V(T6 + '.TSLArrayLiteral', p.sort(AT).constructor(0)(t.elems(c)))
    vals[9] = V('string', z3.StringVal('NULL'))
    j = Int('je')
    et = p.under(t.slt)['elem']
    el = p.sat(t.elems(c), j, et)
    st.fact(p.slen(t.elems(c)) >= 0)
    st.fact(Not(ex.slnil(t.elems(c))))
    st.fact(ForAll([j], Implies(And(j >= 0, j < p.slen(t.elems(c))), And(Not(t.P.recognizer(0)(el)), t.cn(el) != t.null)), patterns=[el]))
    # pick the branch the path has already decided
    for kk, v in vals.items():
        if not ex.feasible(st, k != kk):
            return v
    r = p.Vnil
    for kk, v in vals.items():
        r = If(k == kk, v, r)
    return r


def tree_rank_axioms(ex):
    t = tree(ex)
    p = ex.p
    c = Const('c', t.C)
    rk = Function('rank_' + t.P.name(), t.P, IntSort())
    j = Int('j')
    et = p.under(t.slt)['elem']
    n = Const('n', t.P)
    out = []
    nd = t.mk(c)
    out.append(ForAll([c], And(rk(nd) >= 0, rk(t.mk(t.left(c))) < rk(nd), rk(t.mk(t.right(c))) < rk(nd), rk(t.mk(t.child(c))) < rk(nd)), patterns=[t.kind(c)]))
    out.append(ForAll([c, j], Implies(And(j >= 0, j < p.slen(t.elems(c))), rk(p.sat(t.elems(c), j, et)) < rk(nd)), patterns=[p.sat(t.elems(c), j, et)]))
    # nodes are determined by their native node
    out.append(ForAll([n], Implies(Not(t.P.recognizer(0)(n)), n == t.mk(t.S.accessor(0, 0)(t.P.accessor(1, 0)(n))))))
    return out


def val_rank_axioms(ex):
    p = ex.p
    sl = p.bystr['[]interface{}']
    s = Const('s', p.sort(sl))
    j = Int('j')
    rk = Function('rank_Val', p.Val, IntSort())
    el = p.sat(s, j, p.under(sl)['elem'])
    return [ForAll([s, j], Implies(And(j >= 0, j < p.slen(s)), And(rk(el) >= 0, rk(el) < rk(p.ctor_of[sl][0](s)))), patterns=[el])]


def wf_node(ex, n):
    """the node is nil or wraps a native node, as every node of a parsed tree does"""
    t = tree(ex)
    return Or(t.P.recognizer(0)(n), t.cn(n) != t.null)
