"""squirrel: the assumed contracts of the constructors the walkers use, and the argument sequences of the specifications"""
import os
from gomodels import *
import discharge as D

SQT = 'squirrel.Expr builds a condition whose text is the template with each ? replaced in order by the text of a condition argument (whose arguments it takes over) or kept for a plain argument; And/Or join their non-empty parts with AND/OR in parentheses (checked against squirrel by the concrete search)'


def slv(ex):
    return ex.p.sort(ex.p.bystr['[]interface{}'])


def none(ex):
    return ex.nil_of(ex.p.bystr['[]interface{}'])


def one(ex, v):
    s = slv(ex)
    return Function('args_one', ex.p.Val, s)(v)


def cat(ex, *ls):
    """concatenation, flattened"""
    s = slv(ex)
    f = Function('args_cat', s, s, s)
    parts = []

    def flat(t):
        if z3.is_app(t) and t.decl().name() == 'args_cat':
            flat(t.arg(0))
            flat(t.arg(1))
        elif not z3.eq(t, none(ex)):
            parts.append(t)
    for l in ls:
        flat(l)
    if not parts:
        return none(ex)
    r = parts[-1]
    for x in parts[-2::-1]:
        r = f(x, r)
    return r


def lists(ex, st, v):
    """a []interface{} value used as an argument sequence; the nil one is empty"""
    if isinstance(v, NilV):
        return none(ex)
    return v if z3.is_expr(v) else ex.term(st, v, ex.p.bystr['[]interface{}'])


@model('verif/gh.Arg')
def m_arg(ex, fr, ins, args, st):
    return one(ex, ex.term(st, args[0], ex.p.under(ins['sig'])['params'][0]))


@model('verif/gh.Cat')
def m_cat(ex, fr, ins, args, st):
    return cat(ex, lists(ex, st, args[0]), lists(ex, st, args[1]))


@model('verif/gh.SameArgs')
def m_sameargs(ex, fr, ins, args, st):
    return lists(ex, st, args[0]) == lists(ex, st, args[1])


def seqof(ex, st, n, elem_sort, ename, at):
    """the sequence of at(j) for j in [0,n)"""
    S = ex.p._slsort(ename)
    ex.p.extra_sl = getattr(ex.p, 'extra_sl', {})
    ex.p.extra_sl[S.name()] = elem_sort
    s = ex.fresh('seq', S)
    j = qvar(ex)
    sat = Function('sat_' + S.name(), S, IntSort(), elem_sort)
    v = at(j)
    st.fact(ex.p.slen(s) == If(n < 0, 0, n))
    st.fact(ForAll([j], Implies(And(j >= 0, j < n), sat(s, j) == v), patterns=[sat(s, j)]))
    return s


def closed(ex, st, n, clo, f=None):
    """value of a closure as a function of the index"""
    j0 = qvar(ex)
    P, facts = ex.bound_eval(st, closure(clo), j0)
    addfacts(st, j0, And(j0 >= 0, j0 < n), facts)
    return lambda j: substitute(P, (j0, j))


@model('verif/gh.CatSeq')
def m_catseq(ex, fr, ins, args, st):
    n = args[0]
    s = seqof(ex, st, n, slv(ex), 'ArgSeq', closed(ex, st, n, args[1]))
    return catall(ex, st, s, n)


def catall(ex, st, s, n):
    r = Function('args_catall', s.sort(), slv(ex))(s)
    return r


@model('verif/gh.JoinSeq')
def m_joinseq(ex, fr, ins, args, st):
    n = args[0]
    s = seqof(ex, st, n, StringSort(), 'String', closed(ex, st, n, args[2]))
    return Function('join_seq', s.sort(), StringSort(), StringSort())(s, args[1])


# ---------------------------------------------------------------- squirrel
def F(ex, name, srt):
    return Function(name, ex.p.Val, srt)


def sqtext(ex, v):
    return F(ex, 'sq_text', StringSort())(v)


def sqargs(ex, v):
    return F(ex, 'sq_args', slv(ex))(v)


def sqok(ex, v):
    return F(ex, 'sq_ok', BoolSort())(v)


def sqlizer_tid(ex):
    return ex.p.bystr['github.com/Masterminds/squirrel.Sqlizer']


for pkg in ('verif/spec6/sqls', 'verif/spec5/sqls', 'verif/spec4/sqls'):
    MODELS[pkg + '.SqlText'] = lambda ex, fr, ins, args, st: sqtext(ex, ex.term(st, args[0], sqlizer_tid(ex)))
    MODELS[pkg + '.SqlArgs'] = lambda ex, fr, ins, args, st: sqargs(ex, ex.term(st, args[0], sqlizer_tid(ex)))
    MODELS[pkg + '.SqlOK'] = lambda ex, fr, ins, args, st: sqok(ex, ex.term(st, args[0], sqlizer_tid(ex)))


def ph(ex, st, m):
    """the text of m placeholders separated by commas"""
    S = ex.p._slsort('Int')
    if not z3.is_const(m):
        m0 = ex.fresh('m', IntSort())
        st.fact(m0 == m)
        m = m0
    q = Function('ph_seq', IntSort(), S)(m)
    sat = Function('sat_Sl_Int', S, IntSort(), IntSort())
    j = qvar(ex)
    st.fact(Implies(m > 0, ex.p.slen(q) == 2 * m - 1))
    st.fact(ForAll([j], Implies(And(j >= 0, j < 2 * m - 1), sat(q, j) == If(j % 2 == 0, 63, 44)), patterns=[sat(q, j)]))
    return If(m <= 0, z3.StringVal(''), Function('string_of_Sl_Int', S, StringSort())(q))


def pull(a, b):
    """the common literal ends of two piece lists, and what is between"""
    pre, suf = [], []
    a, b = list(a), list(b)
    if a and b and isinstance(a[0], str) and isinstance(b[0], str):
        x = os.path.commonprefix([a[0], b[0]])
        # the shorter one's last piece must leave its end to the suffix
        pre.append(x)
        a[0], b[0] = a[0][len(x):], b[0][len(x):]
    if a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
        x = os.path.commonprefix([a[-1][::-1], b[-1][::-1]])[::-1]
        suf.append(x)
        a[-1], b[-1] = a[-1][:len(a[-1]) - len(x)], b[-1][:len(b[-1]) - len(x)]
    return pre, [x for x in a if not isinstance(x, str) or x], [x for x in b if not isinstance(x, str) or x], suf


def glue(ps):
    ps = [x if z3.is_expr(x) else z3.StringVal(x) for x in ps]
    return z3.StringVal('') if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)


def pieces(t):
    t = simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        pre, a, b, suf = pull(pieces(t.arg(1)), pieces(t.arg(2)))
        if pre or suf:
            mid = [] if not a and not b else a if len(a) == 1 and a == b and isinstance(a[0], str) else [If(t.arg(0), glue(a), glue(b))]
            return [x for x in pre + mid + suf if not isinstance(x, str) or x]
    out = []

    def fl(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                fl(c)
        else:
            out.append(pystr(t) if pystr(t) is not None else t)
    fl(simplify(t))
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return r


def cases(ex, st, v, p):
    """prunes the alternatives of a merged value that the path excludes"""
    v = simplify(v)
    n = 0
    while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and n < 30:
        n += 1
        c = v.arg(0)
        if not ex.feasible(st, c):
            v = v.arg(2)
        elif not ex.feasible(st, Not(c)):
            v = v.arg(1)
        else:
            break
    return v


def known_shape(t):
    """a text whose characters the obligation can talk about"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return known_shape(t.arg(1)) and known_shape(t.arg(2))
    return pystr(t) is not None or z3.is_app(t) and t.decl().name() == 'string_of_Sl_Int'


def repeats(ex, st, ps):
    """a placeholder list made with strings.Repeat"""
    out = list(ps)
    for i, x in enumerate(out):
        if not isinstance(x, str) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            out[i] = If(x.arg(0), glue(repeats(ex, st, pieces(x.arg(1)))), glue(repeats(ex, st, pieces(x.arg(2)))))
            continue
        if isinstance(x, str) or not (z3.is_app(x) and x.decl().name() == 'str_repeat'):
            continue
        unit, k = pystr(x.arg(0)), x.arg(1)
        if unit == ',?' and i > 0 and isinstance(out[i - 1], str) and out[i - 1].endswith('?'):
            out[i - 1] = out[i - 1][:-1]
            out[i] = ph(ex, st, simplify(k + 1))
        elif unit == '?,' and i + 1 < len(out) and isinstance(out[i + 1], str) and out[i + 1].startswith('?'):
            out[i + 1] = out[i + 1][1:]
            out[i] = ph(ex, st, simplify(k + 1))
    return [x for x in out if not isinstance(x, str) or x]


@model('strings.Repeat', trust='strings.Repeat')
def m_repeat(ex, fr, ins, args, st):
    ex.oblige(st, args[1] >= 0, 'no panic: negative Repeat count', ex.where(fr, ins))
    return Function('str_repeat', StringSort(), IntSort(), StringSort())(args[0], args[1])


@model('github.com/Masterminds/squirrel.Placeholders', trust='squirrel.Placeholders(n) is n question marks separated by commas')
def m_placeholders(ex, fr, ins, args, st):
    return ph(ex, st, args[0])


def argval(ex, st, v):
    """(text, args, ok) one argument of Expr contributes"""
    v = cases(ex, st, v, ex.p)
    c = simplify(ex.implements_cond(v, sqlizer_tid(ex)))
    sq = (sqtext(ex, v), sqargs(ex, v), sqok(ex, v))
    plain = (z3.StringVal('?'), one(ex, v), BoolVal(True))
    if not ex.feasible(st, c):
        return plain
    if not ex.feasible(st, Not(c)):
        return sq
    return tuple(If(c, a, b) for a, b in zip(sq, plain))


@model('github.com/Masterminds/squirrel.Expr', trust=SQT)
def m_sqexpr(ex, fr, ins, args, st):
    p = ex.p
    tpl, va = args
    sit = p.bystr['[]interface{}']
    et = p.under(sit)['elem']
    n = IntVal(0) if isinstance(va, NilV) else simplify(ex.sl_len(st, va))
    ps = pieces(cases(ex, st, tpl, p))
    cn = ex.asint(n)
    texts, ars, oks = [], [], []
    get = lambda i: ex.term(st, ex.sl_get(st, va, i, et), et)
    if cn == 0:
        texts = [x if z3.is_expr(x) else z3.StringVal(x) for x in ps]
    elif cn is not None and all(isinstance(x, str) for x in ps):
        s = ''.join(ps)
        i = 0
        while s:
            k = s.find('?')
            if k < 0 or i >= cn:
                break
            if s[k:k + 2] == '??':
                texts.append(z3.StringVal(s[:k + 2]))
                s = s[k + 2:]
                continue
            t, a, o = argval(ex, st, get(IntVal(i)))
            i += 1
            texts += [z3.StringVal(s[:k]), t]
            ars.append(a)
            oks.append(o)
            s = s[k + 1:]
        ex.oblige(st, BoolVal(i == cn and '?' not in s), 'one placeholder per argument of squirrel.Expr', ex.where(fr, ins))
        texts.append(z3.StringVal(s))
    else:
        ps = repeats(ex, st, ps)
        sym = [x for x in ps if not isinstance(x, str)]
        if len(sym) != 1:
            raise Unsupported('SQL template of unknown structure')
        ix = [i for i, x in enumerate(ps) if not isinstance(x, str)][0]
        before, after = ''.join(ps[:ix]), ''.join(ps[ix + 1:])
        if '??' in before or '??' in after or before.endswith('?') or after.startswith('?'):
            raise Unsupported('SQL template with ??')
        nb, na = before.count('?'), after.count('?')
        m = simplify(n - nb - na)
        goal = sym[0] == ph(ex, st, m)
        ob = Obligation(ex.curname(), 'placeholder list', st.formulas(), goal, '')
        if not known_shape(sym[0]) and not D.discharge(ex, ob, timeout=8, use_cvc5=False):
            raise Unsupported('the placeholders of the SQL template do not provably match its arguments')
        ex.oblige(st, goal, 'one placeholder per argument of squirrel.Expr', ex.where(fr, ins))
        i = 0
        for k, part in enumerate(before.split('?')):
            if k:
                t, a, o = argval(ex, st, get(IntVal(i)))
                i += 1
                texts.append(t)
                ars.append(a)
                oks.append(o)
            texts.append(z3.StringVal(part))
        j0 = qvar(ex)
        st2 = st.fork()
        st2.fact(And(j0 >= 0, j0 < m))
        v = get(simplify(nb + j0))
        c = ex.implements_cond(v, sqlizer_tid(ex))
        # the elements are conditions
        ob = Obligation(ex.curname(), 'list elements are conditions', st2.formulas(), c, '')
        if not D.discharge(ex, ob, timeout=5, use_cvc5=False):
            raise Unsupported('arguments of a SQL list are not provably conditions')
        T = seqof(ex, st, m, StringSort(), 'String', lambda j: substitute(sqtext(ex, v), (j0, j)))
        A = seqof(ex, st, m, slv(ex), 'ArgSeq', lambda j: substitute(sqargs(ex, v), (j0, j)))
        texts.append(Function('join_seq', T.sort(), StringSort(), StringSort())(T, z3.StringVal(',')))
        ars.append(catall(ex, st, A, m))
        ok = ex.fresh('ok', BoolSort())
        w = ex.fresh('w', IntSort())
        j = qvar(ex)
        st.fact(Implies(Not(ok), And(w >= 0, w < m, Not(substitute(sqok(ex, v), (j0, w))))))
        st.fact(ForAll([j], Implies(And(ok, j >= 0, j < m), substitute(sqok(ex, v), (j0, j)))))
        oks.append(ok)
        for k, part in enumerate(after.split('?')):
            if k:
                t, a, o = argval(ex, st, get(simplify(m + nb + k - 1)))
                texts.append(t)
                ars.append(a)
                oks.append(o)
            texts.append(z3.StringVal(part))
    r = ex.fresh('sqexpr', p.Val)
    st.fact(p.ctor['V_other'][1](r))
    st.fact(ex.implements_cond(r, sqlizer_tid(ex)))
    texts = [t for t in texts if not z3.eq(t, z3.StringVal(''))]
    txt = z3.StringVal('') if not texts else texts[0] if len(texts) == 1 else z3.Concat(*texts)
    st.fact(sqtext(ex, r) == txt)
    st.fact(sqargs(ex, r) == cat(ex, *ars))
    st.fact(sqok(ex, r) == conj(oks))
    return r


def boxlogic(sep):
    def h(ex, st, r, v, tid):
        n = ex.asint(simplify(ex.sl_len(st, v)))
        if n is None or n > 4:
            raise Unsupported('squirrel conjunction of unknown length')
        et = ex.p.under(tid)['elem']
        el = [ex.term(st, ex.sl_get(st, v, IntVal(i), et), et) for i in range(n)]
        E = z3.StringVal('')
        acc, ca = E, none(ex)
        for e in el:
            t = sqtext(ex, e)
            acc = If(t == E, acc, If(acc == E, t, z3.Concat(acc, z3.StringVal(sep), t)))
            a = sqargs(ex, e)
            c = cat(ex, ca, a)
            st.fact(And(Implies(ca == none(ex), c == a), Implies(a == none(ex), c == ca)))
            ca = c
            ex.oblige(st, Not(ex.p.ctor['V_nil'][1](e)), 'no nil condition in a conjunction', '')
        noloss = conj([Or(sqtext(ex, e) != E, sqargs(ex, e) == none(ex)) for e in el])
        st.fact(sqtext(ex, r) == If(acc == E, E, z3.Concat(z3.StringVal('('), acc, z3.StringVal(')'))))
        st.fact(Implies(noloss, sqargs(ex, r) == cat(ex, *[sqargs(ex, e) for e in el])))
        st.fact(sqok(ex, r) == conj([sqok(ex, e) for e in el]))
    return h


MODELS[('box', 'github.com/Masterminds/squirrel.And')] = boxlogic(' AND ')
MODELS[('box', 'github.com/Masterminds/squirrel.Or')] = boxlogic(' OR ')
