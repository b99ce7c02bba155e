"""sql.Walk of v4 and v5 (property Q51): the contract is in spec/v5/sqls, the induction over the tree. The conditions the
package defines itself (its own types with a method ToSql) are what that method makes of them; its body is executed where
one becomes a condition."""
from gomodels import *
import gosql
from gosql import lists, cat, one, none, sqtext, sqargs, sqok, sqlizer_tid, seqof, catall, ph
from gounits import GoContext, GoUnit
from five import REPO, SPEC, tree5, rank5, fcase, lrcase, setup5, CMP, MATCH, MEM, EX, MATH, VALS

SEQ = ('sq_args', 'args_cat', 'args_one', 'args_catall')
T1 = 'ToSql of a condition gives its text, its bound arguments and no error if it is a condition squirrel accepts'
T2 = 'the bound arguments of a condition are plain values; a slice of them is not written to by one who does not own it'


def isseq(v):
    if not z3.is_expr(v):
        return False
    v = simplify(v)
    if v.decl().kind() == z3.Z3_OP_ITE:
        return isseq(v.arg(1)) or isseq(v.arg(2))
    return v.decl().name() in SEQ


def toseq(ex, st, v):
    """a slice of arguments as an argument sequence"""
    if isinstance(v, NilV) or isseq(v):
        return lists(ex, st, v)
    sit = ex.p.bystr['[]interface{}']
    et = ex.p.under(sit)['elem']
    n = simplify(ex.sl_len(st, v))
    cn = ex.asint(n)
    get = lambda i: ex.term(st, ex.sl_get(st, v, i, et), et)
    if cn is not None:
        return cat(ex, *[one(ex, get(IntVal(i))) for i in range(cn)])
    j0 = qvar(ex)
    x = get(j0)
    s = seqof(ex, st, n, gosql.slv(ex), 'ArgSeq', lambda j: substitute(one(ex, x), (j0, j)))
    return catall(ex, st, s, n)


def append(ex, base):
    def f(fr, ins, args, st):
        if ins['type'] == ex.p.bystr['[]interface{}'] and (isseq(args[0]) or isseq(args[1])):
            return cat(ex, toseq(ex, st, args[0]), toseq(ex, st, args[1]))
        return base(fr, ins, args, st)
    return f


def m_tosql(ex, fr, ins, args, st):
    v = args[0]
    if isinstance(v, NilV):
        v = ex.p.Vnil
    ex.oblige(st, Not(ex.p.ctor['V_nil'][1](v)), 'no panic: ToSql of a nil condition', ex.where(fr, ins))
    e = ex.fresh('tosqlerr', ex.p.Val)
    st.fact(sqok(ex, v) == ex.p.ctor['V_nil'][1](e))
    ex.used_models.add('ToSql')
    return TupleV([sqtext(ex, v), sqargs(ex, v), e])


MODELS[('invoke', 'github.com/Masterminds/squirrel.Sqlizer', 'ToSql')] = m_tosql
_expr6 = MODELS['github.com/Masterminds/squirrel.Expr']


def m_expr(ex, fr, ins, args, st):
    p = ex.p
    tpl, va = args
    if not getattr(ex, 'sql5', False):
        return _expr6(ex, fr, ins, args, st)
    ps = gosql.pieces(tpl)
    if any(z3.is_expr(x) and 'str_repeat' in x.sexpr() for x in ps):
        tpl = gosql.glue(gosql.repeats(ex, st, ps))
    seq = toseq(ex, st, va)
    ex.used_models.add('arguments')
    srt = p.under(ins['sig'])['results'][0]
    if p.under(srt)['kind'] == 'interface':
        r = ex.fresh('sqexpr', p.Val)
        st.fact(p.ctor['V_other'][1](r))
        st.fact(ex.implements_cond(r, sqlizer_tid(ex)))
        facts(ex, st, r, tpl, seq, BoolVal(True))
        return r
    # squirrel before 1.2: a struct, which is a condition when it is put into an interface
    r = ex.fresh('sqexpr', p.sort(srt))
    st.fact(Function('expr_text', p.sort(srt), StringSort())(r) == tpl)
    st.fact(Function('expr_args', p.sort(srt), gosql.slv(ex))(r) == seq)
    return r


TRUST['ToSql'], TRUST['arguments'] = T1, T2
MODELS['github.com/Masterminds/squirrel.Expr'] = m_expr


def facts(ex, st, r, text, seq, ok):
    st.fact(sqtext(ex, r) == text)
    st.fact(sqargs(ex, r) == seq)
    st.fact(sqok(ex, r) == ok)


def box_expr(ex, st, r, v, tid):
    s = ex.p.sort(tid)
    v = ex.term(st, v, tid)
    facts(ex, st, r, Function('expr_text', s, StringSort())(v), Function('expr_args', s, gosql.slv(ex))(v), BoolVal(True))


MODELS[('box', 'github.com/Masterminds/squirrel.expr')] = box_expr


def setup(ex):
    setup5(ex)
    ex.sql5 = True
    ex.do_append = append(ex, ex.do_append)
    base = ex.box

    def box(st, v, tid):
        r = base(st, v, tid)
        m = ex.p.methods.get('%d.ToSql' % tid)
        if m in ex.p.funcs and '/squirrel' not in m and ('box', ex.p.t(tid)['str']) not in ex.models:
            own(ex, st, r, v, m)
        return r
    ex.box = box


def own(ex, st, r, v, m):
    """what a condition type of the package makes of its value"""
    ex.inlined.add(m)
    sub = st.fork()
    base = len(sub.pc)
    fr = {'fn': m, 'bind': {}}
    p = ex.p
    rt = p.funcs[m]['results']
    outs = [o for o in ex.exec_fn(m, [v], sub, ()) if o.kind == 'return']
    if not outs:
        raise Unsupported('ToSql never returns')
    for o in outs:
        conds = conj([c for b, c in o.state.pc[base:] if b])
        fs = [c for b, c in o.state.pc[base:] if not b]
        t, a, e = [ex.term(o.state, x, y) if not (i == 1) else toseq(ex, o.state, x) for i, (x, y) in enumerate(zip(o.res, rt))]
        ok = p.ctor['V_nil'][1](e)
        fs = [c for b, c in o.state.pc[base:] if not b]
        for c in fs:
            st.fact(c)
        st.fact(Implies(conds, And(sqok(ex, r) == ok, Implies(ok, And(sqtext(ex, r) == t, sqargs(ex, r) == a)))))


def contracts(v):
    def f():
        S = 'verif/spec%d/sqls.' % v
        w = Contract('Walk', REPO[v] + '/walkers/sql.Walk', S + 'PostWalk', pre=S + 'PreWalk', unfold=['WF', 'OK', 'Text', 'Bound'], measure=lambda ex, a: [rank5(ex, a[0])])
        w.entry = True
        return [w]
    return f


sql = {v: GoContext(SPEC[v], REPO[v] + ',verif/spec%d/sqls,verif/spec%d/sem,verif/gh,github.com/Masterminds/squirrel' % (v, v), ['./sqls', REPO[v] + '/walkers/sql'], contracts(v), setup, dict(codes=True)) for v in (4, 5)}


def units(v):
    W = lambda case, name: GoUnit(sql[v], 'Walk', case, 'v%d: %s' % (v, name))
    ops = ('$ident', '$string', '$number', '$boolean', '$date', '$and', '$or', '$not') + MATH + EX + CMP + MATCH + MEM
    us = [W(fcase((o,)), o) for o in ops]
    us.append(W(lambda ex, a, st: Not(Or(*[tree5(ex).func(a[0]) == z3.StringVal(o) for o in ops])), 'any other operator'))
    return us
