"""mongo.Walk of v4 and v5 (property N51): the contract is in spec/v5/mong, the induction over the tree."""
from gomodels import *
from gounits import GoContext, GoUnit
from five import REPO, SPEC, tree5, rank5, fcase, lrcase, setup5, CMP, MATCH, MEM, EX, MATH, VALS


def contracts(v):
    def f():
        S = 'verif/spec%d/mong.' % v
        w = Contract('Walk', REPO[v] + '/walkers/mongo.Walk', S + 'PostWalk', pre=S + 'PreWalk', unfold=['WF', 'Doc', 'Expressible'], measure=lambda ex, a: [rank5(ex, a[0])])
        w.entry = True
        return [w]
    return f


mongo = {v: GoContext(SPEC[v], REPO[v] + ',verif/spec%d/mong,verif/spec%d/sem,verif/gh' % (v, v), ['./mong', REPO[v] + '/walkers/mongo'], contracts(v), setup5, dict(codes=True)) for v in (4, 5)}


def units(v):
    W = lambda case, name: GoUnit(mongo[v], 'Walk', case, 'v%d: %s' % (v, name))
    us = [W(fcase((o,)), o) for o in ('$and', '$or') + EX + CMP + ('$regex', '$nregex') + MEM]
    rest = ('$and', '$or') + EX + CMP + ('$regex', '$nregex') + MEM
    us.append(W(lambda ex, a, st: Not(Or(*[tree5(ex).func(a[0]) == z3.StringVal(o) for o in rest])), 'any other operator'))
    return us
