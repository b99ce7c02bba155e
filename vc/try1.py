import json,sys,time
from gomodels import *
import discharge as D
D.DEBUG="dbg" in sys.argv
js=json.load(open('/tmp/s6.json'))
P='github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics.'
cs=[Contract('Walk',prepy=lambda ex,a: wf_node(ex,a[0]),fn=P+'Walk',post='verif/spec6/sem.PostWalk',unfold=['Eval','EvalErr','Raw'],measure=lambda ex,a:[ex.rank(a[0])]),
    Contract('evaluateBinaryExpression',P+'evaluateBinaryExpression','verif/spec6/sem.PostBinary',unfold=['Binary','BinaryErr','Raw'],measure=lambda ex,a:[ex.rank(a[1])]),
    Contract('processValue',P+'processValue','verif/spec6/sem.PostProcess',unfold=['Norm','Raw'],measure=lambda ex,a:[ex.rank(a[0])])]
p=Program(js)
p.build_sorts([c.fn for c in cs]+[c.post for c in cs])
print([p.tname(t) for t in p.dyn])
cs.append(Contract('evaluateUnaryExpression',P+'evaluateUnaryExpression','verif/spec6/sem.PostUnary',unfold=['Raw','Unary'],leaf=['verif/spec6/sem.Raw']))
which=sys.argv[1:] 
def opcase(*ops):
    return lambda ex,a,st: Or(*[a[0]==o for o in ops])
cases={'cmp':opcase(288,289,290,291,292,293),'logic':opcase(260,261,264),'in':opcase(263),'between':opcase(262),'like':opcase(258,259,294,295),'math':opcase(278,279,280,281,282)}
for c in cs:
    if which and c.name not in which: continue
    ucases={'any':opcase(270),'all':opcase(271),'len':opcase(269),'sum':opcase(272),'not':opcase(266),'um':opcase(296)}
    cases=ucases if 'Unary' in c.name else cases
    for cn in ([None] if not c.name.startswith('eval') else [x for x in cases if len(which)<2 or '-' in which or x in which]):
        ex=Exec(p,cs,MODELS,opts=dict(opaque=['Unary']))
        ex.rank_axioms=lambda: tree_rank_axioms(ex)+val_rank_axioms(ex)
        t0=time.time()
        outs=verify_unit(ex,c,cases.get(cn))
        print('==',c.name,cn,len(outs),'paths',len(ex.obls),'obls',ex.bounded,'%.1fs feas %d'%(time.time()-t0,ex.nfeas),ex.inlined and len(ex.inlined))
        t0=time.time()
        for ob in ex.obls:
            r=D.discharge(ex,ob)
            if not r or ob.time>2: print('  ',ob.status,ob.kind,ob.where,'%.1f'%ob.time)
        print('   discharged %d/%d in %.1fs'%(sum(o.status=='proved' for o in ex.obls),len(ex.obls),time.time()-t0), D.STATS)
        if len(sys.argv)>3:
            for ob in ex.obls:
                if ob.status!='proved':
                    for f in ob.pc: print('PC', f)
                    print('GOAL', ob.goal); print(ob.model)
