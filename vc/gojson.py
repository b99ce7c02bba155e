"""encoding/json and yaml: documents as terms; struct tags are read off the struct types"""
from gomodels import *
from gosql import seqof, closed

JT = 'encoding/json: Marshal turns a struct into the object of its fields by tag and omitempty, a slice into the array of its elements, a value with MarshalJSON into what that returns (assumed by induction for the operands), and fails exactly on values JSON cannot represent'


def jv(ex, v):
    return Function('j_val', ex.p.Val, ex.p.Val)(v)


def jnull(ex):
    return Const('j_null', ex.p.Val)


def jobj(ex, mem):
    r = Const('j_empty', ex.p.Val)
    for k in sorted(mem, reverse=True):
        r = Function('j_mem', StringSort(), ex.p.Val, ex.p.Val, ex.p.Val)(z3.StringVal(k), mem[k], r)
    return r


def jarr(ex, s):
    return Function('j_arr', s.sort(), ex.p.Val)(s)


def jok(ex, v):
    return Function('j_ok', ex.p.Val, BoolSort())(v)


MODELS['verif/gh.JNull'] = lambda ex, fr, ins, a, st: jnull(ex)
MODELS['verif/gh.JEmpty'] = lambda ex, fr, ins, a, st: Const('j_empty', ex.p.Val)
MODELS['verif/gh.JVal'] = lambda ex, fr, ins, a, st: jv(ex, ex.term(st, a[0], ex.p.under(ins['sig'])['params'][0]))
MODELS['verif/gh.JOK'] = lambda ex, fr, ins, a, st: okval(ex, ex.term(st, a[0], ex.p.under(ins['sig'])['params'][0]))
MODELS['verif/gh.JSame'] = lambda ex, fr, ins, a, st: a[0] == a[1]


@model('verif/gh.JObj')
def m_jobj(ex, fr, ins, a, st):
    return Function('j_mem', StringSort(), ex.p.Val, ex.p.Val, ex.p.Val)(*[ex.term(st, x, t) for x, t in zip(a, ex.p.under(ins['sig'])['params'])])


@model('verif/gh.JArr')
def m_jarr(ex, fr, ins, a, st):
    return jarr(ex, seqof(ex, st, a[0], ex.p.Val, 'JSeq', closed(ex, st, a[0], a[1])))


def okval(ex, v):
    """values of the basic types JSON can represent; floats only when finite"""
    p = ex.p
    r = jok(ex, v)
    for tn in ('string', 'bool'):
        r = If(p.ctor_of[p.bystr[tn]][1](v), BoolVal(True), r)
    f = p.ctor_of[p.bystr['float64']]
    x = f[2][0](v)
    r = If(f[1](v), Not(Or(z3.fpIsNaN(x), z3.fpIsInf(x))), r)
    r = If(p.ctor['V_nil'][1](v), BoolVal(True), r)
    return simplify(r)


def node_doc(ex, st, n, what):
    """the document (what=0) or validity of a node, by the induction hypothesis"""
    fn = 'verif/spec6/marsh.' + ('Enc' if what == 0 else 'OK')
    return ex.spec_rec(fn, [n], st)


def resolve(ex, st, v):
    """a boxed value of known constructor"""
    v = simplify(v)
    n = 0
    while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and n < 30:
        n += 1
        if not ex.feasible(st, v.arg(0)):
            v = v.arg(2)
        elif not ex.feasible(st, Not(v.arg(0))):
            v = v.arg(1)
        else:
            break
    return v


def doc(ex, st, x, tid, lang, depth=0):
    """(document, validity, empty) of a value x of static type tid"""
    p = ex.p
    ts = p.t(tid)['str']
    u = p.under(tid)
    k = u['kind']
    if depth > 4:
        raise Unsupported('document nested too deep')
    if ts == '*' + T6 + '.TSLNode':
        nil = p.sort(tid).recognizer(0)(x)
        return node_doc(ex, st, x, 0), node_doc(ex, st, x, 1), simplify(nil)
    if k == 'interface':
        v = resolve(ex, st, x)
        if z3.is_app(v):
            for t, (c, rec, acc) in p.ctor_of.items():
                if z3.eq(v.decl(), c):
                    if p.under(t)['kind'] in ('struct', 'pointer', 'slice', 'map') and p.t(t)['str'] not in ('time.Time',):
                        d, o, e = doc(ex, st, simplify(v.arg(0)), t, lang, depth + 1)
                        return d, o, BoolVal(False)
        isnil = simplify(p.ctor['V_nil'][1](v))
        return (simplify(If(isnil, jnull(ex), jv(ex, v))), okval(ex, v), isnil)
    if k == 'basic' or ts == 'time.Time':
        if tid not in p.ctor_of:
            raise Unsupported('document of %s' % ts)
        v = p.ctor_of[tid][0](x) if k == 'basic' and tid == p.under_id(tid) or ts == 'time.Time' else None
        if v is None:       # a named basic type is encoded as its value
            b = next((t for t in p.ctor_of if p.types[t]['kind'] == 'basic' and p.types[t]['name'] == u['name']), None)
            if b is None or any('%d.Marshal%s' % (tid, l) in p.methods for l in ('JSON', 'YAML', 'Text')):
                raise Unsupported('document of %s' % ts)
            v = p.ctor_of[b][0](x)
        e = x == z3.StringVal('') if z3.is_string(x) else x == 0 if z3.is_int(x) else Not(x) if z3.is_bool(x) else z3.fpIsZero(x) if z3.is_fp(x) else BoolVal(False)
        return jv(ex, v), okval(ex, v), simplify(e)
    if k == 'struct':
        if any('%d.Marshal%s' % (tid, l) in p.methods for l in ('JSON', 'YAML', 'Text')):
            raise Unsupported('document of a type with its own encoding')
        mem, oks = {}, []
        for i, f in enumerate(u['fields']):
            import re
            m = re.search(r'(?:^|\s)%s:"([^"]*)"' % lang, f.get('tag') or '')
            tag = m.group(1).split(',') if m else ['']
            name = tag[0] or (f['name'] if lang == 'json' else f['name'].lower())
            if tag[0] == '-' or not f['name'][0].isupper():
                continue
            if f.get('embedded'):
                raise Unsupported('embedded field in a document')
            if any(o not in ('omitempty',) for o in tag[1:]):
                raise Unsupported('tag option %s' % tag)
            d, o, e = doc(ex, st, ex.term(st, ex.field(st, x, i), f['type']), f['type'], lang, depth + 1)
            if 'omitempty' in tag[1:]:
                if not ex.feasible(st, Not(e)):
                    continue
                if ex.feasible(st, e):
                    raise Unsupported('member %s sometimes omitted' % name)
            if name in mem:
                raise Unsupported('duplicate member')
            mem[name] = d
            oks.append(o)
        return jobj(ex, mem), conj(oks), BoolVal(False)
    if k == 'slice':
        et = u['elem']
        s = x
        n = p.slen(s)
        j0 = qvar(ex)
        st2 = st.fork()
        d, o, _ = doc(ex, st2, p.sat(s, j0, et), et, lang, depth + 1)
        q = seqof(ex, st, n, p.Val, 'JSeq', lambda j: substitute(d, (j0, j)))
        ok = ex.fresh('ok', BoolSort())
        w = ex.fresh('w', IntSort())
        j = qvar(ex)
        st.fact(Implies(Not(ok), And(w >= 0, w < n, Not(substitute(o, (j0, w))))))
        st.fact(ForAll([j], Implies(And(ok, j >= 0, j < n), substitute(o, (j0, j)))))
        return If(ex.slnil(s), jnull(ex), jarr(ex, q)), ok, n == 0
    if k == 'pointer':
        s = p.sort(tid)
        if isinstance(s, z3.DatatypeSortRef):
            nil = s.recognizer(0)(x)
            if not ex.feasible(st, nil):
                d, o, _ = doc(ex, st, simplify(s.accessor(1, 0)(x)), u['elem'], lang, depth + 1)
                return d, o, BoolVal(False)
    if k == 'map' and False:
        pass
    raise Unsupported('document of %s' % ts)


def mapdoc(ex, st, v, tid, lang):
    """a map literal built by the code"""
    mem, oks = {}, []
    u = ex.p.under(tid)
    for kk, vv in st.heap[v.oid].ent:
        k = pystr(ex.term(st, kk, u['key']))
        if k is None:
            raise Unsupported('document of a map with unknown keys')
        d, o, _ = doc(ex, st, ex.term(st, vv, u['elem']), u['elem'], lang)
        mem[k] = d
        oks.append(o)
    return jobj(ex, mem), conj(oks)


@model('encoding/json.Marshal', trust=JT)
def m_marshal(ex, fr, ins, args, st):
    p = ex.p
    at, (bt, et) = p.under(ins['sig'])['params'][0], p.under(ins['sig'])['results']
    d, o, _ = doc(ex, st, ex.term(st, args[0], at), at, 'json')
    b = ex.fresh('json', p.sort(bt))
    st.fact(Implies(o, Function('json_of', b.sort(), p.Val)(b) == d))
    err = ex.fresh('err', IntSort())
    return TupleV([b, If(o, p.Vnil, p.ctor['V_other'][0](IntVal(997), err))])


@model('verif/gh.JSONOf')
def m_jsonof(ex, fr, ins, args, st):
    p = ex.p
    t = ex.term(st, args[0], p.under(ins['sig'])['params'][0])
    t = simplify(t)
    if z3.is_app(t) and t.decl().name().startswith('string_to_') and pystr(t.arg(0)) is not None:
        import json
        try:
            v = json.loads(pystr(t.arg(0)))
        except ValueError:
            v = NotImplemented
        if v is None:
            return jnull(ex)
        if isinstance(v, str):
            return jv(ex, p.ctor_of[p.bystr['string']][0](bstr(v.encode())))
    return Function('json_of', t.sort(), p.Val)(t)


@model('verif/gh.YAMLOf')
def m_yamlof(ex, fr, ins, args, st):
    at = ex.p.under(ins['sig'])['params'][0]
    return doc(ex, st, ex.term(st, args[0], at), at, 'yaml')[0]
