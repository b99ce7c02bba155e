"""Contracts of the C functions of v6/pkg/tsl and the units that verify their bodies."""
import os, time, traceback
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from cexec import *
import cexec, cir
from ctx import BuildError, BUILD

TSL = '/repo/v6/pkg/tsl'


# ------------------------------------------------------------ comparing memory with a specified tree
class TermView:
    def __init__(self, t):
        self.t = t


def compare(ex, st, v, spec, what='the result'):
    """obliges that the tree behind v (a value, or a TermView) is the specified one.
    spec: ('same', term) | ('num', fp) | ('str', kind, chars, len) | ('bool', i) | ('null',) | ('bin', op, l, r) | ('un', op, c) | ('arr', n, [(lo, hi, fn)])  (l, r, c, fn(i): specs)"""
    if not isinstance(v, TermView):
        v = ex.resolve(st, v)
    if v is NULL:
        v = TermView(NULLT)
    if isinstance(v, Hnd):
        ex.oblige(st, Or(v.term == NULLT, Not(ex.gone(st, v))), '%s is not released' % what)
        v = TermView(v.term)
    if isinstance(v, TermView):
        if spec[0] == 'same':
            ex.oblige(st, v.t == spec[1], '%s is the tree it must be' % what)
            return
        t = v.t
        ex.oblige(st, t != NULLT, '%s is there' % what)
        kind, get = fkind(t), None
    else:
        o = st.objs[v.oid]
        if not o.alive:
            ex.bad(st, '%s is not released' % what)
        if o.pending:
            return compare(ex, st, TermView(o.tree), spec, what)
        if 0 not in o.fields:
            ex.bad(st, 'the kind of %s is initialised' % what)
        kind = Z(o.fields[0][1])
        t = None
    if spec[0] == 'same':
        # memory against a term
        s = spec[1]
        k = ex.kinds(st, v.oid)
        ex.oblige(st, And(s != NULLT, fkind(s) == k), '%s has the kind it must have' % what)
        if k == NUMBER:
            sp = ('num', fnum(s))
        elif k in STRK:
            sp = ('str', k, fchars(s), flen(s))
        elif k == BOOL:
            sp = ('bool', fbool(s))
        elif k == BINARY:
            sp = ('bin', fop(s), ('same', fleft(s)), ('same', fright(s)))
        elif k == UNARY:
            sp = ('un', fop(s), ('same', fchild(s)))
        elif k == ARRAY:
            sp = ('arr', fsize(s), [(IntVal(0), fsize(s), lambda i: ('same', felem(s, i)))])
        else:
            sp = ('null',)
        return compare(ex, st, v, sp, what)
    want = {'num': NUMBER, 'bool': BOOL, 'bin': BINARY, 'un': UNARY, 'arr': ARRAY, 'null': NUL}.get(spec[0], spec[1] if len(spec) > 1 else None)
    ex.oblige(st, kind == want, '%s has the kind it must have' % what)
    g = st.objs[v.oid] if t is None else None
    if spec[0] == 'num':
        ex.oblige(st, (fnum(t) if t is not None else ex.need(st, g, 8, 'double')) == spec[1], '%s has the number it must have' % what)
    elif spec[0] == 'bool':
        ex.oblige(st, (fbool(t) if t is not None else Z(ex.need(st, g, 8, 'i32'))) == spec[1], '%s has the truth value it must have' % what)
    elif spec[0] == 'str':
        a, n = (fchars(t), flen(t)) if t is not None else ex.text_of(st, ex.need(st, g, 8, 'ptr'))
        ex.oblige(st, n == spec[3], '%s has a text of the right length' % what)
        i = ex.fresh('c')
        ex.oblige(st, Implies(And(i >= 0, i < n), z3.Select(a, i) == z3.Select(spec[2], i)), '%s has the text it must have' % what)
    elif spec[0] == 'bin':
        ex.oblige(st, (fop(t) if t is not None else Z(ex.need(st, g, 8, 'i32'))) == spec[1], '%s has the operator it must have' % what)
        compare(ex, st, TermView(fleft(t)) if t is not None else ex.need(st, g, 16, 'ptr'), spec[2], 'the left operand of ' + what)
        compare(ex, st, TermView(fright(t)) if t is not None else ex.need(st, g, 24, 'ptr'), spec[3], 'the right operand of ' + what)
    elif spec[0] == 'un':
        ex.oblige(st, (fop(t) if t is not None else Z(ex.need(st, g, 8, 'i32'))) == spec[1], '%s has the operator it must have' % what)
        compare(ex, st, TermView(fchild(t)) if t is not None else ex.need(st, g, 16, 'ptr'), spec[2], 'the operand of ' + what)
    elif spec[0] == 'arr':
        n = Z(spec[1])
        ex.oblige(st, (fsize(t) if t is not None else Z(ex.need(st, g, 8, 'i32'))) == n, '%s has the size it must have' % what)
        for lo, hi, fn in spec[2]:
            s2 = st.copy()
            i = ex.fresh('i')
            s2.pc += [i >= Z(lo), i < Z(hi)]
            if ex.check(s2.pc) == z3.unsat:
                continue
            if t is not None:
                e = TermView(felem(t, i))
                compare(ex, s2, e, fn(i), 'an element of ' + what)
            else:
                x = ex.resolve(s2, ex.need(s2, g, 16, 'ptr'))
                if x is NULL:
                    ex.bad(s2, 'the elements of %s are there' % what)
                segs = ex.segs_of(s2, x, n)
                ex.oblige(s2, Or([And(Z(a) <= i, i < Z(b)) for a, b, _ in segs] + [BoolVal(False)]), 'every element of %s is set' % what)
                ex.oblige(s2, Z(st.objs[x.oid].size) >= 8 * n, 'the elements of %s have room' % what)
                for a, b, f in segs:
                    s3 = s2.copy()
                    s3.pc += [Z(a) <= i, i < Z(b)]
                    if ex.check(s3.pc) != z3.unsat:
                        v3 = f(i)
                        if isinstance(v3, Hnd) and v3.res[0] == 'f':
                            fc = s3.fams[v3.res[1]].get('facts')
                            if fc:
                                s3.pc += fc(v3.res[2])
                        compare(ex, s3, v3, fn(i), 'an element of ' + what)


def made(ex, st, spec):
    """a new owned handle of the specified tree (the children are terms)"""
    t = ex.fresh('made', T)
    st.pc += [t != NULLT] + ex.wf(t)
    if spec[0] == 'num':
        st.pc += [fkind(t) == NUMBER, fnum(t) == spec[1]]
    elif spec[0] == 'str':
        st.pc += [fkind(t) == spec[1], fchars(t) == spec[2], flen(t) == spec[3]]
    elif spec[0] == 'bool':
        st.pc += [fkind(t) == BOOL, fbool(t) == spec[1]]
    elif spec[0] == 'null':
        st.pc += [fkind(t) == NUL]
    elif spec[0] == 'bin':
        st.pc += [fkind(t) == BINARY, fop(t) == spec[1], fleft(t) == spec[2][1], fright(t) == spec[3][1]]
    elif spec[0] == 'un':
        st.pc += [fkind(t) == UNARY, fop(t) == spec[1], fchild(t) == spec[2][1]]
    elif spec[0] == 'arr':
        n = Z(spec[1])
        st.pc += [fkind(t) == ARRAY, fsize(t) == n]
        for lo, hi, fn in spec[2]:
            if z3.eq(z3.simplify(Z(hi) - Z(lo)), IntVal(1)):
                st.pc.append(felem(t, z3.simplify(Z(lo))) == fn(Z(lo))[1])
            else:
                i = z3.Int('q!%d' % ex.nid())
                st.pc.append(z3.ForAll([i], Implies(And(Z(lo) <= i, i < Z(hi)), felem(t, i) == fn(i)[1]), patterns=[felem(t, i)]))
    return ex.handle(st, t, True)


# ------------------------------------------------------------ number literals
def number_spec(arr, n):
    """the value of a numeric text: the number strtod reads times the SI multiple its suffix names"""
    v = STRTOD_V(arr, n)
    e = STRTOD_E(arr, n)
    c, d = cexec.lower(z3.Select(arr, e)), cexec.lower(z3.Select(arr, e + 1))
    two = And(e + 1 < n, d == ord('i'))
    r = v
    for p, ch in enumerate('kmgtp'):
        dec = z3.fpMul(RNE, v, z3.FPVal(float(1000 ** (p + 1)), D_))
        bin_ = z3.fpMul(RNE, v, z3.FPVal(float(1024 ** (p + 1)), D_))
        r = If(And(e < n, c == ord(ch)), If(two, bin_, dec), r)
    return r


# ------------------------------------------------------------ contracts
class C:
    """params: tree ownership of each parameter; spec: what the function returns"""

    def __init__(self, name, params, ret=None, requires=None, post=None, measured=False, kind=None):
        self.name, self.params, self.ret, self.requires, self.post, self.measured, self.kind = name, params, ret, requires, post, measured, kind


def arg(ex, st, kind, i):
    if kind == 'int':
        return ex.fresh('n')
    if kind == 'text':
        a, n = z3.Const('chars!%d' % ex.nid(), A_), ex.fresh('len')
        st.pc.append(n >= 0)
        return ex.new_text(st, a, n, 'borrow')
    if kind in ('own', 'own1', 'borrow', 'borrow1', 'mut'):
        t = z3.Const('arg%d' % i, T)
        st.pc += ex.wf(t)
        if kind.endswith('1'):
            st.pc.append(t != NULLT)
        return ex.handle(st, t, kind not in ('borrow', 'borrow1'))
    raise ValueError(kind)


def term(ex, st, v):
    v = ex.resolve(st, v)
    return ex.tree_of(st, v)


CONTRACTS = {}


class Maker(C):
    """a constructor: takes its tree arguments over and returns a new node"""

    def __init__(self, name, params, spec):
        super().__init__(name, params)
        self.spec = spec

    def setup(self, ex, st):
        args = []
        for i, k in enumerate(self.params):
            if k == 'arr':
                n = args[i - 1]
                st.pc.append(n >= 0)
                fid = ex.nid()
                el = z3.Function('in_elem', I_, T)
                st.fams[fid] = dict(own=True, n=n, gone=[], term=lambda j: el(j), objs=[], facts=lambda j: ex.wf(el(j)))
                oid = ex.alloc(st, 'in', 8 * n, 'borrow')
                st.objs[oid].segs = [('rng', IntVal(0), n, lambda j: Hnd(('f', fid, j), el(j)))]
                st.extra['arrterm'] = el
                args.append(Ptr(oid))
            else:
                args.append(arg(ex, st, k, i))
        st.extra['spec'] = self.spec(ex, st, args)
        return args

    def check(self, ex, st, ret, args):
        compare(ex, st, ret, st.extra['spec'])
        ex.at_exit(st, [ret])

    def apply(self, ex, st, args):
        spec = self.spec(ex, st, args)
        for k, a, n in zip(self.params, args, [None] + list(args)):
            if k in ('own', 'own1'):
                ex.release(st, a, 'given away')
            elif k == 'arr':
                nn = z3.simplify(Z(n))
                if z3.is_int_value(nn) and nn.as_long() == 0:
                    continue
                ex.release_array(st, a, n, False, 'given away')
        return [(made(ex, st, spec), st)]


def sp_text(kind):
    def f(ex, st, a):
        arr, n = ex.text_of(st, a[0])
        return ('str', kind, arr, n)
    return f


def sp_num(ex, st, a):
    arr, n = ex.text_of(st, a[0])
    return ('num', number_spec(arr, n))


def sp_arr(ex, st, a):
    n = Z(a[0])
    ex.oblige(st, n >= 0, 'the size of an array is not negative')
    p = ex.resolve(st, a[1])
    if p is NULL:
        ex.oblige(st, n == 0, 'the elements array is there')
        return ('arr', n, [])
    out = []
    for lo, hi, f in ex.segs_of(st, p, n):
        if z3.eq(z3.simplify(Z(hi) - Z(lo)), IntVal(1)):
            t = term(ex, st, f(Z(lo)))
            out.append((lo, hi, lambda i, t=t: ('same', t)))
        else:
            out.append((lo, If(Z(hi) <= n, Z(hi), n), lambda i, f=f: ('same', f(i).term)))
    return ('arr', n, out)


class Fn(C):
    def setup(self, ex, st):
        args = [arg(ex, st, k, i) for i, k in enumerate(self.params)]
        st.extra['terms'] = [a.term if isinstance(a, Hnd) else a for a in args]
        if self.requires:
            st.pc.append(self.requires(*st.extra['terms']))
        return args

    def measure(self, ex, st, a):
        if self.measured and ex.cur == self.name:
            t = term(ex, st, a[0])
            ex.oblige(st, Or(t == NULLT, fmsz(t) < fmsz(ex.measure)), 'the recursion goes to a smaller tree')


class Free(Fn):
    def check(self, ex, st, ret, args):
        ex.at_exit(st, [])
        h = args[0]
        ex.oblige(st, Or(h.term == NULLT, BoolVal(bool(st.res[h.res[1]]['gone'])) if not st.res[h.res[1]]['obj'] else BoolVal(not st.objs[st.res[h.res[1]]['obj']].alive)), 'the tree is released')

    def apply(self, ex, st, args):
        self.measure(ex, st, args)
        ex.release(st, args[0], 'freed')
        return [(None, st)]


class Clone(Fn):
    def check(self, ex, st, ret, args):
        t = st.extra['terms'][0]
        s1, s2 = st, st.copy()
        s1.pc.append(t == NULLT)
        s2.pc.append(t != NULLT)
        if ex.check(s1.pc) != z3.unsat:
            compare(ex, s1, ret, ('same', NULLT))
        if ex.check(s2.pc) != z3.unsat:
            compare(ex, s2, ret, ('same', t))
            ex.at_exit(s2, [ret])

    def apply(self, ex, st, args):
        self.measure(ex, st, args)
        v = ex.resolve(st, args[0])
        if isinstance(v, Hnd):
            ex.oblige(st, Or(v.term == NULLT, Not(ex.gone(st, v))), 'no use of a released tree')
        return [(ex.handle(st, term(ex, st, v), True), st)]


class Get(Fn):
    """an accessor: reads, changes nothing"""

    def check(self, ex, st, ret, args):
        ts = st.extra['terms']
        want = self.ret(*ts)
        if self.kind == 'tree':
            r = ex.resolve(st, ret)
            if isinstance(r, Ptr):
                ex.bad(st, 'the accessor returns the operand')
            ex.oblige(st, (NULLT if r is NULL else r.term) == want, 'the accessor returns the operand')
        elif self.kind == 'text':
            if ret is NULL:
                ex.bad(st, 'the accessor returns the text')
            a, n = ex.text_of(st, ret)
            ex.oblige(st, And(a == fchars(ts[0]), n == flen(ts[0])), 'the accessor returns the text')
        elif self.kind == 'truth':
            ex.oblige(st, (Z(ret) != 0) == (want != 0), 'the accessor returns the value')
        else:
            ex.oblige(st, Z(ret) == want, 'the accessor returns the value')
        for o in st.objs.values():
            if o.own == 'heap' and o.alive:
                ex.bad(st, 'nothing is leaked')

    def apply(self, ex, st, args):
        ts = [term(ex, st, a) if isinstance(a, (Hnd, Ptr)) or a is NULL else a for a in args]
        ex.oblige(st, ts[0] != NULLT, 'no dereference of a null pointer')
        if self.requires:
            ex.oblige(st, self.requires(*ts), 'the accessor fits the kind of the node')
        raise Unsup('accessor call')


class Mut(Fn):
    """attach and detach: self.slot = (kind, getter index)"""

    def __init__(self, name, params, slot):
        super().__init__(name, params)
        self.slot = slot

    def setup(self, ex, st):
        a = super().setup(ex, st)
        return a

    def check(self, ex, st, ret, args):
        ts = st.extra['terms']
        t = ts[0]
        kind, which = self.slot
        ok = And(t != NULLT, fkind(t) == kind)
        attach = len(ts) >= 2
        if kind == ARRAY:
            at = Z(args[1])
            ok = And(ok, at >= 0, at < fsize(t))
        for cond in (ok, Not(ok)):
            s = st.copy()
            s.pc.append(cond)
            if ex.check(s.pc) == z3.unsat:
                continue
            good = cond is ok
            if good:
                new = ('same', ts[-1]) if attach else ('same', NULLT)
                if kind == BINARY:
                    spec = ('bin', fop(t), new if which == 0 else ('same', fleft(t)), new if which == 1 else ('same', fright(t)))
                elif kind == ARRAY:
                    spec = ('arr', fsize(t), [(IntVal(0), at, lambda i: ('same', felem(t, i))), (at, at + 1, lambda i: new), (at + 1, fsize(t), lambda i: ('same', felem(t, i)))])
                else:
                    spec = ('un', fop(t), new)
                compare(ex, s, args[0], spec, 'the node')
                if attach:
                    ex.oblige(s, Z(ret) == 1, 'success is reported')
                    roots = [args[0]]
                else:
                    old = (fleft, fright)[which](t) if kind == BINARY else fchild(t)
                    r = ex.resolve(s, ret)
                    compare(ex, s, r, ('same', old), 'the operand handed back')
                    roots = [args[0], ret]
            else:
                s1 = s.copy()
                s1.pc.append(t != NULLT)
                if ex.check(s1.pc) != z3.unsat:
                    compare(ex, s1, args[0], ('same', t), 'the node')
                if attach:
                    ex.oblige(s, Z(ret) == 0, 'failure is reported')
                    roots = [args[0], args[-1]]
                else:
                    r = ex.resolve(s, ret)
                    ex.oblige(s, (NULLT if r is NULL else r.term if isinstance(r, Hnd) else t) == NULLT if not isinstance(r, Ptr) else BoolVal(False), 'nothing is handed back')
                    roots = [args[0]]
            ex.at_exit(s, roots)


def reg(c):
    CONTRACTS[c.name] = c
    return c


for _n, _k in (('string', STRING), ('identifier', IDENT), ('date', DATE), ('rfc3339', RFC)):
    reg(Maker('ast_create_' + _n, ['text'], sp_text(_k)))
reg(Maker('ast_create_number', ['text'], sp_num))
reg(Maker('ast_create_boolean', ['int'], lambda ex, st, a: ('bool', Z(a[0]))))
reg(Maker('ast_create_null', [], lambda ex, st, a: ('null',)))
reg(Maker('ast_create_binary', ['int', 'own', 'own'], lambda ex, st, a: ('bin', Z(a[0]), ('same', term(ex, st, a[1])), ('same', term(ex, st, a[2])))))
reg(Maker('ast_create_unary', ['int', 'own'], lambda ex, st, a: ('un', Z(a[0]), ('same', term(ex, st, a[1])))))
reg(Maker('ast_create_array', ['int', 'arr'], sp_arr))
reg(Free('ast_free', ['own'], measured=True))
reg(Clone('ast_clone', ['borrow'], measured=True))
isk = lambda *ks: (lambda t, *r: Or([fkind(t) == k for k in ks]))
reg(Get('get_number_value', ['borrow1'], ret=lambda t: fnum(t), requires=isk(NUMBER)))
reg(Get('get_string_value', ['borrow1'], ret=lambda t: None, requires=isk(*STRK), kind='text'))
reg(Get('get_boolean_value', ['borrow1'], ret=lambda t: fbool(t), requires=isk(BOOL), kind='truth'))
reg(Get('get_binary_op', ['borrow1'], ret=lambda t: fop(t), requires=isk(BINARY)))
reg(Get('get_binary_left', ['borrow1'], ret=lambda t: fleft(t), requires=isk(BINARY), kind='tree'))
reg(Get('get_binary_right', ['borrow1'], ret=lambda t: fright(t), requires=isk(BINARY), kind='tree'))
reg(Get('get_unary_op', ['borrow1'], ret=lambda t: fop(t), requires=isk(UNARY)))
reg(Get('get_unary_child', ['borrow1'], ret=lambda t: fchild(t), requires=isk(UNARY), kind='tree'))
reg(Get('get_array_size', ['borrow1'], ret=lambda t: fsize(t), requires=isk(ARRAY)))
reg(Get('get_array_element', ['borrow1', 'int'], ret=lambda t, i: felem(t, i), requires=lambda t, i: And(fkind(t) == ARRAY, i >= 0, i < fsize(t)), kind='tree'))
reg(Mut('ast_detach_binary_left', ['mut'], (BINARY, 0)))
reg(Mut('ast_detach_binary_right', ['mut'], (BINARY, 1)))
reg(Mut('ast_detach_unary_child', ['mut'], (UNARY, 0)))
reg(Mut('ast_attach_binary_left', ['mut', 'own1'], (BINARY, 0)))
reg(Mut('ast_attach_binary_right', ['mut', 'own1'], (BINARY, 1)))
reg(Mut('ast_attach_unary_child', ['mut', 'own1'], (UNARY, 0)))
reg(Mut('ast_attach_array_element', ['mut', 'int', 'own1'], (ARRAY, 0)))

MAKERS = [n for n in CONTRACTS if n.startswith('ast_create')]
GETTERS = [n for n in CONTRACTS if n.startswith('get_')]
USED_AS_CONTRACT = MAKERS + ['ast_free', 'ast_clone']

_ir = {}


def module(name):
    """the IR of one C file of the current tree (once per process; the parent loads it before forking)"""
    if name not in _ir:
        _ir[name] = cir.parse(cir.compile_ir(os.path.join(TSL, name), TSL))
    return _ir[name]


class CLoad:
    """lets the registry load the C files in the parent process"""

    def __init__(self, names):
        self.names = names

    def load(self):
        for n in self.names:
            module(n)


def finish(ex, r, tier):
    """discharges the obligations of a unit"""
    nbad = 0
    t_end = time.time() + (120 if tier == 'quick' else 400)
    for ob in ex.obls:
        t0 = time.time()
        status, be, model = 'proved', 'z3', ''
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            be = 'simplifier'
        elif nbad >= 5 or time.time() > t_end:
            status, be = 'not attempted', 'none'
        else:
            s = z3.Solver()
            s.set('timeout', 10000 if nbad < 2 else 3000)
            for f in ob.pc:
                s.add(f)
            s.add(Not(ob.goal))
            x = s.check()
            if x == z3.unsat:
                pass
            else:
                out = 'unknown'
                if x == z3.unknown:
                    import discharge
                    out = discharge.cvc5_check(s, 10)
                    if out == 'unsat':
                        be = 'cvc5'
                if out != 'unsat':
                    nbad += 1
                    status = 'refuted' if x == z3.sat or out == 'sat' else 'unknown'
                    if x == z3.sat:
                        model = str(s.model())[:2000]
        r['obls'].append(dict(name=ob.name, where=ob.where, status=status, backend=be, time=round(time.time() - t0, 3), model=model))
    return r


class CUnit:
    """the body of one C function against its contract"""

    def __init__(self, cname, files=('tsl_ast.c',), contract=None, inline=()):
        self.cname = cname
        self.name = cname
        self.files = files
        self.ctx = CLoad(files)
        self.contract = contract
        self.inline = inline

    def run(self, tier):
        r = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=['clang 18 (mem2reg, instsimplify) as the meaning of the C source'], assumed=[], inlined=[], funcs=[])
        mods = [module(n) for n in self.files]
        c = self.contract or CONTRACTS[self.cname]
        use = {n: (lambda ex, st, a, n=n: CONTRACTS[n].apply(ex, st, a)) for n in USED_AS_CONTRACT if n not in self.inline and (n != self.cname or getattr(c, 'measured', False))}
        ex = CExec(mods, use)
        ex.deadline = time.time() + (100 if tier == 'quick' else 300)
        if self.cname not in ex.fn:
            r['unsupported'] = 'the C function %s is not there any more' % self.cname
            return r
        try:
            st = State()
            args = c.setup(ex, st)
            if getattr(c, 'measured', False):
                ex.cur = self.cname
                ex.measure = args[0].term
            m, f = ex.fn[self.cname]
            if len(f.params) != len(args):
                r['unsupported'] = 'the C function %s has other parameters' % self.cname
                return r
            st.env = dict(zip([p[1] for p in f.params], args))
            pre = list(st.pc)
            outs = ex.run(m, f, st)
            live = 0
            work = list(outs)
            while work:
                ret, s = work.pop()
                if ex.check(s.pc) != z3.unsat:
                    live += 1
                ex.where = '%s: return' % self.cname
                base = s.copy()
                try:
                    c.check(ex, s, ret, args)
                except Fork as fk:
                    work += [(ret, y) for y in under(base, fk.conds)]
                except Dead:
                    pass
            r['paths'] = len(outs)
        except Unsup as e:
            r['unsupported'] = str(e)
            return r
        except RecursionError:
            r['unsupported'] = 'recursion too deep for the symbolic execution'
            return r
        except Exception as e:
            r['unsupported'] = 'the verification condition generator gave up: %s' % str(e)[:300]
            r['trace'] = traceback.format_exc()[-2500:]
            if os.environ.get('VCDEBUG'):
                traceback.print_exc()
            return r
        r['funcs'] = [self.cname] + sorted(ex.used)
        r['inlined'] = sorted(ex.inlined - {self.cname})
        r['trusted'] += ['assumed contract of the C library function ' + n for n in sorted(ex.models)]
        r['assumed'] = sorted(ex.assumed)
        finish(ex, r, tier)
        e0 = ex.check(pre)
        r['vacuity'] = 'entry state %s; %d of %d return paths satisfiable' % (e0, live, len(outs))
        ok = e0 != z3.unsat and (live or any(o['status'] != 'proved' for o in r['obls']))
        r['obls'].append(dict(name='canary: the contract is not vacuous', where=self.cname, status='proved' if ok else 'refuted', backend='z3', time=0, model='' if ok else r['vacuity']))
        return r
