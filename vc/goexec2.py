from goexec import *
import goexec as G


class Contract:
    def __init__(self, name, fn, post, pre=None, unfold=(), measure=None, params=None, heap_recv=False, terminates=True, prepy=None, leaf=(), pyspec=None, callunfold=None):
        self.name = name
        self.callunfold = callunfold    # which calls have the specification unfolded at their arguments
        self.fn = fn
        self.post = post          # spec function over args + results
        self.pre = pre            # spec function over args
        self.unfold = set(unfold)
        self.measure = measure    # index of the argument whose rank decreases, or python callable
        self.heap_recv = heap_recv
        self.terminates = terminates
        self.pyspec = pyspec
        self.leaf = leaf          # recursive specification functions whose base cases are given as axioms
        self.prepy = prepy        # precondition given as a formula over the argument terms


class Exec:
    def __init__(self, prog, contracts, models, specprefix='verif/', opts=None):
        self.p = prog
        self.contracts = {c.fn: c for c in contracts}
        self.models = models
        self.specprefix = specprefix
        self.opts = opts or {}
        self.cnt = itertools.count()
        self.created = []
        self.obls = []
        self.quiet = 0
        self.spec_mode = 0
        self.unfold = set()
        self.unfolding = []
        self.unfold_goal = False
        self.folds = []
        self.bounded = []
        self.used = {}
        self.inlined = set()
        self.assumed = set()
        self.unroll = self.opts.get('unroll', 3)
        self.depth = 0
        self.base_facts = []
        self.cur = None
        self.npaths = 0
        self.globheap = None
        self.unfold_facts = {}
        self.merge = True
        self.stack = []
        self.term_obls = []
        self.frame_oids = set()
        self.nfeas = 0
        self.opaque = set(self.opts.get('opaque', ()))
        self.comm = {}            # commutative uninterpreted functions in use
        self.fsolver = None
        self.fcount = 0
        self.fproxy = {}
        self.loops_summ = 0
        self.deadline = None
        self.slcache = {}
        self.used_models = set()

    # ------------------------------------------------------------ helpers
    def fresh(self, name, sort):
        c = Const('%s!%d' % (name, next(self.cnt)), sort)
        self.created.append(c)
        return c

    def freshfun(self, name, *sorts):
        f = Function('%s!%d' % (name, next(self.cnt)), *sorts)
        self.created.append(f)
        return f

    def oblige(self, st, goal, kind, where):
        if self.spec_mode:
            return
        goal = simplify(goal) if z3.is_expr(goal) else goal
        if is_true(goal):
            if not self.quiet:
                self.obls.append(Obligation(self.curname(), kind, None, BoolVal(True), where))
            return
        if not self.quiet:
            self.obls.append(Obligation(self.curname(), kind, st.formulas(), goal, where))
        st.fact(goal)

    def curname(self):
        return self.cur or '?'

    def where(self, fr, ins):
        return '%s:%s' % (short(fr['fn']), ins.get('line', '?'))

    def feasible(self, st, c):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget for path exploration exceeded')
        c = simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        self.nfeas += 1
        if self.fsolver is None or self.fcount > 400:
            self.fsolver = z3.Solver()
            self.fsolver.set('timeout', 400)
            self.fproxy = {}
            self.fcount = 0
        self.fcount += 1
        s = self.fsolver
        asm = []
        for f in st.formulas():
            if not has_quant(f):
                asm.append(self.proxy(f))
        asm.append(self.proxy(c))
        return s.check(*asm) != z3.unsat

    def proxy(self, f):
        i = f.get_id()
        r = self.fproxy.get(i)
        if r is None:
            b = Const('fp!%d' % i, BoolSort())
            self.fsolver.add(Implies(b, self.coded(f) if self.opts.get('codes') else f))
            r = self.fproxy[i] = (b, f)
        return r[0]

    def coded(self, f):
        """f with a comparison of a text with a constant replaced by one of numbers: what holds of f holds of it, for an injective numbering of the texts"""
        memo = self.__dict__.setdefault('codememo', {})
        nums = self.__dict__.setdefault('codenums', {})
        code = Function('text_code', StringSort(), IntSort())

        def go(e):
            i = e.get_id()
            if i in memo:
                return memo[i][0]
            if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
                r = e
            elif z3.is_eq(e) and e.arg(0).sort() == StringSort() and (z3.is_string_value(e.arg(0)) or z3.is_string_value(e.arg(1))):
                a, b = (e.arg(0), e.arg(1)) if z3.is_string_value(e.arg(1)) else (e.arg(1), e.arg(0))
                if z3.is_string_value(a):
                    r = BoolVal(a.as_string() == b.as_string())
                else:
                    r = code(go(a)) == nums.setdefault(b.as_string(), len(nums))
            else:
                ks = e.children()
                ns = [go(k) for k in ks]
                if any(z3.is_fp(k) for k in ks) and not z3.is_eq(e) and e.decl().kind() not in (z3.Z3_OP_ITE, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_CONSTRUCTOR) or z3.is_fp(e) and e.decl().kind() not in (z3.Z3_OP_ITE, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR):
                    # arithmetic by itself decides no branch here
                    r = Function('fp_%s_%s' % (e.decl().name(), '_'.join(x.sort().sexpr() for x in ns)), *([x.sort() for x in ns] + [e.sort()]))(*ns)
                else:
                    r = e if all(x.get_id() == y.get_id() for x, y in zip(ks, ns)) else e.decl()(*ns)
            memo[i] = (r, e)
            return r
        return go(f)

    # ------------------------------------------------------------ lowering
    def nil_of(self, tid):
        u = self.p.under(tid)
        k = u['kind']
        if k == 'interface':
            return self.p.Vnil
        s = self.p.sort(tid)
        if k == 'pointer' and isinstance(s, z3.DatatypeSortRef):
            return s.constructor(0)()
        if k == 'slice':
            return Const('nil_' + s.name(), s)
        return Const('nil_' + s.name(), s)

    def term(self, st, v, tid):
        """lowers a value to a term of the sort of its type"""
        p = self.p
        if z3.is_expr(v):
            return v
        if isinstance(v, StructV):
            s = p.sort(tid)
            u = p.under(tid)
            if not isinstance(s, z3.DatatypeSortRef):
                raise Unsupported('struct value of %s' % p.t(tid)['str'])
            return s.constructor(0)(*[self.term(st, x, f['type']) for x, f in zip(v.f, u['fields'])])
        if isinstance(v, NilV):
            r = self.nil_of(tid)
            if p.under(tid)['kind'] == 'slice':
                st.fact(p.slen(r) == 0)
                st.fact(self.slnil(r))
            return r
        if isinstance(v, LocPtr):
            s = p.sort(tid)
            if not isinstance(s, z3.DatatypeSortRef):
                raise Unsupported('pointer value of %s escapes' % p.t(tid)['str'])
            val = self.load(st, v)
            obj = st.heap[v.oid]
            if isinstance(obj, Cell) and not obj.frozen:
                st.heap[v.oid] = Cell(obj.tid, obj.v, True)
            return s.constructor(1)(self.term(st, val, p.under(tid)['elem']))
        if isinstance(v, SliceL):
            return self.sl_term(st, v, tid)
        if isinstance(v, Clo):
            key = (v.fn, tuple(id(b) for b in v.bind))
            c = Const('clo_%s' % v.fn, p.sort(tid))
            return c
        if isinstance(v, SymElemPtr):
            s = p.sort(tid)
            if isinstance(s, z3.DatatypeSortRef):
                return s.constructor(1)(self.term(st, v.val, p.under(tid)['elem']))
        raise Unsupported('cannot lower %r' % type(v))

    def slnil(self, s):
        return Function('isnil_' + s.sort().name(), s.sort(), BoolSort())(s)

    def arr_get(self, st, obj, i):
        """element i (absolute) of an array object"""
        if isinstance(obj.c, list):
            ii = self.asint(i)
            if ii is not None:
                if 0 <= ii < len(obj.c):
                    return obj.c[ii]
                raise Unsupported('index out of a concrete array')
            r = None
            for j in range(len(obj.c) - 1, -1, -1):
                t = self.term(st, obj.c[j], obj.etid)
                r = t if r is None else If(i == j, t, r)
            if r is None:
                return self.fresh('undef', self.p.sort(obj.etid))
            return r
        if not z3.is_expr(i):
            i = IntVal(i)
        return simplify(Select(obj.c, i))

    def asint(self, v):
        if isinstance(v, int):
            return v
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_expr(v):
            w = simplify(v)
            if z3.is_int_value(w):
                return w.as_long()
        return None

    def sl_term(self, st, v, tid):
        p = self.p
        s = p.sort(tid)
        obj = st.heap[v.oid]
        et = p.under(tid)['elem']
        if isinstance(obj.c, tuple):      # ('sl', term): view of an immutable sequence
            if self.asint(v.off) == 0 and z3.eq(simplify(v.len if z3.is_expr(v.len) else IntVal(v.len)), simplify(p.slen(obj.c[1]))):
                return obj.c[1]
        ck = None
        ln = v.len if z3.is_expr(v.len) else IntVal(v.len)
        r = self.fresh('sl', s)
        st.fact(p.slen(r) == ln)
        st.fact(Not(self.slnil(r)))
        if isinstance(obj.c, list) and self.asint(v.off) is not None and self.asint(v.len) is not None:
            o = self.asint(v.off)
            for j in range(self.asint(v.len)):
                st.fact(p.sat(r, IntVal(j), et) == self.term(st, obj.c[o + j], et))
        else:
            j = Int('j!%d' % next(self.cnt))
            el = self.term(st, self.arr_get(st, obj, simplify(v.off + j)), et)
            st.fact(ForAll([j], Implies(And(j >= 0, j < ln), p.sat(r, j, et) == el), patterns=[p.sat(r, j, et)]))
        if not obj.frozen:
            st.heap[v.oid] = ArrO(obj.etid, obj.n, obj.c, True)
        return r

    def sl_len(self, st, v, tid=None):
        if isinstance(v, SliceL):
            return v.len if z3.is_expr(v.len) else IntVal(v.len)
        if isinstance(v, NilV):
            return IntVal(0)
        return self.p.slen(v)

    def sl_get(self, st, v, i, etid):
        if isinstance(v, SliceL):
            return self.arr_get(st, st.heap[v.oid], simplify(v.off + i))
        if isinstance(v, NilV):
            return self.fresh('undef', self.p.sort(etid))
        return self.p.sat(v, i if z3.is_expr(i) else IntVal(i), etid)

    def arr_term(self, st, obj):
        """content of an array object as a z3 array"""
        if isinstance(obj.c, list):
            a = self.fresh('arr', ArraySort(IntSort(), self.p.sort(obj.etid)))
            for j, x in enumerate(obj.c):
                a = Store(a, IntVal(j), self.term(st, x, obj.etid))
            return a
        return obj.c

    # ------------------------------------------------------------ types and constants
    def zero(self, tid):
        p = self.p
        t = p.t(tid)
        if t['str'] == 'time.Time':
            return Const('zeroTime', p.sort(tid))
        u = p.under(tid)
        k = u['kind']
        if k == 'basic':
            n = u['name']
            if 'bool' in n:
                return BoolVal(False)
            if 'string' in n:
                return z3.StringVal('')
            if n == 'float64':
                return z3.FPVal(0.0, F64)
            if n == 'float32':
                return z3.FPVal(0.0, F32)
            if u['info'] & 2:
                return IntVal(0)
            return Const('zero_' + n.replace('.', '_'), p.sort(tid))
        if k == 'struct':
            if p._modelled(tid):
                return StructV(tid, [self.zero(f['type']) for f in u['fields']])
            return Const('zero_' + p.tname(tid), p.sort(tid))
        if k == 'array':
            return ('array', u['elem'], u['len'])
        return NilV(tid)

    def const(self, m):
        p = self.p
        tid = m['type']
        u = p.under(tid)
        if m.get('nil'):
            if u['kind'] in ('struct', 'basic', 'array') and p.t(tid)['str'] != 'untyped nil':
                return self.zero(tid)
            return NilV(tid)
        if 'bool' in m:
            return BoolVal(m['bool'])
        if 'strb' in m:
            import base64
            return bstr(base64.b64decode(m['strb']) if m['strb'] else b'')
        if 'int' in m or 'float' in m:
            s = m.get('int', m.get('float'))
            if u['kind'] == 'basic' and u['info'] & 2:
                return IntVal(int(s))
            from fractions import Fraction
            fr = Fraction(s)
            return z3.FPVal(float(fr), F32 if u.get('name') == 'float32' else F64)
        raise Unsupported('constant %r' % m)

    def sym(self, name, tid, st=None):
        """an arbitrary value of a type"""
        p = self.p
        s = p.sort(tid)
        c = self.fresh(name, s)
        if st is not None:
            self.typefacts(st, c, tid)
        return c

    def typefacts(self, st, c, tid):
        u = self.p.under(tid)
        if u['kind'] == 'basic' and u['name'] in INT_RANGE:
            lo, hi = INT_RANGE[u['name']]
            st.fact(And(c >= lo, c <= hi))
        if u['kind'] == 'slice':
            st.fact(self.p.slen(c) >= 0)
            st.fact(Implies(self.slnil(c), self.p.slen(c) == 0))
        if u['kind'] == 'interface' and u['methods'] and self.p.t(tid)['str'] != 'error':
            st.fact(Or(self.p.ctor['V_nil'][1](c), self.implements_cond(c, tid)))

    # ------------------------------------------------------------ memory
    def load(self, st, ptr):
        if isinstance(ptr, SymElemPtr):
            return ptr.val
        if isinstance(ptr, GlobPtr):
            return self.load_global(st, ptr.name)
        obj = st.heap[ptr.oid]
        if isinstance(obj, ArrO):
            v = self.arr_get(st, obj, ptr.path[0][1]) if ptr.path else obj
            return self.follow(st, v, ptr.path[1:])
        return self.follow(st, obj.v, ptr.path)

    def follow(self, st, v, path):
        for k, i in path:
            v = self.field(st, v, i) if k == 'f' else self.elem(st, v, i)
        return v

    def field(self, st, v, i):
        if isinstance(v, StructV):
            return v.f[i]
        if z3.is_expr(v):
            s = v.sort()
            if isinstance(s, z3.DatatypeSortRef):
                return simplify(s.accessor(0, i)(v))
            return self.opaque_field(v, i)
        raise Unsupported('field of %r' % type(v))

    def opaque_field(self, v, i):
        raise Unsupported('field of opaque %s' % v.sort())

    def elem(self, st, v, i):
        raise Unsupported('element path')

    def store(self, st, ptr, val):
        if isinstance(ptr, SymElemPtr):
            raise Unsupported('store to caller-owned memory')
        if isinstance(ptr, GlobPtr):
            raise Unsupported('store to global ' + ptr.name)
        obj = st.heap[ptr.oid]
        if obj.frozen:
            raise Unsupported('store to a value that was already shared')
        if isinstance(obj, ArrO):
            i = ptr.path[0][1]
            if len(ptr.path) > 1:
                old = self.arr_get(st, obj, i)
                val = self.upd(st, old, ptr.path[1:], val)
            ii = self.asint(i)
            if isinstance(obj.c, list) and ii is not None:
                c = list(obj.c)
                c[ii] = val
                st.heap[ptr.oid] = ArrO(obj.etid, obj.n, c)
            else:
                a = self.arr_term(st, obj)
                if isinstance(a, tuple):
                    raise Unsupported('store to caller-owned slice')
                st.heap[ptr.oid] = ArrO(obj.etid, obj.n, Store(a, i if z3.is_expr(i) else IntVal(i), self.term(st, val, obj.etid)))
            return
        st.heap[ptr.oid] = Cell(obj.tid, self.upd(st, obj.v, ptr.path, val))

    def upd(self, st, old, path, val):
        if not path:
            return val
        k, i = path[0]
        if k != 'f':
            raise Unsupported('nested element store')
        if isinstance(old, StructV):
            f = list(old.f)
            f[i] = self.upd(st, f[i], path[1:], val)
            return StructV(old.tid, f)
        if z3.is_expr(old) and isinstance(old.sort(), z3.DatatypeSortRef):
            s = old.sort()
            n = s.constructor(0).arity()
            f = [simplify(s.accessor(0, j)(old)) for j in range(n)]
            f[i] = self.upd(st, f[i], path[1:], val)
            return StructV(None, f)
        raise Unsupported('field store')

    def alloc(self, st, tid, v=None):
        oid = next(self.cnt)
        z = v if v is not None else self.zero(tid)
        if isinstance(z, tuple) and z and z[0] == 'array':
            st.heap[oid] = ArrO(z[1], z[2], [self.zero(z[1]) for _ in range(z[2])])
        else:
            st.heap[oid] = Cell(tid, z)
        return LocPtr(oid)

    def load_global(self, st, name):
        if self.globheap is None:
            self.globheap = {}
        if name not in self.globheap:
            self.globheap[name] = None
            self.globheap[name] = self.init_global(name)
        v = self.globheap[name]
        if v is None:
            g = self.p.globals.get(name)
            et = self.p.under(g['type'])['elem']
            return Const('glob_' + name, self.p.sort(et))
        val, heap = v
        for k, o in heap.items():
            st.heap.setdefault(k, o)
        return val

    def init_global(self, name):
        """value of a package variable that only its package initialiser writes, by running the initialiser"""
        pkg = name.rsplit('.', 1)[0]
        ini = pkg + '.init'
        if ini not in self.p.funcs:
            return None
        stores = 0
        for fn, f in self.p.funcs.items():
            for b in f['blocks']:
                for i in b['instrs']:
                    if i['op'] == 'Store' and i['addr'].get('k') == 'global' and i['addr']['name'] == name:
                        if not (fn == ini or fn.startswith(pkg + '.init#')):
                            return None
                        stores += 1
            if fn != ini and any(i['op'] == 'MapUpdate' for b in f['blocks'] for i in b['instrs']) and \
                    any(i['op'] == 'UnOp' and i['x'].get('k') == 'global' and i['x']['name'] == name for b in f['blocks'] for i in b['instrs']):
                return None
        if not stores:
            return None
        save = (self.quiet, self.spec_mode, self.globstore if hasattr(self, 'globstore') else None)
        self.quiet += 1
        self.spec_mode += 1
        self.globstore = {}
        try:
            st = State()
            self.exec_init(ini, st)
            v = self.globstore.get(name)
            if v is None:
                return None
            return (v, {k: (Cell(o.tid, o.v, True) if isinstance(o, Cell) else ArrO(o.etid, o.n, o.c, True) if isinstance(o, ArrO) else o) for k, o in st.heap.items()})
        except Unsupported:
            return None
        finally:
            self.quiet, self.spec_mode, self.globstore = save

    def exec_init(self, ini, st):
        f = self.p.funcs[ini]
        env = {}
        fr = {'fn': ini, 'bind': {}}
        for b in f['blocks']:
            for ins in b['instrs']:
                op = ins['op']
                if op in ('If', 'Jump', 'Return'):
                    continue
                if op == 'Call' and (ins.get('static') or '').endswith('.init'):
                    continue
                if op == 'UnOp' and ins['x'].get('k') == 'global' and ins['x']['name'] in self.globstore and ins['tok'] == '*':
                    env[ins['name']] = self.globstore[ins['x']['name']]
                    continue
                if op == 'Store' and ins['addr'].get('k') == 'global':
                    try:
                        self.globstore[ins['addr']['name']] = self.val(fr, env, ins['val'])
                    except (Unsupported, KeyError):
                        pass
                    continue
                if op == 'UnOp' and ins['x'].get('k') == 'global' and ins['x']['name'].endswith('init$guard'):
                    continue
                try:
                    self.instr(fr, ins, env, st)
                except (Unsupported, KeyError):
                    continue

    # ------------------------------------------------------------ equality
    def eq(self, st, a, b, tid, where=None, fp=True, fr=None, ins=None):
        p = self.p
        u = p.under(tid)
        k = u['kind']
        if p.t(tid)['str'] == 'time.Time':
            a, b = self.term(st, a, tid), self.term(st, b, tid)
            f = Function('time_structeq', a.sort(), a.sort(), BoolSort())
            st.fact(Implies(f(a, b), p.inst(a) == p.inst(b)))
            return f(a, b)
        if k == 'interface':
            if isinstance(a, NilV) or isinstance(b, NilV):
                x = b if isinstance(a, NilV) else a
                if isinstance(x, NilV):
                    return BoolVal(True)
                return simplify(p.ctor['V_nil'][1](self.term(st, x, tid)))
            return self.goeq(st, self.term(st, a, tid), self.term(st, b, tid), fr, ins)
        if k in ('pointer', 'slice', 'map', 'func', 'chan'):
            if isinstance(a, NilV) or isinstance(b, NilV):
                x = b if isinstance(a, NilV) else a
                return self.isnil(st, x, tid)
            if k == 'pointer' and isinstance(a, LocPtr) and isinstance(b, LocPtr):
                return BoolVal(a.oid == b.oid and a.path == b.path)
            a, b = self.term(st, a, tid), self.term(st, b, tid)
            if not isinstance(a.sort(), z3.DatatypeSortRef):
                return a == b
            raise Unsupported('pointer comparison')
        if k == 'struct':
            if not p._modelled(tid):
                return self.term(st, a, tid) == self.term(st, b, tid)
            return conj([self.eq(st, self.field(st, a, i), self.field(st, b, i), f['type'], where, fr=fr, ins=ins) for i, f in enumerate(u['fields'])])
        a, b = self.term(st, a, tid), self.term(st, b, tid)
        if z3.is_fp(a):
            return z3.fpEQ(a, b)
        return a == b

    def isnil(self, st, x, tid):
        if isinstance(x, NilV):
            return BoolVal(True)
        if isinstance(x, (LocPtr, SliceL, Clo, MapL, SymElemPtr, GlobPtr)):
            return BoolVal(False)
        s = x.sort()
        if isinstance(s, z3.DatatypeSortRef):
            return simplify(s.recognizer(0)(x))
        if s.name().startswith('Sl_'):
            return self.slnil(x)
        if s.name() == 'Fn':
            return x == Const('nil_Fn', s)
        return x == Const('nil_' + s.name(), s)

    def comparable_val(self, a):
        p = self.p
        r = []
        for t in p.dyn:
            c, rec, acc = p.ctor_of[t]
            if self.type_uncomparable(t):
                r.append(rec(a))
        f = Function('other_comparable', p.Val, BoolSort())
        return And(Not(disj(r)), Implies(p.ctor['V_other'][1](a), f(a)))

    def type_uncomparable(self, t):
        u = self.p.under(t)
        if u['kind'] in ('slice', 'map', 'func'):
            return True
        if u['kind'] == 'struct':
            return any(self.type_uncomparable(f['type']) for f in u['fields'])
        if u['kind'] == 'array':
            return self.type_uncomparable(u['elem'])
        return False

    def goeq(self, st, a, b, fr=None, ins=None, total=False):
        p = self.p
        cases = []
        same = []
        for name, (c, rec, acc) in p.ctor.items():
            if name == 'V_nil':
                cases.append(And(rec(a), rec(b)))
                continue
            if name == 'V_other':
                sm = And(rec(a), rec(b), acc[0](a) == acc[0](b))
                f = Function('other_eq', p.Val, p.Val, BoolSort())
                cases.append(And(sm, f(a, b), self.comparable_val(a), self.comparable_val(b)))
                same.append(sm)
                continue
            sm = And(rec(a), rec(b))
            tids = [t for t in p.dyn if p.ctor_name[t] == name]
            if tids:
                t = tids[0]
                if self.type_uncomparable(t):
                    same.append(sm)
                    continue
                u = p.under(t)
                x, y = acc[0](a), acc[0](b)
                if u['kind'] == 'struct' or p.t(t)['str'] == 'time.Time':
                    if p.t(t)['str'] == 'time.Time':
                        cases.append(And(sm, self.eq(st, x, y, t)))
                    else:
                        cases.append(And(sm, x == y))
                elif z3.is_fp(x):
                    cases.append(And(sm, z3.fpEQ(x, y)))
                else:
                    cases.append(And(sm, x == y))
            else:
                cases.append(And(sm, a == b))
        if not total and fr is not None:
            self.oblige(st, Or(Not(disj(same)), self.comparable_val(a), self.comparable_val(b)), 'no panic: comparing uncomparable values', self.where(fr, ins))
        return simplify(disj(cases))

    # ------------------------------------------------------------ execution
    def val(self, fr, env, m):
        k = m['k']
        if k == 'var':
            return env[m['name']]
        if k == 'const':
            return self.const(m)
        if k == 'func':
            return Clo(m['name'], ())
        if k == 'free':
            return fr['bind'][m['name']]
        if k == 'global':
            return GlobPtr(m['name'])
        if k == 'builtin':
            return ('builtin', m['name'])
        raise Unsupported(k)

    def exec_fn(self, fn, args, st, bind=()):
        """all outcomes ('return' with a list of results) of running fn from st"""
        f = self.p.funcs.get(fn)
        if f is None:
            raise Unsupported('no body for ' + short(fn))
        if len(self.stack) > 60:
            raise Unsupported('inlining too deep')
        self.stack.append(fn)
        try:
            fr = {'fn': fn, 'bind': {v['name']: b for v, b in zip(f['freevars'], bind)}, 'defers': True}
            env = {}
            for pm, a in zip(f['params'], args):
                env[pm['name']] = a
            return self.run(fr, 0, None, env, st, None)
        finally:
            self.stack.pop()

    def run(self, fr, b0, prev0, env0, st0, region, entry_header=None):
        """outcomes of executing from block b0; with region, leaving it or returning to entry_header ends a path"""
        f = self.p.funcs[fr['fn']]
        loops = self.p.loops(fr['fn'])
        out = []
        work = [(b0, prev0, env0, st0, True)]
        while work:
            b, prev, env, st, first = work.pop()
            if region is not None and not first:
                if b == entry_header:
                    out.append(Outcome('back', st, prev=prev, env=env))
                    continue
                if b not in region:
                    out.append(Outcome('exit', st, target=b, prev=prev, env=env))
                    continue
            if b in loops and not (first and b == entry_header and region is not None):
                for o in self.loop(fr, b, prev, env, st):
                    if o.kind == 'exit':
                        work.append((o.target, o.prev, o.env, o.state, False))
                    else:
                        out.append(o)
                continue
            self.npaths += 1
            if self.npaths > self.opts.get('max_paths', 60000):
                raise Unsupported('too many paths')
            blk = f['blocks'][b]
            # phis, in parallel (already set when entering a summarised header)
            phis = [i for i in blk['instrs'] if i['op'] == 'Phi']
            if phis and not (first and b == entry_header and region is not None):
                e = blk['preds'].index(prev)
                vals = [self.val(fr, env, i['edges'][e]) for i in phis]
                env = dict(env)
                for i, v in zip(phis, vals):
                    env[i['name']] = v
            pending = [(env, st, 0)]
            instrs = [i for i in blk['instrs'] if i['op'] != 'Phi']
            while pending:
                env, st, ix = pending.pop()
                dead = False
                while ix < len(instrs):
                    ins = instrs[ix]
                    op = ins['op']
                    if op == 'If':
                        c = self.val(fr, env, ins['cond'])
                        c = simplify(c)
                        t, e = blk['succs']
                        if is_true(c):
                            work.append((t, b, env, st, False))
                        elif is_false(c):
                            work.append((e, b, env, st, False))
                        else:
                            ft = self.feasible(st, c)
                            fe = self.feasible(st, Not(c)) if ft else True
                            if ft and fe:
                                s2 = st.fork()
                                s2.cond(simplify(Not(c)))
                                work.append((e, b, dict(env), s2, False))
                                st.cond(c)
                                work.append((t, b, env, st, False))
                            elif ft:
                                st.fact(c)
                                work.append((t, b, env, st, False))
                            else:
                                st.fact(simplify(Not(c)))
                                work.append((e, b, env, st, False))
                        dead = True
                        break
                    if op == 'Jump':
                        work.append((blk['succs'][0], b, env, st, False))
                        dead = True
                        break
                    if op == 'Return':
                        out.append(Outcome('return', st, res=[self.val(fr, env, r) for r in ins['results']]))
                        dead = True
                        break
                    if op == 'Panic':
                        self.oblige(st, BoolVal(False), 'no panic: explicit panic', self.where(fr, ins))
                        dead = True
                        break
                    rs = self.instr(fr, ins, env, st)
                    ix += 1
                    if rs is not None:
                        # list of (state, value): continue with each
                        if len(rs) == 0:
                            dead = True
                            break
                        for s2, v in rs[1:]:
                            e2 = dict(env)
                            if 'name' in ins:
                                e2[ins['name']] = v
                            pending.append((e2, s2, ix))
                        st, v = rs[0]
                        if len(rs) > 1:
                            env = dict(env)
                        if 'name' in ins:
                            env[ins['name']] = v
        return out

    # ------------------------------------------------------------ instructions
    def instr(self, fr, ins, env, st):
        op = ins['op']
        V = lambda m: self.val(fr, env, m)
        p = self.p
        if op == 'Call':
            return self.do_call(fr, ins, env, st)
        if op == 'Alloc':
            env[ins['name']] = self.alloc(st, ins['elem'])
        elif op == 'Store':
            self.nilcheck(st, V(ins['addr']), fr, ins)
            self.store(st, V(ins['addr']), V(ins['val']))
        elif op == 'UnOp':
            env[ins['name']] = self.unop(fr, ins, V(ins['x']), st)
        elif op == 'BinOp':
            env[ins['name']] = self.binop(fr, ins, V(ins['x']), V(ins['y']), st)
        elif op == 'FieldAddr':
            x = V(ins['x'])
            x = self.nilcheck(st, x, fr, ins)
            if isinstance(x, LocPtr):
                env[ins['name']] = LocPtr(x.oid, x.path + (('f', ins['field']),))
            elif isinstance(x, SymElemPtr):
                env[ins['name']] = SymElemPtr(self.field(st, x.val, ins['field']), None)
            elif isinstance(x, GlobPtr):
                v = self.load_global(st, x.name)
                env[ins['name']] = SymElemPtr(self.field(st, v, ins['field']), None)
            else:
                env[ins['name']] = SymElemPtr(self.sym_field(st, x, ins['field'], ins), None)
        elif op == 'Field':
            env[ins['name']] = self.field(st, V(ins['x']), ins['field'])
        elif op == 'IndexAddr':
            env[ins['name']] = self.index_addr(fr, ins, V(ins['x']), V(ins['i']), st)
        elif op == 'Index':
            x = V(ins['x'])
            u = p.under(ins['xt'])
            if u['kind'] == 'basic':
                i = V(ins['i'])
                self.oblige(st, And(i >= 0, i < z3.Length(x)), 'no panic: string index in range', self.where(fr, ins))
                env[ins['name']] = self.char_at(x, i)
            else:
                raise Unsupported('Index')
        elif op == 'Extract':
            t = V(ins['x'])
            env[ins['name']] = t.v[ins['i']]
        elif op == 'MakeInterface':
            env[ins['name']] = self.box(st, V(ins['x']), ins['xt'])
        elif op == 'TypeAssert':
            env[ins['name']] = self.type_assert(fr, ins, V(ins['x']), st)
        elif op in ('ChangeInterface', 'ChangeType'):
            v = V(ins['x'])
            if isinstance(v, NilV):
                v = NilV(ins['type'])
            elif isinstance(v, StructV):
                v = StructV(ins['type'], v.f)
            elif op == 'ChangeType' and z3.is_expr(v) and v.sort() != p.sort(ins['type']):
                v = self.retype(st, v, ins['xt'], ins['type'])
            env[ins['name']] = v
        elif op == 'Convert':
            env[ins['name']] = self.convert(fr, ins, V(ins['x']), st)
        elif op == 'MakeSlice':
            n = V(ins['len'])
            self.oblige(st, n >= 0, 'no panic: make with non-negative length', self.where(fr, ins))
            c = V(ins['cap'])
            if not z3.eq(simplify(c), simplify(n)):
                self.oblige(st, c >= n, 'no panic: make with capacity at least length', self.where(fr, ins))
            et = p.under(ins['type'])['elem']
            oid = next(self.cnt)
            nn = self.asint(n)
            if nn is not None and nn <= 64:
                st.heap[oid] = ArrO(et, nn, [self.zero(et) for _ in range(nn)])
            else:
                z = self.term(st, self.zero(et), et)
                st.heap[oid] = ArrO(et, n, K(IntSort(), z))
            env[ins['name']] = SliceL(oid, IntVal(0), n)
        elif op == 'MakeClosure':
            env[ins['name']] = Clo(ins['fn']['name'], [V(b) for b in ins['bind']])
        elif op == 'MakeMap':
            oid = next(self.cnt)
            st.heap[oid] = MapO(ins['type'], [])
            env[ins['name']] = MapL(oid)
        elif op == 'MapUpdate':
            m = V(ins['m'])
            if not isinstance(m, MapL):
                raise Unsupported('map update')
            o = st.heap[m.oid]
            st.heap[m.oid] = MapO(o.tid, o.ent + [(V(ins['key']), V(ins['val']))])
        elif op == 'Lookup':
            return self.lookup(fr, ins, env, st)
        elif op == 'Slice':
            env[ins['name']] = self.slice_op(fr, ins, env, st)
        elif op == 'RunDefers':
            return self.run_defers(fr, st)
        elif op == 'Defer':
            self.do_defer(fr, ins, env, st)
        elif op == 'Range' or op == 'Next':
            raise NeedBound('range over string or map')
        else:
            raise Unsupported(op)
        return None

    def do_defer(self, fr, ins, env, st):
        if 'invoke' in ins or not isinstance(fr, dict):
            raise Unsupported('defer of a method of an interface')
        fn = self.val(fr, env, ins['fn'])
        if not isinstance(fn, Clo):
            raise Unsupported('defer of a function value')
        k = ('defers', fr.setdefault('id', next(self.cnt)))
        st.ext[k] = st.ext.get(k, ()) + ((ins, fn, tuple(self.val(fr, env, a) for a in ins['args'])),)

    def run_defers(self, fr, st):
        k = ('defers', fr.get('id'))
        ds = st.ext.pop(k, ())
        cur = [st]
        for ins, fn, args in reversed(ds):
            nx = []
            for s in cur:
                nx += [s2 for s2, _ in self.call_named(fr, ins, fn.fn, list(args), s, fn.bind, ins.get('origin'))]
            cur = nx
        return [(s, None) for s in cur]

    def sym_field(self, st, x, i, ins):
        """field i of the struct a symbolic pointer points to (non-nil already obliged)"""
        s = x.sort()
        if isinstance(s, z3.DatatypeSortRef):
            return self.field(st, simplify(s.accessor(1, 0)(x)), i)
        # opaque pointer: a field function (memory is only read)
        f = Function('fld_%s_%d' % (s.name(), i), s, self.p.sort(self.p.under(ins['type'])['elem']))
        return f(x)

    def retype(self, st, v, ft, tt):
        u1, u2 = self.p.under(ft), self.p.under(tt)
        if u1['kind'] == 'struct' and isinstance(v.sort(), z3.DatatypeSortRef):
            return StructV(tt, [self.field(st, v, i) for i in range(len(u1['fields']))])
        if u1['kind'] == 'slice':
            f = Function('conv_%s_%s' % (v.sort().name(), self.p.sort(tt).name()), v.sort(), self.p.sort(tt))
            return f(v)
        raise Unsupported('ChangeType')

    def nilcheck(self, st, x, fr, ins):
        if isinstance(x, (LocPtr, SymElemPtr, GlobPtr)):
            return x
        if isinstance(x, NilV):
            self.oblige(st, BoolVal(False), 'no panic: nil dereference', self.where(fr, ins))
            raise Unsupported('nil dereference')
        s = x.sort()
        if isinstance(s, z3.DatatypeSortRef) and s.name().startswith('P_'):
            self.oblige(st, Not(s.recognizer(0)(x)), 'no panic: nil dereference', self.where(fr, ins))
            return x
        self.oblige(st, x != Const('nil_' + s.name(), s), 'no panic: nil dereference', self.where(fr, ins))
        return x

    def index_addr(self, fr, ins, x, i, st):
        p = self.p
        u = p.under(ins['xt'])
        if u['kind'] == 'pointer':      # pointer to array
            arr = p.under(u['elem'])
            x = self.nilcheck(st, x, fr, ins)
            self.oblige(st, And(i >= 0, i < arr['len']), 'no panic: index in range', self.where(fr, ins))
            if isinstance(x, LocPtr) and not x.path:
                return LocPtr(x.oid, (('i', i),))
            if isinstance(x, GlobPtr):
                v = self.load_global(st, x.name)
            raise Unsupported('array element address')
        n = self.sl_len(st, x)
        self.oblige(st, And(i >= 0, i < n), 'no panic: index in range', self.where(fr, ins))
        if isinstance(x, SliceL):
            return LocPtr(x.oid, (('i', simplify(x.off + i)),))
        if isinstance(x, NilV):
            return SymElemPtr(self.fresh('undef', p.sort(u['elem'])), u['elem'])
        el = p.sat(x, i, u['elem'])
        self.typefacts(st, el, u['elem'])
        return SymElemPtr(el, u['elem'])

    def char_at(self, x, i):
        return z3.StrToCode(z3.SubString(x, i, 1))

    def unop(self, fr, ins, x, st):
        tok = ins['tok']
        if tok == '*':
            x = self.nilcheck(st, x, fr, ins)
            if isinstance(x, (LocPtr, SymElemPtr, GlobPtr)):
                v = self.load(st, x)
                if isinstance(v, ArrO):
                    raise Unsupported('array value')
                return v
            s = x.sort()
            if isinstance(s, z3.DatatypeSortRef):
                return simplify(s.accessor(1, 0)(x))
            f = Function('deref_%s' % s.name(), s, self.p.sort(ins['type']))
            return f(x)
        if tok == '!':
            return simplify(Not(x))
        if tok == '-':
            if z3.is_fp(x):
                return simplify(z3.fpNeg(x))
            return self.wrap(st, -x, ins['type'], fr, ins)
        raise Unsupported('unop ' + tok)

    def wrap(self, st, t, tid, fr, ins):
        """integer arithmetic is mathematical; leaving the range of the type is an obligation"""
        u = self.p.under(tid)
        t = simplify(t)
        if u['kind'] == 'basic' and u['name'] in INT_RANGE and not self.spec_mode:
            if z3.is_int_value(t):
                return t
            lo, hi = INT_RANGE[u['name']]
            if hi >= 2**62:
                # counters and lengths: stay far below 2^63 (lengths are bounded by memory)
                self.assumed.add('64-bit integer arithmetic treated as mathematical (no value here leaves the int64 range: lengths, indices, positions)')
                return t
            self.oblige(st, And(t >= lo, t <= hi), 'no integer overflow', self.where(fr, ins))
        return t

    def fuf(self, name, a, b):
        f = Function('f64_' + name if a.sort() == F64 else 'f32_' + name, a.sort(), a.sort(), a.sort())
        if name in ('add', 'mul'):
            self.comm[f.name()] = f
        return f(a, b)

    def binop(self, fr, ins, x, y, st):
        tok = ins['tok']
        p = self.p
        xt = ins['xt']
        if tok in ('==', '!='):
            t = xt
            # comparison of an interface with a concrete value is made explicit by MakeInterface
            if isinstance(x, NilV) and not isinstance(y, NilV):
                t = ins['yt']
            r = self.eq(st, x, y, t, fr=fr, ins=ins)
            return simplify(r if tok == '==' else Not(r))
        x = self.term(st, x, xt)
        y = self.term(st, y, ins['yt'])
        u = p.under(xt)
        if z3.is_fp(x):
            if tok in ('<', '<=', '>', '>='):
                return simplify({'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[tok](x, y))
            nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(tok)
            if nm:
                if z3.is_fp_value(x) and z3.is_fp_value(y):
                    return simplify({'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[nm](RNE, x, y))
                return self.fuf(nm, x, y)
        elif z3.is_string(x):
            if tok == '+':
                return simplify(z3.Concat(x, y))
            if tok in ('<', '<=', '>', '>='):
                return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: y < x, '>=': lambda: y <= x}[tok]()
        elif z3.is_int(x):
            if tok in ('<', '<=', '>', '>='):
                return simplify({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[tok])
            if tok == '+':
                return self.wrap(st, x + y, ins['type'], fr, ins)
            if tok == '-':
                return self.wrap(st, x - y, ins['type'], fr, ins)
            if tok == '*':
                return self.wrap(st, x * y, ins['type'], fr, ins)
            if tok in ('/', '%'):
                self.oblige(st, y != 0, 'no panic: integer division by zero', self.where(fr, ins))
                if z3.is_int_value(x) and z3.is_int_value(y) and y.as_long() != 0:
                    a, b = x.as_long(), y.as_long()
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return IntVal(q if tok == '/' else a - b * q)
                f = Function('int_quo' if tok == '/' else 'int_rem', IntSort(), IntSort(), IntSort())
                r = f(x, y)
                if tok == '%':
                    st.fact(Implies(y > 0, And(r > -y, r < y, Implies(x >= 0, r >= 0))))
                return r
            if tok in ('&', '|', '^', '<<', '>>', '&^'):
                if z3.is_int_value(simplify(x)) and z3.is_int_value(simplify(y)):
                    a, b = simplify(x).as_long(), simplify(y).as_long()
                    return IntVal({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 64 else 0, '>>': a >> b, '&^': a & ~b}[tok])
                f = Function('int_' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr', '&^': 'andnot'}[tok], IntSort(), IntSort(), IntSort())
                return f(x, y)
        elif z3.is_bool(x):
            if tok == '&':
                return And(x, y)
            if tok == '|':
                return Or(x, y)
        raise Unsupported('binop %s on %s' % (tok, x.sort()))

    def convert(self, fr, ins, x, st):
        p = self.p
        ft, tt = p.under(ins['xt']), p.under(ins['type'])
        if ft['kind'] == 'basic' and tt['kind'] == 'basic':
            fi, ti = ft['info'], tt['info']
            if fi & 2 and ti & 2:           # int -> int
                if ft['name'] == tt['name'] or p.iscgo(ins['xt']) or p.iscgo(ins['type']):
                    pass
                if tt['name'] in INT_RANGE:
                    lo, hi = INT_RANGE[tt['name']]
                    flo, fhi = INT_RANGE.get(ft['name'], (-2**63, 2**63 - 1))
                    if flo < lo or fhi > hi:
                        f = Function('wrap_' + tt['name'], IntSort(), IntSort())
                        if z3.is_int_value(x):
                            n = x.as_long()
                            m = (n - lo) % (hi - lo + 1) + lo
                            return IntVal(m)
                        st.fact(Implies(And(x >= lo, x <= hi), f(x) == x))
                        st.fact(And(f(x) >= lo, f(x) <= hi))
                        return f(x)
                return x
            if fi & 2 and ti & 8:           # int -> float
                s = F32 if tt['name'] == 'float32' else F64
                if z3.is_int_value(x):
                    return z3.FPVal(float(x.as_long()), s)
                f = Function('int_to_' + tt['name'], IntSort(), s)
                return f(x)
            if fi & 8 and ti & 8:
                s = F32 if tt['name'] == 'float32' else F64
                if x.sort() == s:
                    return x
                if z3.is_fp_value(x):
                    return simplify(z3.fpFPToFP(RNE, x, s))
                return Function('f32_to_f64' if s == F64 else 'f64_to_f32', x.sort(), s)(x)
            if fi & 8 and ti & 2:           # float -> int
                f = Function('float_to_' + tt['name'], x.sort(), IntSort())
                r = f(x)
                lo, hi = INT_RANGE[tt['name']]
                st.fact(And(r >= lo, r <= hi))
                return r
            if fi & 32 and ti & 32:
                return x
            if fi & 2 and ti & 32:          # rune -> string
                if z3.is_int_value(x):
                    return bstr(chr(x.as_long()).encode())
                f = Function('rune_to_string', IntSort(), StringSort())
                return f(x)
            if tt['name'] in ('unsafe.Pointer', 'Pointer') or ft['name'] in ('unsafe.Pointer', 'Pointer'):
                return self.ptrcast(st, x, ins)
        if tt['kind'] == 'basic' and tt['name'] in ('unsafe.Pointer', 'Pointer') or ft['kind'] == 'basic' and ft['name'] in ('unsafe.Pointer', 'Pointer'):
            return self.ptrcast(st, x, ins)
        if ft['kind'] == 'slice' and tt['kind'] == 'basic':
            return self.bytes_to_string(st, x, ins)
        if ft['kind'] == 'basic' and tt['kind'] == 'slice':
            et = p.under(tt['elem'])
            f = Function('string_to_' + et['name'] + 's', StringSort(), p.sort(ins['type']))
            r = f(x)
            st.fact(p.slen(r) >= 0)
            if et['name'] in ('uint8', 'byte'):
                st.fact(p.slen(r) == z3.Length(x))
            return r
        raise Unsupported('convert %s -> %s' % (p.t(ins['xt'])['str'], p.t(ins['type'])['str']))

    def ptrcast(self, st, x, ins):
        s = self.p.sort(ins['type'])
        t = self.term(st, x, ins['xt'])
        f = Function('cast_%s_%s' % (t.sort().name(), s.name()), t.sort(), s)
        return f(t)

    def bytes_to_string(self, st, x, ins):
        p = self.p
        et = p.under(p.under(ins['xt'])['elem'])
        if isinstance(x, SliceL):
            obj = st.heap[x.oid]
            if isinstance(obj.c, list) and self.asint(x.len) is not None:
                vals = [self.asint(self.sl_get(st, x, IntVal(i), None)) for i in range(self.asint(x.len))]
                if all(v is not None for v in vals):
                    if et['name'] in ('uint8', 'byte'):
                        return bstr(bytes(vals))
                    return bstr(''.join(chr(v) for v in vals).encode())
            t = self.sl_term(st, x, ins['xt'])
        elif isinstance(x, NilV):
            return z3.StringVal('')
        else:
            t = x
        f = Function('string_of_' + t.sort().name(), t.sort(), StringSort())
        return f(t)

    # ------------------------------------------------------------ interfaces
    def box(self, st, v, tid):
        p = self.p
        if tid not in p.ctor_of:
            raise Unsupported('dynamic type %s' % p.t(tid)['str'])
        r = p.ctor_of[tid][0](self.term(st, v, tid))
        h = self.models.get(('box', p.t(tid)['str']))
        if h:
            h(self, st, r, v, tid)
        return r

    def implements(self, tid, iface):
        need = self.p.under(iface)['methods']
        return all('%d.%s' % (tid, m) in self.p.methods for m in need)

    def implements_cond(self, x, at):
        p = self.p
        yes = []
        for t in p.dyn:
            if self.implements(t, at):
                yes.append(p.ctor_of[t][1](x))
        f = Function('implements_%s' % p.t(at)['str'], p.Val, BoolSort())
        yes.append(And(p.ctor['V_other'][1](x), f(x)))
        return disj(yes)

    def type_assert(self, fr, ins, x, st):
        p = self.p
        at = ins['at']
        if isinstance(x, NilV):
            x = p.Vnil
        if p.under(at)['kind'] == 'interface':
            if not p.under(at)['methods']:
                c = Not(p.ctor['V_nil'][1](x))
            else:
                c = self.implements_cond(x, at)
            c = simplify(c)
            if ins['commaok']:
                return TupleV([If(c, x, p.Vnil), c])
            self.oblige(st, c, 'no panic: type assertion', self.where(fr, ins))
            return x
        if at not in p.ctor_of:
            raise Unsupported('assertion to %s' % p.t(at)['str'])
        ctor, rec, acc = p.ctor_of[at]
        c = simplify(rec(x))
        v = simplify(acc[0](x))
        if not ins['commaok']:
            self.oblige(st, c, 'no panic: type assertion to %s' % p.t(at)['str'], self.where(fr, ins))
            self.typefacts(st, v, at)
            return v
        if is_true(c):
            self.typefacts(st, v, at)
            return TupleV([v, c])
        if is_false(c):
            return TupleV([self.zero(at), c])
        z = self.zero(at)
        if not (isinstance(z, NilV) and p.under(at)['kind'] in ('pointer', 'slice')) and not isinstance(z, StructV):
            z = self.term(st, z, at)
            val = If(c, v, z)
        else:
            # the zero value is only seen when the assertion failed; keep the accessor term, which is unspecified then
            val = v
        u = p.under(at)
        if u['kind'] == 'slice':
            st.fact(Implies(c, p.slen(v) >= 0))
        if u['kind'] == 'basic' and u['name'] in INT_RANGE:
            lo, hi = INT_RANGE[u['name']]
            st.fact(Implies(c, And(v >= lo, v <= hi)))
        return TupleV([val, c])

    # ------------------------------------------------------------ maps and slices
    def lookup(self, fr, ins, env, st):
        p = self.p
        m = self.val(fr, env, ins['x'])
        k = self.val(fr, env, ins['i'])
        u = p.under(ins['xt'])
        if u['kind'] == 'basic':
            self.oblige(st, And(k >= 0, k < z3.Length(m)), 'no panic: string index in range', self.where(fr, ins))
            env[ins['name']] = self.char_at(m, k)
            return None
        vt = u['elem']
        if isinstance(m, MapL):
            ent = st.heap[m.oid].ent
            # candidates from the latest entry on
            res = []
            cur = st
            for kk, vv in reversed(ent):
                c = simplify(self.eq(cur, kk, k, u['key'], fr=fr, ins=ins))
                if is_false(c):
                    continue
                if is_true(c):
                    res.append((cur, vv, BoolVal(True)))
                    cur = None
                    break
                if not self.feasible(cur, c):
                    cur.fact(simplify(Not(c)))
                    continue
                s2 = cur.fork()
                s2.cond(c)
                res.append((s2, vv, BoolVal(True)))
                cur.cond(simplify(Not(c)))
            if cur is not None:
                res.append((cur, self.zero(vt), BoolVal(False)))
            return [(s, TupleV([v, ok]) if ins['commaok'] else v) for s, v, ok in res]
        if isinstance(m, NilV):
            v, ok = self.zero(vt), BoolVal(False)
        else:
            kt = self.term(st, k, u['key'])
            mf = Function('map_get_%s' % m.sort().name(), m.sort(), kt.sort(), p.sort(vt))
            mo = Function('map_has_%s' % m.sort().name(), m.sort(), kt.sort(), BoolSort())
            ok = mo(m, kt)
            z = self.zero(vt)
            v = If(ok, mf(m, kt), self.term(st, z, vt))
        env[ins['name']] = TupleV([v, ok]) if ins['commaok'] else v
        return None

    def slice_op(self, fr, ins, env, st):
        p = self.p
        x = self.val(fr, env, ins['x'])
        u = p.under(ins['xt'])
        lo = self.val(fr, env, ins['lo']) if ins['lo'] else IntVal(0)
        if u['kind'] == 'basic':     # string
            n = z3.Length(x)
            hi = self.val(fr, env, ins['hi']) if ins['hi'] else n
            self.oblige(st, And(lo >= 0, lo <= hi, hi <= n), 'no panic: slice bounds', self.where(fr, ins))
            return simplify(z3.SubString(x, lo, hi - lo))
        if u['kind'] == 'pointer':   # pointer to array
            n = IntVal(p.under(u['elem'])['len'])
            hi = self.val(fr, env, ins['hi']) if ins['hi'] else n
            self.oblige(st, And(lo >= 0, lo <= hi, hi <= n), 'no panic: slice bounds', self.where(fr, ins))
            return SliceL(x.oid, lo, simplify(hi - lo))
        n = self.sl_len(st, x)
        hi = self.val(fr, env, ins['hi']) if ins['hi'] else n
        self.oblige(st, And(lo >= 0, lo <= hi, hi <= n), 'no panic: slice bounds', self.where(fr, ins))
        if isinstance(x, SliceL):
            return SliceL(x.oid, simplify(x.off + lo), simplify(hi - lo))
        if isinstance(x, NilV):
            return x
        # subsequence of an immutable sequence: a view object
        et = u['elem']
        oid = next(self.cnt)
        j = Int('j!%d' % next(self.cnt))
        a = self.fresh('view', ArraySort(IntSort(), p.sort(et)))
        st.fact(ForAll([j], Select(a, j) == p.sat(x, j, et), patterns=[Select(a, j)]))
        st.heap[oid] = ArrO(et, n, a, True)
        return SliceL(oid, lo, simplify(hi - lo))

    def do_append(self, fr, ins, args, st):
        p = self.p
        tid = ins['type']
        et = p.under(tid)['elem']
        s, t = args
        n1, n2 = self.sl_len(st, s), self.sl_len(st, t)
        c1, c2 = self.asint(n1), self.asint(n2)
        oid = next(self.cnt)
        if c1 is not None and c2 is not None:
            st.heap[oid] = ArrO(et, c1 + c2, [self.sl_get(st, s, IntVal(i), et) for i in range(c1)] + [self.sl_get(st, t, IntVal(i), et) for i in range(c2)])
            return SliceL(oid, IntVal(0), IntVal(c1 + c2))
        srt = ArraySort(IntSort(), p.sort(et))
        if isinstance(s, SliceL) and self.asint(s.off) == 0:
            a = self.arr_term(st, st.heap[s.oid])
        else:
            a = self.fresh('app', srt)
            if c1 is not None:
                for i in range(c1):
                    a = Store(a, IntVal(i), self.term(st, self.sl_get(st, s, IntVal(i), et), et))
            else:
                j = Int('j!%d' % next(self.cnt))
                st.fact(ForAll([j], Implies(And(j >= 0, j < n1), Select(a, j) == self.term(st, self.sl_get(st, s, j, et), et)), patterns=[Select(a, j)]))
        if c2 is not None:
            for i in range(c2):
                a = Store(a, simplify(n1 + i), self.term(st, self.sl_get(st, t, IntVal(i), et), et))
        else:
            b = self.fresh('app', srt)
            j = Int('j!%d' % next(self.cnt))
            st.fact(ForAll([j], Select(b, j) == If(j < n1, Select(a, j), self.term(st, self.sl_get(st, t, simplify(j - n1), et), et)), patterns=[Select(b, j)]))
            a = b
        ln = simplify(n1 + n2)
        st.heap[oid] = ArrO(et, ln, a)
        return SliceL(oid, IntVal(0), ln)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, ins, env, st):
        p = self.p
        args = [self.val(fr, env, a) for a in ins['args']]
        if 'invoke' in ins:
            return self.invoke(fr, ins, env, st, args)
        fn = self.val(fr, env, ins['fn'])
        if isinstance(fn, tuple) and fn[0] == 'builtin':
            env_v = self.builtin(fr, ins, fn[1], args, st)
            if 'name' in ins:
                env[ins['name']] = env_v
            return None
        if isinstance(fn, Clo):
            return self.call_named(fr, ins, fn.fn, args, st, fn.bind, ins.get('origin'))
        if isinstance(fn, NilV):
            self.oblige(st, BoolVal(False), 'no panic: call of nil function', self.where(fr, ins))
            return []
        # opaque function value: a pure function of its arguments
        return [(st, self.call_opaque(fn, args, ins, st))]

    def call_opaque(self, fn, args, ins, st):
        p = self.p
        sig = p.under(ins['sig'])
        ats = sig['params']
        targs = [self.term(st, a, t) for a, t in zip(args, ats)]
        self.assumed.add('callback functions are deterministic and do not touch the tree or record during one call')
        res = []
        for i, rt in enumerate(sig['results']):
            f = Function('call_%d_%d' % (ins['sig'], i), fn.sort(), *[a.sort() for a in targs], p.sort(rt))
            r = f(fn, *targs)
            self.typefacts(st, r, rt)
            res.append(r)
        return res[0] if len(res) == 1 else TupleV(res)

    def builtin(self, fr, ins, name, args, st):
        p = self.p
        if name == 'len':
            a = args[0]
            if z3.is_expr(a) and z3.is_string(a):
                return simplify(z3.Length(a))
            if isinstance(a, MapL):
                raise Unsupported('len of map')
            r = self.sl_len(st, a)
            return simplify(r)
        if name == 'cap':
            raise Unsupported('cap')
        if name == 'append':
            return self.do_append(fr, ins, args, st)
        if name == 'panic':
            self.oblige(st, BoolVal(False), 'no panic', self.where(fr, ins))
            return None
        if name in ('print', 'println'):
            return None
        if name.startswith('ssa:wrapnilchk'):
            return args[0]
        raise Unsupported('builtin ' + name)

    def resname(self, fn):
        return fn

    def call_named(self, fr, ins, fn, args, st, bind=(), origin=None):
        p = self.p
        for key in (fn, origin):
            if key and key in self.models:
                if not self.spec_mode:
                    self.used_models.add(key)
                r = self.models[key](self, fr, ins, args, st)
                if isinstance(r, list):
                    return r
                return [(st, r)]
        base = fn.rsplit('.', 1)[-1]
        if fn in self.contracts and not (self.spec_mode and not self.isspec(fn)) or (fn in self.contracts):
            return self.call_contract(fr, ins, self.contracts[fn], args, st)
        if self.isspec(fn) and (fn in p.sccs() or base in self.opaque) and p.funcs.get(fn) and '$' not in base:
            return [(st, self.spec_rec(fn, args, st))]
        if fn not in p.funcs:
            return self.call_extern(fr, ins, fn, args, st)
        if fn in p.sccs() and self.stack.count(fn) >= 1 and not self.isspec(fn):
            raise Unsupported('recursive function without contract: ' + short(fn))
        if not self.isspec(fn):
            self.inlined.add(fn)
        return self.inline(fr, ins, fn, args, st, bind)

    def isspec(self, fn):
        return fn.startswith(self.specprefix) or fn.startswith('(' + self.specprefix) or fn.startswith('(*' + self.specprefix)

    def call_extern(self, fr, ins, fn, args, st):
        raise Unsupported('call of ' + fn)

    def inline(self, fr, ins, fn, args, st, bind=()):
        base = len(st.pc)
        outs = [o for o in self.exec_fn(fn, args, st.fork(), bind) if o.kind == 'return']
        f = self.p.funcs[fn]
        if not outs:
            return []
        if len(outs) == 1:
            o = outs[0]
            return [(o.state, self.pack(o.res))]
        if self.merge or self.spec_mode:
            m = self.try_merge(st, base, outs, f['results'])
            if m is not None:
                return m
        return [(o.state, self.pack(o.res)) for o in outs]

    def pack(self, res):
        if len(res) == 1:
            return res[0]
        return TupleV(res)

    def try_merge(self, st0, base, outs, rtypes):
        """joins the outcomes of a call that had no side effect on existing memory"""
        p = self.p
        keys = set(st0.heap)
        for o in outs:
            for k in keys:
                if o.state.heap.get(k) is not st0.heap[k]:
                    a, b = o.state.heap.get(k), st0.heap[k]
                    # freezing is not a side effect
                    if type(a) is type(b) and getattr(a, 'v', None) is getattr(b, 'v', None) and getattr(a, 'c', None) is getattr(b, 'c', None) and isinstance(a, (Cell, ArrO)):
                        continue
                    return None
            if o.state.ext != st0.ext:
                return None
        st = st0.fork()
        conds = []
        results = []
        for o in outs:
            cs = [c for b, c in o.state.pc[base:] if b]
            results.append((conj(cs), o))
        # lower every result
        rows = []
        try:
            for c, o in results:
                row = []
                for v, t in zip(o.res, rtypes):
                    row.append(v)
                rows.append(row)
            merged = []
            for i, t in enumerate(rtypes):
                vs = [r[i] for r in rows]
                if all(v is vs[0] for v in vs):
                    merged.append(vs[0])
                    continue
                terms = []
                for (c, o), v in zip(results, vs):
                    terms.append(self.term(o.state, v, t))
                r = terms[-1]
                for (c, o), tm in list(zip(results, terms))[-2::-1]:
                    r = If(c, tm, r)
                merged.append(simplify(r) if not has_quant(r) else r)
        except Unsupported:
            return None
        for k in keys:
            st.heap[k] = outs[0].state.heap[k]
        for o in outs:
            for k in o.state.heap:
                if k not in st.heap:
                    st.heap[k] = o.state.heap[k]
                elif getattr(o.state.heap[k], 'frozen', False) and k in keys:
                    st.heap[k] = o.state.heap[k]
        for c, o in results:
            fs = [f for b, f in o.state.pc[base:] if not b]
            if fs:
                st.fact(Implies(c, conj(fs)) if not is_true(c) else conj(fs))
        st.fact(disj([c for c, _ in results]))
        return [(st, self.pack(merged))]

    def spec_rec(self, fn, args, st):
        """application of a recursive specification function; unfolded once where asked for"""
        p = self.p
        f = p.funcs[fn]
        targs = [self.term(st, a, pm['type']) for a, pm in zip(args, f['params'])]
        ress = []
        for i, rt in enumerate(f['results']):
            uf = Function('spec_%s_%d' % (fn.split('/')[-1], i), *[a.sort() for a in targs], p.sort(rt))
            ress.append(uf(*targs))
        sn = fn.rsplit('.', 1)[-1]
        if sn in self.unfold and self.unfold_goal and (not self.unfolding or sn in self.opts.get('through', ()) and fn not in self.unfolding):
            key = (fn,) + tuple(a.get_id() for a in targs)
            self.unfolding.append(fn)
            try:
                sub = st.fork()
                base = len(sub.pc)
                self.spec_mode += 1
                outs = [o for o in self.exec_fn(fn, targs, sub) if o.kind == 'return']
                m = self.try_merge(st, len(st.pc), outs, f['results']) if len(outs) > 1 else [(outs[0].state, self.pack(outs[0].res))]
                if m is None:
                    raise Unsupported('cannot merge the body of ' + fn)
                s2, v = m[0]
                vs = v.v if isinstance(v, TupleV) else [v]
                defs = []
                for r, x, rt in zip(ress, vs, f['results']):
                    defs.append(r == self.term(s2, x, rt))
                st.pc = s2.pc
                st.heap = s2.heap
                for d in defs:
                    st.fact(d)
                self.unfold_facts[key] = (targs, ress)
            finally:
                self.spec_mode -= 1
                self.unfolding.pop()
        return self.pack(ress)

    def leaf_axioms(self, fn):
        """the non-recursive cases of a recursive specification function, as universally quantified definitions"""
        p = self.p
        f = p.funcs[fn]
        vs = [Const('leaf_%s' % pm['name'], p.sort(pm['type'])) for pm in f['params']]
        mark = len(self.created)
        self.spec_mode += 1
        save = (self.unfold, self.unfold_goal, self.unfolding, self.stack, self.merge)
        self.unfold, self.unfold_goal, self.unfolding, self.stack = set(), False, [], []
        try:
            outs = [o for o in self.exec_fn(fn, vs, State()) if o.kind == 'return']
        finally:
            self.spec_mode -= 1
            self.unfold, self.unfold_goal, self.unfolding, self.stack, self.merge = save
        ax = []
        for o in outs:
            cs = [c for b, c in o.state.pc if b]
            vals = [self.term(o.state, v, t) for v, t in zip(o.res, f['results'])]
            names = set()
            for e in cs + vals:
                consts_in(e, names)
            txt = ' '.join(e.sexpr() for e in cs + vals)
            if 'spec_' in txt or any('!' in n for n in names) or any(has_quant(e) for e in cs + vals):
                continue
            for i, (v, rt) in enumerate(zip(vals, f['results'])):
                uf = Function('spec_%s_%d' % (fn.split('/')[-1], i), *[a.sort() for a in vs], p.sort(rt))
                ax.append(ForAll(vs, Implies(conj(cs), uf(*vs) == v), patterns=[uf(*vs)]))
        del self.created[mark:]
        return ax

    def spec_eval(self, fn, args, st, goal, unfold=()):
        """truth of a specification predicate as a formula; definitional facts are added to st"""
        save = (self.unfold, self.unfold_goal, self.unfolding, self.stack)
        self.unfold, self.unfold_goal, self.unfolding, self.stack = set(unfold), goal, [], []
        self.spec_mode += 1
        try:
            f = self.p.funcs[fn]
            fr = {'fn': fn, 'bind': {}}
            rs = self.inline(fr, {'line': 0}, fn, args, st)
            if len(rs) != 1:
                # join by hand
                res = disj([conj([c for b, c in s.pc[len(st.pc):]] + [v]) for s, v in rs])
                return res
            s2, v = rs[0]
            st.pc = s2.pc
            st.heap = s2.heap
            st.ext = s2.ext
            return v
        finally:
            self.spec_mode -= 1
            self.unfold, self.unfold_goal, self.unfolding, self.stack = save

    def call_contract(self, fr, ins, c, args, st):
        p = self.p
        f = p.funcs[c.fn]
        self.used[c.fn] = self.used.get(c.fn, 0) + 1
        targs = [a if isinstance(a, Clo) else self.term(st, a, pm['type']) for a, pm in zip(args, f['params'])]
        if c.pre and not self.spec_mode:
            g = self.spec_eval(c.pre, targs, st, True, c.unfold if c.callunfold and c.callunfold(self, targs, st) else ())
            self.oblige(st, g, 'precondition of %s' % c.name, self.where(fr, ins))
        if not self.spec_mode and c.terminates and self.curc is not None and p.sccs().get(self.curc.fn) is not None and \
                p.sccs().get(self.curc.fn) == p.sccs().get(c.fn):
            self.termination(fr, ins, c, targs, st)
        if c.prepy and not self.spec_mode:
            self.oblige(st, c.prepy(self, targs), 'precondition of %s' % c.name, self.where(fr, ins))
        res = []
        for i, rt in enumerate(f['results']):
            r = self.sym('ret_' + f['name'].rsplit('.', 1)[-1], rt, st)
            res.append(r)
        if c.post:
            u = c.callunfold is not None and not self.spec_mode and c.callunfold(self, targs, st)
            g = self.spec_eval(c.post, targs + res, st, u, c.unfold if u else ())
            st.fact(g)
        return [(st, self.pack(res))]

    def rank(self, t):
        return Function('rank_' + t.sort().name(), t.sort(), IntSort())(t)

    def termination(self, fr, ins, c, targs, st):
        me = self.curc
        if c.measure is None or me.measure is None or self.quiet:
            return
        mine = me.measure(self, self.curargs)
        other = c.measure(self, targs)
        # lexicographic
        alts = []
        for i in range(min(len(mine), len(other))):
            alts.append(And(*([mine[j] == other[j] for j in range(i)] + [other[i] < mine[i]])))
        g = disj(alts)
        self.obls.append(Obligation(self.curname(), 'termination: measure decreases at the call of %s' % c.name, st.formulas() + self.rank_axioms(), g, self.where(fr, ins), cls='term'))

    def rank_axioms(self):
        return []

    def invoke(self, fr, ins, env, st, args):
        """method call on an interface value: dispatch over the dynamic types that can occur"""
        p = self.p
        recv = self.val(fr, env, ins['recv'])
        name = ins['invoke']
        key = ('invoke', p.t(ins['recvtype'])['str'], name)
        for k in (key, ('invoke', '*', name)):
            if k in self.models:
                r = self.models[k](self, fr, ins, [recv] + args, st)
                return r if isinstance(r, list) else [(st, r)]
        if not z3.is_expr(recv):
            raise Unsupported('invoke %s' % name)
        out = []
        rest = st
        for t in p.dyn:
            m = p.methods.get('%d.%s' % (t, name))
            if not m:
                continue
            c = simplify(p.ctor_of[t][1](recv))
            if is_false(c) or not self.feasible(rest, c):
                continue
            s2 = rest.fork()
            s2.cond(c)
            out.extend(self.call_named(fr, ins, m, [simplify(p.ctor_of[t][2][0](recv))] + args, s2))
            rest = rest.fork()
            rest.cond(simplify(Not(c)))
        if self.feasible(rest, BoolVal(True)):
            raise Unsupported('invoke %s on an unknown dynamic type' % name)
        return out

    # ------------------------------------------------------------ generalisation over a bound variable
    def generalise(self, exprs, j, created):
        """replaces constants and functions created while j was arbitrary by functions of j"""
        if not created:
            return exprs, []
        sub, subf = [], []
        new = []
        for c in created:
            if isinstance(c, z3.FuncDeclRef):
                nf = Function(c.name() + '^', IntSort(), *[c.domain(i) for i in range(c.arity())], c.range())
                subf.append((c, nf(j, *[z3.Var(i, c.domain(i)) for i in range(c.arity())])))
                new.append(nf)
            else:
                nf = Function(c.decl().name() + '^', IntSort(), c.sort())
                sub.append((c, nf(j)))
                new.append(nf)
        out = []
        for e in exprs:
            if z3.is_expr(e):
                if sub:
                    e = substitute(e, *sub)
                if subf:
                    e = z3.substitute_funs(e, *subf)
            out.append(e)
        return out, new

    def bound_eval(self, st, clo, j, extra_args=()):
        """value of a closure at the bound variable j, as a term; facts about it become universally quantified facts of st"""
        mark = len(self.created)
        sub = st.fork()
        base = len(sub.pc)
        fr = {'fn': clo.fn, 'bind': {}}
        self.spec_mode += 1
        try:
            rs = self.inline(fr, {'line': 0}, clo.fn, list(extra_args) + [j], sub, clo.bind)
        finally:
            self.spec_mode -= 1
        if len(rs) != 1:
            raise Unsupported('cannot join the body of a quantified predicate')
        s2, v = rs[0]
        f = self.p.funcs[clo.fn]
        v = self.term(s2, v, f['results'][0])
        facts = [c for b, c in s2.pc[base:]]
        created = self.created[mark:]
        del self.created[mark:]
        (outs, new) = self.generalise([v] + facts, j, created)
        self.created.extend(new)
        return outs[0], outs[1:]

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, prev, env, st):
        try:
            mark = len(self.created)
            obm = len(self.obls)
            return self.loop_summary(fr, h, prev, env, st)
        except NeedBound as e:
            why = str(e)
        except Unsupported as e:
            why = str(e)
        if self.spec_mode or self.opts.get('no_unroll'):
            raise Unsupported('loop: ' + why)
        self.created[:] = self.created[:mark] + self.created[mark:]
        del self.obls[obm:]
        return self.loop_unroll(fr, h, prev, env, st, why)

    def loop_unroll(self, fr, h, prev, env, st, why):
        region = self.p.loops(fr['fn'])[h]
        f = self.p.funcs[fr['fn']]
        out = []
        front = [(prev, env, st)]
        bound = self.unroll
        tight = False
        n = 0
        while front:
            n += 1
            nxt = []
            for prev, env, st in front:
                e2 = dict(env)
                blk = f['blocks'][h]
                e = blk['preds'].index(prev)
                phis = [i for i in blk['instrs'] if i['op'] == 'Phi']
                vals = [self.val(fr, env, i['edges'][e]) for i in phis]
                for i, v in zip(phis, vals):
                    e2[i['name']] = v
                for o in self.run(fr, h, prev, e2, st, region, entry_header=h):
                    if o.kind == 'back':
                        nxt.append((o.prev, o.env, o.state))
                    else:
                        out.append(o)
            if n > self.opts.get('concrete_bound', 200) or (n > bound and any(self.branchy(s, st) for _, _, s in nxt)):
                if nxt:
                    self.bounded.append('%s: loop unrolled %d times (%s)' % (short(fr['fn']), n, why))
                break
            front = nxt
            if len(front) > 400:
                self.bounded.append('%s: loop unrolled %d times (%s)' % (short(fr['fn']), n, why))
                break
        return out

    def branchy(self, a, b):
        return True

    def havoc_obj(self, st, oid, obj, syms):
        p = self.p
        if isinstance(obj, Cell):
            if isinstance(obj.v, (SliceL,)) or p.under(obj.tid)['kind'] == 'slice':
                et = p.under(obj.tid)['elem']
                n = self.fresh('hlen', IntSort())
                a = self.fresh('harr', ArraySort(IntSort(), p.sort(et)))
                no = next(self.cnt)
                st.heap[no] = ArrO(et, n, a)
                st.heap[oid] = Cell(obj.tid, SliceL(no, IntVal(0), n))
                st.fact(n >= 0)
                return ('slcell', n, a, no)
            c = self.sym('hcell', obj.tid, st)
            st.heap[oid] = Cell(obj.tid, c)
            return ('cell', c)
        if isinstance(obj, ArrO):
            if isinstance(obj.c, tuple):
                raise Unsupported('loop writes caller-owned slice')
            a = self.fresh('harr', ArraySort(IntSort(), p.sort(obj.etid)))
            st.heap[oid] = ArrO(obj.etid, obj.n, a)
            return ('arr', a)
        raise Unsupported('loop modifies a map')

    def loop_summary(self, fr, h, prev, env, st):
        p = self.p
        f = p.funcs[fr['fn']]
        region = p.loops(fr['fn'])[h]
        blk = f['blocks'][h]
        phis = [i for i in blk['instrs'] if i['op'] == 'Phi']
        e = blk['preds'].index(prev)
        init = {i['name']: self.val(fr, env, i['edges'][e]) for i in phis}
        for b in region:
            for ins in f['blocks'][b]['instrs']:
                if ins['op'] in ('Range', 'Next'):
                    raise NeedBound('range over string or map')
        pre_oids = set(st.heap)
        mods = []
        k = Int('k!%d' % next(self.cnt))
        for attempt in range(8):
            mark = len(self.created)
            s1 = st.fork()
            env1 = dict(env)
            vars_ = []   # (key, kind, symbol, init term)
            for i in phis:
                nm, tid = i['name'], i['type']
                iv = init[nm]
                if p.under(tid)['kind'] == 'slice':
                    et = p.under(tid)['elem']
                    n = self.fresh('phlen', IntSort())
                    a = self.fresh('pharr', ArraySort(IntSort(), p.sort(et)))
                    oid = next(self.cnt)
                    s1.heap[oid] = ArrO(et, n, a)
                    s1.fact(n >= 0)
                    env1[nm] = SliceL(oid, IntVal(0), n)
                    vars_.append((('phi', nm, 'len'), n, self.sl_len(st, iv)))
                    vars_.append((('phi', nm, 'arr'), a, self.sl_arr(st, iv, et)))
                elif isinstance(iv, (LocPtr, Clo, MapL, GlobPtr)):
                    env1[nm] = iv
                    vars_.append((('same', nm), iv, iv))
                else:
                    c = self.sym('ph_' + nm, tid)
                    env1[nm] = c
                    vars_.append((('phi', nm), c, self.term(st, iv, tid)))
            for oid in mods:
                hv = self.havoc_obj(s1, oid, st.heap[oid], None)
                o0 = st.heap[oid]
                if hv[0] == 'cell':
                    vars_.append((('heap', oid), hv[1], self.term(st, o0.v, o0.tid)))
                elif hv[0] == 'slcell':
                    et = p.under(o0.tid)['elem']
                    vars_.append((('hsl', oid, 'len'), hv[1], self.sl_len(st, o0.v)))
                    vars_.append((('hsl', oid, 'arr'), hv[2], self.sl_arr(st, o0.v, et)))
                else:
                    vars_.append((('heap', oid), hv[1], self.arr_term(st, o0)))
            symids = mark
            nsym = len(self.created)
            base = len(s1.pc)
            self.quiet += 1
            try:
                outs = self.run(fr, h, prev, env1, s1.fork(), region, entry_header=h)
            finally:
                self.quiet -= 1
            backs = [o for o in outs if o.kind == 'back']
            new = []
            for o in backs:
                for oid in pre_oids:
                    if oid in mods:
                        continue
                    a, b = o.state.heap.get(oid), st.heap[oid]
                    if a is not b:
                        if type(a) is type(b) and getattr(a, 'v', None) is getattr(b, 'v', None) and getattr(a, 'c', None) is getattr(b, 'c', None):
                            continue
                        if oid not in new:
                            new.append(oid)
            if not new:
                break
            mods += new
        else:
            raise Unsupported('loop effects do not stabilise')
        for o in backs:
            if o.state.ext != st.ext:
                raise Unsupported('loop changes the abstract state')
        if not backs:
            # never iterates
            return self.run_from_header(fr, h, prev, env, st, region, init)
        body_created = self.created[nsym:]
        # updates per back outcome
        ups = []
        conds = []
        facts = []
        for o in backs:
            eidx = blk['preds'].index(o.prev)
            u = {}
            for i in phis:
                v = self.val(fr, o.env, i['edges'][eidx])
                nm = i['name']
                if p.under(i['type'])['kind'] == 'slice':
                    et = p.under(i['type'])['elem']
                    u[('phi', nm, 'len')] = self.sl_len(o.state, v)
                    u[('phi', nm, 'arr')] = self.sl_arr(o.state, v, et)
                elif isinstance(init[nm], (LocPtr, Clo, MapL, GlobPtr)):
                    iv = init[nm]
                    same = (type(v) is type(iv)) and getattr(v, 'oid', None) == getattr(iv, 'oid', None) and getattr(v, 'path', None) == getattr(iv, 'path', None) and getattr(v, 'fn', None) == getattr(iv, 'fn', None)
                    if not same:
                        raise Unsupported('loop-carried pointer')
                else:
                    u[('phi', nm)] = self.term(o.state, v, i['type'])
            for oid in mods:
                ob = o.state.heap[oid]
                if isinstance(ob, Cell):
                    if p.under(ob.tid)['kind'] == 'slice':
                        et = p.under(ob.tid)['elem']
                        u[('hsl', oid, 'len')] = self.sl_len(o.state, ob.v)
                        u[('hsl', oid, 'arr')] = self.sl_arr(o.state, ob.v, et)
                    else:
                        u[('heap', oid)] = self.term(o.state, ob.v, ob.tid)
                else:
                    u[('heap', oid)] = self.arr_term(o.state, ob)
            ups.append(u)
            conds.append(conj([c for b, c in o.state.pc[base:] if b]))
            facts.append([c for b, c in o.state.pc[base:] if not b])
        body_created = self.created[nsym:]
        # --- closed forms
        closed = {}        # symbol id -> term in k
        sub = []
        pending = []
        for key, symv, iv in vars_:
            if key[0] == 'same':
                continue
            us = [u[key] for u in ups]
            if all(z3.eq(simplify(x), symv) for x in us):
                closed[key] = iv
                sub.append((symv, iv))
                continue
            if z3.is_int(symv):
                ds = [simplify(x - symv) for x in us]
                if all(z3.is_int_value(d) for d in ds) and len(set(d.as_long() for d in ds)) == 1:
                    cf = simplify(iv + ds[0] * k)
                    closed[key] = cf
                    sub.append((symv, cf))
                    continue
            pending.append((key, symv, iv))
        def S(x, sb):
            return substitute(x, *sb) if sb else x
        later = []
        arrfacts = []
        accs = []
        # array writes
        bconds = None
        for key, symv, iv in pending:
            if not z3.is_array(symv):
                later.append((key, symv, iv))
                continue
            writes = []      # (cond, idx, val)
            ok = True
            for cnd, u in zip(conds, ups):
                t = u[key]
                chain = []
                t = self.split_store(t, symv, chain, BoolVal(True))
                if t is None:
                    ok = False
                    break
                for c2, ix, vv in reversed(chain):
                    writes.append((And(cnd, c2), ix, vv))
            if not ok:
                later.append((key, symv, iv))
                continue
            writes = [(S(c, sub), simplify(S(ix, sub)), S(v, sub)) for c, ix, v in writes]
            later.append((key, symv, iv, writes))
        # accumulators
        progress = True
        accvars = [x for x in later if len(x) == 3]
        arrs = [x for x in later if len(x) == 4]
        accsyms = {}
        if accvars:
            for key, symv, iv in accvars:
                uf = self.freshfun('acc', IntSort(), symv.sort())
                accsyms[key] = uf
                closed[key] = uf(k)
                sub.append((symv, uf(k)))
        arrufs = {}
        for key, symv, iv, writes in arrs:
            writes = [(S(c, sub), simplify(S(ix, sub)), S(v, sub)) for c, ix, v in writes]
            # indices must be linear in k with the same step
            steps, offs = [], []
            for c, ix, v in writes:
                d = simplify(substitute(ix, (k, k + 1)) - ix)
                if not z3.is_int_value(d):
                    d = simplify(z3.simplify(substitute(ix, (k, IntVal(1))) - substitute(ix, (k, IntVal(0)))))
                    d2 = simplify(substitute(ix, (k, IntVal(2))) - substitute(ix, (k, IntVal(1))))
                    if not (z3.is_int_value(d) and z3.is_int_value(d2) and d.as_long() == d2.as_long()):
                        raise Unsupported('array written at a non-linear index')
                steps.append(d.as_long())
                offs.append(simplify(substitute(ix, (k, IntVal(0)))))
            if len(set(steps)) != 1 or steps[0] == 0:
                raise Unsupported('array written with mixed strides')
            step = steps[0]
            base_off = offs[0]
            rel = [simplify(o - base_off) for o in offs]
            if not all(z3.is_int_value(r) for r in rel):
                raise Unsupported('array written at unrelated indices')
            rel = [r.as_long() for r in rel]
            if max(rel) - min(rel) >= abs(step):
                raise Unsupported('overlapping array writes')
            for c, ix, v in writes:
                if z3.is_expr(v) and any(z3.eq(x, symv) for x in self.subterm_consts(v)):
                    raise Unsupported('array element depends on the array')
            A = self.freshfun('wr', IntSort(), ArraySort(IntSort(), symv.sort().range()))
            arrufs[key] = (A, writes, step, base_off, rel, iv)
            closed[key] = A(k)
            sub.append((symv, A(k)))
        cont_k = disj([And(S(c, sub), conj([S(x, sub) for x in fs])) for c, fs in zip(conds, facts)])
        if any(s in self.names_of(cont_k) for s in ()):
            pass
        # generalise constants created in the body
        exprs = [cont_k]
        acc_up = {}
        for key, symv, iv in accvars:
            us = [S(u[key], sub) for u in ups]
            r = us[-1]
            for cc, x in list(zip([S(c, sub) for c in conds], us))[-2::-1]:
                r = If(cc, x, r)
            acc_up[key] = len(exprs)
            exprs.append(r)
        wr_ix = {}
        for key, (A, writes, step, off, rel, iv) in arrufs.items():
            wr_ix[key] = len(exprs)
            for c, ix, v in writes:
                # generalise() replaces by functions of k
                exprs.append(c)
                exprs.append(v)
        keep_new = []
        gen, newf = self.generalise(exprs, k, body_created)
        # the symbols of pass 1 are not needed any more
        pass1 = self.created[mark:nsym]
        accf = list(accsyms.values()) + [x[0] for x in arrufs.values()]
        del self.created[mark:]
        self.created.extend(accf + newf)
        cont = gen[0]
        for key, symv, iv in accvars:
            if z3.is_bool(symv):
                # whether the loop goes on often does not depend on the accumulator: say so
                u_ = accsyms[key](k)
                c0, c1 = substitute(cont, (u_, BoolVal(False))), substitute(cont, (u_, BoolVal(True)))
                if not z3.eq(c0, c1) and self.valid([k >= 0], c0 == c1):
                    cont = simplify(c0)
        at = lambda x, j: substitute(x, (k, j))
        s2 = st.fork()
        s2.fact(k >= 0)
        j = Int('j!%d' % next(self.cnt))
        body = Implies(And(j >= 0, j < k), at(cont, j))
        s2.fact(ForAll([j], body))
        s2.fact(Implies(k > 0, at(cont, simplify(k - 1))))
        s2.fact(Implies(k > 0, at(cont, IntVal(0))))
        for key, symv, iv in accvars:
            uf = accsyms[key]
            up = gen[acc_up[key]]
            s2.fact(uf(IntVal(0)) == iv)
            s2.fact(Implies(k > 0, uf(k) == at(up, simplify(k - 1))))
            if z3.is_bool(symv):
                # an accumulator that never goes back from b is b iff it started so or some iteration made it so
                for b in (True, False):
                    stuck = substitute(up, (uf(k), BoolVal(b)))
                    hit = substitute(up, (uf(k), BoolVal(not b)))
                    if not b:
                        stuck, hit = Not(stuck), Not(hit)
                    if any(n_ == uf.name() for n_ in self.names_of(hit)):
                        continue
                    if not self.valid([k >= 0, substitute(cont, (uf(k), BoolVal(b)))], stuck):
                        continue
                    val = uf(k) if b else Not(uf(k))
                    start = iv if b else Not(iv)
                    w = self.fresh('w', IntSort())
                    there = uf(j) if b else Not(uf(j))
                    s2.fact(Implies(val, Or(start, And(w >= 0, w < k, Not(at(val, w)), at(hit, w)))))
                    s2.fact(ForAll([j], Implies(And(j >= 0, j < k, there), val)))
                    s2.fact(ForAll([j], Implies(And(j >= 0, j < k, at(hit, j)), val)))
                    s2.fact(Implies(start, val))
                    break
            self.folds.append(dict(kind='loop', uf=uf, init=iv, up=up, k=k, cont=cont, where=short(fr['fn']), peers=[accsyms[x[0]] for x in accvars]))
        for key, (A, writes, step, off, rel, iv) in arrufs.items():
            b0 = wr_ix[key]
            x = Int('x!%d' % next(self.cnt))
            touched = []
            for m, (c, ix, v) in enumerate(writes):
                gc, gv = gen[b0 + 2 * m], gen[b0 + 2 * m + 1]
                if abs(step) == 1:
                    jj = simplify((x - off - rel[m]) * step)
                    inr = And(jj >= 0, jj < k, at(gc, jj)) if len(writes) > 1 else And(jj >= 0, jj < k)
                else:
                    jj = simplify((x - off - rel[m]) / step)
                    inr = And((x - off - rel[m]) % step == 0, jj >= 0, jj < k, at(gc, jj))
                touched.append((inr, at(gv, jj)))
            r = Select(iv, x)
            for inr, gv in touched:
                r = If(inr, gv, r)
            s2.fact(ForAll([x], Select(A(k), x) == r, patterns=[Select(A(k), x)]))
        # values at iteration k
        env2 = dict(env)
        for i in phis:
            nm = i['name']
            if p.under(i['type'])['kind'] == 'slice':
                et = p.under(i['type'])['elem']
                if z3.eq(closed[('phi', nm, 'arr')], self._initarr.get(id(init[nm]), closed[('phi', nm, 'len')])) if hasattr(self, '_initarr') else False:
                    env2[nm] = init[nm]
                else:
                    oid = next(self.cnt)
                    s2.heap[oid] = ArrO(et, closed[('phi', nm, 'len')], closed[('phi', nm, 'arr')])
                    env2[nm] = SliceL(oid, IntVal(0), closed[('phi', nm, 'len')])
            elif ('phi', nm) in closed:
                env2[nm] = closed[('phi', nm)]
            else:
                env2[nm] = init[nm]
        for oid in mods:
            o0 = st.heap[oid]
            if isinstance(o0, Cell):
                if p.under(o0.tid)['kind'] == 'slice':
                    et = p.under(o0.tid)['elem']
                    no = next(self.cnt)
                    s2.heap[no] = ArrO(et, closed[('hsl', oid, 'len')], closed[('hsl', oid, 'arr')])
                    s2.heap[oid] = Cell(o0.tid, SliceL(no, IntVal(0), closed[('hsl', oid, 'len')]))
                else:
                    s2.heap[oid] = Cell(o0.tid, closed[('heap', oid)])
            else:
                s2.heap[oid] = ArrO(o0.etid, o0.n, closed[('heap', oid)])
        if not self.quiet:
            self.loops_summ += 1
        self.created.append(k)
        self.loop_termination(fr, blk, cont, k, s2, st)
        outs = self.run(fr, h, prev, env2, s2, region, entry_header=h)
        return [o for o in outs if o.kind != 'back']

    def loop_termination(self, fr, blk, cont, k, s2, st):
        pass

    def valid(self, hyps, goal):
        g = simplify(goal)
        if is_true(g):
            return True
        s = z3.Solver()
        s.set('timeout', 1000)
        for h in hyps:
            s.add(h)
        s.add(Not(g))
        return s.check() == z3.unsat

    def names_of(self, e):
        st, seen, r = [e], set(), set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                r.add(x.decl().name())
                st.extend(x.children())
        return r

    def subterm_consts(self, e):
        st, seen, r = [e], set(), []
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_const(x):
                r.append(x)
            else:
                st.extend(x.children())
        return r

    def sl_arr(self, st, v, et):
        p = self.p
        if isinstance(v, SliceL):
            if self.asint(v.off) == 0:
                return self.arr_term(st, st.heap[v.oid])
            raise Unsupported('loop-carried subslice')
        a = self.fresh('slarr', ArraySort(IntSort(), p.sort(et)))
        if isinstance(v, NilV):
            return a
        j = Int('j!%d' % next(self.cnt))
        st.fact(ForAll([j], Select(a, j) == p.sat(v, j, et), patterns=[Select(a, j)]))
        return a

    def split_store(self, t, sym, chain, cond):
        """t as a chain of stores on sym; None if it is something else"""
        while True:
            if z3.eq(t, sym):
                return sym
            if z3.is_store(t):
                chain.append((cond, t.arg(1), t.arg(2)))
                t = t.arg(0)
                continue
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                ca, cb = [], []
                if self.split_store(a, sym, ca, And(cond, c)) is None:
                    return None
                if self.split_store(b, sym, cb, And(cond, Not(c))) is None:
                    return None
                chain.extend(ca + cb)
                return sym
            return None

    def run_from_header(self, fr, h, prev, env, st, region, init):
        env2 = dict(env)
        env2.update(init)
        outs = self.run(fr, h, prev, env2, st, region, entry_header=h)
        return [o for o in outs if o.kind != 'back']


def sl_elem_sort(self, s):
    n = s.name()
    if n in getattr(self, 'extra_sl', {}):
        return self.extra_sl[n]
    if not hasattr(self, '_slel'):
        self._slel = {}
        for i, t in enumerate(self.types):
            if self.under(i)['kind'] == 'slice':
                try:
                    srt = self.sort(i)
                    self._slel[srt.name()] = self.sort(self.under(i)['elem'])
                except Exception:
                    pass
    return self._slel.get(n)


Program.sl_elem_sort = sl_elem_sort


def verify_unit(ex, c, case=None, name=None, recv_heap=False):
    """executes the function of contract c for arbitrary arguments (restricted to the case) and collects obligations"""
    p = ex.p
    f = p.funcs.get(c.fn)
    ex.cur = name or c.name
    ex.curc = c
    st = State()
    args = []
    for pm in f['params']:
        args.append(ex.sym(pm['name'], pm['type'], st))
    ex.curargs = args
    for fct in ex.base_facts:
        st.fact(fct)
    for fn in c.leaf:
        for fct in ex.leaf_axioms(fn):
            st.fact(fct)
    if c.pre:
        st.fact(ex.spec_eval(c.pre, args, st, True, c.unfold))
    if c.prepy:
        st.fact(c.prepy(ex, args))
    if case:
        st.fact(case(ex, args, st))
    ex.entry = (args, st.fork())
    n0 = len(ex.obls)
    outs = ex.exec_fn(c.fn, list(args), st)
    rets = [o for o in outs if o.kind == 'return']
    for o in rets:
        sub = o.state
        res = [ex.term(sub, v, t) for v, t in zip(o.res, f['results'])]
        g = ex.spec_eval(c.post, args + res, sub, True, c.unfold)
        ex.obls.append(Obligation(ex.cur, 'postcondition ' + c.post.rsplit('.', 1)[-1], sub.formulas(), g, short(c.fn), cls='post'))
    return rets
