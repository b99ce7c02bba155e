"""Verification condition generator for Go: symbolic execution of the go/ssa form
(emitted by /verif/gossa from the current sources) against contracts.

  * a function under contract is executed once for arbitrary arguments; every
    panic possibility and the postcondition on every path are obligations;
  * a call to a function under contract is replaced by its contract (fresh
    results about which only the postcondition is known; a recursive call must
    also decrease the measure); other functions of /repo are inlined;
  * a loop is replaced by its inductive summary: closed forms of its variables
    after k iterations, obtained from one arbitrary iteration, and the fact that
    iterations 0..k-1 did not leave the loop.  Loops outside that fragment are
    unrolled to a stated bound and the unit is then labelled bounded.
"""
import z3, itertools, os, sys, time
from z3 import (And, Or, Not, Implies, If, BoolVal, IntVal, ForAll, Exists, Int, Const, Function,
                DeclareSort, IntSort, BoolSort, StringSort, is_true, is_false, simplify, substitute,
                Select, Store, K, ArraySort)

sys.setrecursionlimit(20000)
F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()


class Unsupported(Exception):
    pass


class NeedBound(Unsupported):
    pass


# ------------------------------------------------------------------ values
class StructV:
    __slots__ = ('tid', 'f')

    def __init__(self, tid, f):
        self.tid = tid
        self.f = list(f)

    def __repr__(self):
        return 'Struct(%s)' % (self.f,)


class TupleV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class LocPtr:
    """pointer to a location allocated by the code under execution"""
    __slots__ = ('oid', 'path')

    def __init__(self, oid, path=()):
        self.oid = oid
        self.path = tuple(path)

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.oid, self.path)


class SymElemPtr:
    """pointer to an element or field of an immutable (caller owned) value"""
    __slots__ = ('val', 'tid')

    def __init__(self, val, tid):
        self.val = val
        self.tid = tid


class GlobPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class NilV:
    """nil pointer, slice, map, func or interface of static type tid"""
    __slots__ = ('tid',)

    def __init__(self, tid):
        self.tid = tid


class SliceL:
    """slice of a local array object: [off, off+len)"""
    __slots__ = ('oid', 'off', 'len')

    def __init__(self, oid, off, ln):
        self.oid = oid
        self.off = off
        self.len = ln


class Clo:
    __slots__ = ('fn', 'bind')

    def __init__(self, fn, bind):
        self.fn = fn
        self.bind = tuple(bind)


class MapL:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class IterV:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Cell:
    __slots__ = ('tid', 'v', 'frozen')

    def __init__(self, tid, v, frozen=False):
        self.tid = tid
        self.v = v
        self.frozen = frozen


class ArrO:
    """content: python list of values (concrete length) or a z3 array term"""
    __slots__ = ('etid', 'n', 'c', 'frozen')

    def __init__(self, etid, n, c, frozen=False):
        self.etid = etid
        self.n = n
        self.c = c
        self.frozen = frozen


class MapO:
    __slots__ = ('tid', 'ent')

    def __init__(self, tid, ent):
        self.tid = tid
        self.ent = ent  # list of (key, val), later entries win


class State:
    __slots__ = ('pc', 'heap', 'ext')

    def __init__(self, pc=None, heap=None, ext=None):
        self.pc = pc if pc is not None else []
        self.heap = heap if heap is not None else {}
        self.ext = ext if ext is not None else {}

    def fork(self):
        return State(list(self.pc), dict(self.heap), dict(self.ext))

    def cond(self, c):
        self.pc.append((True, c))

    def fact(self, c):
        self.pc.append((False, c))

    def formulas(self):
        return [c for _, c in self.pc]


class Outcome:
    __slots__ = ('kind', 'state', 'res', 'target', 'prev', 'env')

    def __init__(self, kind, state, res=None, target=None, prev=None, env=None):
        self.kind = kind
        self.state = state
        self.res = res
        self.target = target
        self.prev = prev
        self.env = env


class Obligation:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'where', 'unit', 'status', 'backend', 'time', 'model', 'cls')

    def __init__(self, name, kind, pc, goal, where, cls=None):
        self.name = name
        self.kind = kind
        self.pc = pc
        self.goal = goal
        self.where = where
        self.unit = None
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.cls = cls


def short(n):
    return n.replace('github.com/yaacov/tree-search-language/', '').replace('pkg/walkers/', '').replace('pkg/', '')


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, js, extern=None, extra_ctors=None):
        self.types = js['types']
        self.funcs = js['funcs']
        self.globals = js['globals']
        self.methods = js['methods']
        self.packages = js['packages']
        self.bystr = {}
        for i, t in enumerate(self.types):
            self.bystr[t['str']] = i
        self.extern = extern or {}
        self.extra_ctors = extra_ctors or {}
        self.sorts = {}
        self.slsorts = {}
        self._loops = {}
        self._scc = None

    # --- types
    def t(self, tid):
        return self.types[tid]

    def under(self, tid):
        t = self.types[tid]
        while t['kind'] == 'named':
            tid = t['under']
            t = self.types[tid]
        return t

    def under_id(self, tid):
        t = self.types[tid]
        while t['kind'] == 'named':
            tid = t['under']
            t = self.types[tid]
        return tid

    def ty(self, s):
        return self.bystr[s]

    # --- reachable functions and type universe
    def callees(self, fn):
        f = self.funcs.get(fn)
        r = set()
        if not f:
            return r
        def val(v):
            if v and v.get('k') == 'func':
                r.add(v['name'])
        for b in f['blocks']:
            for i in b['instrs']:
                for k in ('x', 'y', 'fn', 'val', 'addr', 'm', 'key', 'i', 'cond', 'lo', 'hi', 'recv'):
                    if isinstance(i.get(k), dict):
                        val(i[k])
                for k in ('args', 'edges', 'bind', 'results'):
                    for v in i.get(k) or []:
                        if isinstance(v, dict):
                            val(v)
                if 'invoke' in i:
                    for key, m in self.methods.items():
                        if key.split('.', 1)[1] == i['invoke']:
                            r.add(m)
        return r

    def reach(self, roots):
        seen = set()
        st = list(roots)
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            if f in self.extern:
                continue
            st.extend(self.callees(f))
        return seen

    def sccs(self):
        """recursive functions: name -> scc id, for functions in a cycle"""
        if self._scc is not None:
            return self._scc
        idx, low, onst, st, res = {}, {}, set(), [], {}
        cnt = [0]
        adj = {f: [c for c in self.callees(f) if c in self.funcs and c not in self.extern] for f in self.funcs}
        # a closure belongs to its parent
        for f, d in self.funcs.items():
            if d.get('parent') in adj:
                adj[d['parent']].append(f)

        def strong(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            onst.add(v)
            for w in adj[v]:
                if w not in idx:
                    strong(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in adj[v]:
                    for w in comp:
                        res[w] = v
        for f in self.funcs:
            if f not in idx:
                strong(f)
        self._scc = res
        return res

    def build_sorts(self, roots):
        """creates the Val datatype for the dynamic types occurring in the functions reachable from roots"""
        fns = self.reach(roots)
        dyn = []

        def add(t):
            if t not in dyn and self.under(t)['kind'] not in ('interface', 'tuple', 'typeparam'):
                dyn.append(t)
        for f in sorted(fns):
            fd = self.funcs.get(f)
            if not fd or f in self.extern:
                continue
            for b in fd['blocks']:
                for i in b['instrs']:
                    if i['op'] == 'MakeInterface':
                        add(i['xt'])
                    elif i['op'] == 'TypeAssert':
                        add(i['at'])
        for s in ['float64', 'float32', 'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32',
                  'uint64', 'string', 'bool', 'time.Time', '[]interface{}']:
            if s not in self.bystr and s == '[]interface{}':
                continue
            if s in self.bystr:
                add(self.bystr[s])
        self.dyn = dyn
        self._pending = {}
        self.dt = {}
        Val = z3.Datatype('Val')
        self._pending['Val'] = Val
        Val.declare('V_nil')
        fields = []
        names = {}
        for t in dyn:
            nm = 'V_' + self.tname(t)
            k = nm
            c = 2
            while k in names.values():
                k = nm + str(c)
                c += 1
            names[t] = k
        self.ctor_name = names
        specs = [(names[t], self._psort(t)) for t in dyn]
        for nm, fs in self.extra_ctors.items():
            fields.append((nm, [self._esort(x) for x in fs]))
        for nm, s in specs:
            Val.declare(nm, ('g_' + nm, s))
        for nm, fs in fields:
            Val.declare(nm, *[('g_%s_%d' % (nm, i), s) for i, s in enumerate(fs)])
        Val.declare('V_other', ('o_tag', IntSort()), ('o_id', IntSort()))
        keys = list(self._pending)
        created = z3.CreateDatatypes(*[self._pending[k] for k in keys])
        for k, s in zip(keys, created):
            self.dt[k] = s
        self.Val = self.dt['Val']
        self._pending = None
        self.ctor = {}
        self.ctor_of = {}
        for i in range(self.Val.num_constructors()):
            c = self.Val.constructor(i)
            self.ctor[c.name()] = (c, self.Val.recognizer(i), [self.Val.accessor(i, j) for j in range(c.arity())])
        for t in dyn:
            self.ctor_of[t] = self.ctor[names[t]]
        self.Vnil = self.ctor['V_nil'][0]()
        if not hasattr(self, 'Time'):
            self.Time = self._time()
        self.inst = Function('time_inst', self._time(), IntSort())

    def _esort(self, x):
        if x == 'Val':
            return self._pending['Val'] if self._pending else self.Val
        if x == 'String':
            return StringSort()
        if x == 'Int':
            return IntSort()
        if x == 'SlVal':
            return self._slsort('Val')
        if x == 'SlString':
            return self._slsort('String')
        return x

    def _time(self):
        if 'Time' not in self.sorts:
            self.sorts['Time'] = DeclareSort('Time')
        return self.sorts['Time']

    def _slsort(self, en):
        if en not in self.slsorts:
            self.slsorts[en] = DeclareSort('Sl_' + en)
        return self.slsorts[en]

    def tname(self, tid):
        t = self.types[tid]
        k = t['kind']
        if k == 'named':
            p = (t.get('pkg') or '').split('/')[-1]
            return ('%s_%s' % (p, t['name'])) if p else t['name']
        if k == 'basic':
            return t['name'].replace(' ', '_').replace('.', '_')
        if k == 'pointer':
            return 'P_' + self.tname(t['elem'])
        if k == 'slice':
            return 'Sl_' + self.tname(t['elem'])
        if k == 'map':
            return 'M_%s_%s' % (self.tname(t['key']), self.tname(t['elem']))
        if k == 'interface':
            return 'any'
        return '%s%d' % (k, tid)

    def iscgo(self, tid):
        t = self.types[tid]
        return '_Ctype_' in t.get('str', '') or t.get('name', '').startswith('_Ctype_')

    def _psort(self, tid):
        """sort of a type; while datatypes are being built returns Datatype placeholders"""
        t = self.types[tid]
        if t['str'] == 'time.Time':
            return self._time()
        u = self.under(tid)
        k = u['kind']
        if k == 'basic':
            n = u['name']
            if n in ('bool', 'untyped bool'):
                return BoolSort()
            if n in ('string', 'untyped string'):
                return StringSort()
            if n in ('float64', 'untyped float'):
                return F64
            if n == 'float32':
                return F32
            if n in ('unsafe.Pointer', 'Pointer'):
                return self._opq('UnsafePtr')
            if u['info'] & 2:
                return IntSort()
            return self._opq('B_' + n.replace(' ', '_'))
        if k == 'interface':
            return self._pending['Val'] if self._pending is not None else self.Val
        if k == 'slice':
            es = self.elem_name(u['elem'])
            self._psort(u['elem'])
            return self._slsort(es)
        if k == 'pointer':
            et = u['elem']
            if self.under(et)['kind'] == 'struct' and not self.iscgo(et) and self.types[et]['str'] != 'time.Time' and self._modelled(et):
                nm = 'P_' + self.tname(et)
                key = 'P:%d' % et
                if self._pending is not None:
                    if key not in self._pending:
                        d = z3.Datatype(nm)
                        self._pending[key] = d
                        s = self._psort(et)
                        d.declare('nil_' + nm)
                        d.declare('ptr_' + nm, ('deref_' + nm, s))
                    return self._pending[key]
                return self.dt[key]
            return self._opq('Ref_' + self.tname(et))
        if k == 'struct':
            if not self._modelled(tid):
                return self._opq('St_' + self.tname(tid))
            key = 'S:%d' % tid
            if self._pending is not None:
                if key not in self._pending:
                    d = z3.Datatype('S_' + self.tname(tid))
                    self._pending[key] = d
                    fs = [('s_%s_%s' % (self.tname(tid), f['name'] if f['name'] != '_' else 'blank%d' % i), self._psort(f['type']))
                          for i, f in enumerate(u['fields'])]
                    d.declare('mk_S_' + self.tname(tid), *fs)
                return self._pending[key]
            return self.dt[key]
        if k == 'func':
            return self._opq('Fn')
        if k == 'map':
            return self._opq('Map_' + self.tname(self.under_id(tid)))
        if k == 'array':
            return self._opq('Ar_' + self.tname(tid))
        return self._opq('Op_' + self.tname(tid))

    def _modelled(self, tid):
        """struct types represented field by field: those of /repo and of the contracts"""
        t = self.types[tid]
        if t['kind'] == 'named':
            p = t.get('pkg') or ''
            if p.startswith('github.com/yaacov/') or p.startswith('verif/') or p in self.extra_struct_pkgs:
                return True
            return False
        return True  # anonymous struct

    extra_struct_pkgs = ('go.mongodb.org/mongo-driver/bson/primitive',)

    def _opq(self, n):
        if n not in self.sorts:
            self.sorts[n] = DeclareSort(n)
        return self.sorts[n]

    def elem_name(self, etid):
        u = self.under(etid)
        k = u['kind']
        if self.types[etid]['str'] == 'time.Time':
            return 'Time'
        if k == 'interface':
            return 'Val'
        if k == 'basic':
            if u['name'] in ('string',):
                return 'String'
            if u['name'] == 'bool':
                return 'Bool'
            if u['name'] == 'float64':
                return 'F64'
            if u['info'] & 2:
                return 'Int'
        return self.tname(etid)

    def sort(self, tid):
        t = self.types[tid]
        key = ('c', tid)
        if key not in self.sorts:
            try:
                self.sorts[key] = self._psort(tid)
            except KeyError:
                # a type outside the datatype universe
                self.sorts[key] = self._opq('X_' + self.tname(tid))
        return self.sorts[key]

    def slfuns(self, slsort):
        n = slsort.name()
        if n not in self.sorts:
            en = n[3:]
            es = None
            self.sorts[n] = None
        return n

    def slen(self, s):
        f = Function('slen_' + s.sort().name(), s.sort(), IntSort())
        return f(s)

    def sat(self, s, i, etid):
        f = Function('sat_' + s.sort().name(), s.sort(), IntSort(), self.sort(etid))
        return f(s, i)

    # --- loops
    def loops(self, fn):
        if fn in self._loops:
            return self._loops[fn]
        f = self.funcs[fn]
        n = len(f['blocks'])
        succ = [b['succs'] for b in f['blocks']]
        pred = [b['preds'] for b in f['blocks']]
        dom = [set(range(n)) for _ in range(n)]
        roots = {0}
        if 'recover' in f:
            roots.add(f['recover'])
        for r in roots:
            dom[r] = {r}
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b in roots:
                    continue
                ps = [dom[p] for p in pred[b]]
                nd = (set.intersection(*ps) if ps else set()) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in range(n):
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        # irreducible cycles are not handled: detect
        self._loops[fn] = loops
        return loops


def bstr(b):
    """Go string constant (bytes) -> z3 string; bytes are the characters"""
    if isinstance(b, str):
        b = b.encode()
    out = []
    for c in b:
        if 32 <= c < 127 and c not in (0x5c,):
            out.append(chr(c))
        else:
            out.append('\\u{%x}' % c)
    return z3.StringVal(''.join(out))


def conj(l):
    l = [x for x in l if not is_true(x)]
    if not l:
        return BoolVal(True)
    if len(l) == 1:
        return l[0]
    return And(*l)


def disj(l):
    if not l:
        return BoolVal(False)
    if len(l) == 1:
        return l[0]
    return Or(*l)


_HQ = {}


def has_quant(e):
    """does the term contain a quantifier (memoised; the table keeps the terms alive so that ids stay unique)"""
    i = e.get_id()
    r = _HQ.get(i)
    if r is not None:
        return r[1]
    st = [e]
    while st:
        x = st[-1]
        xi = x.get_id()
        if xi in _HQ:
            st.pop()
            continue
        if z3.is_quantifier(x):
            _HQ[xi] = (x, True)
            st.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _HQ]
        if todo:
            st.extend(todo)
            continue
        _HQ[xi] = (x, any(_HQ[c.get_id()][1] for c in ch))
        st.pop()
    return _HQ[i][1]


def consts_in(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


INT_RANGE = {'int': (-2**63, 2**63 - 1), 'int64': (-2**63, 2**63 - 1), 'int32': (-2**31, 2**31 - 1), 'int16': (-2**15, 2**15 - 1),
             'int8': (-128, 127), 'uint': (0, 2**64 - 1), 'uint64': (0, 2**64 - 1), 'uint32': (0, 2**32 - 1), 'rune': (-2**31, 2**31 - 1),
             'uint16': (0, 65535), 'uint8': (0, 255), 'byte': (0, 255), 'uintptr': (0, 2**64 - 1)}
