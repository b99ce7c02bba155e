"""Symbolic execution of C functions (LLVM IR) against contracts with ownership.

A tree in memory is either a *handle* (a term of sort T naming its value, and a resource saying who owns it) or a
block of memory.  Dereferencing a handle unfolds one node: its fields according to its tag, its children handles.
Every block and handle is owned exactly once; freeing, storing and returning move ownership; what is owned at exit and
not reachable from the results is a leak, what is reachable twice is sharing, both are failed obligations.
Loops over arrays are summarised for any number of iterations."""
import z3, time
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
import cir


class Unsup(Exception):
    pass


class Fork(Exception):
    """the current instruction is executed again under each of these conditions"""

    def __init__(self, conds):
        self.conds = conds


class Dead(Exception):
    """the path ends here (its obligation has been recorded)"""


T = z3.DeclareSort('Tree')
I_, B_, D_ = z3.IntSort(), z3.BoolSort(), z3.Float64()
A_ = z3.ArraySort(I_, I_)
NULLT = z3.Const('nullT', T)
fkind = z3.Function('t_kind', T, I_)
fnum = z3.Function('t_num', T, D_)
fchars = z3.Function('t_chars', T, A_)
flen = z3.Function('t_len', T, I_)
fbool = z3.Function('t_bool', T, I_)
fop = z3.Function('t_op', T, I_)
fleft = z3.Function('t_left', T, T)
fright = z3.Function('t_right', T, T)
fchild = z3.Function('t_child', T, T)
fsize = z3.Function('t_size', T, I_)
felem = z3.Function('t_elem', T, I_, T)
fmsz = z3.Function('t_measure', T, I_)
RNE = z3.RNE()
NUMBER, STRING, IDENT, BINARY, UNARY, DATE, RFC, ARRAY, BOOL, NUL = range(10)
STRK = (STRING, IDENT, DATE, RFC)
NODE_SIZE = 32


class Null:
    def __repr__(self):
        return 'NULL'


NULL = Null()


class Ptr:
    """pointer into object oid; offset = const + sum scale*expr"""
    __slots__ = ('oid', 'c', 'ts')

    def __init__(self, oid, c=0, ts=()):
        self.oid, self.c, self.ts = oid, c, ts

    def __repr__(self):
        return 'P(%s+%s%s)' % (self.oid, self.c, ''.join('+%d*%s' % t for t in self.ts))

    def add(self, c, scale=0, e=None):
        ts = self.ts
        if e is not None:
            if isinstance(e, int):
                c += scale * e
            else:
                e = z3.simplify(e)
                if z3.is_int_value(e):
                    c += scale * e.as_long()
                else:
                    d = dict(ts)
                    d[scale] = z3.simplify(d[scale] + e) if scale in d else e
                    if z3.is_int_value(d[scale]):
                        c += scale * d[scale].as_long()
                        del d[scale]
                    ts = tuple(sorted(d.items(), key=lambda x: x[0]))
        return Ptr(self.oid, self.c + c, ts)

    def off(self):
        r = IntVal(self.c)
        for s, e in self.ts:
            r = r + s * e
        return z3.simplify(r)

    def index8(self):
        """the index into an array of pointers, or None"""
        if self.c % 8 or any(s != 8 for s, _ in self.ts):
            return None
        r = IntVal(self.c // 8)
        for s, e in self.ts:
            r = r + e
        return z3.simplify(r)


class Hnd:
    """a tree handle: resource and value; res = ('t', n) or ('f', family, index)"""
    __slots__ = ('res', 'term')

    def __init__(self, res, term):
        self.res, self.term = res, term

    def __repr__(self):
        return 'H(%s,%s)' % (self.res, self.term)


class FnRef:
    def __init__(self, name):
        self.name = name


class Opaque:
    """a value nothing is known about"""

    def __init__(self, why='?'):
        self.why = why

    def __repr__(self):
        return 'opaque(%s)' % self.why


class Obj:
    __slots__ = ('what', 'size', 'alive', 'own', 'fields', 'segs', 'text', 'tree', 'pending', 'lazy', 'ro', 'chars', 'note')

    def __init__(self, what, size, own):
        self.what, self.size, self.own = what, size, own   # own: 'heap' owned block, 'borrow', 'frame' (stack, static)
        self.alive = True
        self.fields = {}
        self.segs = []
        self.text = None
        self.tree = None
        self.pending = False
        self.lazy = None
        self.ro = own == 'borrow'
        self.chars = []
        self.note = None

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            v = getattr(self, s)
            setattr(o, s, dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)
        return o


class State:
    def __init__(self):
        self.pc = []
        self.objs = {}
        self.res = {}        # n -> dict(own, gone, obj)
        self.fams = {}       # f -> dict(own, n, gone=[(lo,hi)], term=fn(i), objs={})
        self.env = {}
        self.log = None      # accesses made by a loop body
        self.extra = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.objs = dict(self.objs)
        s.res = dict(self.res)
        s.fams = dict(self.fams)
        s.env = dict(self.env)
        s.log = None if self.log is None else list(self.log)
        s.extra = dict(self.extra)
        return s

    def w(self, oid):
        o = self.objs[oid] = self.objs[oid].copy()
        return o


class Obl:
    def __init__(self, name, where, pc, goal):
        self.name, self.where, self.pc, self.goal = name, where, pc, goal
        self.status = None


def isval(e):
    return isinstance(e, (int, bool)) or z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e)


def Z(v):
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, int):
        return IntVal(v)
    return v


def as_int(v):
    v = Z(v)
    if z3.is_bool(v):
        v = If(v, IntVal(1), IntVal(0))
    return v


class CExec:
    def __init__(self, mods, contracts, inline_ok=None, lib=None):
        self.fn = {}
        for m in mods:
            for n, f in m.funcs.items():
                self.fn[n] = (m, f)
        self.mods = mods
        self.contracts = contracts    # name -> function(ex, st, args, call) -> [(ret, st)]
        self.lib = dict(LIB)
        if lib:
            self.lib.update(lib)
        self.obls = []
        self.cnt = 0
        self.inlined = set()
        self.used = set()
        self.models = set()
        self.assumed = set()
        self.quiet = 0
        self.deadline = time.time() + 100
        self.solver_time = 0.0
        self.where = ''
        self.glob = {}
        self.cur = None
        self.measure = None
        self.paths = 0
        self.loopinv = None
        self.ended = None

    def fresh(self, p='x', sort=I_):
        self.cnt += 1
        return z3.Const('%s!%d' % (p, self.cnt), sort)

    def nid(self):
        self.cnt += 1
        return self.cnt

    # ------------------------------------------------------------ solver
    def check(self, fs, to=1500):
        if time.time() > self.deadline:
            raise Unsup('out of time')
        s = z3.Solver()
        s.set('timeout', to)
        for f in fs:
            s.add(f)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r

    def fork(self, st, conds):
        raise Fork([c for c in conds if self.feasible(st, c)])

    def feasible(self, st, c):
        c = z3.simplify(Z(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st.pc + [c]) != z3.unsat

    def entails(self, st, c):
        c = z3.simplify(Z(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st.pc + [Not(c)]) == z3.unsat

    def oblige(self, st, goal, name):
        goal = Z(goal)
        if not self.quiet:
            self.obls.append(Obl(name, self.where, list(st.pc), goal))
        if z3.is_false(z3.simplify(goal)):
            raise Dead()
        st.pc.append(goal)

    def bad(self, st, name):
        self.oblige(st, BoolVal(False), name)

    def choose(self, st, conds):
        """forks the state over the conditions that are possible; [(cond, state)]"""
        out = []
        for c in conds:
            if self.feasible(st, c):
                s = st.copy()
                s.pc.append(Z(c))
                out.append(s)
            else:
                out.append(None)
        return out

    # ------------------------------------------------------------ memory
    def alloc(self, st, what, size, own='heap'):
        oid = '%s#%d' % (what, self.nid())
        st.objs[oid] = Obj(what, size, own)
        return oid

    def new_text(self, st, chars, ln, own='heap', what='text'):
        oid = self.alloc(st, what, Z(ln) + 1, own)
        st.objs[oid].text = (chars, Z(ln))
        return Ptr(oid)

    def new_res(self, st, own):
        n = self.nid()
        st.res[n] = dict(own=own, gone=False, obj=None)
        return ('t', n)

    def handle(self, st, term, own):
        h = Hnd(self.new_res(st, own), term)
        st.res[h.res[1]]['term'] = term
        return h

    def wf(self, t):
        return [Implies(t != NULLT, And(fkind(t) >= 0, fkind(t) <= 9, fmsz(t) >= 1)), fmsz(t) >= 0, Implies(fkind(t) == ARRAY, fsize(t) >= 0), flen(t) >= 0]

    def resolve(self, st, v):
        if isinstance(v, Hnd):
            if v.res[0] == 't':
                o = st.res[v.res[1]]['obj']
                if o:
                    return Ptr(o)
            else:
                f = st.fams[v.res[1]]
                for idx, o in f['objs']:
                    if z3.eq(z3.simplify(Z(idx)), z3.simplify(Z(v.res[2]))) or self.entails(st, Z(idx) == Z(v.res[2])):
                        return Ptr(o)
        return v

    def split_null(self, st, h):
        """makes the handle known null or known not null"""
        if self.entails(st, h.term == NULLT):
            return True
        if self.entails(st, h.term != NULLT):
            return False
        self.fork(st, [h.term == NULLT, h.term != NULLT])

    def gone(self, st, h):
        if h.res[0] == 't':
            return BoolVal(bool(st.res[h.res[1]]['gone']))
        f = st.fams[h.res[1]]
        return Or([And(Z(lo) <= h.res[2], h.res[2] < Z(hi)) for lo, hi in f['gone']] + [BoolVal(False)])

    def owned(self, st, h):
        return st.res[h.res[1]]['own'] if h.res[0] == 't' else st.fams[h.res[1]]['own']

    def unfold(self, st, h):
        """a handle that is dereferenced becomes a block"""
        self.oblige(st, h.term != NULLT, 'no dereference of a null pointer')
        self.oblige(st, Not(self.gone(st, h)), 'no use of a released tree')
        own = self.owned(st, h)
        oid = self.alloc(st, 'node', NODE_SIZE, 'heap' if own else 'borrow')
        o = st.objs[oid]
        o.tree = h.term
        o.pending = True
        o.fields[0] = ('i32', fkind(h.term))
        st.pc += self.wf(h.term)
        if h.res[0] == 't':
            st.res[h.res[1]] = dict(st.res[h.res[1]], obj=oid)
        else:
            f = st.fams[h.res[1]] = dict(st.fams[h.res[1]])
            f['objs'] = f['objs'] + [(h.res[2], oid)]
        return oid

    def fill(self, st, oid, k):
        """the fields of an unfolded node of kind k"""
        o = st.w(oid)
        t = o.tree
        own = 'heap' if o.own != 'borrow' else 'borrow'
        o.pending = False
        if k == NUMBER:
            o.fields[8] = ('double', fnum(t))
        elif k in STRK:
            o.fields[8] = ('ptr', self.new_text(st, fchars(t), flen(t), own))
        elif k == BOOL:
            o.fields[8] = ('i32', fbool(t))
        elif k == BINARY:
            o.fields[8] = ('i32', fop(t))
            for off, f in ((16, fleft), (24, fright)):
                o.fields[off] = ('ptr', self.handle(st, f(t), own == 'heap'))
                st.pc += self.wf(f(t)) + [fmsz(f(t)) < fmsz(t)]
        elif k == UNARY:
            o.fields[8] = ('i32', fop(t))
            o.fields[16] = ('ptr', self.handle(st, fchild(t), own == 'heap'))
            st.pc += self.wf(fchild(t)) + [fmsz(fchild(t)) < fmsz(t)]
        elif k == ARRAY:
            o.fields[8] = ('i32', fsize(t))
            st.pc.append(fsize(t) >= 0)
            aid = self.alloc(st, 'elements', 8 * fsize(t), own)
            fid = self.nid()
            st.fams[fid] = dict(own=own == 'heap', n=fsize(t), gone=[], term=lambda i, t=t: felem(t, i), objs=[], facts=lambda i, t=t: self.wf(felem(t, i)) + [fmsz(felem(t, i)) < fmsz(t)])
            st.objs[aid].segs = [('rng', IntVal(0), fsize(t), lambda i, fid=fid, t=t: Hnd(('f', fid, i), felem(t, i)))]
            o.fields[16] = ('ptr', Ptr(aid))

    def kinds(self, st, oid):
        o = st.objs[oid]
        c = z3.simplify(Z(o.fields[0][1]))
        ks = [k for k in range(10) if self.feasible(st, c == k)]
        if len(ks) == 1:
            return ks[0]
        self.fork(st, [c == k for k in ks])

    def deref(self, st, p, what):
        p = self.resolve(st, p)
        if isinstance(p, Hnd):
            return Ptr(self.unfold(st, p))
        if p is NULL:
            self.bad(st, 'no dereference of a null pointer')
        if not isinstance(p, Ptr):
            raise Unsup('%s through %s' % (what, p))
        o = st.objs[p.oid]
        if not o.alive:
            self.bad(st, 'no use of released memory')
        return p

    SZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'ptr': 8}

    def bounds(self, st, p, n):
        o = st.objs[p.oid]
        if o.size is None:
            return
        off = p.off()
        self.oblige(st, And(off >= 0, off + n <= Z(o.size)), 'access within the bounds of the object')

    def load(self, st, ty, p):
        p = self.deref(st, p, 'load')
        if ty not in self.SZ:
            raise Unsup('load of type %s' % (ty,))
        o = st.objs[p.oid]
        if o.lazy:
            off = p.off()
            if z3.is_int_value(off):
                off = off.as_long()
                if off not in o.fields:
                    v = o.lazy(self, st, off, ty)
                    if v is not None:
                        st.w(p.oid).fields[off] = (ty, v)
                        o = st.objs[p.oid]
        self.bounds(st, p, self.SZ[ty])
        if o.text is not None and ty == 'i8':
            off = p.off()
            arr, ln = o.text
            c = z3.Select(arr, off)
            st.pc += [Implies(And(off >= 0, off < ln), And(c != 0, c >= -128, c <= 127)), Implies(off == ln, c == 0)]
            return z3.simplify(c) if z3.is_int_value(off) else c
        off = p.off()
        if z3.is_int_value(off) and not o.segs:
            off = off.as_long()
            if off == 0 and o.pending and ty == 'i32':
                return o.fields[0][1]
            if o.pending:
                k = self.kinds(st, p.oid)
                self.fill(st, p.oid, k)
                o = st.objs[p.oid]
            if off in o.fields:
                t, v = o.fields[off]
                if t != ty:
                    if t == 'i64' and ty == 'ptr' and v == 0:
                        return NULL
                    self.bad(st, 'a field is read as what it was stored as (%s as %s)' % (t, ty))
                return v
            if o.chars or o.size is not None and ty == 'i8':
                return self.load_char(st, o, p)
            self.bad(st, 'no read of an uninitialised field')
        if ty == 'ptr':
            i = p.index8()
            if i is None:
                raise Unsup('pointer load at %s' % p)
            if st.log is not None:
                st.log.append(('r', p.oid, i))
            return self.read_arr(st, p.oid, i)
        if ty == 'i8':
            return self.load_char(st, o, p)
        raise Unsup('load of %s at a symbolic offset of %s' % (ty, o.what))

    def load_char(self, st, o, p):
        off = p.off()
        for kind, a, v in reversed(o.chars):
            if kind == 'pt':
                if self.entails(st, a == off):
                    return v
                if not self.entails(st, a != off):
                    self.fork(st, [a == off, a != off])
            else:
                lo, hi = a
                c = And(lo <= off, off < hi)
                if self.entails(st, c):
                    return v(off)
                if not self.entails(st, Not(c)):
                    self.fork(st, [c, Not(c)])
        if o.what == 'table':
            return None
        self.bad(st, 'no read of an uninitialised character')

    def read_arr(self, st, oid, i):
        o = st.objs[oid]
        if o.fields and z3.is_int_value(i) and not o.segs:
            v = o.fields.get(8 * i.as_long())
            if v:
                return v[1]
        for s in reversed(o.segs):
            if s[0] == 'pt':
                c = s[1] == i
            else:
                c = And(Z(s[1]) <= i, i < Z(s[2]))
            if self.entails(st, c):
                v = s[2] if s[0] == 'pt' else s[3](i)
                if isinstance(v, Hnd) and v.res[0] == 'f':
                    f = st.fams[v.res[1]].get('facts')
                    if f:
                        st.pc += f(v.res[2])
                return v
            if not self.entails(st, Not(c)):
                self.fork(st, [c, Not(c)])
        self.bad(st, 'no read of an uninitialised element')

    def store(self, st, ty, v, p):
        p = self.deref(st, p, 'store')
        o = st.objs[p.oid]
        if o.ro:
            self.bad(st, 'no write to memory the function does not own (%s)' % o.what)
        if ty not in self.SZ:
            raise Unsup('store of type %s' % (ty,))
        self.bounds(st, p, self.SZ[ty])
        off = p.off()
        if st.log is not None and p.oid in st.extra.get('pre', ()):
            st.log.append(('w', p.oid, p.index8() if ty == 'ptr' else None, v, off, ty))
        if o.pending:
            k = self.kinds(st, p.oid)
            self.fill(st, p.oid, k)
        o = st.w(p.oid)
        if z3.is_int_value(off) and not o.segs and not o.chars and not (ty == 'i8'):
            off = off.as_long()
            n = self.SZ[ty]
            for x in list(o.fields):
                m = self.SZ[o.fields[x][0]]
                if x < off + n and off < x + m:
                    del o.fields[x]
            o.fields[off] = (ty, v)
            return
        if ty == 'ptr':
            i = p.index8()
            if i is None:
                raise Unsup('pointer store at %s' % p)
            if o.fields:
                o.segs = [('pt', IntVal(x // 8), v0) for x, (t0, v0) in o.fields.items() if t0 == 'ptr']
                o.fields = {}
            o.segs = self.without(st, o.segs, Z(i)) + [('pt', i, v)]
            return
        if ty == 'i8':
            if o.text is not None:
                raise Unsup('write into a text')
            if self.ended and isinstance(v, int) and v == 0 and self.ended(self, st, p.oid, off):
                return
            o.chars.append(('pt', off, Z(v)))
            return
        raise Unsup('store of %s at a symbolic offset' % (ty,))

    # ------------------------------------------------------------ ownership
    def release(self, st, v, why='released'):
        """the whole tree behind v is given away"""
        v = self.resolve(st, v)
        if v is NULL:
            return
        if isinstance(v, Hnd):
            if not self.owned(st, v):
                self.oblige(st, v.term == NULLT, 'only an owned tree is %s' % why)
                return
            self.oblige(st, Or(v.term == NULLT, Not(self.gone(st, v))), 'no tree is %s twice' % why)
            if v.res[0] == 't':
                st.res[v.res[1]] = dict(st.res[v.res[1]], gone=True)
            else:
                f = st.fams[v.res[1]] = dict(st.fams[v.res[1]])
                f['gone'] = f['gone'] + [(v.res[2], v.res[2] + 1)]
                if st.log is not None:
                    st.log.append(('c', v.res[1], v.res[2]))
            return
        if not isinstance(v, Ptr):
            raise Unsup('release of %s' % v)
        if v.c or v.ts:
            self.bad(st, 'only whole blocks are released')
        o = st.objs[v.oid]
        if not o.alive:
            self.bad(st, 'no block is %s twice' % why)
        if o.own != 'heap':
            self.bad(st, 'only an owned block is %s' % why)
        k = self.kinds(st, v.oid)
        if o.pending:
            self.fill(st, v.oid, k)
            o = st.objs[v.oid]
        st.w(v.oid).alive = False
        for off in self.ptr_fields(k):
            if off not in o.fields:
                self.bad(st, 'every field of a node is initialised')
            x = o.fields[off][1]
            if k in STRK:
                self.free_block(st, x)
            elif k == ARRAY and off == 16:
                self.release_array(st, x, o.fields[8][1], True, why)
            else:
                self.release(st, x, why)

    def ptr_fields(self, k):
        return {BINARY: (16, 24), UNARY: (16,), ARRAY: (16,)}.get(k, (8,) if k in STRK else ())

    def without(self, st, segs, i):
        """the pieces of an array that a write to element i leaves (only a piece the element certainly lies in is cut)"""
        out = []
        for s in segs:
            if s[0] == 'rng' and self.entails(st, And(Z(s[1]) <= i, i < Z(s[2]))):
                out += [('rng', s[1], i, s[3]), ('rng', i + 1, s[2], s[3])]
            elif s[0] == 'pt' and self.entails(st, Z(s[1]) == i):
                continue
            else:
                out.append(s)
        return out

    def segs_of(self, st, x, n):
        """the contents of elements 0..n-1 of the array x as disjoint pieces (lo, hi, fn); oldest writes overridden"""
        if x is NULL:
            return []
        o = st.objs[x.oid]
        if x.c or x.ts:
            raise Unsup('array pointer with an offset')
        out = []
        if o.fields:
            return [(IntVal(a // 8), IntVal(a // 8 + 1), (lambda i, v=v: v)) for a, (t, v) in o.fields.items()]
        for s in o.segs:
            lo, hi, f = (s[1], s[1] + 1, (lambda i, v=s[2]: v)) if s[0] == 'pt' else (s[1], s[2], s[3])
            for a, b, _ in out:
                # overwritten pieces are not supported unless disjoint
                if not self.entails(st, Or(b <= lo, hi <= a, lo >= hi)):
                    raise Unsup('an array element is written twice')
            out.append((lo, hi, f))
        return out

    def release_array(self, st, x, n, block, why):
        """the trees in elements 0..n-1 (and the block itself) are given away"""
        x = self.resolve(st, x)
        n = Z(n)
        i = self.fresh('i')
        segs = self.segs_of(st, x, n)
        if x is NULL:
            self.oblige(st, n <= 0, 'the elements array is there')
            return
        self.oblige(st, Implies(And(i >= 0, i < n), Or([And(Z(lo) <= i, i < Z(hi)) for lo, hi, _ in segs] + [BoolVal(False)])), 'every array element is initialised')
        for lo, hi, f in segs:
            # an element past the end stays with whoever owns it
            single = z3.eq(z3.simplify(Z(hi) - Z(lo)), IntVal(1))
            if not self.entails(st, Or(Z(hi) <= n, Z(lo) >= Z(hi))):
                if single:
                    if self.entails(st, Z(hi) > n):
                        continue
                    self.fork(st, [Z(hi) <= n, Z(hi) > n])
                hi = If(Z(hi) <= n, Z(hi), n)
            if single:
                self.release(st, f(lo), why)
                continue
            v = f(i)
            if not isinstance(v, Hnd) or v.res[0] != 'f':
                raise Unsup('array range of %s' % (v,))
            d = z3.simplify(v.res[2] - i)
            if not isval(d):
                raise Unsup('array range in another order')
            fam = st.fams[v.res[1]] = dict(st.fams[v.res[1]])
            if not fam['own']:
                self.oblige(st, Implies(And(Z(lo) <= i, i < Z(hi)), v.term == NULLT), 'only owned trees are %s' % why)
            a, b = Z(lo) + d, Z(hi) + d
            for p, q in fam['gone']:
                self.oblige(st, Or(q <= a, b <= p, a >= b, p >= q), 'no tree is %s twice' % why)
            if fam['objs']:
                raise Unsup('range over unfolded elements')
            fam['gone'] = fam['gone'] + [(a, b)]
        if block:
            self.free_block(st, x)

    def free_block(self, st, x):
        x = self.resolve(st, x)
        if x is NULL:
            return
        if isinstance(x, Hnd):
            if self.split_null(st, x):
                return
            x = Ptr(self.unfold(st, x))
        if not isinstance(x, Ptr):
            raise Unsup('free of %s' % (x,))
        if x.c or x.ts:
            self.bad(st, 'free of the start of a block')
        o = st.objs[x.oid]
        if not o.alive:
            self.bad(st, 'no block is freed twice')
        if o.own != 'heap':
            self.bad(st, 'only an owned block is freed')
        if o.pending:
            k = self.kinds(st, x.oid)
            self.fill(st, x.oid, k)
        st.w(x.oid).alive = False
        if st.log is not None and x.oid in st.extra.get('pre', ()):
            raise Unsup('a loop frees a block made before it')

    def tree_of(self, st, v):
        """a term for the tree behind v, with its constructor equations assumed"""
        v = self.resolve(st, v)
        if v is NULL:
            return NULLT
        if isinstance(v, Hnd):
            return v.term
        o = st.objs[v.oid]
        if o.tree is not None and o.pending:
            return o.tree
        if not o.alive:
            self.bad(st, 'no use of released memory')
        if 0 not in o.fields:
            self.bad(st, 'the kind of a node is initialised')
        k = self.kinds(st, v.oid)
        o = st.objs[v.oid]
        t = self.fresh('tree', T)
        st.pc += [t != NULLT, fkind(t) == k] + self.wf(t)
        for e in self.node_eqs(st, o, k, t):
            st.pc.append(e)
        return t

    def need(self, st, o, off, ty):
        if off not in o.fields or o.fields[off][0] != ty:
            self.bad(st, 'the value of a node is initialised')
        return o.fields[off][1]

    def text_of(self, st, p):
        p = self.resolve(st, p)
        if not isinstance(p, Ptr) or st.objs[p.oid].text is None or p.c or p.ts:
            if p is NULL:
                self.bad(st, 'the text of a node is there')
            raise Unsup('text behind %s' % (p,))
        if not st.objs[p.oid].alive:
            self.bad(st, 'no use of released memory')
        return st.objs[p.oid].text

    def node_eqs(self, st, o, k, t):
        if k == NUMBER:
            return [fnum(t) == self.need(st, o, 8, 'double')]
        if k in STRK:
            a, n = self.text_of(st, self.need(st, o, 8, 'ptr'))
            return [fchars(t) == a, flen(t) == n]
        if k == BOOL:
            return [fbool(t) == Z(self.need(st, o, 8, 'i32'))]
        if k == BINARY:
            return [fop(t) == Z(self.need(st, o, 8, 'i32')), fleft(t) == self.tree_of(st, self.need(st, o, 16, 'ptr')), fright(t) == self.tree_of(st, self.need(st, o, 24, 'ptr'))]
        if k == UNARY:
            return [fop(t) == Z(self.need(st, o, 8, 'i32')), fchild(t) == self.tree_of(st, self.need(st, o, 16, 'ptr'))]
        if k == ARRAY:
            n = Z(self.need(st, o, 8, 'i32'))
            x = self.resolve(st, self.need(st, o, 16, 'ptr'))
            return [fsize(t) == n] + self.elem_eqs(st, t, x, n)
        return []

    def elem_eqs(self, st, t, x, n):
        out = []
        for lo, hi, f in self.segs_of(st, x, n):
            if z3.eq(z3.simplify(Z(hi) - Z(lo)), IntVal(1)):
                out.append(Implies(And(Z(lo) >= 0, Z(lo) < n), felem(t, lo) == self.tree_of(st, f(Z(lo)))))
            else:
                i = z3.Int('q!%d' % self.nid())
                v = f(i)
                if not isinstance(v, Hnd):
                    raise Unsup('array range of %s' % (v,))
                out.append(z3.ForAll([i], Implies(And(Z(lo) <= i, i < Z(hi), i < n), felem(t, i) == v.term), patterns=[felem(t, i)]))
        return out

    # ------------------------------------------------------------ exit
    def reach(self, st, roots):
        """walks everything reachable from the roots; counts each block and resource"""
        seen = {}
        fam = {}

        def walk(v):
            v = self.resolve(st, v)
            if v is NULL or not isinstance(v, (Hnd, Ptr)):
                return
            if isinstance(v, Hnd):
                if v.res[0] == 't':
                    key = ('t', v.res[1])
                    seen[key] = seen.get(key, 0) + 1
                    if not self.owned(st, v):
                        self.oblige(st, v.term == NULLT, 'the result shares no memory with what the function does not own')
                    elif seen[key] > 1:
                        self.oblige(st, v.term == NULLT, 'no tree is in two places')
                    else:
                        self.oblige(st, Or(v.term == NULLT, Not(self.gone(st, v))), 'the result holds no released tree')
                else:
                    fam.setdefault(v.res[1], []).append((v.res[2], v.res[2] + 1))
                return
            o = st.objs[v.oid]
            if o.own == 'frame':
                return
            seen[v.oid] = seen.get(v.oid, 0) + 1
            if o.own == 'borrow':
                self.bad(st, 'the result shares no memory with what the function does not own')
            if seen[v.oid] > 1:
                self.bad(st, 'no block is in two places')
            if not o.alive:
                self.bad(st, 'the result holds no released block')
            if o.pending:
                return
            if o.segs:
                for lo, hi, f in self.segs_of(st, v, None):
                    if z3.eq(z3.simplify(Z(hi) - Z(lo)), IntVal(1)):
                        walk(f(Z(lo)))
                    else:
                        i = self.fresh('i')
                        x = f(i)
                        if isinstance(x, Hnd) and x.res[0] == 'f':
                            d = z3.simplify(x.res[2] - i)
                            if not isval(d):
                                raise Unsup('array range in another order')
                            fam.setdefault(x.res[1], []).append((Z(lo) + d, Z(hi) + d))
                        elif isinstance(x, (Hnd, Ptr)):
                            raise Unsup('array range of %s' % (x,))
            for off, (t, x) in list(o.fields.items()):
                if t == 'ptr':
                    walk(x)
        for r in roots:
            walk(r)
        return seen, fam

    def at_exit(self, st, roots):
        """everything owned is in the results or has been released; nothing is there twice"""
        seen, fam = self.reach(st, roots)
        for oid, o in list(st.objs.items()):
            if o.own == 'heap' and o.alive and oid not in seen and not st.extra.get(('kept', oid)):
                self.bad(st, 'nothing is leaked (a block of %s)' % o.what)
        for n, r in list(st.res.items()):
            if r['own'] and not r['gone'] and not r['obj'] and ('t', n) not in seen:
                self.oblige(st, r['term'] == NULLT, 'nothing is leaked (a tree)')
        for f, d in st.fams.items():
            if not d['own']:
                if f in fam:
                    i = self.fresh('i')
                    for a, b in fam[f]:
                        self.oblige(st, Implies(And(i >= a, i < b), d['term'](i) == NULLT), 'the result shares no memory with what the function does not own')
                continue
            i = self.fresh('i')
            ranges = d['gone'] + fam.get(f, []) + [(x, Z(x) + 1) for x, o in d['objs']]
            cover = z3.Sum([If(And(Z(a) <= i, i < Z(b)), 1, 0) for a, b in ranges] + [IntVal(0)])
            self.oblige(st, Implies(And(i >= 0, i < Z(d['n'])), Or(d['term'](i) == NULLT, cover == 1)), 'every element is released or kept exactly once')

    # ------------------------------------------------------------ expressions
    def ev(self, st, v, ty=None, m=None):
        k = v[0]
        if k == 'v':
            if v[1] in st.env:
                return st.env[v[1]]
            h = st.extra.get('outside')
            if h:
                x = h(self, st, v[1], ty)
                if x is not None:
                    st.env[v[1]] = x
                    return x
            raise Unsup('value %s defined elsewhere' % v[1])
        if k == 'i':
            return bool(v[1]) if ty == 'i1' else v[1]
        if k == 'f':
            return z3.FPVal(v[1], D_)
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_(st, m, v[1])
        if k == 'gep':
            return self.gep(st, m, v[1], v[2])
        if k == 'undef':
            return Opaque('undef')
        if k == 'zero':
            return 0
        raise Unsup('operand %s' % (v,))

    def global_(self, st, m, name):
        n = name[1:]
        if n in self.fn or n in m.decls and name not in m.globals:
            return FnRef(n)
        if name not in m.globals:
            return FnRef(n)
        t, init, const = m.globals[name]
        # an external global is the one another file defines
        key = ('g', n) if not n.startswith('.str') else ('g', id(m), n)
        if key not in st.extra:
            h = st.extra.get('globals')
            oid = None
            if h:
                oid = h(self, st, n)
            if oid is None:
                oid = self.alloc(st, 'global ' + n, cir.size(m, t), 'frame')
                o = st.objs[oid]
                if not const:
                    # what an earlier call left in it is not known
                    def left(ex, st, off, ty, n=n):
                        raise Unsup('the value of the global %s' % n)
                    o.lazy = left
                if const and init and init[0] == 'zero' and isinstance(t, tuple) and t[0] == 'arr' and t[2] == 'i8':
                    o.text = (z3.K(I_, IntVal(0)), IntVal(0))
                    o.ro = True
                if const and init and init[0] == 'agg' and isinstance(t, tuple) and t[0] == 'arr' and t[2] == 'i8':
                    bs = [x[1] for x in init[1]]
                    o.chars = [('pt', IntVal(j), IntVal(b if b < 128 else b - 256)) for j, b in enumerate(bs)]
                    if 0 in bs:
                        ln = bs.index(0)
                        arr = z3.K(I_, IntVal(0))
                        for j, b in enumerate(bs[:ln]):
                            arr = z3.Store(arr, j, b if b < 128 else b - 256)
                        o.text = (arr, IntVal(ln))
                        o.chars = []
                    o.ro = True
            st.extra[key] = oid
        return Ptr(st.extra[key])

    def gep(self, st, m, t, args):
        p = self.resolve(st, self.ev(st, args[0][1], 'ptr', m))
        idx = [self.ev(st, a[1], a[0], m) for a in args[1:]]
        if isinstance(p, Hnd):
            if self.split_null(st, p):
                p = NULL
            else:
                p = Ptr(self.unfold(st, p))
        if p is NULL:
            if all(isval(i) and (i if isinstance(i, int) else i.as_long()) == 0 for i in idx):
                return NULL
            self.bad(st, 'no arithmetic on a null pointer')
        if not isinstance(p, Ptr):
            raise Unsup('address arithmetic on %s' % (p,))
        s = cir.size(m, t)
        p = p.add(0, s, as_pyint(idx[0]))
        for i in idx[1:]:
            if isinstance(t, tuple) and t[0] == 'name':
                t = m.structs[t[1]]
            if isinstance(t, tuple) and t[0] == 'struct':
                o, t = cir.field(m, t, as_pyint(i))
                p = p.add(o)
            elif isinstance(t, tuple) and t[0] == 'arr':
                t = t[2]
                p = p.add(0, cir.size(m, t), as_pyint(i))
            else:
                raise Unsup('getelementptr into %s' % (t,))
        return p

    def binop(self, st, op, ty, a, b):
        if op[0] == 'f':
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque('float')
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if not f:
                raise Unsup(op)
            return z3.simplify(f(RNE, a, b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque(op)
        if ty == 'i1':
            a, b = Z(a), Z(b)
            return z3.simplify({'and': And, 'or': Or, 'xor': z3.Xor}[op](a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
                return z3.simplify(a.off() - b.off())
            raise Unsup('arithmetic on addresses')
        if isinstance(a, int) and isinstance(b, int) and op in ('add', 'sub', 'mul'):
            return {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        if op in ('add', 'sub', 'mul'):
            self.assumed.add('machine integers of the C code are treated as mathematical integers (sizes and lengths far below 2^31)')
            x, y = as_int(a), as_int(b)
            return z3.simplify({'add': x + y, 'sub': x - y, 'mul': x * y}[op])
        x, y = as_int(a), as_int(b)
        if op == 'sdiv' and isval(y) and as_pyint(y) > 0:
            return z3.simplify(If(x >= 0, x / y, -((-x) / y)))
        if op == 'shl' and isval(y):
            return z3.simplify(x * (1 << as_pyint(y)))
        if op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'urem', 'srem', 'sdiv'):
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}.get(op, None) if op in ('and', 'or', 'xor') else Opaque(op)
            return z3.Function('c_' + op, I_, I_, I_)(x, y)
        raise Unsup(op)

    def cast(self, st, op, src, dst, v):
        if isinstance(v, Opaque):
            return v
        if op in ('bitcast', 'fpext', 'fptrunc'):
            return v
        if op in ('ptrtoint', 'inttoptr'):
            return v
        if op in ('fptosi', 'fptoui'):
            # some integer that depends on the number only
            r = z3.Function('c_%s_%s' % (op, dst), D_, I_)(Z(v))
            w = int(dst[1:])
            st.pc.append(And(r >= (-(1 << (w - 1)) if op == 'fptosi' else 0), r < (1 << (w - 1 if op == 'fptosi' else w))))
            return r
        if op in ('sitofp',):
            return z3.fpToFP(RNE, z3.ToReal(as_int(v)), D_)
        if op == 'zext' and src == 'i1':
            return z3.simplify(as_int(v))
        if op == 'sext' and src == 'i1':
            return z3.simplify(-as_int(v))
        if op == 'sext':
            return v
        if op == 'zext':
            w = int(src[1:])
            if isinstance(v, int):
                return v % (1 << w)
            return z3.simplify(If(Z(v) < 0, Z(v) + (1 << w), Z(v)))
        if op == 'trunc':
            if dst == 'i1':
                return z3.simplify(as_int(v) % 2 == 1)
            w = int(dst[1:])
            if isinstance(v, int):
                x = v % (1 << w)
                return x - (1 << w) if x >= 1 << (w - 1) else x
            if w >= 32 or not z3.is_arith(Z(v)):
                return v
            x = Z(v)
            h = 1 << (w - 1)
            return z3.simplify(If(And(x >= -h, x < h), x, (x + h) % (1 << w) - h))
        raise Unsup(op)

    def cmp(self, st, pred, ty, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh('c', B_)
        if ty == 'ptr':
            a, b = self.resolve(st, a), self.resolve(st, b)
            if pred in ('eq', 'ne'):
                if isinstance(a, (FnRef,)) or isinstance(b, FnRef):
                    raise Unsup('comparison of functions')
                if a is NULL and b is NULL:
                    r = BoolVal(True)
                elif a is NULL or b is NULL:
                    x = b if a is NULL else a
                    r = x.term == NULLT if isinstance(x, Hnd) else BoolVal(False)
                elif isinstance(a, Ptr) and isinstance(b, Ptr):
                    r = a.off() == b.off() if a.oid == b.oid else BoolVal(False)
                elif isinstance(a, Hnd) and isinstance(b, Hnd):
                    if a.res == b.res:
                        r = BoolVal(True)
                    else:
                        r = And(a.term == NULLT, b.term == NULLT)
                else:
                    r = BoolVal(False)
                return z3.simplify(r if pred == 'eq' else Not(r))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
                a, b = a.off(), b.off()
            else:
                raise Unsup('ordering of pointers')
        if ty == 'i1':
            a, b = Z(a), Z(b)
            return z3.simplify(a == b if pred == 'eq' else a != b)
        a, b = as_int(a), as_int(b)
        if pred[0] == 'u' and ty != 'ptr':
            w = 1 << int(ty[1:])
            a, b = [If(x < 0, x + w, x) for x in (a, b)]
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return z3.simplify({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[p]())

    # ------------------------------------------------------------ control
    def call(self, st, name, args, inst, depth):
        if name in self.contracts:
            self.used.add(name)
            return self.contracts[name](self, st, args)
        if name in self.fn:
            if depth > 12:
                raise Unsup('recursion of %s without a contract' % name)
            self.inlined.add(name)
            m, f = self.fn[name]
            env = st.env
            st.env = dict(zip([p[1] for p in f.params], args))
            out = []
            for r, s in self.run(m, f, st, depth + 1):
                s.env = dict(env)
                out.append((r, s))
            return out
        if name in self.lib:
            self.models.add(name)
            return self.lib[name](self, st, args)
        raise Unsup('call of %s' % name)

    def loops(self, f):
        if hasattr(f, 'loops'):
            return f.loops
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            succ[b] = [t.a[0]] if t.op == 'br' else [t.a[1], t.a[2]] if t.op == 'cbr' else [t.a[1]] + [c[1] for c in t.a[2]] if t.op == 'switch' else []
        pred = {b: [] for b in f.order}
        live, todo = {f.order[0]}, [f.order[0]]
        while todo:
            for s in succ[todo.pop()]:
                if s not in live:
                    live.add(s)
                    todo.append(s)
        for b in succ:
            if b not in live:
                continue
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(f.order) for b in f.order}
        dom[f.order[0]] = {f.order[0]}
        ch = True
        while ch:
            ch = False
            for b in f.order[1:]:
                ps = [dom[p] for p in pred[b]]
                d = (set.intersection(*ps) if ps else set()) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        L = {}
        for b in f.order:
            if b not in live:
                continue
            for s in succ[b]:
                if s in dom[b]:
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += pred[x]
        f.loops = L
        f.succ = succ
        return L

    def run(self, m, f, st, depth=0, start=None, stop=None, prev=None):
        """all paths from start to a return (or to a block in stop); [(value or ('at', block, prev), state)]"""
        L = self.loops(f)
        out = []
        work = [(start or f.order[0], prev, 0, st)]
        while work:
            b, pb, i, s = work.pop()
            if time.time() > self.deadline:
                raise Unsup('out of time')
            if i == 0 and stop and b in stop and not (b == start and pb == prev):
                out.append((('at', b, pb), s))
                continue
            if i == 0 and b in L and not (start == b and pb == prev and stop and b in stop):
                try:
                    for nb, npb, ns in self.loop(m, f, b, pb, s, depth):
                        work.append((nb, npb, 0, ns))
                except Dead:
                    pass
                except Fork as fk:
                    work += [(b, pb, 0, x) for x in under(s, fk.conds)]
                continue
            ins = f.blocks[b]
            if i == 0:
                # phis read the environment before any of them is assigned
                vals = []
                while i < len(ins) and ins[i].op == 'phi':
                    x = ins[i]
                    if start == b and pb == prev and stop and b in stop:
                        i += 1
                        continue
                    for v, q in x.a:
                        if q == pb:
                            vals.append((x.res, self.ev(s, v, x.ty, m)))
                            break
                    else:
                        raise Unsup('phi without a predecessor')
                    i += 1
                for n, v in vals:
                    s.env[n] = v
            while True:
                x = ins[i]
                self.where = '%s: %s' % (f.name, x.text.strip()[:90])
                base = s.copy()
                try:
                    r = self.step(m, f, x, s, depth)
                except Fork as fk:
                    for y in under(base, fk.conds):
                        work.append((b, pb, i, y))
                    break
                except Dead:
                    break
                if r is None:
                    i += 1
                    continue
                if r[0] == 'ret':
                    out.append((r[1], s))
                    break
                if r[0] == 'goto':
                    for nb, ns in r[1]:
                        work.append((nb, b, 0, ns))
                    break
                if r[0] == 'calls':
                    for v, ns in r[1]:
                        if x.res:
                            ns.env[x.res] = v
                        work.append((b, pb, i + 1, ns))
                    break
        return out

    def step(self, m, f, x, s, depth):
        op = x.op
        if op == 'ret':
            return ('ret', self.ev(s, x.a[0], x.ty, m) if x.a else None)
        if op == 'br':
            return ('goto', [(x.a[0], s)])
        if op == 'cbr':
            c = z3.simplify(Z(self.ev(s, x.a[0], 'i1', m)))
            if x.a[1] == x.a[2] or z3.is_true(c):
                return ('goto', [(x.a[1], s)])
            if z3.is_false(c):
                return ('goto', [(x.a[2], s)])
            a, b = self.choose(s, [c, Not(c)])
            return ('goto', [(t, y) for t, y in ((x.a[1], a), (x.a[2], b)) if y])
        if op == 'switch':
            v = as_int(self.ev(s, x.a[0], x.ty, m))
            v = z3.simplify(v)
            cs = x.a[2]
            if z3.is_int_value(v):
                for c, t in cs:
                    if c == v.as_long():
                        return ('goto', [(t, s)])
                return ('goto', [(x.a[1], s)])
            groups = {}
            for c, t in cs:
                groups.setdefault(t, []).append(c)
            res = []
            for t, l in groups.items():
                y = self.choose(s, [Or([v == c for c in l])])[0]
                if y:
                    res.append((t, y))
            y = self.choose(s, [And([v != c for c, _ in cs])])[0]
            if y:
                res.append((x.a[1], y))
            return ('goto', res)
        if op == 'unreachable':
            self.bad(s, 'unreachable code is not reached')
        if op == 'alloca':
            s.env[x.res] = Ptr(self.alloc(s, 'local', cir.size(m, x.ty), 'frame'))
            return
        if op == 'load':
            s.env[x.res] = self.load(s, x.ty, self.ev(s, x.a[0], 'ptr', m))
            return
        if op == 'store':
            self.store(s, x.ty, self.ev(s, x.a[0], x.ty, m), self.ev(s, x.a[1], 'ptr', m))
            return
        if op == 'gep':
            s.env[x.res] = self.gep(s, m, x.ty, x.a)
            return
        if op == 'icmp':
            s.env[x.res] = self.cmp(s, x.a[0], x.ty, self.ev(s, x.a[1], x.ty, m), self.ev(s, x.a[2], x.ty, m))
            return
        if op == 'fcmp':
            a, b = self.ev(s, x.a[1], x.ty, m), self.ev(s, x.a[2], x.ty, m)
            f2 = {'oeq': z3.fpEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ, 'une': lambda p, q: Not(z3.fpEQ(p, q))}.get(x.a[0])
            if not f2:
                raise Unsup('fcmp ' + x.a[0])
            s.env[x.res] = f2(a, b)
            return
        if op == 'bin':
            s.env[x.res] = self.binop(s, x.a[0], x.ty, self.ev(s, x.a[1], x.ty, m), self.ev(s, x.a[2], x.ty, m))
            return
        if op == 'fneg':
            s.env[x.res] = z3.fpNeg(self.ev(s, x.a[0], x.ty, m))
            return
        if op == 'cast':
            s.env[x.res] = self.cast(s, x.a[0], x.a[2], x.ty, self.ev(s, x.a[1], x.a[2], m))
            return
        if op == 'freeze':
            s.env[x.res] = self.ev(s, x.a[0], x.ty, m)
            return
        if op == 'select':
            c = z3.simplify(Z(self.ev(s, x.a[0], 'i1', m)))
            a, b = self.ev(s, x.a[1], x.ty, m), self.ev(s, x.a[2], x.ty, m)
            if z3.is_true(c) or z3.is_false(c):
                s.env[x.res] = a if z3.is_true(c) else b
                return
            if x.ty == 'ptr' or x.ty == 'double':
                if self.entails(s, c):
                    s.env[x.res] = a
                elif self.entails(s, Not(c)):
                    s.env[x.res] = b
                else:
                    self.fork(s, [c, Not(c)])
                return
            s.env[x.res] = If(c, Z(a), Z(b))
            return
        if op == 'call':
            callee = x.a[0]
            if callee[0] == 'g':
                name = callee[1][1:]
            else:
                v = self.ev(s, callee, 'ptr', m)
                if not isinstance(v, FnRef):
                    raise Unsup('call through a pointer')
                name = v.name
            if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.stack'):
                return
            args = [self.ev(s, a, t, m) for t, a in x.a[1]]
            return ('calls', self.call(s, name, args, x, depth))
        raise Unsup('instruction %s' % x.text)

    # ------------------------------------------------------------ loops
    def loop(self, m, f, h, pb, st, depth):
        """summarises the loop with header h entered from pb; [(exit block, its predecessor, state)]"""
        body = self.loops(f)[h]
        phis = [x for x in f.blocks[h] if x.op == 'phi']
        init = {}
        for x in phis:
            for v, q in x.a:
                if q == pb:
                    init[x.res] = self.ev(st, v, x.ty, m)
        if self.loopinv:
            r = self.loopinv(self, m, f, h, pb, st, depth, phis, init)
            if r is not None:
                return r
        outside = [b for b in f.order if b not in body]
        stop = set(outside) | {h}
        # 1. the step of every loop variable
        probe = st.copy()
        sym = {}
        for x in phis:
            a = init[x.res]
            if x.ty == 'ptr':
                a = self.resolve(probe, a)
                if isinstance(a, Ptr):
                    e = self.fresh('p')
                    sym[x.res] = Ptr(a.oid, a.c, a.ts).add(0, 8, e)
                    continue
                sym[x.res] = a
            elif x.ty == 'i1' or x.ty == 'double':
                sym[x.res] = a
            else:
                sym[x.res] = self.fresh('v')
        probe.env.update(sym)
        self.quiet += 1
        nob = len(self.obls)
        try:
            outs = self.run(m, f, probe, depth, start=h, stop=stop, prev=pb)
        finally:
            self.quiet -= 1
        # nodes the loop looks into are unfolded before it
        again = False
        for r, s in outs:
            for oid in list(st.objs):
                if st.objs[oid].pending and not s.objs[oid].pending:
                    self.fill(st, oid, self.kinds(st, oid))
                    again = True
            for n in list(st.res):
                if not st.res[n]['obj'] and s.res[n]['obj'] and self.entails(st, st.res[n]['term'] != NULLT):
                    self.unfold(st, Hnd(('t', n), st.res[n]['term']))
                    again = True
            if again:
                return self.loop(m, f, h, pb, st, depth)
        steps = {}
        for r, s in outs:
            if not (isinstance(r, tuple) and r[0] == 'at') or r[1] != h:
                continue
            for x in phis:
                for v, q in x.a:
                    if q == r[2]:
                        nv = self.ev(s, v, x.ty, m)
                        a = sym[x.res]
                        if isinstance(a, Ptr) and isinstance(nv, Ptr) and nv.oid == a.oid:
                            d = z3.simplify(nv.off() - a.off())
                        elif isinstance(a, (Ptr, Hnd, Null)) or x.ty in ('i1', 'double'):
                            d = IntVal(0) if same_val(a, nv) else None
                        elif isinstance(nv, Opaque):
                            d = None
                        else:
                            d = z3.simplify(as_int(nv) - as_int(a))
                        if d is None or not z3.is_int_value(d) or x.res in steps and steps[x.res] != d.as_long():
                            raise Unsup('loop variable %s without a constant step' % x.res)
                        steps[x.res] = d.as_long()
        for x in phis:
            steps.setdefault(x.res, 0)

        def at(k, s):
            for x in phis:
                a = init[x.res]
                d = steps[x.res]
                if d == 0:
                    s.env[x.res] = a
                elif x.ty == 'ptr':
                    a = self.resolve(s, a)
                    if d % 8 == 0:
                        s.env[x.res] = a.add(0, 8, (d // 8) * k)
                    else:
                        s.env[x.res] = a.add(0, 1, d * k)
                else:
                    s.env[x.res] = z3.simplify(as_int(a) + d * k)
        # 2. one arbitrary iteration
        k = self.fresh('k')
        it = st.copy()
        it.pc.append(k >= 0)
        n0 = len(it.pc)
        at(k, it)
        outer_log = it.log
        it.log = []
        it.extra['pre'] = set(it.objs)
        pre_res = set(it.res)
        outs = self.run(m, f, it, depth, start=h, stop=stop, prev=pb)
        conts, guards = [], []
        for r, s in outs:
            if not (isinstance(r, tuple) and r[0] == 'at'):
                raise Unsup('a loop returns from its body')
            if r[1] == h:
                conts.append(s)
            elif r[2] != h:
                raise Unsup('a loop is left from its body')
        K = self.fresh('K')
        after = st.copy()
        after.pc.append(K >= 0)
        if conts:
            eff = self.effects(conts, k, n0, pre_res, st, K)
            # the guard held in the last iteration
            g = Or([And([z3.substitute(c, (k, K - 1)) for c in s.pc[n0:] if self.only(c, k, st)]) for s in conts])
            after.pc.append(Or(K == 0, g))
            eff(after)
        at(K, after)
        after.log = outer_log
        after.extra.pop('pre', None)
        if 'pre' in st.extra:
            after.extra['pre'] = st.extra['pre']
        if outer_log is not None:
            raise Unsup('a loop inside a loop')
        res = []
        for r, s in self.run_header(m, f, h, after, depth, stop, pb):
            if r[1] not in body:
                res.append((r[1], r[2], s))
        return res

    def run_header(self, m, f, h, st, depth, stop, pb):
        """executes the header block once and keeps the paths that leave the loop"""
        st2 = set(f.order) - {h} | {h}
        self.quiet += 1     # its accesses were checked for an arbitrary iteration
        try:
            return [(r, s) for r, s in self.run(m, f, st, depth, start=h, stop=st2, prev=pb) if isinstance(r, tuple) and r[0] == 'at']
        finally:
            self.quiet -= 1

    def only(self, c, k, st):
        return True

    def effects(self, conts, k, n0, pre_res, st, K):
        """what any number of iterations do, from one arbitrary one"""
        effs = []
        for s in conts:
            ws, cs, rs = [], [], []
            for e in s.log:
                if e[0] == 'w':
                    if e[2] is None or e[5] != 'ptr':
                        raise Unsup('a loop writes a field of an older object')
                    ws.append((e[1], e[2], e[3]))
                elif e[0] == 'c':
                    cs.append((e[1], z3.simplify(e[2])))
                else:
                    rs.append((e[1], e[2]))
            for oid, o in s.objs.items():
                if oid not in s.extra['pre'] and o.alive and o.own == 'heap' and o.what != 'node' and not o.tree:
                    if not any(isinstance(w[2], Ptr) and w[2].oid == oid for w in ws) and not self.part_of_unfolded(s, oid):
                        raise Unsup('a loop allocates a block it keeps')
                if oid in s.extra['pre'] and s.objs[oid].alive != st.objs[oid].alive:
                    raise Unsup('a loop frees an older block')
            effs.append((s, ws, cs, rs))
        # elements that are null need no release
        allc = []
        for s, ws, cs, rs in effs:
            for c in cs:
                if not any(c[0] == d[0] and z3.eq(c[1], d[1]) for d in allc):
                    allc.append(c)
        for s, ws, cs, rs in effs:
            for c in allc:
                if not any(c[0] == d[0] and z3.eq(c[1], d[1]) for d in cs):
                    if not self.entails(s, s.fams[c[0]]['term'](c[1]) == NULLT):
                        raise Unsup('a loop releases some elements only')
        s0, ws0, _, rs0 = effs[0]
        for s, ws, cs, rs in effs[1:]:
            if len(ws) != len(ws0) or any(a[0] != b[0] or not z3.eq(a[1], b[1]) for a, b in zip(ws, ws0)):
                raise Unsup('the paths of a loop write different elements')
        # unfolded resources and handles that existed before must not change state otherwise
        for s, ws, cs, rs in effs:
            for n in pre_res:
                if s.res[n]['gone'] != st.res[n]['gone']:
                    raise Unsup('a loop releases an older tree')
                if s.res[n]['obj'] != st.res[n]['obj']:
                    raise Unsup('a loop unfolds an older tree')
        out_w = []
        newfams = {}
        for j, (oid, idx, v) in enumerate(ws0):
            a, sg = affine(idx, k)
            terms = []
            for s, ws, cs, rs in effs:
                w = self.resolve(s, ws[j][2])
                terms.append((s, w))
            vals = [w for _, w in terms]
            out_w.append((oid, a, sg, vals, [s for s, _ in terms]))
        for s, ws, cs, rs in effs:
            # what one iteration writes no other reads
            for oid, idx, v in ws:
                for o2, r in rs:
                    if o2 == oid:
                        k2 = self.fresh('k')
                        if not self.check(s.pc + [k2 >= 0, k2 < k, z3.substitute(idx, (k, k2)) == r]) == z3.unsat:
                            raise Unsup('a loop reads what an earlier iteration wrote')
        consumed = []
        for fid, idx in allc:
            a, sg = affine(idx, k)
            consumed.append((fid, a, sg))
        base_pc = len(st.pc)

        def apply(after):
            for fid, a, sg in consumed:
                f = after.fams[fid] = dict(after.fams[fid])
                f['gone'] = f['gone'] + [rng(a, sg, K)]
            for oid, a, sg, vals, ss in out_w:
                lo, hi = rng(a, sg, K)
                kk = (lambda i, a=a, sg=sg: z3.simplify((i - a) * sg))
                v = self.merge_vals(vals, ss, k, st, after, K, pre_res)
                fn = lambda i, v=v, kk=kk: v(kk(i))
                o = after.w(oid)
                if o.fields:
                    raise Unsup('a loop writes an array with fields')
                o.segs = o.segs + [('rng', lo, hi, fn)]
        return apply

    def part_of_unfolded(self, s, oid):
        for o in s.objs.values():
            if o.tree is not None and any(isinstance(v, Ptr) and v.oid == oid for t, v in o.fields.values()):
                return True
        return False

    def merge_vals(self, vals, ss, k, st, after, K, pre_res):
        """the value written in iteration k, as a function of k"""
        if all(isinstance(v, Hnd) or v is NULL for v in vals):
            hs = [v for v in vals if isinstance(v, Hnd)]
            if not hs:
                return lambda kk: NULL
            h = hs[0]
            for v, s in zip(vals, ss):
                # the paths must agree on the value (null handles have the value null)
                t = v.term if isinstance(v, Hnd) else NULLT
                if not self.entails(s, t == h.term):
                    raise Unsup('the paths of a loop write different values')
            for v in hs:
                if v.res[0] != h.res[0] or v.res[0] == 'f' and not z3.eq(Z(v.res[2]), Z(h.res[2])):
                    raise Unsup('the paths of a loop write different handles')
            term = h.term
            if h.res[0] == 'f':
                return lambda kk: Hnd(('f', h.res[1], z3.simplify(z3.substitute(Z(h.res[2]), (k, kk)))), z3.simplify(z3.substitute(term, (k, kk))))
            if h.res[1] in pre_res:
                raise Unsup('a loop stores an older tree')
            fid = self.nid()
            after.fams[fid] = dict(own=ss[0].res[h.res[1]]['own'], n=K, gone=[], term=lambda i: z3.substitute(term, (k, i)), objs=[])
            return lambda kk: Hnd(('f', fid, kk), z3.simplify(z3.substitute(term, (k, Z(kk)))))
        raise Unsup('a loop writes %s' % (vals[0],))


def under(st, conds):
    out = []
    for c in conds:
        s = st.copy()
        s.pc.append(Z(c))
        out.append(s)
    return out


def rng(a, sg, K):
    if sg == 1:
        return a, z3.simplify(a + K)
    return z3.simplify(a - K + 1), z3.simplify(a + 1)


def affine(e, k):
    """e = a + s*k with s = 1 or -1"""
    a = z3.simplify(z3.substitute(e, (k, IntVal(0))))
    for s in (1, -1):
        if z3.is_int_value(z3.simplify(e - (a + s * k))) and z3.simplify(e - (a + s * k)).as_long() == 0:
            return a, s
    raise Unsup('array index %s is not linear in the iteration' % e)


def same_val(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.oid == b.oid and z3.eq(a.off(), b.off())
    if isinstance(a, Hnd) and isinstance(b, Hnd):
        return str(a.res) == str(b.res)
    if a is NULL or b is NULL:
        return a is b
    if isinstance(a, (Ptr, Hnd, Opaque)) or isinstance(b, (Ptr, Hnd, Opaque)):
        return False
    return z3.eq(z3.simplify(Z(a)), z3.simplify(Z(b)))


def as_pyint(i):
    if isinstance(i, int):
        return i
    i = z3.simplify(i)
    return i.as_long() if z3.is_int_value(i) else i


# ------------------------------------------------------------ library contracts (assumed)
LIB = {}


def lib(n):
    def d(f):
        LIB[n] = f
        return f
    return d


@lib('malloc')
def _malloc(ex, st, a):
    ex.assumed.add('malloc and strdup do not fail')
    n = as_pyint(a[0])
    ex.oblige(st, Z(n) >= 0, 'malloc of a size that is not negative')
    return [(Ptr(ex.alloc(st, 'block', n)), st)]


@lib('calloc')
def _calloc(ex, st, a):
    return _malloc(ex, st, [ex.binop(st, 'mul', 'i64', a[0], a[1])])


@lib('free')
def _free(ex, st, a):
    p = ex.resolve(st, a[0])
    if isinstance(p, Ptr) and st.objs[p.oid].own == 'heap':
        pass
    ex.free_block(st, a[0])
    return [(None, st)]


@lib('strdup')
def _strdup(ex, st, a):
    ex.assumed.add('malloc and strdup do not fail')
    ex.deref(st, a[0], 'strdup')
    arr, n = ex.text_of(st, a[0])
    return [(ex.new_text(st, arr, n), st)]


@lib('strlen')
def _strlen(ex, st, a):
    p = ex.deref(st, a[0], 'strlen')
    arr, n = st.objs[p.oid].text or (None, None)
    if arr is None:
        raise Unsup('strlen of a buffer')
    ex.oblige(st, And(p.off() >= 0, p.off() <= n), 'strlen within the text')
    return [(z3.simplify(n - p.off()), st)]


STRTOD_V = z3.Function('strtod_value', A_, I_, D_)
STRTOD_E = z3.Function('strtod_end', A_, I_, I_)


@lib('strtod')
def _strtod(ex, st, a):
    arr, n = ex.text_of(st, a[0])
    e = STRTOD_E(arr, n)
    st.pc += [e >= 0, e <= n]
    p = ex.resolve(st, a[0])
    if a[1] is not NULL:
        ex.store(st, 'ptr', p.add(0, 1, e), a[1])
    return [(STRTOD_V(arr, n), st)]


def lower(c):
    c = as_int(c)
    return z3.simplify(If(And(c >= 65, c <= 90), c + 32, c))


@lib('tolower')
def _tolower(ex, st, a):
    return [(lower(a[0]), st)]


@lib('toupper')
def _toupper(ex, st, a):
    c = as_int(a[0])
    return [(z3.simplify(If(And(c >= 97, c <= 122), c - 32, c)), st)]


@lib('fprintf')
def _fprintf(ex, st, a):
    return [(Opaque('fprintf'), st)]


LIB['printf'] = LIB['puts'] = LIB['fputs'] = _fprintf


@lib('abort')
def _abort(ex, st, a):
    ex.bad(st, 'the process does not abort')


def _memcpy(ex, st, a):
    n = as_pyint(a[2])
    d, s = ex.resolve(st, a[0]), ex.resolve(st, a[1])
    if isinstance(d, Ptr) and isinstance(s, Ptr) and not (d.c or d.ts or s.c or s.ts):
        do, so = ex.deref(st, d, 'memcpy').oid, ex.deref(st, s, 'memcpy').oid
        if not st.objs[do].fields and not st.objs[do].segs and st.objs[so].segs and ex.entails(st, Z(n) % 8 == 0):
            # an array of pointers
            cnt = z3.simplify(Z(n) / 8)
            ex.bounds(st, d, n)
            ex.bounds(st, s, n)
            out = []
            for lo, hi, f in ex.segs_of(st, s, cnt):
                hi2 = Z(hi) if ex.entails(st, Z(hi) <= cnt) else cnt if ex.entails(st, cnt <= Z(hi)) else If(Z(hi) <= cnt, Z(hi), cnt)
                out.append(('rng', lo, hi2, f))
            if st.log is not None:
                raise Unsup('memcpy in a loop')
            st.w(do).segs = out
            return [(a[0], st)]
    d, s = ex.deref(st, a[0], 'memcpy'), ex.deref(st, a[1], 'memcpy')
    if not isinstance(n, int) or d.ts or s.ts or d.c or s.c:
        raise Unsup('memcpy of part of an object')
    o = st.objs[s.oid]
    if o.pending:
        ex.fill(st, s.oid, ex.kinds(st, s.oid))
        o = st.objs[s.oid]
    if o.segs or o.text:
        raise Unsup('memcpy of an array')
    ex.bounds(st, d, n)
    ex.bounds(st, s, n)
    for off, (t, v) in o.fields.items():
        ex.store(st, t, v, d.add(off))
    return [(a[0], st)]


LIB['llvm.memcpy.p0.p0.i64'] = _memcpy
LIB['memcpy'] = _memcpy
LIB['memmove'] = _memcpy
