"""The flex scanner of v6, executed from the IR clang makes of lex.yy.c on every run.

yy_scan_string, yylex and yy_delete_buffer (and every function they call) are executed with the input text, its length N and
all positions in it symbolic.  Executions are cut at the head of the token loop and of the loops that read characters; what is
known at a cut (the tables' state, the positions as symbols with difference constraints between them, and the state of the
specification's automaton after the same characters) is the loop invariant, and the set of cuts reached from the initial state
of the program is closed under every byte, every way the loops end, every token and every later call.
"""
import re, resource, time
import cir
from cexec import CExec, Unsup
import dfa


class Broken(Exception):
    """an obligation of the scanner fails; text: an input that shows it"""

    def __init__(self, name, text=None):
        self.name, self.text = name, text


# ------------------------------------------------------------ linear expressions: (constant, ((symbol, coefficient), ...))
def lin(v):
    if isinstance(v, bool):
        return (int(v), ())
    if isinstance(v, int):
        return (v, ())
    if isinstance(v, Lin):
        return v.v
    raise Unsup('the scanner computes with %s' % (v,))


def mk(c, d):
    d = tuple(sorted((s, k) for s, k in d.items() if k))
    return (c, d)


def ladd(a, b, k=1):
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for s, n in b[1]:
        d[s] = d.get(s, 0) + k * n
    return mk(a[0] + k * b[0], d)


def lmul(a, k):
    if not a[1]:
        return (a[0] * k, ())
    return mk(a[0] * k, {s: n * k for s, n in a[1]})


def lsub(a, sym, by):
    """a with sym replaced by the expression by"""
    if not a[1]:
        return a
    d = dict(a[1])
    k = d.pop(sym, 0)
    if not k:
        return a
    return ladd(mk(a[0], d), by, k)


def show(a):
    s = ''.join('%+d*%s' % (k, n) if abs(k) != 1 else '%s%s' % ('+' if k > 0 else '-', n) for n, k in a[1])
    return (s + ('%+d' % a[0] if a[0] or not s else '')).lstrip('+')


class Lin:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return ('lin', self.v)

    def __repr__(self):
        return show(self.v)


def unlin(v):
    return v[0] if not v[1] else Lin(v)


class P:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=(0, ())):
        self.base, self.off = base, off

    def key(self):
        return ('p', self.base, self.off)

    def __repr__(self):
        return '%s+%s' % (self.base, show(self.off))


class By:
    """the byte at an offset of the text, as a signed (s) or unsigned (u) number"""
    __slots__ = ('off', 'mode')

    def __init__(self, off, mode='s'):
        self.off, self.mode = off, mode

    def key(self):
        return ('by', self.off, self.mode)

    def of(self, b):
        return b - 256 if self.mode == 's' and b > 127 else b

    def __repr__(self):
        return 'text[%s]' % show(self.off)


class Gone:
    """a value that must not be used: a pointer to released memory, or something a previous token left behind"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def key(self):
        return ('gone', self.why)


class Ext:
    """a pointer to something outside (a FILE)"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def key(self):
        return ('ext', self.why)


def vkey(v):
    return v if isinstance(v, int) else v.key()


class ForkByte(Exception):
    def __init__(self, off, sets):
        self.off, self.sets = off, sets


class ForkFact(Exception):
    """alternatives, each a list of (x, y, c): x - y <= c"""

    def __init__(self, alts):
        self.alts = alts


class Frame:
    __slots__ = ('f', 'env', 'blk', 'prev', 'i', 'res')

    def __init__(self, f, env, blk, prev=None, i=0, res=None):
        self.f, self.env, self.blk, self.prev, self.i, self.res = f, env, blk, prev, i, res

    def copy(self):
        return Frame(self.f, dict(self.env), self.blk, self.prev, self.i, self.res)


class Reveal(Exception):
    def __init__(self, cells):
        self.cells = cells


def syms(v):
    return {s for s, _ in (v.v[1] if isinstance(v, Lin) else v.off[1] if isinstance(v, (P, By)) else ())}


class M:
    hid, hidobjs = frozenset(), frozenset()

    def __init__(self):
        self.frames, self.mem, self.objs, self.bytes, self.facts, self.gh, self.arrived = [], {}, {}, {}, {}, None, False

    def copy(self):
        m = M()
        m.frames = [f.copy() for f in self.frames]
        m.mem, m.bytes, m.facts = dict(self.mem), dict(self.bytes), dict(self.facts)
        m.objs = {k: dict(o) for k, o in self.objs.items()}
        m.gh = dict(self.gh) if self.gh else None
        m.arrived = self.arrived
        m.hid, m.hidobjs = self.hid, self.hidobjs
        return m

    # -------------------------------------------------------- difference constraints
    def know(self, x, y, c):
        """x - y <= c; returns False when that is impossible"""
        f = self.facts
        if f.get((x, y), 1 << 60) <= c:
            return True
        if x == y:
            return c >= 0
        syms = {s for k in f for s in k} | {x, y}
        # close under the new edge
        for a in syms:
            ax = 0 if a == x else f.get((a, x))
            if ax is None:
                continue
            for b in syms:
                yb = 0 if b == y else f.get((y, b))
                if yb is None:
                    continue
                v = ax + c + yb
                if a == b:
                    if v < 0:
                        return False
                elif v < f.get((a, b), 1 << 60):
                    f[(a, b)] = v
        return True

    def diff(self, v):
        """v <= 0 as a difference constraint (x, y, c)"""
        c, d = v
        if len(d) == 1:
            (s, k), = d
            if k == 1:
                return (s, '0', -c)
            if k == -1:
                return ('0', s, -c)
        if len(d) == 2:
            (a, p), (b, q) = d
            if (p, q) == (1, -1):
                return (a, b, -c)
            if (p, q) == (-1, 1):
                return (b, a, -c)
        return None

    def entails(self, v):
        """v <= 0"""
        if not v[1]:
            return v[0] <= 0
        t = self.diff(v)
        if t is None:
            raise Unsup('the scanner compares with %s' % show(v))
        x, y, c = t
        return self.facts.get((x, y), 1 << 60) <= c

    def le(self, v):
        """True or False when it is known whether v <= 0; forks otherwise"""
        if self.entails(v):
            return True
        n = ladd((1, ()), v, -1)      # v >= 1
        if self.entails(n):
            return False
        raise ForkFact([[self.diff(v)], [self.diff(n)]])

    def eq(self, v):
        """True or False when it is known whether v == 0; forks otherwise"""
        a, b = self.entails(v), self.entails(lmul(v, -1))
        if a and b:
            return True
        lo, hi = ladd(v, (1, ())), ladd(lmul(v, -1), (1, ()))       # v <= -1, v >= 1
        if self.entails(lo) or self.entails(hi):
            return False
        alts = [[self.diff(v), self.diff(lmul(v, -1))]]
        if not b:
            alts.append([self.diff(lo)])
        if not a:
            alts.append([self.diff(hi)])
        raise ForkFact(alts)

    def subst(self, sym, by):
        def val(v):
            if isinstance(v, Lin):
                return unlin(lsub(v.v, sym, by))
            if isinstance(v, P):
                return P(v.base, lsub(v.off, sym, by))
            if isinstance(v, By):
                return By(lsub(v.off, sym, by), v.mode)
            return v
        for fr in self.frames:
            for k in list(fr.env):
                fr.env[k] = val(fr.env[k])
        self.mem = {(b, lsub(o, sym, by)): val(v) for (b, o), v in self.mem.items()}
        nb = {}
        for o, s in self.bytes.items():
            o = lsub(o, sym, by)
            nb[o] = nb.get(o, dfa.ANY) & s
        self.bytes = nb
        for o in self.objs.values():
            o['size'] = lsub(o['size'], sym, by)
            if o.get('copy'):
                o['copy'] = lsub(o['copy'], sym, by)
        if self.gh:
            for k in ('at', 'last_at'):
                if self.gh.get(k) is not None:
                    self.gh[k] = lsub(self.gh[k], sym, by)

    def forget(self, sym):
        self.facts = {k: c for k, c in self.facts.items() if sym not in k}
        self.bytes = {o: s for o, s in self.bytes.items() if sym not in dict(o[1])}


def live_sets(f):
    """block -> the variables that are live at its start (without its own phis)"""
    use, deff, phi = {}, {}, {}

    def vs(x, out):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'v' and isinstance(x[1], str):
                out.add(x[1])
            else:
                for y in x:
                    vs(y, out)
    succ = {}
    for b in f.order:
        u, d = set(), set()
        for x in f.blocks[b]:
            if x.op == 'phi':
                for v, q in x.a:
                    s = set()
                    vs(v, s)
                    phi.setdefault((q, b), set()).update(s)
                d.add(x.res)
                continue
            s = set()
            vs(x.a, s)
            u |= s - d
            if x.res:
                d.add(x.res)
        use[b], deff[b] = u, d
        t = f.blocks[b][-1]
        succ[b] = [t.a[0]] if t.op == 'br' else [t.a[1], t.a[2]] if t.op == 'cbr' else [t.a[1]] + [q for _, q in t.a[2]] if t.op == 'switch' else []
    live = {b: set() for b in f.order}
    out = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            o = set()
            for s in succ[b]:
                o |= live[s] | phi.get((b, s), set())
            l = use[b] | (o - deff[b])
            if l != live[b] or o != out[b]:
                live[b], out[b] = l, o
                ch = True
    return live, out


class Lexer:
    def __init__(self, mod, spec, names=('yylex', 'yy_scan_string', 'yy_delete_buffer')):
        self.m, self.spec = mod, spec
        self.lex, self.scan, self.delete = names
        for n in names:
            if n not in mod.funcs:
                raise Unsup('there is no function %s' % n)
        self.f = mod.funcs[self.lex]
        self.obls = {}
        self.deadline = time.time() + 240            # (name, where)
        self.acts = {}            # action -> {class: an input}
        self.inlined = set()
        self.steps = 0
        self.visited = {}
        self.consts, self.init = {}, {}
        for n, (t, ini, const) in mod.globals.items():
            if const and isinstance(t, tuple) and t[0] == 'arr' and ini and ini[0] in ('agg', 'zero') and t[2] in ('i8', 'i16', 'i32'):
                w = {'i8': 8, 'i16': 16, 'i32': 32}[t[2]]
                vs = [v[1] if v[0] == 'i' else 0 for v in ini[1]] if ini[0] == 'agg' else [0] * t[1]
                self.consts[n] = (w // 8, [v - (1 << w) if v >= 1 << (w - 1) else v for v in vs])
        ce = CExec([mod], {})
        self.loops, self.live = {}, {}
        self.ce = ce
        sw = [(len(x.a[2]), b) for b in self.f.order for x in self.f.blocks[b] if x.op == 'switch']
        if not sw:
            raise Unsup('the scanner has no actions')
        self.swblk = max(sw)[1]
        L = self.loops_of(self.f)
        # the token loop: the outermost loop around the actions
        own = [h for h, body in L.items() if self.swblk in body]
        if not own:
            raise Unsup('the scanner has no token loop')
        self.head = max(own, key=lambda h: len(L[h]))
        self.heap = 0
        self.V, self.memo = {(c, (0, ())) for c in ('#s', '@yy_c_buf_p', '@yy_hold_char', *self.STALE)}, {}

    def loops_of(self, f):
        if f.name not in self.loops:
            self.loops[f.name] = self.ce.loops(f)
            self.live[f.name] = live_sets(f)
        return self.loops[f.name]

    def kind_of(self, f):
        """loop heads of f: 'scan' (reads a character class), 'copy' (stores characters), or nothing (executed)"""
        L = self.loops_of(f)
        out = {}
        for h, body in L.items():
            inner = set().union(*[L[g] for g in L if g != h and L[g] < body] or [set()])
            own = body - inner
            txt = ' '.join(x.text for b in own for x in f.blocks[b])
            if 'ptr @yy_ec' in txt or '@yy_ec,' in txt:
                if not any(g != h and L[g] < body and self.has_ec(f, L[g], L) for g in L):
                    out[h] = 'scan'
            elif any(x.op == 'store' and x.ty == 'i8' for b in own for x in f.blocks[b]) and self.swblk not in body and len(body) < 6:
                out[h] = 'copy'
        if f is self.f:
            out[self.head] = 'token'
        return out

    def has_ec(self, f, body, L):
        return any('@yy_ec' in x.text for b in body for x in f.blocks[b])

    # -------------------------------------------------------- values
    def ev(self, m, v):
        k = v[0]
        if k == 'v':
            env = m.frames[-1].env
            if v[1] not in env:
                raise Unsup('the scanner reads %s before it is set' % v[1])
            return env[v[1]]
        if k == 'i':
            return v[1]
        if k == 'null':
            return 0
        if k == 'g':
            return P(v[1])
        if k == 'gep':
            return self.gep(m, self.ev(m, v[2][0][1]), v[1], [self.ev(m, a[1]) for a in v[2][1:]])
        raise Unsup('operand %s in the scanner' % (v,))

    def conc(self, m, v):
        """a number; forks on what a byte may be only when that decides"""
        if isinstance(v, By):
            s = m.bytes.get(v.off, dfa.ANY)
            if len(s) == 1:
                return v.of(next(iter(s)))
        return v

    def split(self, m, v, fn):
        """fn of the number a byte stands for; forks into the sets of bytes with the same result"""
        s = m.bytes.get(v.off, dfa.ANY)
        by = {}
        for b in s:
            by.setdefault(fn(v.of(b)), []).append(b)
        if len(by) == 1:
            return next(iter(by))
        raise ForkByte(v.off, [frozenset(x) for x in by.values()])

    def gep(self, m, p, t, idx):
        if isinstance(p, Gone):
            raise Broken('no use of released memory or of what an earlier token left (%s)' % p.why)
        if not isinstance(p, P):
            raise Unsup('address arithmetic on %s' % (p,))
        o = p.off
        for k, i in enumerate(idx):
            if k:
                if isinstance(t, tuple) and t[0] == 'name':
                    t = self.m.structs[t[1]]
                if isinstance(t, tuple) and t[0] == 'struct':
                    off, t = cir.field(self.m, t, i)
                    o = ladd(o, (off, ()))
                    continue
                if not (isinstance(t, tuple) and t[0] == 'arr'):
                    raise Unsup('getelementptr into %s' % (t,))
                t = t[2]
            s = cir.size(self.m, t)
            if isinstance(i, By):
                if p.base in self.consts and o == (0, ()):
                    w, vs = self.consts[p.base]
                    i = self.table_byte(m, p.base, i, w, s)
                else:
                    i = self.split(m, i, lambda b: b)
            o = ladd(o, lmul(lin(i), s))
        return P(p.base, o)

    def table_byte(self, m, base, v, w, s):
        """a byte indexes a table: one index for all bytes with the same entry"""
        if w != s:
            raise Unsup('a table read with another width')
        vs = self.consts[base][1]

        def entry(i):
            if not 0 <= i < len(vs):
                raise Broken('the table %s is read within its bounds' % base, self.text(m, v.off))
            return vs[i]
        s0 = m.bytes.get(v.off, dfa.ANY)
        by = {}
        for b in s0:
            by.setdefault(entry(v.of(b)), []).append(b)
        if len(by) > 1:
            raise ForkByte(v.off, [frozenset(x) for x in by.values()])
        return v.of(min(s0))

    def text(self, m, off=None):
        """an input that leads here"""
        w = m.gh['text'] if m.gh else b''
        if off is not None and m.gh and off == m.gh['at']:
            s = m.bytes.get(off)
            if s:
                w = w + bytes([min(s, key=lambda b: (not 32 < b < 127, b))])
        return w

    def alive(self, m, p, what):
        if isinstance(p, Gone):
            raise Broken('no use of released memory or of what an earlier token left (%s)' % p.why, self.text(m))
        if isinstance(p, int):
            raise Broken('no dereference of a null pointer', self.text(m))
        if not isinstance(p, P):
            raise Unsup('%s through %s' % (what, p))
        if p.base in m.hidobjs:
            raise Reveal({('obj', p.base)})
        o = m.objs.get(p.base)
        if o is not None:
            if not o['alive']:
                raise Broken('no use of released memory', self.text(m))
        return o

    def bounds(self, m, o, p, n):
        if o is None:
            return
        ok = m.entails(lmul(p.off, -1)) and m.entails(ladd(ladd(p.off, (n, ())), o['size'], -1))
        if not ok:
            raise Broken('access within the bounds of the object', self.text(m))
        self.done('access within the bounds of the object')

    W = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}

    def load(self, m, ty, p):
        o = self.alive(m, p, 'load')
        if p.base in self.consts:
            w, vs = self.consts[p.base]
            if p.off[1] or p.off[0] % w or not 0 <= p.off[0] // w < len(vs):
                raise Broken('the table %s is read within its bounds' % p.base, self.text(m))
            if self.W.get(ty) != w:
                raise Unsup('the table %s is read as %s' % (p.base, ty))
            return vs[p.off[0] // w]
        if p.base == 'TEXT' and ty == 'i8':
            if m.eq(ladd(p.off, (0, (('N', 1),)), -1)):
                return 0
            if not (m.entails(lmul(p.off, -1)) and m.entails(ladd(ladd(p.off, (1, ())), (0, (('N', 1),)), -1))):
                raise Broken('access within the input text', self.text(m))
            return self.conc(m, By(p.off))
        if ty not in self.W:
            raise Unsup('load of %s' % (ty,))
        self.bounds(m, o, p, self.W[ty])
        k = (p.base, p.off)
        if k in m.mem:
            v = m.mem[k]
            return self.conc(m, v)
        if k in m.hid:
            raise Reveal({k})
        if o is None:
            return self.initial(p, ty)
        if ty == 'i8':
            if any(b == p.base for b, _ in m.hid):
                raise Reveal({h for h in m.hid if h[0] == p.base})
            for (b, q), v in m.mem.items():
                if b == p.base and m.eq(ladd(p.off, q, -1)):
                    return self.conc(m, v)
            if o.get('copy') is not None and m.entails(lmul(p.off, -1)) and m.entails(ladd(ladd(p.off, (1, ())), o['copy'], -1)):
                return self.conc(m, By(p.off))
        raise Broken('no read of uninitialised memory', self.text(m))

    def initial(self, p, ty):
        g = self.m.globals.get(p.base)
        if g is None:
            raise Unsup('the scanner reads %s' % p)
        t, ini, const = g
        if p.off != (0, ()) or ini is None:
            if ini is None and ty == 'ptr' and p.base in ('@stdin', '@stdout', '@stderr'):
                return Ext(p.base)
            raise Unsup('the scanner reads %s' % p)
        if ini[0] in ('zero', 'null'):
            return 0
        if ini[0] == 'i':
            return ini[1]
        raise Unsup('the scanner reads %s' % p)

    def store(self, m, ty, v, p):
        o = self.alive(m, p, 'store')
        if p.base in self.consts or p.base == 'TEXT':
            raise Broken('the tables and the input are not written to', self.text(m))
        if ty not in self.W:
            raise Unsup('store of %s' % (ty,))
        self.bounds(m, o, p, self.W[ty])
        k = (p.base, p.off)
        if ty == 'i8' and o is not None:
            if any(b == p.base for b, _ in m.hid):
                raise Reveal({h for h in m.hid if h[0] == p.base})
            for (b, q) in list(m.mem):
                if b == p.base and q != p.off and m.eq(ladd(p.off, q, -1)):
                    del m.mem[(b, q)]
            v2 = v
            if isinstance(v, By) and v.mode == 's' and v.off == p.off and o.get('copy') is not None and m.entails(ladd(ladd(p.off, (1, ())), o['copy'], -1)):
                m.mem.pop(k, None)
                return
            # a byte the text has here anyway
            if o.get('copy') is not None and isinstance(v, int):
                s = m.bytes.get(p.off)
                if s and len(s) == 1 and By(p.off).of(min(s)) == v:
                    m.mem.pop(k, None)
                    return
            v = v2
        m.mem[k] = v

    # -------------------------------------------------------- execution
    def run(self, m, cuts):
        """all ways on from m: [(event, machine)]; event: ('cut', function, block) | ('act', n) | ('ret', value)"""
        out, work = [], [m]
        while work:
            m = work.pop()
            try:
                e = self.advance(m, cuts, work)
            except Broken as b:
                if b.text is None:
                    b.text = self.text(m)
                raise
            if e is not None:
                out.append((e, m))
        return out

    def advance(self, m, cuts, work):
        while True:
            self.steps += 1
            if not self.steps & 0x3fff and (time.time() > self.deadline or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 8 << 20):
                raise Unsup('the exploration of the scanner takes too long')
            fr = m.frames[-1]
            if fr.i == 0 and fr.blk in cuts.get(fr.f.name, ()) and not m.arrived:
                return ('cut', fr.f.name, fr.blk)
            ins = fr.f.blocks[fr.blk]
            if fr.i == 0:
                if not m.arrived:
                    self.phis(m, fr)
                while ins[fr.i].op == 'phi':
                    fr.i += 1
            m.arrived = False
            x = ins[fr.i]
            base = None
            if x.op in ('load', 'store', 'icmp', 'bin', 'cast', 'gep', 'switch', 'cbr', 'select', 'call'):
                base = (fr.i,)
            try:
                r = self.step(m, fr, x)
            except ForkByte as fk:
                for s in fk.sets[1:]:
                    n = m.copy()
                    n.bytes[fk.off] = s
                    n.arrived = True if fr.i == 0 else False
                    work.append(n)
                m.bytes[fk.off] = fk.sets[0]
                m.arrived = fr.i == 0
                continue
            except ForkFact as fk:
                alts = []
                for a in fk.alts:
                    n = m.copy()
                    if all(n.know(*t) for t in a):
                        self.settle(n)
                        n.arrived = fr.i == 0
                        alts.append(n)
                work += alts
                return None
            if r is not None:
                return r

    def settle(self, m):
        """symbols that are now known to be another one are replaced"""
        for s in ('K', 'A', 'S', 'I', 'F'):
            a, b = m.facts.get((s, 'N')), m.facts.get(('N', s))
            if a is not None and b is not None and a == -b:
                m.subst(s, (a, (('N', 1),)))
                m.forget(s)
        a, b = m.facts.get(('K', 'S')), m.facts.get(('S', 'K'))
        if a is not None and b is not None and a == -b:
            m.subst('K', (a, (('S', 1),)))
            m.forget('K')

    def phis(self, m, fr):
        vals = []
        for x in fr.f.blocks[fr.blk]:
            if x.op != 'phi':
                break
            src = [v for v, q in x.a if q == fr.prev]
            if not src:
                raise Unsup('phi without a predecessor')
            vals.append((x.res, self.ev(m, src[0])))
        fr.env.update(vals)

    def go(self, fr, b):
        fr.prev, fr.blk, fr.i = fr.blk, b, 0

    def truth(self, m, c):
        if isinstance(c, By):
            return self.split(m, c, lambda b: b != 0)
        if isinstance(c, Lin):
            return not m.eq(c.v)
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, Gone):
            raise Broken('no use of what an earlier token left (%s)' % c.why)
        return True

    def step(self, m, fr, x):
        op = x.op
        env = fr.env
        if op == 'br':
            self.go(fr, x.a[0])
            return self.copyloop(m, fr)
        if op == 'cbr':
            c = self.truth(m, self.ev(m, x.a[0]))
            self.go(fr, x.a[1] if c else x.a[2])
            return self.copyloop(m, fr)
        if op == 'switch':
            v = self.ev(m, x.a[0])
            if isinstance(v, (By, Lin)):
                raise Unsup('the scanner branches on %s' % v)
            if isinstance(v, Gone):
                raise Broken('no use of what an earlier token left (%s)' % v.why)
            if fr.f is self.f and fr.blk == self.swblk:
                return ('act', v)
            self.go(fr, dict(x.a[2]).get(v, x.a[1]))
            return None
        if op == 'ret':
            v = self.ev(m, x.a[0]) if x.a else None
            if len(m.frames) == 1:
                return ('ret', v)
            m.frames.pop()
            up = m.frames[-1]
            if fr.res:
                up.env[fr.res] = v
            up.i += 1
            return None
        if op == 'load':
            env[x.res] = self.load(m, x.ty, self.ev(m, x.a[0]))
        elif op == 'store':
            self.store(m, x.ty, self.ev(m, x.a[0]), self.ev(m, x.a[1]))
        elif op == 'gep':
            env[x.res] = self.gep(m, self.ev(m, x.a[0][1]), x.ty, [self.ev(m, a[1]) for a in x.a[1:]])
        elif op == 'icmp':
            env[x.res] = self.icmp(m, x.a[0], self.ev(m, x.a[1]), self.ev(m, x.a[2]), x.ty)
        elif op == 'bin':
            env[x.res] = self.binop(m, x.a[0], self.ev(m, x.a[1]), self.ev(m, x.a[2]), x.ty)
        elif op == 'cast':
            env[x.res] = self.cast(m, x.a[0], self.ev(m, x.a[1]), x.a[2], x.ty)
        elif op == 'select':
            env[x.res] = self.ev(m, x.a[1] if self.truth(m, self.ev(m, x.a[0])) else x.a[2])
        elif op == 'freeze':
            env[x.res] = self.ev(m, x.a[0])
        elif op == 'call':
            return self.call(m, fr, x)
        else:
            raise Unsup('scanner instruction %s' % x.text)
        fr.i += 1
        return None

    def icmp(self, m, pred, a, b, ty):
        for v in (a, b):
            if isinstance(v, Gone):
                raise Broken('no use of what an earlier token left (%s)' % v.why)
        if isinstance(a, By) or isinstance(b, By):
            if isinstance(a, By) and isinstance(b, int):
                return int(self.split(m, a, lambda v: self.cmp(pred, v, b, ty)))
            if isinstance(b, By) and isinstance(a, int):
                return int(self.split(m, b, lambda v: self.cmp(pred, a, v, ty)))
            raise Unsup('the scanner compares two characters')
        if isinstance(a, P) and isinstance(b, P):
            if a.base != b.base:
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                raise Unsup('the scanner compares pointers into different objects')
            return int(self.rel(m, pred, ladd(a.off, b.off, -1)))
        if isinstance(a, (P, Ext)) or isinstance(b, (P, Ext)):
            if pred in ('eq', 'ne') and 0 in (a, b):
                return int(pred == 'ne')
            raise Unsup('the scanner compares %s with %s' % (a, b))
        if isinstance(a, int) and isinstance(b, int):
            return int(self.cmp(pred, a, b, ty))
        return int(self.rel(m, pred, ladd(lin(a), lin(b), -1), a, b))

    def cmp(self, pred, a, b, ty):
        if pred[0] == 'u' and ty != 'ptr':
            w = 1 << int(ty[1:])
            a, b = a % w, b % w
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:] if pred[0] in 'us' else pred]

    def rel(self, m, pred, d, a=None, b=None):
        if pred[0] == 'u' and a is not None:
            for v in (a, b):
                if not m.entails(lmul(lin(v), -1)):
                    raise Unsup('the scanner compares a negative number as unsigned')
        p = pred[1:] if pred[0] in 'us' else pred
        if p == 'eq':
            return m.eq(d)
        if p == 'ne':
            return not m.eq(d)
        if p == 'le':
            return m.le(d)
        if p == 'lt':
            return m.le(ladd(d, (1, ())))
        if p == 'ge':
            return m.le(lmul(d, -1))
        return m.le(ladd(lmul(d, -1), (1, ())))

    def binop(self, m, k, a, b, ty):
        for v in (a, b):
            if isinstance(v, Gone):
                raise Broken('no use of what an earlier token left (%s)' % v.why)
        if isinstance(a, By):
            a = self.split(m, a, lambda v: v)
        if isinstance(b, By):
            b = self.split(m, b, lambda v: v)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if k == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[1].base == b[1].base:
                return unlin(ladd(a[1].off, b[1].off, -1))
            raise Unsup('arithmetic on addresses')
        if k in ('add', 'sub'):
            return unlin(ladd(lin(a), lin(b), 1 if k == 'add' else -1))
        if k == 'mul':
            if not isinstance(b, int):
                a, b = b, a
            return unlin(lmul(lin(a), b if isinstance(b, int) else self.no('a product of positions')))
        if isinstance(a, int) and isinstance(b, int):
            if k in ('sdiv', 'udiv') and b > 0 and a >= 0:
                return a // b
            if k in ('srem', 'urem') and b > 0 and a >= 0:
                return a % b
            if k == 'and':
                return a & b
            if k == 'or':
                return a | b
            if k == 'xor':
                return a ^ b
            if k == 'shl':
                return a << b
            if k in ('ashr', 'lshr') and a >= 0:
                return a >> b
        raise Unsup('scanner arithmetic %s' % k)

    def no(self, why):
        raise Unsup(why)

    def cast(self, m, k, v, src, dst):
        if isinstance(v, Gone):
            return v
        if k == 'ptrtoint':
            if isinstance(v, P):
                return ('addr', v)
            raise Unsup('the address of %s' % (v,))
        if isinstance(v, By):
            if k == 'zext':
                return self.conc(m, By(v.off, 'u'))
            if k == 'sext':
                return v
            if k == 'trunc' and dst == 'i8':
                return By(v.off, 's')
            raise Unsup('cast of a character')
        if isinstance(v, int):
            if k == 'zext':
                return v % (1 << int(src[1:]))
            if k == 'trunc':
                w = int(dst[1:])
                v %= 1 << w
                return v - (1 << w) if w > 1 and v >= 1 << (w - 1) else v
            if k == 'sext':
                return v
        if isinstance(v, Lin) and k in ('sext', 'zext', 'trunc'):
            # positions and lengths are below 2^31
            if k == 'zext' and not m.entails(lmul(v.v, -1)):
                raise Unsup('a negative length')
            if dst in ('i8', 'i16'):
                raise Unsup('a position as a small number')
            return v
        raise Unsup('scanner cast %s of %s' % (k, v))

    def call(self, m, fr, x):
        if x.a[0][0] != 'g':
            raise Unsup('a call through a pointer in the scanner')
        name = x.a[0][1][1:]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
            fr.i += 1
            return None
        args = [self.ev(m, a) for _, a in x.a[1]]
        if name in self.m.funcs:
            g = self.m.funcs[name]
            self.inlined.add(name)
            if len(m.frames) > 12:
                raise Unsup('recursion in the scanner')
            m.frames.append(Frame(g, {n: v for (_, n), v in zip(g.params, args)}, g.order[0], None, 0, x.res))
            self.loops_of(g)
            return None
        r = None
        if name == 'malloc':
            self.heap += 1
            b = 'h%d' % self.heap
            m.objs[b] = dict(size=lin(args[0]), alive=True, copy=None)
            r = P(b)
        elif name == 'free':
            p = args[0]
            if isinstance(p, P):
                o = self.alive(m, p, 'free')
                if o is None or p.off != (0, ()):
                    raise Broken('only whole blocks of the heap are released')
                o['alive'] = False
                self.done('a block is released once')
            elif isinstance(p, Gone):
                raise Broken('no block is released twice')
            elif p != 0:
                raise Unsup('free of %s' % (p,))
        elif m.hid and name in ('realloc', 'memset', 'llvm.memset.p0.i64', 'free'):
            raise Reveal(set(m.hid) | {('obj', b) for b in m.hidobjs})
        elif name == 'realloc' and isinstance(args[0], P) and isinstance(args[1], int):
            p, n = args
            o = self.alive(m, p, 'realloc')
            if o is None or p.off != (0, ()) or o.get('copy') is not None or o['size'][1]:
                raise Unsup('realloc in the scanner')
            self.heap += 1
            b = 'h%d' % self.heap
            m.objs[b] = dict(size=(n, ()), alive=True, copy=None)
            for (q, off), v in list(m.mem.items()):
                if q == p.base and off[0] < n:
                    m.mem[(b, off)] = v
            o['alive'] = False
            r = P(b)
        elif name in ('memset', 'llvm.memset.p0.i64'):
            p, c, n = args[:3]
            o = self.alive(m, p, 'memset')
            if not isinstance(n, int) or n % 8 or c != 0 or o is None:
                raise Unsup('memset in the scanner')
            self.bounds(m, o, p, n)
            for j in range(0, n, 8):
                m.mem[(p.base, ladd(p.off, (j, ())))] = 0
            r = p
        elif name == 'strlen':
            p = args[0]
            if not (isinstance(p, P) and p.base == 'TEXT' and p.off == (0, ())):
                raise Unsup('strlen in the scanner')
            r = Lin((0, (('N', 1),)))
        elif name in ('exit', 'abort'):
            raise Broken('the scanner does not end the process')
        elif name == '__errno_location':
            r = P('@errno')
        elif name in ('fprintf', 'fwrite', 'fputs'):
            r = 0
        else:
            raise Unsup('the scanner calls %s' % name)
        if x.res:
            fr.env[x.res] = r
        fr.i += 1
        return None

    def done(self, name, where=''):
        self.obls[name, where] = self.obls.get((name, where), 0) + 1

    # -------------------------------------------------------- copying a text
    def copyloop(self, m, fr):
        """at the head of a loop that copies the text: one arbitrary iteration stands for all of them"""
        if m.gh and m.gh.get('copying'):
            return None
        if self.kinds(fr.f).get(fr.blk) != 'copy':
            return None
        h = fr.blk
        if fr.prev in self.loops_of(fr.f)[h]:
            return None
        body = self.loops_of(fr.f)[h]
        self.phis(m, fr)
        ph = [x.res for x in fr.f.blocks[h] if x.op == 'phi']
        cnt = [n for n in ph if fr.env[n] == 0]
        if len(ph) != 1 or len(cnt) != 1:
            raise Unsup('a loop that stores characters')
        n = m.copy()
        n.gh = dict(n.gh or dict(text=b'', at=None), copying=True)
        n.frames = [n.frames[-1]]
        n.frames[-1].env[ph[0]] = Lin((0, (('I', 1),)))
        n.know('0', 'I', 0)
        n.arrived = True
        L = (0, (('N', 1),))
        cuts = {fr.f.name: {h} | (set(fr.f.order) - body)}
        stop = None
        for e, r in self.run(n, cuts):
            if e[0] != 'cut':
                raise Unsup('a loop that stores characters')
            t = r.frames[-1]
            if e[2] == h:
                self.phis(r, t)
                new = {k: v for k, v in r.mem.items() if k not in m.mem or vkey(m.mem[k]) != vkey(v)}
                if t.env[ph[0]] is None or lin(t.env[ph[0]]) != (1, (('I', 1),)) or not r.entails(ladd((1, (('I', 1),)), L, -1)):
                    raise Unsup('a loop that stores characters')
                (k, v), = new.items() if len(new) == 1 else [(None, None)]
                if k is None or k[1] != (0, (('I', 1),)) or not isinstance(v, By) or v.off != k[1]:
                    raise Broken('the text is copied as it is')
                tgt = k[0]
            else:
                if not r.entails(ladd(L, lin(t.env.get(ph[0], 0)), -1)) and not r.facts.get(('N', 'I'), 1) <= 0:
                    # the counter was replaced by N when the loop ended exactly there
                    if lin(t.env[ph[0]]) != L:
                        raise Broken('all of the text is copied')
                stop = e[2]
        if stop is None:
            raise Unsup('a loop without an end')
        m.objs[tgt]['copy'] = L
        fr.env[ph[0]] = Lin(L)
        self.done('loop invariant: the first i characters are copied', fr.f.name)
        m.arrived = True
        return None

    def kinds(self, f):
        c = getattr(self, '_kinds', None)
        if c is None:
            c = self._kinds = {}
        if f.name not in c:
            c[f.name] = self.kind_of(f)
        return c[f.name]

    # -------------------------------------------------------- keys
    def canon(self, m, names=None):
        """renames the heap blocks in the order they are reached, drops what cannot be reached; returns the key"""
        order = {}

        def visit(v):
            if isinstance(v, P) and v.base in m.objs and v.base not in order:
                if not m.objs[v.base]['alive']:
                    return
                order[v.base] = 'H%d' % len(order)
                for (b, o) in sorted((k for k in m.mem if k[0] == v.base), key=lambda k: repr(k)):
                    visit(m.mem[(b, o)])
        for k in sorted((k for k in m.mem if k[0].startswith('@') or k[0].startswith('#')), key=lambda k: repr(k)):
            visit(m.mem[k])
        for fr in m.frames:
            for n in sorted(fr.env):
                visit(fr.env[n])
        lost = [b for b, o in m.objs.items() if o['alive'] and b not in order]

        def val(v):
            if isinstance(v, P) and v.base in m.objs:
                if not m.objs[v.base]['alive']:
                    return Gone('released memory')
                return P(order[v.base], v.off)
            return v
        m.mem = {(order.get(b, b), o): val(v) for (b, o), v in m.mem.items() if b not in m.objs or b in order}
        for fr in m.frames:
            fr.env = {n: val(v) for n, v in fr.env.items()}
        m.objs = {order[b]: o for b, o in m.objs.items() if b in order}
        return lost

    def key(self, m):
        fs = []
        for fr in m.frames:
            fs.append((fr.f.name, fr.blk, tuple(sorted((n, vkey(v) if not isinstance(v, tuple) else ('addr', v[1].key())) for n, v in fr.env.items()))))
        gh = m.gh
        return (tuple(fs), tuple(sorted(((b, o, vkey(v)) for (b, o), v in m.mem.items()), key=repr)),
                tuple(sorted(((b, o['size'], o.get('copy')) for b, o in m.objs.items()), key=repr)),
                tuple(sorted(m.facts.items())), tuple(sorted(m.bytes.items(), key=repr)),
                (gh['d'], gh['last'], gh['at'], gh['last_at'], gh['n'], gh.get('eob')) if gh else None)

    def prune(self, m):
        """keeps only live variables"""
        for k, fr in enumerate(m.frames):
            live, out = self.live[fr.f.name] if fr.f.name in self.live else (self.loops_of(fr.f), self.live[fr.f.name])[1]
            if k == len(m.frames) - 1 and fr.i == 0:
                keep = set(live[fr.blk])
                for x in fr.f.blocks[fr.blk]:
                    if x.op == 'phi':
                        keep.add(x.res)
            else:
                # after the call it waits for
                keep = set(out[fr.blk])
                for x in fr.f.blocks[fr.blk][fr.i:]:
                    def vs(y):
                        if isinstance(y, (tuple, list)):
                            if len(y) == 2 and y[0] == 'v' and isinstance(y[1], str):
                                keep.add(y[1])
                            else:
                                for z in y:
                                    vs(z)
                    vs(x.a)
            fr.env = {n: v for n, v in fr.env.items() if n in keep}

    # -------------------------------------------------------- the closure
    STALE = ('@yy_last_accepting_state', '@yy_last_accepting_cpos', '@yytext', '@yyleng')

    def explore(self):
        self.cuts = {}
        for f in self.m.funcs.values():
            ks = {h for h, k in self.kinds(f).items() if k in ('scan', 'token')}
            if ks:
                self.cuts[f.name] = ks
        m = M()
        m.know('0', 'N', 0)
        self.idle(m)

    def call_api(self, m, name, args):
        n = m.copy()
        f = self.m.funcs[name]
        self.inlined.add(name)
        self.loops_of(f)
        n.frames = [Frame(f, {q: v for (_, q), v in zip(f.params, args)}, f.order[0])]
        n.gh = None
        n.arrived = False
        return n

    def seen(self, tag, m):
        k = (tag, self.key(m))
        if k in self.visited:
            return True
        self.visited[k] = True
        return False

    def idle(self, m):
        """between two texts"""
        work = [('idle', m)]
        while work:
            tag, m = work.pop()
            if tag == 'idle':
                m.frames, m.gh = [], None
                lost = self.canon(m)
                if lost:
                    raise Broken('the scanner leaves no memory behind')
                self.done('the scanner leaves no memory behind')
                if self.seen('idle', m):
                    continue
                for e, r in self.run(self.call_api(m, self.scan, [P('TEXT')]), self.cuts):
                    if e[0] != 'ret' or not isinstance(e[1], P):
                        raise Broken('%s returns a buffer' % self.scan)
                    r.mem[('#b', (0, ()))] = e[1]
                    # the text starts at its beginning
                    p = r.mem.get(('@yy_c_buf_p', (0, ())))
                    if not isinstance(p, P) or p.off != (0, ()) or r.objs.get(p.base, {}).get('copy') != (0, (('N', 1),)):
                        raise Broken('after %s the scanner is at the start of a copy of the text' % self.scan)
                    self.done('after %s the scanner is at the start of a copy of the text' % self.scan)
                    r.mem[('#s', (0, ()))] = p
                    for q in self.STALE:
                        r.mem[(q, (0, ()))] = Gone('an earlier text')
                    work.append(('active', r))
            elif tag == 'active':
                m.frames, m.gh = [], None
                lost = self.canon(m)
                if lost:
                    raise Broken('the scanner leaves no memory behind')
                if self.seen('active', m):
                    continue
                for e, r in self.run(self.call_api(m, self.lex, []), self.cuts):
                    self.event(e, r, work)
                b = m.mem[('#b', (0, ()))]
                for e, r in self.run(self.call_api(m, self.delete, [b]), self.cuts):
                    if e[0] != 'ret':
                        raise Unsup('%s does not return' % self.delete)
                    del r.mem[('#b', (0, ()))], r.mem[('#s', (0, ()))]
                    for b in list(r.objs):
                        if r.objs[b].get('copy') is not None and r.objs[b]['alive']:
                            raise Broken('%s releases the text' % self.delete)
                    self.drop_positions(r)
                    work.append(('idle', r))
            elif tag == 'token':
                if self.seen('token', m):
                    continue
                m.gh = dict(d=0, last=None, at=self.start_of(m), last_at=None, n=0, text=b'')
                self.phase(tag, m, work)
            elif tag == 'scan':
                self.phase(tag, m, work)

    # a token is scanned with only the memory it needs, so that states that differ elsewhere share the work
    def phase(self, tag, m, work):
        while True:
            text = {b for b, o in m.objs.items() if o.get('copy') is not None}
            n = m.copy()
            hid = {k: v for k, v in m.mem.items() if k not in self.V and k[0] not in text and not ((syms(v) | {s for s, _ in k[1][1]}) & {'K', 'A', 'S'})}
            n.mem = {k: v for k, v in m.mem.items() if k not in hid}
            hobj = {b: o for b, o in m.objs.items() if b not in text and ('obj', b) not in self.V}
            n.objs = {b: o for b, o in n.objs.items() if b not in hobj}
            n.hid, n.hidobjs = frozenset(hid), frozenset(hobj)
            k = (tag, self.key(n))
            if k in self.memo:
                outs = self.memo[k]
                break
            try:
                outs = self.memo[k] = self.local(n, tag == 'token')
                break
            except Reveal as r:
                self.V |= r.cells
        for kind, a, r in outs:
            r = r.copy()
            r.mem = {**hid, **r.mem}
            r.objs.update({b: dict(o) for b, o in hobj.items()})
            r.hid = r.hidobjs = frozenset()
            if kind == 'next':
                self.after(r, work)
            elif kind == 'act':
                self.goon(a, r, work)
            elif kind == 'scan':
                work.append(('scan', r))
            else:
                self.event(a, r, work)

    def goon(self, a, r, work):
        fr = r.frames[-1]
        fr.i = 0
        sw = fr.f.blocks[fr.blk][-1]
        self.go(fr, dict(sw.a[2]).get(a, sw.a[1]))
        for e, q in self.run(r, self.cuts):
            self.event(e, q, work)

    def local(self, m, first=False):
        self.outs, self.keys = [], set()
        work = [('scan', m)]
        while work:
            tag, m = work.pop()
            m.arrived = True
            for e, r in self.run(m, self.cuts):
                if e[0] == 'act':
                    self.action(e[1], r, work)
                elif e[0] == 'cut' and not (e[1] == self.lex and e[2] == self.head):
                    self.arrive(r, work)
                else:
                    self.outs.append(('event', e, r))
            if first:
                return self.outs + [('scan', None, n) for _, n in work]
        return self.outs

    def once(self, kind, a, m):
        k = (kind, a, self.key(m))
        if k not in self.keys:
            self.keys.add(k)
            self.outs.append((kind, a, m))

    def fresh(self, m):
        """is this state of the scan new (in the part of the exploration that is going on)"""
        k = ('scan', self.key(m))
        if k in self.keys:
            return False
        self.keys.add(k)
        return True

    def drop_positions(self, m):
        """the text is gone: what mentions its positions must not be used again"""
        def has(v):
            return isinstance(v, Lin) or isinstance(v, By) or isinstance(v, P) and v.off[1]
        for k, v in list(m.mem.items()):
            if has(v):
                m.mem[k] = Gone('an earlier text')
        m.facts, m.bytes = {}, {}
        m.know('0', 'N', 0)

    def rename_start(self, m, at):
        """the next token starts at this position: it becomes S"""
        buf = m.mem[('@yy_c_buf_p', (0, ()))]
        for s in self.STALE:
            m.mem[(s, (0, ()))] = Gone('an earlier token')
        if at == (0, (('N', 1),)):
            m.bytes = {}
            m.facts = {}
            m.know('0', 'N', 0)
            return
        NN = (0, (('N', 1),))
        inside = m.entails(ladd(ladd(at, (1, ())), NN, -1))
        if not inside and not m.entails(ladd(NN, at, -1)):
            raise Unsup('it is not known whether the text ends at the token')
        S = (0, (('S', 1),)) if inside else NN
        hold = m.mem.get(('@yy_hold_char', (0, ())))

        def new(v):
            if isinstance(v, P) and v.base == buf.base and v.off == at:
                return P(v.base, S)
            if isinstance(v, By) and v.off == at:
                return By(S, v.mode)
            return v
        mem = {}
        for (b, o), v in m.mem.items():
            if b in ('@yy_c_buf_p', '@yy_hold_char', '#s'):
                v = new(v)
            if b == buf.base and o == at:
                o = S
            mem[(b, o)] = v
        for k, v in mem.items():
            bad = (syms(v) | {s for s, _ in k[1][1]}) - {'S', 'N'}
            if bad:
                raise Unsup('the scanner keeps the position %s in %s' % (v, k[0]))
        m.mem = mem
        m.bytes, m.facts = {}, {}
        m.know('0', 'N', 0)
        if inside:
            m.know('0', 'S', 0)
            m.know('S', 'N', -1)

    def event(self, e, m, work):
        if e[0] == 'cut' and e[1] == self.lex and e[2] == self.head:
            self.phis(m, m.frames[-1])
            self.prune(m)
            p, q = m.mem.get(('@yy_c_buf_p', (0, ())), 0), m.mem[('#s', (0, ()))]
            if vkey(p) != vkey(q):
                raise Broken('a token starts where the one before ended', b'1 1')
            self.done('a token starts where the one before ended')
            self.rename_start(m, p.off)
            m.gh = None
            self.canon(m)
            work.append(('token', m))
            return
        if e[0] == 'cut' or e[0] == 'act':
            self.resume(e, m, work)
            return
        v = e[1]
        # yylex returns without an action: the end of the text
        N = (0, (('N', 1),))
        p = m.mem[('@yy_c_buf_p', (0, ()))]
        if v != 0:
            raise Broken('the scanner returns only tokens and 0 at the end', self.text(m))
        if not isinstance(p, P) or p.off != N or not m.gh or m.gh['n'] or m.gh['at'] != N:
            raise Broken('the end of the text is reported only there', self.text(m))
        self.done('at the end of the text, and only there, 0 is returned')
        m.mem[('#s', (0, ()))] = p
        self.rename_start(m, N)
        work.append(('active', m))

    def resume(self, e, m, work):
        """the scan goes on after a call of another function"""
        self.outs, self.keys = [], set()
        if e[0] == 'act':
            self.action(e[1], m, work)
        else:
            self.arrive(m, work)
        for kind, a, r in self.outs:
            if kind == 'next':
                self.after(r, work)
            else:
                self.goon(a, r, work)

    def arrive(self, m, work):
        """the head of a loop that reads characters"""
        fr = m.frames[-1]
        self.phis(m, fr)
        self.prune(m)
        gh = m.gh
        if gh is None:
            raise Unsup('characters are read before the token loop')
        pos = [(n, v) for n, v in fr.env.items() if isinstance(v, P) and m.objs.get(v.base, {}).get('copy') is not None and n in [x.res for x in fr.f.blocks[fr.blk] if x.op == 'phi']]
        start = self.start_of(m)
        cand = [n for n, v in pos if v.off != start] or [n for n, v in pos if v.off == start]
        # the variable that moves
        mv = None
        for n, v in pos:
            if n in self.moving(fr.f, fr.blk):
                mv = n
        if mv is None:
            raise Unsup('the position in %s is not found' % fr.f.name)
        at = fr.env[mv].off
        if at == start and (gh['n'] == 0 or gh['at'] != at):
            # from the start of the token (again)
            text = b'' if gh['n'] == 0 else gh['text']
            m.gh = gh = dict(d=0, last=None, at=start, last_at=None, n=0, text=b'', again=gh['n'] > 0 or gh.get('again', False))
            m.bytes = {}
            self.forget_positions(m, start)
            inside = m.entails(ladd(ladd(start, (1, ())), (0, (('N', 1),)), -1))
            if start == (0, (('S', 1),)) and inside:
                m.facts = {}
                for t in (('0', 'N', 0), ('0', 'S', 0), ('S', 'N', -1)):
                    m.know(*t)
            if self.fresh(m):
                work.append(('scan', m))
            return
        if at != ladd(gh['at'], (1, ())):
            raise Broken('the scanner reads the characters one after the other', gh['text'])
        # one character further
        spec = self.spec
        if gh['at'] == (0, (('N', 1),)):
            # the 0 at the end is no character of the text
            if gh.get('eob'):
                raise Broken('the scanner reads no character behind the text', gh['text'])
            m.gh = dict(gh, eob=True)
            if self.fresh(m):
                work.append(('scan', m))
            return
        s = m.bytes.get(gh['at'])
        if s is None:
            raise Broken('the scanner looks at every character', gh['text'])
        last, last_at = gh['last'], gh['last_at']
        acc = spec.acc[gh['d']] if gh['d'] is not None else None
        if acc:
            last, last_at = acc, gh['at']
        by = {}
        for b in s:
            by.setdefault(spec.step[gh['d']][b] if gh['d'] is not None else None, []).append(b)
        for d, bs in by.items():
            n = m.copy()
            c = min(bs, key=lambda b: (not 32 < b < 127, b))
            n.gh = dict(d=d, last=last, at=at, last_at=last_at, n=1, text=gh['text'] + bytes([c]), again=gh.get('again', False))
            n.bytes = {}
            # rename the positions
            A = None
            if last_at is not None:
                if last_at == gh['at']:
                    A = ('K', -1)
            # the new position is K, the end of the longest match so far A
            self.shift(n, at, last_at)
            if self.fresh(n):
                work.append(('scan', n))

    def moving(self, f, h):
        """phis of the loop whose value changes in it"""
        out = set()
        body = self.loops_of(f)[h]
        for x in f.blocks[h]:
            if x.op != 'phi':
                break
            if any(q in body and v != ('v', x.res) for v, q in x.a):
                out.add(x.res)
        return out

    def start_of(self, m):
        return m.mem[('#s', (0, ()))].off

    def forget_positions(self, m, start):
        """K and A are of the scan before"""
        def bad(v):
            return {s for s, _ in (v.v[1] if isinstance(v, Lin) else v.off[1] if isinstance(v, (P, By)) else ())} & {'K', 'A'}
        for k, v in list(m.mem.items()):
            if bad(v):
                m.mem[k] = Gone('an earlier scan')
        m.mem[('@yy_last_accepting_state', (0, ()))] = Gone('an earlier scan')
        for fr in m.frames:
            for n, v in list(fr.env.items()):
                if not isinstance(v, tuple) and bad(v):
                    fr.env[n] = Gone('an earlier scan')
        m.forget('K')
        m.forget('A')

    def shift(self, m, at, last_at):
        """at becomes K, last_at becomes A"""
        K, A = (0, (('K', 1),)), (0, (('A', 1),))

        def off(o):
            if o == at:
                return (0, (("K'", 1),))
            if last_at is not None and o == last_at:
                return (0, (("A'", 1),))
            if {s for s, _ in o[1]} & {'K', 'A'}:
                return None
            return o

        def val(v):
            if isinstance(v, (P, By)):
                o = off(v.off)
                if o is None:
                    return Gone('an earlier position')
                return P(v.base, o) if isinstance(v, P) else By(o, v.mode)
            if isinstance(v, Lin):
                o = off(v.v)
                return Gone('an earlier position') if o is None else unlin(o)
            return v
        for fr in m.frames:
            for n, v in list(fr.env.items()):
                if isinstance(v, tuple):
                    raise Unsup('an address is kept in the loop')
                fr.env[n] = val(v)
        for k in list(m.mem):
            if {s for s, _ in k[1][1]} & {'K', 'A'}:
                raise Unsup('the scanner writes into the text while it reads it')
            m.mem[k] = val(m.mem[k])
        start = self.start_of(m)
        if start != (0, (('S', 1),)):
            raise Broken('the scanner reads no character behind the text', m.gh['text'])
        # at <= N and last_at < at are known
        if not m.entails(ladd(at, (0, (('N', 1),)), -1)):
            raise Broken('the scanner reads no character behind the text', m.gh['text'])
        m.forget('K')
        m.forget('A')
        m.know('S', "K'", -1)
        m.know("K'", 'N', 0)
        if last_at is not None:
            m.know('S', "A'", -1)
            m.know("A'", "K'", -1)
        m.subst("K'", K)
        m.subst("A'", A)
        ren = {"K'": 'K', "A'": 'A'}
        m.facts = {(ren.get(a, a), ren.get(b, b)): c for (a, b), c in m.facts.items()}
        m.gh['at'] = K
        m.gh['last_at'] = A if last_at is not None else None

    def action(self, act, m, work):
        """the action switch is reached"""
        N = (0, (('N', 1),))
        fr = m.frames[-1]
        gh = m.gh
        p = m.mem.get(('@yy_c_buf_p', (0, ())))
        if not isinstance(p, P):
            raise Unsup('the end of the token is not known')
        buf = m.objs.get(p.base)
        if buf is None or buf.get('copy') is None:
            raise Broken('the end of the token is in the text', self.text(m))
        sw = fr.f.blocks[fr.blk][-1]
        start = self.start_of(m)
        end = p.off
        if act == 0 or end == ladd(N, (1, ())) or end == start:
            # the end of the buffer or of the text: part of the scanner
            if end != start and act != 0 and gh['at'] != N:
                raise Broken('the end of the buffer is reported only there', self.text(m))
            self.once('act', act, m)
            return
        # what the specification matches: the longest prefix, of the characters up to the frontier
        s = m.bytes.get(gh['at'])
        todo = [(gh, m)]
        if s is not None and gh['at'] != N:
            # the character at the frontier was read too
            todo = []
            acc = self.spec.acc[gh['d']] if gh['d'] is not None else None
            last, last_at = (acc, gh['at']) if acc else (gh['last'], gh['last_at'])
            by = {}
            for b in s:
                by.setdefault(self.spec.step[gh['d']][b] if gh['d'] is not None else None, []).append(b)
            for d, bs in by.items():
                n = m.copy()
                c = min(bs, key=lambda b: (not 32 < b < 127, b))
                g = dict(gh, d=d, last=last, last_at=last_at, at=ladd(gh['at'], (1, ())), text=gh['text'] + bytes([c]), n=1)
                n.gh = g
                todo.append((g, n))
        for g, n in todo:
            self.match(act, n, g, end, start, work)

    def match(self, act, m, g, end, start, work):
        N = (0, (('N', 1),))
        spec = self.spec
        d = g['d']
        if d is not None and spec.more[d] and g['at'] != N:
            # a longer match would still be possible
            raise Broken('the scanner reads on while a longer token is possible', self.longer(g['text'], d))
        if d is not None and spec.acc[d]:
            cls, want = spec.acc[d], g['at']
        else:
            cls, want = g['last'], g['last_at']
        if cls is None:
            raise Broken('some token is found', g['text'])
        if want != end:
            raise Broken('the longest token is taken (%s)' % cls, g['text'])
        self.done('the longest token is taken', '%r' % g['text'])
        self.acts.setdefault(act, {})
        old = self.acts[act].get(cls)
        if old is None or len(g['text']) < len(old):
            self.acts[act][cls] = g['text']
        # the state between tokens
        p = m.mem[('@yy_c_buf_p', (0, ()))]
        chk = [('@yytext', P(p.base, start)), ('@yyleng', unlin(ladd(end, start, -1)))]
        for n, v in chk:
            if vkey(m.mem.get((n, (0, ())), -1)) != vkey(v):
                raise Broken('%s is the matched text' % n[1:], g['text'])
        hold = m.mem.get(('@yy_hold_char', (0, ())), -1)
        if end == N:
            ok = hold == 0
        else:
            if not m.entails(ladd(ladd(end, (1, ())), N, -1)):
                raise Unsup('the character after the token is not known')
            s = m.bytes.get(end)
            ok = vkey(hold) == By(end).key() or s is not None and len(s) == 1 and hold == By(end).of(min(s))
            if ok:
                m.mem[('@yy_hold_char', (0, ()))] = By(end)
            ok = ok and m.mem.get((p.base, end)) == 0
        if not ok:
            raise Broken('the matched text ends in a 0 and the character there is kept', g['text'])
        self.done('the matched text ends in a 0 and the character there is kept')
        for (b, o), v in m.mem.items():
            if b == p.base and o != end and o not in (N, ladd(N, (1, ()))):
                raise Broken('the text is changed only where the token ends', g['text'])
        self.done('the text is changed only where the token ends')
        n = m.copy()
        n.mem[('#s', (0, ()))] = p
        self.rename_start(n, end)
        n.gh = None
        fr = n.frames[-1]
        if len(n.frames) != 1:
            raise Unsup('actions in another function')
        h = [x for x in fr.f.blocks[self.head] if x.op == 'phi']
        if h:
            raise Unsup('the token loop keeps variables')
        fr.env, fr.blk, fr.prev, fr.i = {k: v for k, v in fr.env.items() if k in self.live[fr.f.name][0][self.head]}, self.head, None, 0
        if any(not isinstance(v, (int,)) for v in fr.env.values()):
            raise Unsup('the token loop keeps variables')
        self.once('next', None, n)

    def after(self, n, work):
        self.canon(n)
        n2 = n.copy()
        work.append(('active', n2))
        # an action that does not return goes on with the next token
        t = n.copy()
        t.gh = None
        work.append(('token', t))

    def longer(self, text, d):
        """a text with text as a prefix whose longest match is longer"""
        seen, work = {d: text}, [d]
        for q in work:
            for c in range(1, 256):
                t = self.spec.step[q][c]
                if t is None or t in seen:
                    continue
                seen[t] = seen[q] + bytes([c])
                if self.spec.acc[t]:
                    return seen[t]
                work.append(t)
        return text
