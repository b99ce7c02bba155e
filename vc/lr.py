"""The LR automaton of a bison parser, taken from the IR of its yyparse by executing the driver.

Every segment of yyparse from the head of its main loop back to it is executed for every state of the automaton and every
token the lexer can return, with the depth of the stacks symbolic; what it pushes, pops, reads and reports is the automaton.
"""
import re
import cir
from cexec import CExec, State, Unsup


class Off:
    """offset cd*depth + cn*stacksize + c"""
    __slots__ = ('cd', 'cn', 'c')

    def __init__(self, cd=0, cn=0, c=0):
        self.cd, self.cn, self.c = cd, cn, c

    def key(self):
        return (self.cd, self.cn, self.c)


class SP:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=(0, 0, 0)):
        self.base, self.off = base, off

    def key(self):
        return (self.base, self.off)

    def __eq__(self, o):
        return isinstance(o, SP) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s+%s' % (self.base, self.off)


class Lin:
    """a symbolic integer cd*depth + cn*stacksize + c"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Lin%s' % (self.v,)


def lin(v):
    if isinstance(v, int):
        return (0, 0, v)
    if isinstance(v, Lin):
        return v.v
    raise Unsup('driver arithmetic on %s' % (v,))


def unlin(v):
    return v[2] if v[0] == 0 and v[1] == 0 else Lin(v)


class Sym:
    """a value nothing is known about"""

    def __init__(self, n, at=None):
        self.n, self.at = n, at       # at: (how far from the top, predicate) for a comparison with the bottom of the stack

    def __repr__(self):
        return 'Sym(%s)' % (self.n,)


class M:
    """machine state of the driver"""
    __slots__ = ('env', 'mem', 'ev', 'blk', 'prev', 'i', 'lexed', 'below')

    def copy(self):
        m = M()
        m.env, m.mem, m.ev = dict(self.env), dict(self.mem), list(self.ev)
        m.blk, m.prev, m.i, m.lexed, m.below = self.blk, self.prev, self.i, self.lexed, dict(self.below)
        return m


ROLE = re.compile(r'%yy(state|ssp|vsp|ss|vs|stacksize|errstatus|len)\.\d+$')


class Driver:
    def __init__(self, mod, fname='yyparse'):
        self.m = mod
        if fname not in mod.funcs:
            raise Unsup('there is no function %s' % fname)
        self.f = mod.funcs[fname]
        ce = CExec([mod], {})
        self.loops = ce.loops(self.f)
        self.steps = 0
        self.done = set()
        sw = [b for b in self.f.order if self.f.blocks[b][-1].op == 'switch']
        if len(sw) != 1:
            raise Unsup('yyparse has %d switches, one is expected' % len(sw))
        self.swblk = sw[0]
        self.sw = self.f.blocks[sw[0]][-1]
        d = self.f.blocks[self.sw.a[1]]
        if len(d) != 1 or d[0].op != 'br':
            raise Unsup('the rules without an action do something')
        self.join = d[0].a[0]
        if self.f.blocks[self.join][0].op == 'phi':
            raise Unsup('values flow out of the actions')
        self.actions = dict((c, t) for c, t in self.sw.a[2])
        main = [h for h, body in self.loops.items() if self.swblk in body]
        # loops inside actions do not contain the switch
        if len(main) != 1:
            raise Unsup('the main loop of yyparse is not found')
        self.head = main[0]
        self.role = {}
        for x in self.f.blocks[self.head]:
            if x.op != 'phi':
                break
            g = ROLE.match(x.res)
            if not g or g.group(1) in self.role:
                raise Unsup('the main loop of yyparse has the unknown variable %s' % x.res)
            self.role[g.group(1)] = x.res
        for n in ('state', 'ssp', 'vsp', 'ss', 'vs', 'stacksize'):
            if n not in self.role:
                raise Unsup('the main loop of yyparse has no yy' + n)
        self.consts = {}
        for n, (t, init, const) in mod.globals.items():
            if const and isinstance(t, tuple) and t[0] == 'arr' and init and init[0] in ('agg', 'zero'):
                w = {'i8': 8, 'i16': 16, 'i32': 32}.get(t[2])
                if not w:
                    continue
                vs = [v[1] if v[0] == 'i' else 0 for v in init[1]] if init[0] == 'agg' else [0] * t[1]
                self.consts[n] = (w // 8, [v - (1 << w) if v >= 1 << (w - 1) else v for v in vs])

    # ------------------------------------------------------------ execution
    def ev(self, m, v):
        k = v[0]
        if k == 'v':
            if v[1] not in m.env:
                raise Unsup('the driver reads %s before it is set' % v[1])
            return m.env[v[1]]
        if k == 'i':
            return v[1]
        if k == 'null':
            return 0
        if k == 'g':
            return SP(v[1])
        if k == 'undef':
            return Sym('undef')
        if k == 'gep':
            return self.gep(self.ev(m, v[2][0][1]), v[1], [self.ev(m, a[1]) for a in v[2][1:]])
        raise Unsup('operand %s in the driver' % (v,))

    def gep(self, p, t, idx):
        if not isinstance(p, SP):
            raise Unsup('address arithmetic on %s' % (p,))
        o = list(p.off)
        for k, i in enumerate(idx):
            if k:
                if isinstance(t, tuple) and t[0] == 'name':
                    t = self.m.structs[t[1]]
                if isinstance(t, tuple) and t[0] == 'struct':
                    f, t = cir.field(self.m, t, i)
                    o[2] += f
                    continue
                if not (isinstance(t, tuple) and t[0] == 'arr'):
                    raise Unsup('getelementptr into %s' % (t,))
                t = t[2]
            s = cir.size(self.m, t)
            if isinstance(i, Sym):
                return Sym(('addr', p.base))
            l = lin(i)
            for j in range(3):
                o[j] += s * l[j]
        return SP(p.base, tuple(o))

    def load(self, m, ty, p, below):
        if isinstance(p, Sym):
            return Sym('load')
        if not isinstance(p, SP):
            raise Unsup('load through %s' % (p,))
        if p.base in self.consts:
            w, vs = self.consts[p.base]
            if p.off[0] or p.off[1] or p.off[2] % w or not 0 <= p.off[2] // w < len(vs):
                raise Unsup('the table %s is read outside its bounds' % p.base)
            if {'i8': 1, 'i16': 2, 'i32': 4}.get(ty) != w:
                raise Unsup('the table %s is read as %s' % (p.base, ty))
            return vs[p.off[2] // w]
        k = p.key()
        if k in m.mem:
            return m.mem[k]
        if p.base in ('SS', 'NEW'):
            raise Need(p)
        if p.base.startswith('@'):
            return Sym(k)
        raise Unsup('the driver reads %s' % (p,))

    def run(self, m, cuts, full=False):
        """all ways on from m; [(end, machine)], end = ('cut', block) or ('ret', value)"""
        out = []
        work = [m]
        while work:
            m = work.pop()
            first = m.i > 0 or bool(m.ev and m.ev[-1] == ('restart',))
            while True:
                self.steps += 1
                if self.steps > 60000000:
                    raise Unsup('out of time')
                if m.i == 0 and m.blk in cuts and not first:
                    out.append((('cut', m.blk), m))
                    break
                ins = self.f.blocks[m.blk]
                if m.i == 0:
                    if first:
                        while ins[m.i].op == 'phi':
                            m.i += 1
                    else:
                        vals = []
                        while ins[m.i].op == 'phi':
                            x = ins[m.i]
                            src = [v for v, q in x.a if q == m.prev]
                            vals.append((x.res, self.ev(m, src[0])))
                            m.i += 1
                        m.env.update(vals)
                first = False
                x = ins[m.i]
                m.i += 1
                op = x.op
                if op == 'br':
                    m.prev, m.blk, m.i = m.blk, x.a[0], 0
                elif op == 'cbr':
                    c = self.ev(m, x.a[0])
                    if isinstance(c, Sym):
                        if c.n != 'maybe':
                            raise Unsup('the driver branches on %s' % (c,))
                        n = m.copy()
                        n.ev.append(('branch', c.at, False))
                        n.prev, n.blk, n.i = n.blk, x.a[2], 0
                        m.ev.append(('branch', c.at, True))
                        work.append(n)
                        c = 1
                    m.prev, m.blk, m.i = m.blk, x.a[1] if c else x.a[2], 0
                elif op == 'switch':
                    v = self.ev(m, x.a[0])
                    if not isinstance(v, int):
                        raise Unsup('the rule is not known')
                    m.ev.append(('rule', v))
                    m.prev, m.blk, m.i = self.sw.a[1], self.join, 0
                elif op == 'ret':
                    out.append((('ret', self.ev(m, x.a[0])), m))
                    break
                elif op == 'load':
                    p = self.ev(m, x.a[0])
                    try:
                        m.env[x.res] = self.load(m, x.ty, p, None)
                    except Need as n:
                        m.i -= 1
                        out.append((('need', n.p), m))
                        break
                else:
                    self.simple(m, x, op, full)
        return out

    def simple(self, m, x, op, full):
        if op == 'store':
            v, p = self.ev(m, x.a[0]), self.ev(m, x.a[1])
            if not isinstance(p, SP):
                raise Unsup('store through %s' % (p,))
            m.mem[p.key()] = v
            m.ev.append(('store', p, v))
        elif op == 'gep':
            m.env[x.res] = self.gep(self.ev(m, x.a[0][1]), x.ty, [self.ev(m, a[1]) for a in x.a[1:]])
        elif op == 'alloca':
            m.env[x.res] = SP({'%yyssa': 'SS0', '%yyvsa': 'VS0', '%yyval': 'YYVAL'}.get(x.res, x.res))
        elif op == 'icmp':
            a, b = self.ev(m, x.a[1]), self.ev(m, x.a[2])
            pred = x.a[0]
            if isinstance(a, int) and isinstance(b, int):
                m.env[x.res] = int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}.get(pred, None)
                                   if pred[0] != 'u' else {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred] if a >= 0 and b >= 0 else self.no('unsigned comparison'))
                return
            if isinstance(a, SP) and isinstance(b, SP) and a.base == b.base:
                d = tuple(p - q for p, q in zip(a.off, b.off))
                if d[0] == 0 and d[1] == 0:
                    z = d[2]
                    m.env[x.res] = int({'eq': z == 0, 'ne': z != 0, 'ult': z < 0, 'ule': z <= 0, 'ugt': z > 0, 'uge': z >= 0}[pred])
                    return
                if pred in ('eq', 'ne'):
                    m.env[x.res] = Sym('maybe', (d[2], pred) if d[:2] == (1, 0) and a.base == 'SS' and b.off == (0, 0, 0) else None)
                    return
                if pred in ('ule', 'uge') and not full:
                    # the end of the stack against its top: there is room (the other case is executed with every size)
                    if pred == 'uge':
                        d = tuple(-z for z in d)
                    if d == (-1, 1, -1):
                        m.env[x.res] = 0
                        return
                raise Unsup('the driver compares %s with %s' % (a, b))
            if isinstance(a, SP) and isinstance(b, SP) and {a.base, b.base} == {'SS', 'SS0'}:
                # the stack is the initial one or a grown one
                m.env[x.res] = Sym('maybe')
                return
            if isinstance(a, SP) and isinstance(b, SP):
                if pred in ('eq', 'ne'):
                    m.env[x.res] = int(pred == 'ne')
                    return
            if isinstance(a, SP) and b == 0 or isinstance(b, SP) and a == 0:
                m.env[x.res] = int(pred == 'ne')
                return
            if isinstance(a, Sym) or isinstance(b, Sym):
                m.env[x.res] = Sym('maybe' if 'maybe' in (getattr(a, 'n', ''), getattr(b, 'n', '')) else 'unknown comparison')
                return
            raise Unsup('the driver compares %s with %s' % (a, b))
        elif op == 'bin':
            a, b = self.ev(m, x.a[1]), self.ev(m, x.a[2])
            k = x.a[0]
            if isinstance(a, Sym) or isinstance(b, Sym):
                m.env[x.res] = Sym(k)
            elif isinstance(a, tuple) and a[0] == 'addr' and isinstance(b, tuple) and k == 'sub' and a[1].base == b[1].base:
                m.env[x.res] = unlin(tuple(p - q for p, q in zip(a[1].off, b[1].off)))
            elif k in ('add', 'sub'):
                s = 1 if k == 'add' else -1
                m.env[x.res] = unlin(tuple(p + s * q for p, q in zip(lin(a), lin(b))))
            elif k == 'mul' and (isinstance(a, int) or isinstance(b, int)):
                if isinstance(a, int):
                    a, b = b, a
                m.env[x.res] = unlin(tuple(p * b for p in lin(a)))
            elif k in ('sdiv', 'udiv') and isinstance(a, int) and isinstance(b, int) and a >= 0 and b > 0:
                m.env[x.res] = a // b
            elif k in ('shl', 'ashr', 'lshr', 'and', 'or') and isinstance(a, int) and isinstance(b, int) and a >= 0 and b >= 0:
                m.env[x.res] = {'shl': lambda: a << b, 'ashr': lambda: a >> b, 'lshr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b}[k]()
            else:
                raise Unsup('driver arithmetic %s' % x.text)
        elif op == 'cast':
            v = self.ev(m, x.a[1])
            k = x.a[0]
            if k == 'ptrtoint':
                m.env[x.res] = ('addr', v)
            elif isinstance(v, int) and k in ('sext', 'zext', 'trunc'):
                w = int(x.ty[1:])
                if k == 'zext':
                    v %= 1 << int(x.a[2][1:])
                if k == 'trunc':
                    v %= 1 << w
                    if w > 1 and v >= 1 << (w - 1):
                        v -= 1 << w
                m.env[x.res] = v
            elif isinstance(v, (Sym, Lin)):
                m.env[x.res] = v
            else:
                raise Unsup('driver cast %s' % x.text)
        elif op == 'select':
            c = self.ev(m, x.a[0])
            if not isinstance(c, int):
                raise Unsup('driver select %s' % x.text)
            m.env[x.res] = self.ev(m, x.a[1] if c else x.a[2])
        elif op == 'call':
            name = x.a[0][1][1:] if x.a[0][0] == 'g' else self.no('call through a pointer')
            if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
                return
            args = [self.ev(m, a) for _, a in x.a[1]]
            if name.startswith('llvm.memcpy'):
                n = args[2]
                m.ev.append(('copy', args[0], args[1], n))
                if isinstance(n, int) and n > 8 and isinstance(args[0], SP) and isinstance(args[1], SP) and args[0].base == 'NEW' and args[1].off == (0, 0, 0):
                    for (b, o), v in list(m.mem.items()):
                        if b == args[1].base and o[:2] == (0, 0) and 0 <= o[2] < n:
                            m.mem[('NEW', (0, 0, args[0].off[2] + o[2]))] = v
                if n == 8 and isinstance(args[0], SP) and isinstance(args[1], SP):
                    m.mem[args[0].key()] = m.mem.get(args[1].key(), ('cell',) + args[1].key())
                elif isinstance(args[0], SP) and args[0].base in ('SS', 'VS', 'YYVAL') or not isinstance(args[0], SP):
                    raise Unsup('the driver copies %s' % (args,))
            elif name == 'malloc':
                m.env[x.res] = SP('NEW')
                m.ev.append(('malloc', args[0]))
            elif name == 'yydestruct':
                m.ev.append(('destruct', args[1], args[2]))
            elif name in ('free', 'yyerror'):
                m.ev.append((name,) + tuple(args))
            elif name == 'yylex':
                m.ev.append(('yylex',))
                m.env[x.res] = m.lexed if m.lexed is not None else self.no('a token is read where none is expected')
            else:
                raise Unsup('the driver calls %s' % name)
            if x.res and x.res not in m.env:
                m.env[x.res] = Sym(name)
        else:
            raise Unsup('driver instruction %s' % x.text)

    def no(self, why):
        raise Unsup(why)

    # ------------------------------------------------------------ segments
    def entry(self):
        m = M()
        m.env, m.mem, m.ev, m.blk, m.prev, m.i, m.lexed, m.below = {}, {}, [], self.f.order[0], None, 0, None, {}
        r = self.run(m, {self.head})
        if len(r) != 1 or r[0][0] != ('cut', self.head):
            raise Unsup('yyparse does not reach its main loop')
        m = r[0][1]
        return m, self.roles(m)

    def roles(self, m):
        """the values the head of the main loop gets from the block m comes from"""
        out = {}
        for x in self.f.blocks[self.head]:
            if x.op != 'phi':
                break
            src = [v for v, q in x.a if q == m.prev]
            out[x.res] = self.ev(m, src[0])
        return {r: out[n] for r, n in self.role.items()}

    def start(self, env0, state, yychar, lexed, N=None):
        """the machine at the head of the main loop in a state of the automaton"""
        m = M()
        m.env = dict(env0)
        m.mem, m.ev, m.blk, m.prev, m.i, m.below = {}, [('restart',)], self.head, None, 0, {}
        m.lexed = lexed
        d, n = ((1, 0, 0), Lin((0, 1, 0))) if N is None else ((0, 0, N - 1), N)
        vals = {'state': state, 'ssp': SP('SS', d), 'vsp': SP('VS', tuple(8 * z for z in d)), 'ss': SP('SS'), 'vs': SP('VS'), 'stacksize': n, 'errstatus': 0, 'len': 0}
        for r, name in self.role.items():
            m.env[name] = vals[r]
        m.mem[('@yychar', (0, 0, 0))] = yychar
        return m


class Need(Exception):
    def __init__(self, p):
        self.p = p


EMPTY = -2


class Automaton:
    """the states, actions and gotos of a parser, found by executing its driver from state 0 on"""

    def __init__(self, mod, codes):
        """codes: token code -> terminal name; '$end' is 0, '$undefined' any code the grammar does not have"""
        self.d = Driver(mod)
        self.mod = mod
        self.codes = codes
        self.bad = []                 # (where, what)
        self.ok = 0
        self.oks = {}
        self.act = {}                 # state -> terminal -> ('shift', s) | ('reduce', r) | ('error',) ; '*' -> ('accept',)
        self.len = {}                 # rule -> length
        self.goto = {}                # (state, nonterminal) -> state
        self.lhs = {}
        self.preds = {}               # state -> {state}
        self.sym = {}                 # state -> symbol
        self.by = {}                  # state -> set of (rule) it reduces
        self.names = {}
        self.discarded = set()        # (state, symbol kind its value is discarded as)
        self.looks = set()            # (token code, symbol kind its value is discarded as)

    def need(self, cond, where, what):
        if cond:
            self.ok += 1
            self.oks[(where, what)] = self.oks.get((where, what), 0) + 1
        elif (where, what) not in self.bad:
            self.bad.append((where, what))
        return cond

    def strings(self, p):
        """the text a pointer into a constant names"""
        if isinstance(p, SP) and p.base in self.d.consts and p.off == (0, 0, 0):
            bs = self.d.consts[p.base][1]
            return bytes(b & 255 for b in bs[:bs.index(0)]).decode('latin1')
        return None

    def explore(self):
        d = self.d
        if '@yydefact' not in d.consts or '@yyr1' not in d.consts:
            raise Unsup('the tables of the parser are not found')
        self.nstates = len(d.consts['@yydefact'][1])
        m0, roles = d.entry()
        self.env0 = {k: v for k, v in m0.env.items() if k.startswith('%') and isinstance(v, SP)}
        w = 'yyparse: entry'
        self.need(roles['state'] == 0 and roles.get('errstatus', 0) == 0 and roles.get('len', 0) == 0, w, 'parsing starts in state 0')
        self.need(roles['ssp'] == roles['ss'] == SP('SS0') and roles['vsp'] == roles['vs'] == SP('VS0'), w, 'parsing starts with empty stacks')
        self.need(m0.mem.get(('@yychar', (0, 0, 0))) == EMPTY, w, 'parsing starts with no token read')
        self.need(not any(e[0] in ('yylex', 'yyerror', 'rule', 'free') for e in m0.ev), w, 'nothing happens before the first state')
        self.size0 = roles['stacksize']
        f = d.f
        sizes = {}
        for b in f.blocks.values():
            for x in b:
                if x.op == 'alloca':
                    sizes[x.res] = cir.size(self.mod, x.ty)
        self.need(sizes.get('%yyssa') == self.size0 and sizes.get('%yyvsa') == 8 * self.size0, w, 'the initial stacks have the size the driver takes them to have')
        work, seen = [0], {0}
        reds = {}                     # state -> {(terminal key, ...): machines waiting for the state below}
        self.preds[0] = set()
        changed = True
        self.wait = {}
        while work:
            s = work.pop()
            for t in self.scan(s):
                if t not in seen:
                    seen.add(t)
                    work.append(t)
            # reductions whose stack may now end in other states
            if not work:
                for t in self.reduce_all():
                    if t not in seen:
                        seen.add(t)
                        work.append(t)
        self.states = sorted(seen)

    def edge(self, p, x, s):
        if self.sym.setdefault(s, x) != x:
            self.need(False, 'state %d' % s, 'every state is entered by one symbol')
        self.preds.setdefault(s, set()).add(p)

    def below(self, s, n):
        """the states that can lie n below s on the stack"""
        cur = {s}
        for _ in range(n):
            cur = {p for q in cur for p in self.preds.get(q, ())}
        return cur

    def scan(self, s):
        """executes the main segment in state s for every token; returns the states it goes to"""
        d = self.d
        new = []
        self.act[s] = {}
        w = 'state %d' % s
        outcomes = {}
        for code, term in [(None, '*')] + sorted(self.codes.items()):
            for present in ((False, True) if code is not None else (False,)):
                yc = code if present else EMPTY
                m = d.start(self.env0, s, yc, None if present or code is None else code)
                try:
                    ends = d.run(m, {d.head})
                except Unsup as e:
                    if code is None and 'where none is expected' in str(e):
                        continue
                    raise
                o = self.outcome(s, term, code, yc, ends, w)
                if present:
                    self.need(outcomes.get(code) is None or outcomes[code][0] == o[0], w, 'a token does the same whether it has been read before or not')
                else:
                    outcomes[code] = o
                if code is None:
                    break
            if code is None and outcomes.get(None):
                # decided without looking at the token
                a = outcomes[None][0]
                self.act[s] = {'*': a}
                # with a token already read, the same
                for c2 in sorted(self.codes):
                    o = self.outcome(s, self.codes[c2], c2, c2, d.run(d.start(self.env0, s, c2, None), {d.head}), w)
                    self.need(o[0] == a, w, 'a token does the same whether it has been read before or not')
                if a[0] in ('shift',):
                    self.need(False, w, 'a token is read before it is shifted')
                break
            if code not in outcomes:
                continue
            self.act[s][term] = outcomes[code][0]
            if outcomes[code][0][0] == 'shift':
                new.append(outcomes[code][0][1])
                self.edge(s, term, outcomes[code][0][1])
        return new

    def outcome(self, s, term, code, yc, ends, w):
        """what a run of the main segment did: (action,)"""
        d = self.d
        final = None
        pend = list(ends)
        res = []
        while pend:
            end, m = pend.pop()
            rule = [e for e in m.ev if e[0] == 'rule']
            if end[0] in ('need', 'ret') and not rule:
                # error recovery or the end: whatever lies below on the stack
                outs = self.tail(end, m, w)
                if outs == {(0, 0)}:
                    res.append(('accept',))
                elif self.need(all(v and n == 1 for v, n in outs), w, 'a rejected text is reported once and is an error'):
                    res.append(('error',))
                continue
            if end[0] == 'need':
                res.append(self.reduced(s, code, yc, m, end[1], rule, w))
                continue
            if end[0] == 'ret':
                self.need(False, w, 'a rule goes on')
                continue
            if end[0] == 'cut':
                rule = [e for e in m.ev if e[0] == 'rule']
                if rule:
                    # the state below is s itself (an empty right-hand side)
                    res.append(self.reduced(s, code, yc, m, None, rule, w))
                    continue
                r = d.roles(m)
                st = r['state']
                self.need(isinstance(st, int) and r['ssp'] == SP('SS', (1, 0, 1)) and r['vsp'] == SP('VS', (8, 0, 8)), w, 'shifting pushes one state and one value')
                self.need(m.mem.get(('VS', (8, 0, 8))) == ('cell', '@yylval', (0, 0, 0)), w, 'the value shifted is the value of the token')
                self.need(r['ss'] == SP('SS') and r['vs'] == SP('VS') and isinstance(r['stacksize'], Lin) and r['stacksize'].v == (0, 1, 0), w, 'the stacks stay where they are')
                self.need(m.mem.get(('@yychar', (0, 0, 0))) == EMPTY, w, 'a token shifted is used up')
                self.need(r.get('errstatus', 0) == 0 and r.get('len', 0) == 0, w, 'shifting leaves the error status')
                self.need(sum(e[0] == 'yylex' for e in m.ev) == (1 if yc == EMPTY else 0), w, 'exactly one token is read when there is none')
                self.frame(m, w)
                res.append(('shift', st))
                continue
        kinds = set(res)
        self.need(len(kinds) == 1, w, 'one action for a token')
        return (sorted(kinds)[0],) if kinds else (('error',),)

    def frame(self, m, w):
        """the driver writes its stacks at the top, yychar, the error count and its local variables only"""
        for e in m.ev:
            if e[0] == 'store':
                p = e[1]
                okk = p.base in ('@yychar', '@yynerrs', 'YYVAL') or p.base == 'SS' and p.off[0] == 1 and p.off[1] == 0
                self.need(okk, w, 'the driver writes nothing but its own variables')
            self.need(e[0] != 'destruct', w, 'nothing is discarded but after an error')
            if e[0] == 'copy':
                self.need(isinstance(e[1], SP) and e[1].base in ('VS', 'YYVAL') and e[3] == 8, w, 'the driver writes nothing but its own variables')

    def reduced(self, s, code, yc, m, p, rule, w):
        d = self.d
        if not self.need(len(rule) == 1, w, 'one rule at a time'):
            return ('error',)
        r = rule[0][1]
        lhs = d.consts['@yyr1'][1][r] if '@yyr1' in d.consts and r < len(d.consts['@yyr1'][1]) else None
        if lhs is None:
            raise Unsup('the table yyr1 is not there')
        n = 0
        if p is not None:
            self.need(p.base == 'SS' and p.off[0] == 1 and p.off[1] == 0 and p.off[2] <= 0, w, 'the state looked at is on the stack')
            n = -p.off[2]
        # before the action: yyval is the first value of the right-hand side
        if n:
            self.need(m.mem.get(('YYVAL', (0, 0, 0))) in (('cell', 'VS', (8, 0, 8 * (1 - n))),) or self.changed_by_join(m, n), w, 'the default value of a rule is its first value')
        self.len.setdefault(r, n)
        self.need(self.len[r] == n, 'rule %d' % r, 'a rule has one length')
        self.lhs[r] = lhs
        self.by.setdefault(s, set()).add(r)
        self.wait.setdefault((s, code, yc), (m, n, r))
        # what has been done so far
        self.need(not any(e[0] in ('yyerror', 'free', 'malloc') for e in m.ev), w, 'reducing reports nothing')
        lex = sum(e[0] == 'yylex' for e in m.ev)
        self.need(lex == (1 if yc == EMPTY and code is not None else 0), w, 'exactly one token is read when there is none')
        if p is None:
            self.finish_reduce(s, code, yc, m, n, r, s, w)
        return ('reduce', r)

    def changed_by_join(self, m, n):
        return False

    def reduce_all(self):
        """the gotos of every reduction over every state that can lie below it"""
        new = []
        d = self.d
        if not hasattr(self, 'did'):
            self.did = set()
        again = True
        while again:
            again = False
            for (s, code, yc), (m, n, r) in list(self.wait.items()):
                for q in self.below(s, n):
                    k = (s, code, yc, q)
                    if k in self.did:
                        continue
                    self.did.add(k)
                    again = True
                    if n == 0:
                        st = self.goto.get((q, self.lhs[r]))
                    else:
                        m2 = m.copy()
                        m2.mem[('SS', (1, 0, -n))] = q
                        ends = d.run(m2, {d.head})
                        w = 'state %d' % s
                        if not self.need(len(ends) == 1 and ends[0][0] == ('cut', d.head), w, 'after a reduction the parser goes on'):
                            continue
                        st = self.finish_reduce(s, code, yc, ends[0][1], n, r, q, w)
                    if st is not None:
                        new.append(st)
                        self.edge(q, ('N', self.lhs[r]), st)
        return set(new)

    def finish_reduce(self, s, code, yc, m, n, r, q, w):
        d = self.d
        ro = d.roles(m)
        st = ro['state']
        self.need(isinstance(st, int) and ro['ssp'] == SP('SS', (1, 0, 1 - n)) and ro['vsp'] == SP('VS', (8, 0, 8 * (1 - n))), w, 'reducing replaces the right-hand side by one state and one value')
        self.need(ro['ss'] == SP('SS') and ro['vs'] == SP('VS') and isinstance(ro['stacksize'], Lin) and ro['stacksize'].v == (0, 1, 0), w, 'the stacks stay where they are')
        # the last copy goes from yyval to the top of the stack
        cp = [e for e in m.ev if e[0] == 'copy']
        self.need(len(cp) >= 1 and cp[-1][1] == SP('VS', (8, 0, 8 * (1 - n))) and cp[-1][2] == SP('YYVAL'), w, 'the value of the rule is pushed')
        after = False
        for e in m.ev:
            if e[0] == 'rule':
                after = True
            if after and e[0] == 'copy' and e is not cp[-1]:
                self.need(False, w, 'the values below stay as they are')
        self.frame(m, w)
        raw = m.mem.get(('@yychar', (0, 0, 0)))
        self.need(raw == (code if code is not None else yc), w, 'a reduction keeps the token for the next state')
        self.need(ro.get('errstatus', 0) == 0 and ro.get('len', 0) == 0, w, 'reducing leaves the error status')
        k = (q, self.lhs[r])
        if not isinstance(st, int):
            return None
        self.need(self.goto.setdefault(k, st) == st, 'state %d' % q, 'one next state for every left-hand side')
        return st

    def tail(self, end, m, w):
        """all returns from m on, m being in error recovery or in the clean-up; {(value returned, errors reported)}"""
        d = self.d
        if not hasattr(self, 'edges'):
            self.edges = {}           # point of the driver -> (what it returns at once, the points it goes on at)
            self.tails = 0

        def step(ends):
            rets, nxt = set(), []
            for end, m in ends:
                pos, bottom = self.discards(m, w)
                if end[0] == 'ret':
                    if not isinstance(end[1], int):
                        raise Unsup('yyparse returns %s' % (end[1],))
                    errs = [e for e in m.ev if e[0] == 'yyerror']
                    self.need(all(self.strings(e[1]) for e in errs), w, 'an error is reported with a text')
                    self.need(bottom == (pos, True), w, 'every value on the stack is discarded')
                    yc = m.mem.get(('@yychar', (0, 0, 0)))
                    self.need(isinstance(yc, int), w, 'the token read is known')
                    n = sum(e[0] == 'destruct' and e[2] == SP('@yylval') for e in m.ev)
                    self.need(n == (0 if yc == EMPTY else 1), w, 'a token that was read and not shifted is discarded')
                    rets.add((end[1], len(errs)))
                elif end[0] == 'cut':
                    self.need(False, w, 'the parser gives up at an error')
                elif self.need(end[1].base == 'SS' and end[1].off[:2] == (1, 0), w, 'error recovery reads the stack of states'):
                    self.need(end[1].off[2] == pos, w, 'the stack is discarded from its top, one value at a time')
                    nxt.append(self.point(end[1], m))
            return rets, nxt
        res, work = step([(end, m)])
        seen = set()
        while work:
            key, n = work.pop()
            if key in seen:
                continue
            seen.add(key)
            if key not in self.edges:
                self.tails += 1
                ends = []
                for q in range(self.nstates):
                    n2 = n.copy()
                    n2.ev = [e for e in n2.ev if e[0] == 'yyerror' or e[0] == 'destruct' and e[2] == SP('@yylval')]
                    n2.mem[('SS', (1, 0, 0))] = q
                    ends += d.run(n2, {d.head})
                rets, nxt = step(ends)
                self.edges[key] = (rets, list({k: (k, x) for k, x in nxt}.values()))
            rets, nxt = self.edges[key]
            res |= rets
            work += nxt
        return res

    def discards(self, m, w):
        """the values discarded since the top of the stack was (1, 0, 0): (the top that is left, what was seen of the bottom)"""
        pos, bottom = 0, None
        for e in m.ev:
            if e[0] == 'branch' and e[1]:
                k, pred = e[1]
                bottom = (k, e[2] == (pred == 'eq'))
            elif e[0] == 'destruct':
                if e[2] == SP('@yylval'):
                    self.looks.add((m.mem.get(('@yychar', (0, 0, 0))), e[1]))
                    continue
                q = m.mem.get(('SS', (1, 0, pos)))
                if self.need(isinstance(q, int) and e[2] == SP('VS', (8, 0, 8 * pos)), w, 'the stack is discarded from its top, one value at a time'):
                    self.discarded.add((q, e[1]))
                pos -= 1
        return pos, bottom

    def point(self, p, m):
        """a point of error recovery, with the stack seen from the element that is read: (what decides how it goes on, machine)"""
        k = p.off[2]
        n = m.copy()
        n.mem = {q: v for q, v in n.mem.items() if q[0] not in ('SS', 'VS')}
        for name, v in n.env.items():
            if isinstance(v, SP) and v.off[0]:
                n.env[name] = SP(v.base, (v.off[0], v.off[1], v.off[2] - k * v.off[0]))
        live = self.live(n.blk, n.i, n.prev)
        return (n.blk, n.i, n.prev, sum(e[0] == 'yyerror' for e in m.ev), sum(e[0] == 'destruct' and e[2] == SP('@yylval') for e in m.ev), repr(n.mem.get(('@yychar', (0, 0, 0)))), tuple(sorted((a, repr(v)) for a, v in n.env.items() if a in live))), n

    def live(self, blk, i, prev):
        """the names whose values matter from instruction i of blk on, until the main loop starts again"""
        d = self.d
        f = d.f
        if not hasattr(self, '_livein'):
            self._livein = {b: set() for b in f.order}
            uses = {}
            for b in f.order:
                uses[b] = [(x.res, set(re.findall(r'%[-\w.$]+', x.text.split('=', 1)[-1])) if x.op != 'phi' else set(), x) for x in f.blocks[b]]
            self._uses = uses
            ch = True
            while ch:
                ch = False
                for b in f.order:
                    n = self._from(b, 0)
                    if n != self._livein[b]:
                        self._livein[b] = n
                        ch = True
        return self._from(blk, i)

    def _from(self, b, i):
        d = self.d
        out = set()
        for t in d.f.succ[b]:
            for x in d.f.blocks[t]:
                if x.op == 'phi':
                    out |= {v[1] for v, q in x.a if q == b and v[0] == 'v'}
            if t != d.head:
                out |= self._livein[t]
        for res, us, x in reversed(self._uses[b][i:]):
            out.discard(res)
            out |= us
        return out

    def grow(self):
        """the growth of the stacks: with full stacks of every size they can have, each state does what it does otherwise"""
        d = self.d
        N = self.size0
        self.sizes = []
        codes = sorted(self.codes.items())
        while True:
            w = 'stacks of %d' % N
            nxt = set()
            self.sizes.append(N)
            for s in self.states:
                for c, t in (codes if '*' not in self.act[s] else [(None, '*')]):
                    m = d.start(self.env0, s, EMPTY, c, N)
                    ends = []
                    for end, y in d.run(m, {d.head}, full=True):
                        ma = [i for i, e in enumerate(y.ev) if e[0] == 'malloc']
                        e2 = self.grown(end, y, N, w) if ma else (None, self.symbolic(end, y, N))
                        nxt.add(e2[0])
                        ends.append(e2[1])
                    if nxt == {None}:
                        for end, y in ends:
                            outs = self.tail(end, y, w)
                            self.need(outs and all(v and n == 1 for v, n in outs), w, 'a text that needs larger stacks is an error')
                    elif all(ends):
                        o = self.outcome(s, t, c, EMPTY, ends, w)
                        self.need(o[0] == self.act[s].get(t), w, 'growing the stacks changes nothing else')
            if len(nxt) != 1 or None in nxt:
                self.need(nxt == {None}, w, 'full stacks grow')
                break
            N = nxt.pop()
            if len(self.sizes) > 40:
                raise Unsup('the stacks grow without end')
        self.maxdepth = N

    def grown(self, end, y, N, w):
        """checks the growth in the run y; (new size, the run as if the stacks had not been full)"""
        i = [j for j, e in enumerate(y.ev) if e[0] == 'malloc'][0]
        ev = y.ev[i + 1:]
        cp = [e for e in ev if e[0] == 'copy'][:2]
        if not self.need(len(cp) == 2 and all(isinstance(e[1], SP) and e[1].base == 'NEW' and e[1].off[:2] == (0, 0) for e in cp), w, 'growing keeps the contents of the stacks'):
            return None, None
        k0, k = cp[0][1].off[2], cp[1][1].off[2]
        self.need([e[2:] for e in cp] == [(SP('SS'), N), (SP('VS'), 8 * N)], w, 'growing keeps the contents of the stacks')
        n2 = y.env.get(self.sizevar(y))
        if not self.need(isinstance(n2, int) and n2 > N, w, 'full stacks grow'):
            return None, None
        self.need(sum(e[0] == 'malloc' for e in y.ev) == 1 and k0 >= 0 and k >= k0 + n2 and k % 8 == 0 and k + 8 * n2 <= y.ev[i][1], w, 'the grown stacks have room')
        fr = [e for e in ev if e[0] == 'free' and e[1] == SP('SS')]
        self.need(len(fr) <= 1, w, 'growing releases nothing but the old stacks')
        # the state is on the stack before it grows
        drop = [y.ev[i]] + cp + fr + [e for e in y.ev[:i] if e[0] == 'store' and e[1] == SP('SS', (0, 0, N - 1))]
        z = y.copy()
        z.ev = [e for e in y.ev if not any(e is x for x in drop) and not (e[0] == 'branch' and e[1] is None)]
        return n2, self.symbolic(end, z, N, k0, k, n2)

    def sizevar(self, y):
        """the variable that holds the size of the stacks after growing"""
        if not hasattr(self, '_sizevar'):
            f = self.d.f
            c = [x.res for b in f.order for x in f.blocks[b] if x.op == 'phi' and re.match(r'%yystacksize\.\d+$', x.res) and x.res != self.d.role['stacksize']]
            self._sizevar = c
        for n in reversed(self._sizevar):
            if isinstance(y.env.get(n), int):
                return n
        return None

    def symbolic(self, end, m, N, k0=None, k=None, n2=None):
        """a machine with stacks of N entries, the top one being a known number, with the top as the depth instead"""
        def conv(p):
            if isinstance(p, SP) and p.base == 'NEW' and k is not None and p.off[:2] == (0, 0):
                o = p.off[2]
                p = SP('VS', (0, 0, o - k)) if o >= k - 8 else SP('SS', (0, 0, o - k0))
            elif isinstance(p, SP) and p.base in ('SS', 'VS') and k is not None:
                return SP('OLD' + p.base, p.off)
            if isinstance(p, SP) and p.base in ('SS', 'VS') and p.off[:2] == (0, 0) and p.off[2] > 0:
                z = 8 if p.base == 'VS' else 1
                return SP(p.base, (z, 0, p.off[2] - z * (N - 1)))
            if isinstance(p, tuple) and len(p) == 3 and p[0] == 'cell':
                x = conv(SP(p[1], p[2]))
                return ('cell',) + x.key()
            return p
        names = set(self._sizevar) if n2 is not None else set()
        if n2 is None:
            names = {self.d.role['stacksize']}
        n = m.copy()
        n.env = {a: Lin((0, 1, 0)) if a in names and v == (n2 or N) else conv(v) for a, v in m.env.items()}
        n.mem = {conv(SP(*a)).key(): conv(v) for a, v in m.mem.items()}
        n.ev = [tuple(conv(x) for x in e) for e in m.ev]
        return ((end[0], conv(end[1])) if end[0] == 'need' else end), n
