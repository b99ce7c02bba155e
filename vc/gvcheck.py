"""graphviz.Walk (properties G01, G51): the text a walk builds is a sequence of constant pieces and of parts known by contract (the texts of the
recursive calls, identifiers, escaped values). The postcondition reads it as DOT statements, whatever its layout, and counts them."""
import re
from gomodels import *
from goexec import Unsupported, Outcome, short, SliceL, NilV, LocPtr, ArrO, Cell, StructV
import goexec2
from gotree import PyUnit
import gotree

SS = StringSort()
X = {}
DISTINCT = 'the vertices of a tree are distinct'
DISCIPLINE = 'an identifier of a child is that of its parent, "_" and digits; so the identifiers of all nodes are distinct'


def xm(name, trust=None):
    def deco(f):
        X[name] = f
        TRUST[name] = trust or 'contract of %s' % short(name)
        return f
    return deco


# ------------------------------------------------------------ pieces of text
class Atom:
    """a symbolic part of a text; maps: replacements applied to it, innermost first"""

    def __init__(self, t, maps=()):
        self.t, self.maps = t, tuple(maps)

    def same(self, o):
        return isinstance(o, Atom) and z3.eq(self.t, o.t) and self.maps == o.maps

    def __repr__(self):
        return '<%s>' % self.t


def apply_maps(s, maps):
    for m in maps:
        s = ''.join(m.get(c, c) for c in s)
    return s


def join(a, b):
    out = list(a)
    for x in b:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def decide(ex, st, hyps, c):
    if is_true(c):
        return True
    if is_false(c):
        return False
    fs = st.formulas() + list(hyps)
    if ex.valid(fs, c):
        return True
    if ex.valid(fs, Not(c)):
        return False
    return None


def known_empty(st, hyps, t):
    e1, e2 = simplify(t == z3.StringVal('')), simplify(z3.StringVal('') == t)
    todo = list(st.formulas()) + list(hyps)
    while todo:
        f = todo.pop()
        if z3.is_quantifier(f):
            continue
        if z3.is_and(f):
            todo.extend(f.children())
        elif z3.is_eq(f) and (z3.eq(f, e1) or z3.eq(f, e2)):
            return True
    return False


def flat(ex, st, t, hyps=(), maps=()):
    """[(assumptions, pieces)]: the text of a string term"""
    t = simplify(t)
    s = pystr(t)
    if s is not None:
        return [(tuple(hyps), [apply_maps(s, maps)] if s else [])]
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        alts = [(tuple(hyps), [])]
        for k in t.children():
            alts = [(h2, join(segs, more)) for h, segs in alts for h2, more in flat(ex, st, k, h, maps)]
        return alts
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        d = decide(ex, st, hyps, c)
        if d is not None:
            return flat(ex, st, a if d else b, hyps, maps)
        return flat(ex, st, a, tuple(hyps) + (c,), maps) + flat(ex, st, b, tuple(hyps) + (Not(c),), maps)
    if not z3.is_app(t):
        raise Unsupported('a text that is no term')
    n = t.decl().name()
    if n == 'strings_ReplaceAll':
        a, b = pystr(t.arg(1)), pystr(t.arg(2))
        if a is None or b is None or len(a) != 1:
            raise Unsupported('a replacement of more than one character')
        return flat(ex, st, t.arg(0), hyps, ({a: b},) + tuple(maps))
    if t.decl().kind() == z3.Z3_OP_SEQ_REPLACE:
        a, b = pystr(t.arg(1)), pystr(t.arg(2))
        if not a or b is None or all(IDCH.match(x) for x in a) or maps:
            raise Unsupported('the replacement of a part of a text')
        return [(h, first(segs, a, b)) for h, segs in flat(ex, st, t.arg(0), hyps)]
    if t.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z3.is_app_of(t.arg(0), z3.Z3_OP_ITE):
        c, x, y = t.arg(0).children()
        d = decide(ex, st, hyps, c)
        if d is not None:
            return flat(ex, st, t.decl()(x if d else y), hyps, maps)
    if n.startswith('replacer_apply'):
        pairs = getattr(ex, 'replacers', {}).get(str(t.arg(0)))
        if pairs is None or any(len(a) != 1 for a, b in pairs):
            raise Unsupported('a replacement of more than one character')
        m = {}
        for a, b in pairs:
            m.setdefault(a, b)
        return flat(ex, st, t.arg(1), hyps, (m,) + tuple(maps))
    if n in ('fmt_v', 'fmt_s', 'fmt_sprint', 'fmt_g', 'fmt_d', 'fmt_t') and t.num_args() == 1 and t.arg(0).sort() == ex.p.Val:
        a = simplify(t.arg(0))
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            c, x, y = a.children()
            d = decide(ex, st, hyps, c)
            if d is not None:
                return flat(ex, st, t.decl()(x if d else y), hyps, maps)
            return flat(ex, st, t.decl()(x), tuple(hyps) + (c,), maps) + flat(ex, st, t.decl()(y), tuple(hyps) + (Not(c),), maps)
        sc = ex.p.ctor_of[ex.p.bystr['string']]
        if is_true(simplify(sc[1](a))) and n in ('fmt_v', 'fmt_s', 'fmt_sprint'):
            return flat(ex, st, sc[2][0](a), hyps, maps)
        return [(tuple(hyps), [Atom(Function('fmt_v', ex.p.Val, SS)(a) if n == 'fmt_sprint' else simplify(t.decl()(a)), maps)])]
    # a prefix or an identifier known to be empty on this path
    if z3.is_const(t) and known_empty(st, hyps, t):
        return [(tuple(hyps), [])]
    return [(tuple(hyps), [Atom(t, maps)])]


def first(segs, a, b):
    """strings.Replace(text, a, b, 1): an identifier has none of the other characters of a"""
    out = []
    for i, x in enumerate(segs):
        if isinstance(x, Atom):
            nxt = segs[i + 1] if i + 1 < len(segs) and isinstance(segs[i + 1], str) else ''
            if x.maps or not z3.is_const(x.t) or not re.match(r'id$|root_id|rand_id', str(x.t)) or any(nxt.startswith(a[j:]) or a[j:].startswith(nxt) for j in range(1, len(a))):
                raise Unsupported('the replacement of a part of a text')
            out.append(x)
        elif a in x:
            return out + [x.replace(a, b, 1)] + segs[i + 1:]
        else:
            out.append(x)
    return out


# ------------------------------------------------------------ DOT
class Bad(Exception):
    pass


IDCH = re.compile(r'[A-Za-z0-9_]')


class Dot:
    def __init__(self, segs, isid, isstm, isids, edges_of):
        self.u = []
        for s in segs:
            self.u.extend(s if isinstance(s, str) else [s])
        self.i = 0
        self.isid, self.isstm, self.isids, self.edges_of = isid, isstm, isids, edges_of

    def peek(self):
        return self.u[self.i] if self.i < len(self.u) else None

    def ws(self, extra=''):
        k = self.i
        while isinstance(self.peek(), str) and self.peek() in ' \t\r\n' + extra:
            self.i += 1
        return self.i > k

    def ident(self):
        out = []
        while True:
            c = self.peek()
            if isinstance(c, str) and IDCH.match(c) or isinstance(c, Atom) and not c.maps and self.isid(c.t):
                out = join(out, [c])
                self.i += 1
            else:
                break
        if not out:
            raise Bad('an identifier is missing before %s' % ''.join(str(x) for x in self.u[self.i:self.i + 12]))
        return out

    def lit(self, s):
        if ''.join(x if isinstance(x, str) else '\0' for x in self.u[self.i:self.i + len(s)]) != s:
            raise Bad('%r is missing before %s' % (s, ''.join(str(x) for x in self.u[self.i:self.i + 12])))
        self.i += len(s)

    def quoted(self):
        """the characters between the quotes, after the scanner of DOT"""
        self.lit('"')
        out = []
        while True:
            c = self.peek()
            if c is None:
                raise Bad('a string does not end')
            self.i += 1
            if c == '"':
                return out
            if c == '\\':
                d = self.peek()
                if d == '"':
                    self.i += 1
                    out.append('"')
                    continue
                if isinstance(d, Atom):
                    raise Bad('a backslash before a value')
                out.append('\\')
                if d == '\\':
                    self.i += 1
                    out.append('\\')
                continue
            out.append(c)

    def attrs(self):
        self.lit('[')
        r = {}
        while True:
            self.ws(',;')
            if self.peek() == ']':
                self.i += 1
                return r
            n = ''.join(str(x) for x in self.ident())
            self.ws()
            self.lit('=')
            self.ws()
            v = self.quoted() if self.peek() == '"' else self.ident()
            if n in r:
                raise Bad('the attribute %s twice' % n)
            r[n] = v

    def ids(self):
        if self.peek() != '{':
            return [self.ident()]
        self.lit('{')
        out = []
        while True:
            self.ws(',;')
            c = self.peek()
            if c == '}':
                self.i += 1
                return out
            if isinstance(c, Atom) and self.isids(c.t):
                self.i += 1
                out.append(c)
            else:
                out.append(self.ident())

    def statements(self):
        out = []
        while True:
            self.ws(';')
            c = self.peek()
            if c is None:
                return out
            if isinstance(c, Atom) and self.isstm(c.t):
                self.i += 1
                out.append(('sub', c.t))
                if self.peek() is not None and not self.ws(';') and not self.edges_of(c.t)[1]:
                    raise Bad('a statement is not separated from the next one')
                continue
            a = self.ident()
            self.ws()
            if self.peek() == '[':
                out.append(('vertex', a, self.attrs()))
            elif self.peek() == '-':
                self.lit('->')
                self.ws()
                out.append(('edge', a, self.ids()))
            else:
                out.append(('vertex', a, {}))
            if self.peek() not in (None, ';') and not self.ws(';'):
                if not isinstance(self.peek(), Atom) or not self.isstm(self.peek().t) or not self.edges_of(self.peek().t)[0]:
                    raise Bad('a statement is not separated from the next one')


SPECIAL = '"\\'
RECORD = '{}|<>'


def decodes(img, c, record):
    """img, inside the quotes, stands for the character c"""
    d = Dot(['"' + img + '"'], None, None, None, None)
    try:
        s = d.quoted()
    except Bad:
        return False
    if d.i != len(d.u):
        return False
    return unlabel(s, record) == [c]


def unlabel(s, record):
    """label text to what is shown; a record separator becomes a field mark"""
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if i + 1 >= len(s) or not isinstance(s[i + 1], str):
                return None
            d = s[i + 1]
            if d in 'nlrNGETHL':
                out.append('\n' if d in 'nlr' else ('esc', d))
            else:
                out.append(d)
            i += 2
            continue
        if record and isinstance(c, str) and c in RECORD:
            out.append(('field', c))
        else:
            out.append(c)
        i += 1
    return out


def escaped(maps, record):
    """the characters that the replacements leave with another meaning"""
    bad = []
    for k in range(1, 256):
        c = chr(k)
        if not decodes(apply_maps(c, maps), c, record):
            bad.append(c)
    return bad


# ------------------------------------------------------------ execution
class Acc:
    """a slice that has one element per child so far: the elements it had before, then for each child the text tmpl(k)"""

    def __init__(self, init, k, tmpl=None, last=None):
        self.init, self.k, self.tmpl, self.last = init, k, tmpl, last


class Roles:
    """the parameters of a function that walks: node, prefix, identifier, the identifiers used so far (a pointer to a struct of a text and a number)"""

    def __init__(self, p, fn, view):
        ps = p.funcs[fn]['params']
        ts = [x['type'] if isinstance(x, dict) else x for x in ps]
        self.n = len(ts)
        strs = [i for i, t in enumerate(ts) if p.t(t)['str'] == 'string']
        nodes = [i for i, t in enumerate(ts) if view.isnode(p, t)]
        ptrs = [i for i, t in enumerate(ts) if i not in nodes and i not in strs]
        if len(nodes) != 1 or not strs or len(strs) > 2 or len(ptrs) > 1:
            raise Unsupported('the parameters of %s' % short(fn))
        self.node, self.id = nodes[0], strs[-1]
        self.pre = strs[0] if len(strs) == 2 else None
        self.ids = None
        if ptrs:
            u = p.under(ts[ptrs[0]])
            if u['kind'] != 'pointer' or p.under(u['elem'])['kind'] != 'struct':
                raise Unsupported('the parameters of %s' % short(fn))
            self.ids, self.tid = ptrs[0], u['elem']
            fs = [p.t(f['type'])['str'] for f in p.under(u['elem'])['fields']]
            if sorted(fs) != ['int', 'string']:
                raise Unsupported('the parameters of %s' % short(fn))
            self.r, self.u = fs.index('string'), fs.index('int')
            self.names = fs


class GvExec(goexec2.Exec):
    walkfn = None
    recfn = None
    roles = None
    view = None

    def idstate(self, st, oid=None):
        """root name and numbers used, of the identifiers given out so far"""
        oid = st.ext['ids'] if oid is None else oid
        v = st.heap[oid].v
        return self.field(st, v, self.roles.r), self.field(st, v, self.roles.u)

    def setused(self, st, oid, n):
        c = st.heap[oid]
        f = [None, None]
        f[self.roles.r] = self.field(st, c.v, self.roles.r)
        f[self.roles.u] = n
        st.heap[oid] = Cell(c.tid, StructV(c.tid, f))

    def sl_len(self, st, v, tid=None):
        if isinstance(v, Acc):
            if v.tmpl is None and v.last is None:
                raise Unsupported('the length of a list under construction')
            raise Unsupported('the length of a list')
        return super().sl_len(st, v, tid)

    def do_append(self, fr, ins, args, st):
        if isinstance(args[0], Acc):
            a = args[0]
            if a.last is not None or a.tmpl is not None:
                raise Unsupported('two elements for one child')
            n = self.asint(self.sl_len(st, args[1]))
            if n != 1:
                raise Unsupported('append of a list')
            et = self.p.under(ins['type'])['elem']
            return Acc(a.init, a.k, None, self.term(st, self.sl_get(st, args[1], IntVal(0), et), et))
        return super().do_append(fr, ins, args, st)

    def term(self, st, v, tid):
        if isinstance(v, Acc):
            raise Unsupported('a list of texts used as a value')
        return super().term(st, v, tid)

    def loop(self, fr, h, prev, env, st):
        if 'root' not in st.ext or st.ext.get('loop') is not None:
            return super().loop(fr, h, prev, env, st)
        n = self.view.size(self, st)
        if n is None or z3.is_int_value(simplify(n)):
            return super().loop(fr, h, prev, env, st)
        seen = any(i['op'] == 'Call' for b in self.p.loops(fr['fn'])[h] for i in self.p.funcs[fr['fn']]['blocks'][b]['instrs'])
        if not seen:
            return super().loop(fr, h, prev, env, st)
        return self.children(fr, h, prev, env, st, n)

    def children(self, fr, h, prev, env, st, n):
        """a loop over the children: every text it builds has, after k rounds, the parts of the first k children in order"""
        p = self.p
        fn = p.funcs[fr['fn']]
        blk = fn['blocks'][h]
        region = p.loops(fr['fn'])[h]
        phis = [i for i in blk['instrs'] if i['op'] == 'Phi']
        e = blk['preds'].index(prev)
        w = 'loop over the children'
        if st.ext.get('rounds'):
            raise Unsupported('a second loop over the children')
        k = self.fresh('k', IntSort())
        s1 = st.fork()
        env1 = dict(env)
        counter, texts, lists = None, {}, {}
        for i in phis:
            v = self.val(fr, env, i['edges'][e])
            ts = p.t(i['type'])['str']
            if ts == 'int' and self.asint(v) is not None and counter is None:
                counter = (i['name'], self.asint(v))
            elif ts == 'string':
                c = self.fresh('text', SS)
                texts[i['name']] = (c, v)
                env1[i['name']] = c
            elif ts == '[]string':
                m = self.asint(self.sl_len(st, v))
                if m is None:
                    raise Unsupported('a list of unknown length')
                lists[i['name']] = [self.term(st, self.sl_get(st, v, IntVal(j), p.under(i['type'])['elem']), p.under(i['type'])['elem']) for j in range(m)]
                env1[i['name']] = Acc(lists[i['name']], k)
            else:
                env1[i['name']] = self.fresh('phi', p.sort(i['type']))
        if counter is None:
            raise Unsupported('a loop without a counter')
        env1[counter[0]] = k + counter[1]
        s1.fact(And(k >= 0, k <= n))
        self.view.child_facts(self, s1, k)
        sbs = {}
        bs = [o for o, c in s1.heap.items() if isinstance(c, Cell) and p.t(c.tid)['str'] in ('strings.Builder', 'bytes.Buffer')]
        s1.ext['sb'] = tuple((o, sbget(s1, o)) for o in sorted(set(bs) | set(o for o, _ in s1.ext.get('sb', ()))))
        for oid, t in s1.ext.get('sb', ()):
            c = self.fresh('text', SS)
            sbs[oid] = (c, t)
        s1.ext['sb'] = tuple((oid, sbs[oid][0]) for oid in sbs)
        s1.ext['loop'] = k
        s1.ext['subs'] = ()
        used0 = None
        if s1.ext.get('ids') is not None:
            u0 = self.idstate(s1)[1]
            used0 = self.fresh('used', IntSort())
            s1.fact(used0 >= u0)
            self.setused(s1, s1.ext['ids'], used0)
        pre = dict(s1.heap)
        backs, exits, out = [], [], []
        for o in self.run(fr, h, prev, env1, s1, region, entry_header=h):
            if o.kind == 'back':
                backs.append(o)
            elif o.kind == 'exit':
                exits.append(o)
            else:
                o.state.ext['loop'] = None
                out.append(o)
        tm = {}      # the part of a child, by accumulator
        arrs = {}
        for o in backs:
            s = o.state
            ix = blk['preds'].index(o.prev)
            subs = s.ext.get('subs', ())
            new = {i['name']: self.val(fr, o.env, i['edges'][ix]) for i in phis}
            self.oblige(s, new[counter[0]] == k + 1 + counter[1], 'the loop goes from child to child', w)
            self.oblige(s, k < n, 'the loop ends with the last child', w)
            self.oblige(s, BoolVal(len(subs) == 1), 'each child is walked once', w)
            for x in subs:
                self.oblige(s, x['child'] == self.view.child(self, k), 'the child walked is the one at hand', w)
            for oid, obj in pre.items():
                cur = s.heap.get(oid)
                if cur is obj:
                    continue
                if oid == s.ext.get('ids') and isinstance(cur, Cell):
                    r1, u1 = self.idstate(s)
                    self.oblige(s, And(r1 == self.field(s, obj.v, self.roles.r), u1 >= used0), 'an identifier given out is not given out again', w)
                    for x in subs:
                        d = numbered(self, s, (), x['id'], r1)
                        if d is None:
                            raise Unsupported('an identifier of another form')
                        self.oblige(s, And(d > used0, d <= u1, Or(d <= x['from'], d > x['to']), x['from'] >= used0, x['to'] <= u1), DISTINCT, w)
                    continue
                if not (isinstance(cur, ArrO) and isinstance(obj, ArrO)) or not z3.is_expr(cur.c) or not z3.is_expr(obj.c):
                    raise Unsupported('a loop that changes local memory')
                if not (z3.is_app_of(cur.c, z3.Z3_OP_STORE) and z3.eq(cur.c.arg(0), obj.c)):
                    raise Unsupported('a loop that changes local memory')
                self.oblige(s, cur.c.arg(1) == k, 'the place filled is that of the child at hand', w)
                self.fix(arrs, oid, simplify(cur.c.arg(2)))
            for name, (c, v0) in list(texts.items()):
                self.fix(tm, name, self.rest(s, new[name], c))
            d = dict(s.ext.get('sb', ()))
            for oid, (c, v0) in sbs.items():
                self.fix(tm, ('sb', oid), self.rest(s, d[oid], c))
            for name in lists:
                v = new[name]
                if not isinstance(v, Acc) or v.last is None:
                    raise Unsupported('a list without an element for each child')
                self.fix(tm, name, simplify(v.last))
            self.view.back = subs
        for o in exits:
            s = o.state
            s.ext['loop'] = None
            s.ext['subs'] = st.ext.get('subs', ())
            e2 = dict(o.env)
            sub = backs[0].state.ext['subs'][0] if backs and backs[0].state.ext.get('subs') else None
            rd = dict(k=k, n=n, sub=sub, texts={}, used=[])
            facts = []
            for name, (c, v0) in texts.items():
                s.fact(c == self.after(rd, name, v0, tm.get(name), ' '))
            for oid, (c, v0) in sbs.items():
                s.fact(c == self.after(rd, ('sb', oid), v0, tm.get(('sb', oid)), ' '))
            # the names still stand for the constants of the header: rewrite them
            subst = [(c, self.after(rd, name, v0, tm.get(name), ' ')) for name, (c, v0) in texts.items()]
            subst += [(c, self.after(rd, ('sb', oid), v0, tm.get(('sb', oid)), ' ')) for oid, (c, v0) in sbs.items()]
            for a, b in list(e2.items()):
                if z3.is_expr(b) and subst:
                    e2[a] = simplify(z3.substitute(b, *subst))
                elif isinstance(b, Acc) and b.k is k:
                    e2[a] = Acc(b.init, k, tm.get(a) if a in tm else self.alias(e2, a, tm, lists), None)
                    if e2[a].tmpl is None and backs:
                        raise Unsupported('a list the loop does not fill')
            s.ext['sb'] = tuple((oid, simplify(z3.substitute(t, *subst)) if subst else t) for oid, t in s.ext.get('sb', ()))
            for oid, x in arrs.items():
                s.ext['arrs'] = s.ext.get('arrs', ()) + ((oid, k, x),)
            s.ext['rounds'] = (rd,)
            out.append(Outcome('exit', s, target=o.target, prev=o.prev, env=e2))
        return out

    def alias(self, env, name, tm, lists):
        return next((tm[x] for x in lists if env.get(x) is env.get(name) and x in tm), None)

    def fix(self, tm, name, x):
        if name in tm and not z3.eq(tm[name], x):
            raise Unsupported('the text of a child depends on the path')
        tm[name] = x

    def rest(self, st, t, c):
        """t is c followed by something"""
        t = simplify(t)
        if z3.eq(t, c):
            return z3.StringVal('')
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and z3.eq(t.arg(0), c):
            ks = t.children()[1:]
            r = z3.Concat(*ks) if len(ks) > 1 else ks[0]
            if any(z3.eq(x, c) for x in leaves(r)):
                raise Unsupported('a text used twice')
            return simplify(r)
        raise Unsupported('a text that is not extended at its end')

    def after(self, rd, name, v0, tmpl, _):
        if tmpl is None:
            return v0
        if name not in rd['texts']:
            rd['texts'][name] = (Const('parts_of_%s' % (name if isinstance(name, str) else 'sb%s' % name[1]), SS), tmpl, '')
        return z3.Concat(v0, rd['texts'][name][0])


def leaves(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x):
            out.append(x)
        todo.extend(x.children())
    return out


def m_join(ex, fr, ins, args, st):
    a, sep = args
    if isinstance(a, Acc):
        rd = st.ext.get('rounds')
        if a.tmpl is None or not rd or a.init and True:
            if not (a.tmpl is not None and rd):
                raise Unsupported('join of a list under construction')
        key = 'join%d' % len(rd[0]['texts'])
        c = ex.fresh('joined', SS)
        rd[0]['texts'][key] = (c, a.tmpl, sep)
        if a.init:
            # the elements before; without rounds c is empty and the text has one separator less, which means nothing if it is white space
            pre = []
            for x in a.init:
                pre += [ex.term(st, x, ex.p.bystr['string']), sep]
            if pystr(sep if z3.is_expr(sep) else z3.StringVal(sep)) not in ('\n', ' '):
                raise Unsupported('join of a list that begins with other elements')
            return z3.Concat(*([x if z3.is_expr(x) else z3.StringVal(x) for x in pre] + [c]))
        return c
    if isinstance(a, SliceL):
        for oid, k, x in st.ext.get('arrs', ()):
            if oid == a.oid:
                rd = st.ext['rounds'][0]
                c = ex.fresh('joined', SS)
                rd['texts']['join%d' % len(rd['texts'])] = (c, x, sep)
                return c
    n = ex.asint(ex.sl_len(st, a))
    if n is None:
        return MODELS['strings.Join'](ex, fr, ins, args, st)
    et = ex.p.bystr['string']
    out = []
    for i in range(n):
        if i:
            out.append(sep)
        out.append(ex.term(st, ex.sl_get(st, a, IntVal(i), et), et))
    if not out:
        return z3.StringVal('')
    return simplify(z3.Concat(*out)) if len(out) > 1 else out[0]


X['strings.Join'] = m_join
TRUST['strings.Join'] = 'strings.Join concatenates with separators'


@xm('strings.NewReplacer', 'strings.NewReplacer with single characters replaces each occurrence of each')
def m_newreplacer(ex, fr, ins, args, st):
    n = ex.asint(ex.sl_len(st, args[0]))
    et = ex.p.bystr['string']
    vs = [pystr(simplify(ex.term(st, ex.sl_get(st, args[0], IntVal(i), et), et))) for i in range(n or 0)]
    if n is None or n % 2 or any(v is None for v in vs):
        raise Unsupported('a replacer of unknown strings')
    s = ex.p.sort(ex.p.under(ins['sig'])['results'][0])
    c = ex.fresh('replacer', s)
    ex.replacers = getattr(ex, 'replacers', {})
    ex.replacers[str(c)] = list(zip(vs[0::2], vs[1::2]))
    return c


@xm('(*strings.Replacer).Replace', 'strings.NewReplacer with single characters replaces each occurrence of each')
def m_replace1(ex, fr, ins, args, st):
    r = args[0]
    return Function('replacer_apply_' + r.sort().name(), r.sort(), SS, SS)(r, args[1])


@xm('fmt.Sprint', 'fmt.Sprint of one operand is its %v text')
def m_sprint(ex, fr, ins, args, st):
    n = ex.asint(ex.sl_len(st, args[0]))
    if n != 1:
        raise Unsupported('Sprint of several operands')
    any_t = ex.p.bystr.get('interface{}', ex.p.bystr.get('any'))
    return Function('fmt_v', ex.p.Val, SS)(ex.term(st, ex.sl_get(st, args[0], IntVal(0), any_t), any_t))


@xm('strconv.Itoa', 'strconv.Itoa is the decimal text')
def m_itoa(ex, fr, ins, args, st):
    a = args[0] if z3.is_expr(args[0]) else IntVal(args[0])
    return Function('fmt_v', ex.p.Val, SS)(ex.p.ctor_of[ex.p.bystr['int']][0](a))


def sbref(a):
    if not isinstance(a, LocPtr) or a.path:
        raise Unsupported('a strings.Builder that is not local')
    return a.oid


def sbget(st, oid):
    for o, t in st.ext.get('sb', ()):
        if o == oid:
            return t
    return z3.StringVal('')


def sbput(st, oid, t):
    st.ext['sb'] = tuple((o, x) for o, x in st.ext.get('sb', ()) if o != oid) + ((oid, t),)


@xm('(*strings.Builder).WriteString', 'strings.Builder collects what is written')
def m_ws(ex, fr, ins, args, st):
    o = sbref(args[0])
    sbput(st, o, simplify(z3.Concat(sbget(st, o), args[1])))
    return TupleV([z3.Length(args[1]), ex.p.Vnil])


@xm('(*strings.Builder).WriteByte', 'strings.Builder collects what is written')
def m_wb(ex, fr, ins, args, st):
    o = sbref(args[0])
    b = ex.asint(args[1])
    if b is None:
        raise Unsupported('WriteByte of an unknown byte')
    sbput(st, o, simplify(z3.Concat(sbget(st, o), bstr(bytes([b])))))
    return ex.p.Vnil


@xm('(*strings.Builder).WriteRune', 'strings.Builder collects what is written')
def m_wr(ex, fr, ins, args, st):
    o = sbref(args[0])
    b = ex.asint(args[1])
    if b is None:
        raise Unsupported('WriteRune of an unknown character')
    sbput(st, o, simplify(z3.Concat(sbget(st, o), bstr(chr(b).encode()))))
    return TupleV([IntVal(1), ex.p.Vnil])


@xm('(*strings.Builder).String', 'strings.Builder collects what is written')
def m_sbs(ex, fr, ins, args, st):
    return sbget(st, sbref(args[0]))


def ins_callee(ex, ins):
    c = ins.get('static')
    return c if isinstance(c, str) and c in ex.p.funcs else None


def enter(ex, st, a):
    """what the function that recurs is given: the identifiers used so far"""
    if ex.roles.ids is not None:
        q = a[ex.roles.ids]
        if not isinstance(q, LocPtr) or q.path:
            raise Unsupported('the identifiers of the tree')
        st.ext['ids'] = q.oid
        st.ext['ids0'] = ex.idstate(st)
        st.ext['idroot'] = a[ex.roles.id]


def numbered(ex, st, h, t, root):
    """the number n of the identifier root_n"""
    alts = flat(ex, st, t, h)
    r = flat(ex, st, root, h)
    if len(alts) != 1 or len(r) != 1:
        return None
    segs, rs = alts[0][1], r[0][1]
    if len(rs) != 1 or len(segs) != 3 or not isinstance(segs[0], Atom) or not segs[0].same(rs[0]) or segs[1] != '_' or not isinstance(segs[2], Atom):
        return None
    return digits(ex, segs[2].t)


def i_walk(ex, fr, ins, a, st):
    """Walk by its contract: the prefix, then the statements of the subtree with this identifier at its root"""
    ro = ex.roles
    callee = ins_callee(ex, ins)
    if callee is not None and callee != ex.recfn:
        ro = Roles(ex.p, callee, ex.view)
        if ro.ids is not None:
            raise Unsupported('the parameters of %s' % short(callee))
    c, w = ex.view.arg(ex, fr, ins, st, a[ro.node])
    if st.ext.get('top') == 'outside' and z3.eq(simplify(c), simplify(st.ext['root'])) and ro is ex.roles and ex.recfn != ex.walkfn:
        # the exported function hands its tree on: one step is executed
        st.ext['top'] = 'inside'
        enter(ex, st, a)
        return ex.inline(fr, ins, ex.recfn, a, st)
    ex.view.descend(ex, st, c, w)
    i, nid = a[ro.pre] if ro.pre is not None else z3.StringVal(''), a[ro.id]
    ex.oblige(st, Not(nid == z3.StringVal('')), 'a child has an identifier', w)
    t = ex.fresh('statements', SS)
    sub = dict(atom=t, child=c, id=nid)
    if ro.ids is not None:
        if not isinstance(a[ro.ids], LocPtr) or a[ro.ids].oid != st.ext.get('ids') or a[ro.ids].path:
            raise Unsupported('the identifiers of another tree')
        r0, u0 = ex.idstate(st)
        u1 = ex.fresh('used', IntSort())
        st.fact(u1 >= u0)
        ex.setused(st, st.ext['ids'], u1)
        sub.update({'from': u0, 'to': u1})
    elif st.ext.get('ids') is not None:
        raise Unsupported('a subtree that names its vertices on its own')
    st.ext['subs'] = st.ext.get('subs', ()) + (sub,)
    st.fact(t != z3.StringVal(''))
    out = If(i == z3.StringVal(''), t, z3.Concat(i, z3.StringVal('\n'), t))
    return TupleV([simplify(out), ex.p.Vnil])


def m_randstr(ex, fr, ins, args, st):
    r = ex.fresh('rand_id', SS)
    st.fact(r != z3.StringVal(''))
    return r


# ------------------------------------------------------------ postcondition
def isrand(t):
    return z3.is_const(t) and str(t).startswith('rand_id')


def post(ex, cx, st, res):
    """cx: dict(id=term or None, prefix=term or None)"""
    v = ex.view
    goals = []
    err = ex.term(st, res[1], ex.p.funcs[ex.walkfn]['results'][1])
    goals.append((err == ex.p.Vnil, 'there is no error'))
    rd = (st.ext.get('rounds') or (None,))[0]
    subs = st.ext.get('subs', ())
    out = ex.term(st, res[0], ex.p.funcs[ex.walkfn]['results'][0])
    nid = cx['id']

    def fail(h, nm, why):
        ex.notes = getattr(ex, 'notes', []) + [why]
        goals.append((Not(And(list(h))) if h else BoolVal(False), nm))

    for h, segs in flat(ex, st, out):
        def cond(g, nm):
            goals.append((Implies(And(list(h)), g) if h else g, nm))
        P = 'the prefix appears once, at the start'
        if cx['prefix'] is not None:
            if not segs or not isinstance(segs[0], Atom) or not z3.eq(segs[0].t, cx['prefix']) or segs[0].maps:
                fail(h, P, 'no prefix')
                continue
            segs = segs[1:]
            if not segs or not isinstance(segs[0], str) or segs[0][0] not in ' \t\r\n;':
                fail(h, P, 'the prefix is not separated')
                continue
            if any(isinstance(x, Atom) and any(z3.eq(y, cx['prefix']) for y in leaves(x.t)) for x in segs):
                fail(h, P, 'the prefix again')
                continue
            cond(BoolVal(True), P)
        idatoms = [nid] if nid is not None else []
        if st.ext.get('ids') is not None and cx.get('top') is None:
            idatoms.append(st.ext['ids0'][0])
        if nid is None:
            r = [x.t for x in segs if isinstance(x, Atom) and isrand(x.t)]
            if r:
                idatoms = [r[0]]
        root = idatoms[0] if idatoms else None
        parts = {}
        if rd is not None:
            for c, tm, sep in rd['texts'].values():
                parts[str(c)] = (c, tm, sep)

        def isid(t):
            return any(z3.eq(t, x) for x in idatoms) or isrand(t) or digits(ex, t) is not None

        def part(t):
            return parts.get(str(t)) if z3.is_const(t) else None

        def ids_of(t):
            q = part(t)
            if q is None:
                return None
            sep = pystr(simplify(q[2])) if z3.is_expr(q[2]) else q[2]
            if rd['sub'] is None or not z3.eq(simplify(q[1]), simplify(rd['sub']['id'])) or sep is None or not re.fullmatch(r'[\s,;]*[,;\s][\s,;]*', sep):
                return None
            return q

        def stm(t):
            if any(z3.eq(t, x['atom']) for x in subs):
                return True
            q = part(t)
            return q is not None and ids_of(t) is None

        def edges_of(t):
            """whether the parts of the children begin and end with a separator"""
            q = part(t)
            alts = flat(ex, st, q[1], h) if q is not None else []
            if len(alts) != 1:
                return False, False
            g = alts[0][1]
            return isinstance(g[0], str) and g[0][0] in ' \t\r\n;', isinstance(g[-1], str) and g[-1][-1] in ' \t\r\n;' and q[2] == ''

        try:
            ss = Dot(segs, isid, stm, lambda t: ids_of(t) is not None, edges_of).statements()
        except Bad as e:
            for x in segs:
                if isinstance(x, Atom) and not (isid(x.t) or stm(x.t) or part(x.t) is not None or x.t.decl().name() in ('fmt_v', 'fmt_s', 'fmt_g', 'fmt_d', 'fmt_t', 'n_str')):
                    raise Unsupported('a text of another form: %s' % x.t.decl().name())
            fail(h, 'the text is a list of DOT statements', str(e))
            continue
        cond(BoolVal(True), 'the text is a list of DOT statements')
        vs = [s for s in ss if s[0] == 'vertex']
        es = [s for s in ss if s[0] == 'edge']
        used = [s[1] for s in ss if s[0] == 'sub']
        V = 'one vertex statement for the node'
        if root is None or len(vs) != 1 or len(vs[0][1]) != 1 or not Atom(root).same(vs[0][1][0]):
            fail(h, V, 'vertices: %s' % vs)
            continue
        cond(BoolVal(True), V)
        label(ex, cx, st, h, vs[0][2], cond, fail)
        # children
        C = 'the statements of every child, once'
        E = 'one edge statement, from the node to its children from left to right'
        kids = v.kids(ex, st)
        n = v.size(ex, st)
        if n is not None and not z3.is_int_value(simplify(n)):
            if rd is None or rd['sub'] is None:
                cond(n == 0, C)
                if es and es[0][2]:
                    fail(h, E, 'edges')
                continue
            cond(rd['k'] == n, 'the loop covers every child')
            ok = False
            for q in used:
                pt = part(q)
                if pt is None:
                    continue
                ok = elements(ex, st, pt, rd)
            if len(used) != 1 or not ok:
                fail(h, C, 'children: %s' % used)
            else:
                cond(BoolVal(True), C)
            el = es[0][2] if len(es) == 1 else None
            if el is None or not Atom(root).same(es[0][1][0]) or len(es[0][1]) != 1 or len(el) != 1 or not isinstance(el[0], Atom) or ids_of(el[0].t) is None:
                fail(h, E, 'edges: %s' % es)
            else:
                cond(BoolVal(True), E)
            suffixes(ex, st, h, root, [(rd['sub']['id'], rd['k'])], cond, fail)
            continue
        # children known by name
        order = []
        good = len(used) == len(kids) == len(subs) and len(set(str(u) for u in used)) == len(used)
        if not good:
            fail(h, C, 'children: %s of %s' % (used, kids))
            continue
        for x in kids:
            m = [s for s in subs if ex.valid(st.formulas() + list(h), s['child'] == x)]
            if len(m) < 1:
                good = False
            else:
                m = [s for s in m if s not in order] or m
                order.append(m[0])
        if not good or len(set(str(s['atom']) for s in order)) != len(order):
            fail(h, C, 'children')
            continue
        cond(BoolVal(True), C)
        if not kids:
            if es and (len(es) > 1 or es[0][2] or v.leaf):
                fail(h, 'no edge from a leaf', 'edges')
            continue
        if len(es) != 1 or len(es[0][1]) != 1 or not Atom(root).same(es[0][1][0]) or len(es[0][2]) != len(order):
            fail(h, E, 'edges: %s' % es)
            continue
        ok = True
        for s, got in zip(order, es[0][2]):
            want = flat(ex, st, s['id'], h)
            if len(want) != 1 or isinstance(got, Atom) or not samesegs(want[0][1], got):
                ok = False
        if not ok:
            fail(h, E, 'edges: %s' % es)
        else:
            cond(BoolVal(True), E)
        suffixes(ex, st, h, root, [(s['id'], None) for s in order], cond, fail)
    return goals


def samesegs(a, b):
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else x.same(y) for x, y in zip(a, b))


def digits(ex, t):
    """the number whose decimal text t is"""
    if z3.is_app(t) and t.decl().name() in ('fmt_v', 'fmt_d') and t.num_args() == 1:
        c = ex.p.ctor_of[ex.p.bystr['int']]
        a = simplify(t.arg(0))
        if is_true(simplify(c[1](a))):
            return simplify(c[2][0](a))
    return None


def suffixes(ex, st, h, root, ids, cond, fail):
    if st.ext.get('ids') is not None:
        r0, u0 = st.ext['ids0']
        r1, u1 = ex.idstate(st)
        cond(And(r1 == r0, u1 >= u0), 'an identifier given out is not given out again')
        if st.ext.get('rounds') and st.ext['rounds'][0]['sub'] is not None:
            return                      # decided round by round
        xs = []
        for x in st.ext['subs']:
            d = numbered(ex, st, h, x['id'], r0)
            if d is None:
                raise Unsupported('an identifier of another form')
            xs.append((d, x['from'], x['to']))
        for i, (d, a, b) in enumerate(xs):
            cond(And(d > u0, d <= u1, a >= u0, b <= u1), DISTINCT)
            for j, (d2, a2, b2) in enumerate(xs):
                cond(Or(d <= a2, d > b2), DISTINCT)
                if j < i:
                    cond(And(d != d2, Or(b <= a2, b2 <= a)), DISTINCT)
        return
    seen = []
    for t, k in ids:
        alts = flat(ex, st, t, h)
        if len(alts) != 1:
            raise Unsupported('an identifier that depends on the path')
        segs = alts[0][1]
        if any(isinstance(x, Atom) and isrand(x.t) and not z3.eq(x.t, root) for x in segs):
            fail(h, DISTINCT, 'a random identifier')
            return
        if not segs or not isinstance(segs[0], Atom) or not Atom(root).same(segs[0]):
            raise Unsupported('an identifier of another form')
        rest = segs[1:]
        if not rest or not isinstance(rest[0], str) or rest[0][0] != '_':
            raise Unsupported('an identifier of another form')
        lit = rest[0][1:]
        if k is None:
            if len(rest) == 2 and not lit and isinstance(rest[1], Atom) and digits(ex, rest[1].t) is not None:
                d = ex.asint(digits(ex, rest[1].t))
                if d is None:
                    raise Unsupported('an identifier of another form')
                lit, rest = str(d), rest[:1]
            if len(rest) != 1 or not lit.isdigit():
                raise Unsupported('an identifier of another form')
            if int(lit) in seen:
                fail(h, DISTINCT, 'identifiers twice')
                return
            seen.append(int(lit))
        else:
            if lit or len(rest) != 2 or not isinstance(rest[1], Atom):
                if len(rest) == 1 and lit.isdigit():
                    fail(h, DISTINCT, 'one identifier for all children')
                    return
                raise Unsupported('an identifier of another form')
            d = digits(ex, rest[1].t)
            if d is None:
                raise Unsupported('an identifier of another form')
            off = simplify(d - k)
            if not z3.is_int_value(off):
                fail(h, DISTINCT, 'identifiers do not count the children')
                return
    cond(BoolVal(True), DISTINCT)


def elements(ex, st, pt, rd):
    """the parts of the children are statement lists, one per child, separated"""
    c, tm, sep = pt
    alts = flat(ex, st, tm)
    if len(alts) != 1:
        raise Unsupported('the text of a child depends on the path')
    segs = alts[0][1]
    atoms = [x for x in segs if isinstance(x, Atom)]
    s = pystr(simplify(sep)) if z3.is_expr(sep) else sep
    if len(atoms) != 1 or not z3.eq(atoms[0].t, rd['sub']['atom']) or s is None:
        return False
    lits = ''.join(x for x in segs if isinstance(x, str)) + s
    return lits != '' and re.fullmatch(r'[\s;]+', lits) is not None


def label(ex, cx, st, h, attrs, cond, fail):
    L, N = 'the vertex shows kind and value or operator of the node', 'characters of a value are shown as they are'
    if 'label' not in attrs:
        fail(h, L, 'no label')
        return
    shape = ''.join(str(x) for x in attrs.get('shape', []))
    record = shape in ('record', 'Mrecord')
    t = unlabel(attrs['label'], record)
    if t is None:
        fail(h, N, 'a dangling backslash')
        return
    text = ''.join(x if isinstance(x, str) else '\n' if isinstance(x, tuple) else '\0' for x in t)
    name, value = ex.view.shown(ex, cx, st, h)
    words = [w for w in re.split(r"[^A-Za-z0-9_$.]+", text.replace('\0', ' ')) if w]
    if name is not None and name not in words:
        fail(h, L, 'the label is %r, not %s' % (text, name))
        return
    atoms = [x for x in t if isinstance(x, Atom)]
    if value is None:
        if atoms:
            fail(h, L, 'label %s' % t)
        else:
            cond(BoolVal(True), L)
        return
    kind, ts = value
    if kind == 'word':
        if atoms:
            if len(atoms) == 1 and any(z3.eq(simplify(atoms[0].t), simplify(x)) for x in ts[1]):
                cond(BoolVal(True), L)
                return
            fail(h, L, 'label %s' % t)
            return
        for wd, g in ts[0]:
            if wd in words:
                cond(g, L)
                return
        fail(h, L, 'label %s' % t)
        return
    # the value must come after the kind and be the only part that is not constant
    if len(atoms) != 1:
        fail(h, L, 'label %s' % t)
        return
    a = atoms[0]
    if not any(z3.eq(simplify(a.t), simplify(x)) for x in ts):
        f = a.t.decl().name()
        if not (f.startswith('fmt_') or z3.is_const(a.t) or f.startswith('n_')):
            raise Unsupported('the text of a value: ' + f)
        fail(h, L, 'label %s' % a)
        return
    if name is not None and text.index(name) > text.index('\0'):
        fail(h, L, 'label %s' % t)
        return
    cond(BoolVal(True), L)
    if kind == 'text':
        bad = escaped(a.maps, record)
        if bad:
            fail(h, N, 'characters %r' % bad)
            return
    elif a.maps and any(len(apply_maps(c, a.maps)) != 1 or apply_maps(c, a.maps) != c for c in '0123456789+-.eINanf: TZUC'):
        fail(h, N, 'the text of a number is changed')
        return
    cond(BoolVal(True), N)


class GvUnit(PyUnit):
    Ex = GvExec

    def __init__(self, context, name, fn, view, setup, inner=False):
        super().__init__(context, name, fn, setup, post)
        self.view, self.inner = view, inner

    def axioms(self, ex):
        return super().axioms(ex) if isinstance(self.view, View6) else []

    def run(self, tier):
        p, cs, dropped = self.ctx.program()
        self.extra = dict(X)
        W = self.view.pkg + '.Walk'
        rec = [f for f in p.funcs if f.startswith(self.view.pkg + '.') and f in p.sccs() and '$' not in f]
        ok = []
        for f in rec:
            try:
                Roles(p, f, self.view)
                ok.append(f)
            except Unsupported:
                pass
        if len(ok) > 1 and W in ok:
            ok = [W]
        none = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=[], assumed=[], inlined=[], funcs=[])
        if len(ok) != 1:
            none['unsupported'] = 'the function that recurs is not known'
            return none
        if self.inner:
            if ok[0] == W:
                return none                 # Walk recurs itself: its own units cover it
            self.fn = ok[0]
        for f in (W, ok[0]):
            self.extra[f] = i_walk
            TRUST[f] = 'contract of %s (verified on its body)' % short(f)
        self.extra[self.view.pkg + '.randStr'] = m_randstr
        TRUST[self.view.pkg + '.randStr'] = 'randStr yields letters'
        GvExec.walkfn = W
        GvExec.recfn = ok[0]
        GvExec.roles = Roles(p, ok[0], self.view)
        GvExec.view = self.view
        return super().run(tier)


# ------------------------------------------------------------ v6
KIND6 = {0: 'NUMBER', 1: 'STRING', 2: 'IDENTIFIER', 5: 'DATE', 6: 'TIMESTAMP', 7: 'ARRAY', 8: 'BOOLEAN', 9: 'NULL'}
OPS6 = {288: 'EQ', 289: 'NE', 290: 'LT', 291: 'LE', 292: 'GT', 293: 'GE', 294: 'REQ', 295: 'RNE', 260: 'AND', 261: 'OR', 266: 'NOT', 258: 'LIKE', 259: 'ILIKE', 263: 'IN', 262: 'BETWEEN', 264: 'IS',
        278: 'ADD', 279: 'SUB', 280: 'MUL', 281: 'DIV', 282: 'MOD', 296: 'NEG', 269: 'LEN', 270: 'ANY', 271: 'ALL', 272: 'SUM'}
BIN6 = [288, 289, 290, 291, 292, 293, 294, 295, 260, 261, 258, 259, 263, 262, 264, 278, 279, 280, 281, 282]
UN6 = [266, 296, 269, 270, 271, 272]


class View6:
    pkg = T6[:-len('tsl')] + 'walkers/graphviz'

    def __init__(self, kind, op=None):
        self.kind, self.op = kind, op
        self.leaf = kind not in (3, 4, 7)

    def isnode(self, p, t):
        u = p.under(t)
        return u['kind'] == 'pointer' and p.t(u['elem'])['str'].endswith('tsl.TSLNode')

    def root(self, ex):
        return Const('n', tree(ex).C)

    def arg(self, ex, fr, ins, st, a):
        t = tree(ex)
        n = ex.term(st, a, t.nt)
        w = ex.where(fr, ins)
        ex.oblige(st, And(Not(t.P.recognizer(0)(n)), t.cn(n) != t.null), 'no panic: a child is there', w)
        return t.cn(n), w

    def descend(self, ex, st, c, w):
        t = tree(ex)
        rk = lambda x: Function('rank_' + t.P.name(), t.P, IntSort())(t.mk(x))
        ex.oblige(st, rk(c) < rk(st.ext['root']), 'termination: the recursion goes to a smaller tree', w)

    def kids(self, ex, st):
        t, c = tree(ex), self.root(ex)
        return {3: [t.left(c), t.right(c)], 4: [t.child(c)]}.get(self.kind, [])

    def size(self, ex, st):
        t, c = tree(ex), self.root(ex)
        return ex.p.slen(t.elems(c)) if self.kind == 7 else None

    def child(self, ex, k):
        t, c = tree(ex), self.root(ex)
        return t.cn(ex.p.sat(t.elems(c), k, ex.p.under(t.slt)['elem']))

    def child_facts(self, ex, st, k):
        t, c = tree(ex), self.root(ex)
        el = self.child(ex, k)
        st.fact(Implies(And(k >= 0, k < ex.p.slen(t.elems(c))), el != t.null))

    def shown(self, ex, cx, st, h):
        t, c, p = tree(ex), self.root(ex), ex.p
        V = lambda tn, x: p.ctor_of[p.bystr[tn]][0](x)
        fv = lambda x: Function('fmt_v', p.Val, SS)(x)
        if self.kind in (3, 4):
            return OPS6[self.op], None
        nm = KIND6[self.kind]
        if self.kind == 0:
            return nm, ('num', [fv(V('float64', t.num(c))), Function('fmt_g', p.Val, SS)(V('float64', t.num(c)))])
        if self.kind in (1, 2):
            return nm, ('text', [t.str(c)])
        if self.kind in (5, 6):
            ok, tv = tparse(ex, z3.StringVal('2006-01-02T15:04:05Z07:00'), t.str(c))
            d = decide(ex, st, h, ok)
            if d is None:
                raise Unsupported('the text of a date')
            return nm, (('num', [fv(V('time.Time', tv))]) if d else ('text', [t.str(c)]))
        if self.kind == 8:
            return nm, ('word', ([('true', t.bool(c)), ('false', Not(t.bool(c)))], [fv(V('bool', t.bool(c))), Function('fmt_t', p.Val, SS)(V('bool', t.bool(c)))]))
        return nm, None


def inner6(view):
    def setup(ex, st):
        args, cx = setup6(view, True, False)(ex, st)
        ro = ex.roles
        st.ext['top'] = 'inside'
        out = [None] * ro.n
        out[ro.node], out[ro.id] = args[1], args[2]
        if ro.pre is not None:
            out[ro.pre] = z3.StringVal('')
        if ro.ids is not None:
            R, U = Const('root_id', SS), Int('used_before')
            st.fact(And(R != z3.StringVal(''), U >= 0))
            f = [None, None]
            f[ro.r], f[ro.u] = R, U
            out[ro.ids] = ex.alloc(st, ro.tid, StructV(ro.tid, f))
        enter(ex, st, out)
        return out, cx
    return setup


def setup6(view, named, prefixed):
    def setup(ex, st):
        t = tree(ex)
        c = view.root(ex)
        st.fact(And(c != t.null, t.kind(c) == view.kind))
        if view.op is not None:
            st.fact(t.op(c) == view.op)
        for a in tree_rank_axioms(ex):
            st.fact(a)
        st.ext.update(root=c, subs=(), top='outside')
        i, d = Const('prefix', SS), Const('id', SS)
        if prefixed:
            st.fact(i != z3.StringVal(''))
        if named:
            st.fact(d != z3.StringVal(''))
        return [i if prefixed else z3.StringVal(''), t.mk(c), d if named else z3.StringVal('')], dict(id=d if named else None, prefix=i if prefixed else None)
    return setup


def units6(context):
    us = []
    W = View6.pkg + '.Walk'
    for k, nm in ((0, 'number'), (1, 'string'), (2, 'identifier'), (5, 'date'), (6, 'timestamp'), (8, 'boolean'), (9, 'null'), (7, 'array')):
        for named, pre in ((True, False), (False, True), (True, True)):
            v = View6(k)
            if not pre:
                us.append(GvUnit(context, 'a step of the recursion[%s]' % nm, W, v, inner6(v), True))
            us.append(GvUnit(context, 'Walk[%s%s%s]' % (nm, '' if named else ', no id', ', prefix' if pre else ''), W, v, setup6(v, named, pre)))
    for k, ops in ((3, BIN6), (4, UN6)):
        for j, o in enumerate(ops):
            v = View6(k, o)
            us.append(GvUnit(context, 'a step of the recursion[%s]' % OPS6[o], W, v, inner6(v), True))
            for named, pre in ((True, False),) if j else ((True, False), (False, True), (True, True)):
                us.append(GvUnit(context, 'Walk[%s%s%s]' % (OPS6[o], '' if named else ', no id', ', prefix' if pre else ''), W, v, setup6(v, named, pre)))
    return us
