"""The automaton of the parser (vc/lr.py) against the productions of spec/v6/gram/tsl.gram: an inductive invariant of its
configurations, checked state by state (validation of LR(1) automata after Jourdan, Pottier, Leroy, ESOP 2012)."""
import time, traceback, os
import z3
from cexec import CExec, State, Unsup, Ptr, Hnd, NULL, Fork, Dead, under, Z
import cspec, gram, lr, gotree, cexec
from cexec import STRING, IDENT, DATE, RFC, ARRAY, NULLT, fsize, felem, fkind

END = '$end'


class Productions:
    """the productions the automaton reduces by, read off its paths, with the nonterminals named as the specification names them"""

    def __init__(self, a, g):
        self.a, self.g = a, g
        self.unsup = None
        self.rules = {}               # rule number -> (lhs number, rhs symbols)
        for s in a.states:
            for t, x in a.act[s].items():
                if x[0] != 'reduce':
                    continue
                r = x[1]
                for p in self.paths(s, a.len[r]):
                    q = (a.lhs[r], p)
                    if self.rules.setdefault(r, q) != q:
                        raise Unsup('rule %d reduces different right-hand sides' % r)
        self.match()

    def paths(self, s, n):
        """the symbols on the stack that end in state s, n of them"""
        if n == 0:
            return {()}
        x = self.a.sym.get(s)
        if x is None:
            raise Unsup('state %d pops more than the stack holds' % s)
        out = set()
        for p in self.a.preds[s]:
            for y in self.paths(p, n - 1):
                out.add(y + (x,))
        return out

    def match(self):
        """names the nonterminals of the automaton after those of the specification (colour refinement)"""
        g = self.g
        A = [(('N', l), r) for l, r in self.rules.values()]
        B = [(('S', l), tuple(('S', x) if x in g.nonterms else x for x in r)) for l, r, _ in g.rules]

        ca, cb = {n: 0 for n, _ in A}, {n: 0 for n, _ in B}
        for _ in range(len(g.nonterms) + 1):
            def sig(rules, col):
                return {n: (tuple(sorted(tuple('#%d' % col[x] if x in col else str(x) for x in r) for l, r in rules if l == n))) for n in col}
            sa, sb = sig(A, ca), sig(B, cb)
            num = {s: i for i, s in enumerate(sorted(set(sa.values()) | set(sb.values())))}
            ca, cb = {n: num[s] for n, s in sa.items()}, {n: num[s] for n, s in sb.items()}
        inv = {}
        for n, c in cb.items():
            if c in inv:
                raise Unsup('two nonterminals of the specification have the same productions')
            inv[c] = n[1]
        if sorted(ca.values()) != sorted(cb.values()):
            raise Unsup('the productions of the parser are not those of the specification')
        self.name = {n[1]: inv[c] for n, c in ca.items()}
        spec = {(l, r): k for k, (l, r, _) in enumerate(g.rules)}
        self.of = {}                  # rule number -> index into g.rules
        for r, (l, rhs) in self.rules.items():
            k = (self.name[l], tuple(self.name[x[1]] if isinstance(x, tuple) else x for x in rhs))
            if k not in spec:
                raise Unsup('the parser has a production the specification does not have: %s : %s' % (k[0], ' '.join(k[1])))
            if spec[k] in self.of.values():
                raise Unsup('the parser has a production twice')
            self.of[r] = spec[k]
        if len(self.of) != len(g.rules):
            raise Unsup('the parser lacks a production of the specification')


class Validator:
    def __init__(self, a, g, prods):
        self.a, self.g, self.p = a, g, prods
        self.obls = {}                # (where, name) -> [ok, failed text]

    def need(self, cond, where, name, what=''):
        o = self.obls.setdefault((where, name), [0, None])
        if cond:
            o[0] += 1
        elif o[1] is None:
            o[1] = what or 'fails'
        return cond

    def sym(self, x):
        return self.p.name[x[1]] if isinstance(x, tuple) else x

    def run(self):
        a, g, p = self.a, self.g, self.p
        rules = {k: (l, r) for k, (l, r, _) in enumerate(g.rules)}
        rules['$'] = ('$accept', (g.start,))
        by = {}
        for k, (l, r) in rules.items():
            by.setdefault(l, []).append(k)
        num = {k: r for r, k in p.of.items()}
        nt = set(g.nonterms)
        # first sets
        first, null = {n: set() for n in nt}, set()
        ch = True
        while ch:
            ch = False
            for l, r, _ in g.rules:
                acc, eps = set(), True
                for x in r:
                    acc |= first[x] if x in nt else {x}
                    if x not in null:
                        eps = False
                        break
                if not acc <= first[l] or eps and l not in null:
                    first[l] |= acc
                    if eps:
                        null.add(l)
                    ch = True

        def first_of(seq, la):
            out = set()
            for x in seq:
                out |= first[x] if x in nt else {x}
                if x not in null:
                    return out
            return out | la
        self.cyclefree(rules, nt, null)
        goto = {}
        for (q, l), s in a.goto.items():
            goto[(q, p.name[l])] = s
        # the least item sets closed under the moves of the automaton
        items = {s: {} for s in a.states}
        work = []

        def add(s, it, la):
            cur = items[s].setdefault(it, set())
            n = la - cur
            if n:
                cur |= n
                work.append((s, it))
        add(0, ('$', 0), {END})
        while work:
            s, (k, d) = work.pop()
            la = set(items[s][(k, d)])
            l, r = rules[k]
            if d == len(r):
                continue
            x = r[d]
            if x in nt:
                for k2 in by[x]:
                    add(s, (k2, 0), first_of(r[d + 1:], la))
                t = goto.get((s, x))
            else:
                act = self.action(s, x)
                t = act[1] if act and act[0] == 'shift' else None
            if t is not None and t in items:
                add(t, (k, d + 1), la)
        self.items = items
        final = None
        for s in sorted(items):
            w = 'state %d' % s
            for (k, d), la in sorted(items[s].items(), key=repr):
                l, r = rules[k]
                txt = '%s: %s . %s' % (l, ' '.join(r[:d]), ' '.join(r[d:]))
                if d < len(r):
                    x = r[d]
                    if x in nt:
                        t = goto.get((s, x))
                        self.need(t in items, w, 'a next state for every left-hand side expected [%s]' % txt)
                    else:
                        act = self.action(s, x)
                        self.need(act is not None and act[0] == 'shift', w, 'every token expected is shifted [%s]' % txt, 'on %s the parser does %s' % (x, act))
                elif k == '$':
                    act = self.action(s, END)
                    ok = act is not None and (act == ('accept',) or act[0] == 'shift' and a.act[act[1]] == {'*': ('accept',)})
                    self.need(ok, w, 'the end of the text is accepted after a whole expression', 'on the end of the text the parser does %s' % (act,))
                    if act and act[0] == 'shift':
                        final = act[1]
                else:
                    for t in sorted(la):
                        act = self.action(s, t)
                        self.need(act == ('reduce', num[k]), w, 'a whole right-hand side is reduced on every token that can follow [%s]' % txt, 'on %s the parser does %s' % (t, act))
        # soundness: what is reduced lies on the stack, and accepting needs a whole expression
        for s in sorted(items):
            w = 'state %d' % s
            for t, act in sorted(a.act[s].items()):
                if act[0] == 'reduce':
                    l, r = rules[p.of[act[1]]]
                    self.need({tuple(self.sym(x) for x in q) for q in p.paths(s, len(r))} == {r}, w, 'the right-hand side reduced lies on the stack', 'on %s' % t)
                    for q in a.below(s, len(r)):
                        self.need(goto.get((q, l)) in items, w, 'there is a next state after the reduction', 'on %s' % t)
                elif act[0] == 'shift':
                    self.need(a.sym.get(act[1]) == t, w, 'the state after a shift stands for the token', 'on %s' % t)
                elif act[0] == 'accept':
                    self.need(self.whole(s), w, 'nothing but a whole expression and the end of the text is accepted', 'on %s' % t)
        # termination without input: a chain of reductions pops more than it pushes or climbs an acyclic grammar (cyclefree)
        return self

    def whole(self, s):
        """every stack that ends in s is the start symbol and the end, nothing else"""
        a = self.a
        ps = {tuple(self.sym(x) for x in q) for q in self.p.paths(s, 2)}
        return ps == {(self.g.start, END)} and a.below(s, 2) == {0} and not a.preds[0]

    def cyclefree(self, rules, nt, null):
        """no nonterminal derives itself alone: a text has finitely many trees, the parser builds one node at a time"""
        up = {n: set() for n in nt}
        for k, (l, r) in rules.items():
            if k == '$':
                continue
            for i, x in enumerate(r):
                if x in nt and all(y in null for y in r[:i] + r[i + 1:]):
                    up[l].add(x)
        ch = True
        while ch:
            ch = False
            for n in nt:
                new = set().union(*[up[m] for m in up[n]]) if up[n] else set()
                if not new <= up[n]:
                    up[n] |= new
                    ch = True
        for n in sorted(nt):
            self.need(n not in up[n], 'grammar', 'no nonterminal derives itself (parsing ends)', n)

    def action(self, s, t):
        x = self.a.act[s]
        return x.get('*', x.get(t))


# ------------------------------------------------------------ one automaton per process
_cache = {}


def tokens(g):
    codes = gotree.native_codes(g.terms + ['YYUNDEF'])
    return {0: END, **{c: n for c, n in zip(codes, g.terms + ['$undefined'])}}


def automaton():
    if 'a' not in _cache:
        try:
            g = gram.Gram()
            codes = tokens(g)
            a = lr.Automaton(cspec.module('tsl_parser.tab.c'), codes)
            a.explore()
            if len(codes) != len(g.terms) + 2:
                raise Unsup('two tokens have one code')
            _cache['a'] = (g, a, None)
        except Unsup as e:
            _cache['a'] = (None, None, str(e))
    return _cache['a']


def productions():
    if 'p' not in _cache:
        g, a, err = automaton()
        p = None
        if not err:
            try:
                p = Productions(a, g)
            except Unsup as e:
                err = str(e)
        _cache['p'] = (g, a, p, err)
    return _cache['p']


def klass(g, x):
    """what the value of a symbol is: a tree, a text, or nothing"""
    x = x if isinstance(x, str) else x
    return 'text' if x in g.values else 'tree' if x in g.nonterms and x != g.start else None


class Load:
    def load(self):
        cspec.module('tsl_parser.tab.c')
        cspec.module('tsl_ast.c')
        productions()


def base():
    return dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=['clang 18 (mem2reg, instsimplify) as the meaning of the C source'], assumed=[], inlined=[], funcs=[])


class LRUnit:
    name = 'yyparse'

    def __init__(self):
        self.ctx = Load()

    def run(self, tier):
        r = base()
        t0 = time.time()
        g, a, p, err = productions()
        if err:
            r['unsupported'] = err
            return r
        try:
            if not hasattr(a, 'maxdepth'):
                a.grow()
        except Unsup as e:
            r['unsupported'] = str(e)
            return r
        v = Validator(a, g, p).run()
        bad = {}
        for w, what in a.bad:
            bad.setdefault((w, what), 1)
        for (w, n), (ok, why) in sorted(v.obls.items()):
            r['obls'].append(dict(name='yyparse: ' + n, where=w, status='proved' if why is None else 'refuted', backend='evaluation of the tables', time=0, model=why or ''))
        for (w, what) in sorted(bad):
            r['obls'].append(dict(name='yyparse: ' + what, where=w, status='refuted', backend='execution of the driver', time=0, model=''))
        for (w, what), n in sorted(a.oks.items()):
            if (w, what) not in bad:
                r['obls'].append(dict(name='yyparse: ' + what, where='%s (%d executions)' % (w, n), status='proved', backend='execution of the driver', time=0, model=''))
        r['funcs'] = ['yyparse']
        r['paths'] = a.d.steps
        n = sum(len(x) for x in v.items.values())
        r['vacuity'] = '%d states, %d items, %d rules, stacks of %s' % (len(a.states), n, len(p.of), a.sizes)
        r['assumed'] = ['malloc succeeds', 'the parser refuses texts that need more than %d stack entries' % a.maxdepth]
        ok = len(a.states) > 50 and n > 300
        r['obls'].append(dict(name='canary: the automaton is not vacuous', where='yyparse', status='proved' if ok else 'refuted', backend='evaluation of the tables', time=round(time.time() - t0, 2), model='' if ok else r['vacuity']))
        return r


# ------------------------------------------------------------ the actions
class ActionUnit:
    """the action of one production, against the tree the specification gives it"""

    def __init__(self, k, rule):
        self.k = k
        self.rule = rule
        self.name = 'action %s: %s' % (rule[0], ' '.join(rule[1]) or '(empty)')
        self.ctx = Load()

    def spec(self, ex, st, t, vals):
        """the tree of a production as a cspec specification"""
        if isinstance(t, str):
            kind, v = vals[int(t[1:]) - 1]
            return ('same', v.term)
        f, args = t[0], t[1:]
        code = self.codes
        if f in ('bin', 'un'):
            if args[0] not in code:
                raise Unsup('no code for the operator ' + args[0])
            return (f, Z(code[args[0]])) + tuple(self.spec(ex, st, x, vals) for x in args[1:])
        if f == 'null':
            return ('null',)
        if f == 'bool':
            return ('bool', Z(int(args[0])))
        if f == 'arr':
            subs = [self.spec(ex, st, x, vals) for x in args]
            return ('arr', Z(len(subs)), [(Z(i), Z(i + 1), lambda j, s=s: s) for i, s in enumerate(subs)])
        if f == 'snoc':
            l = vals[int(args[0][1:]) - 1][1].term
            e = self.spec(ex, st, args[1], vals)
            n = fsize(l)
            return ('arr', n + 1, [(Z(0), n, lambda j: ('same', felem(l, j))), (n, n + 1, lambda j: e)])
        kind, (arr, ln) = vals[int(args[0][1:]) - 1]
        if f == 'num':
            return ('num', cspec.number_spec(arr, ln))
        return ('str', {'str': STRING, 'ident': IDENT, 'date': DATE, 'rfc3339': RFC}[f], arr, ln)

    def run(self, tier):
        r = base()
        g, a, p, err = productions()
        if err:
            r['unsupported'] = err
            return r
        no = [x for x, k in p.of.items() if k == self.k][0]
        d = a.d
        m = cspec.module('tsl_parser.tab.c')
        names = g.terms + ['UMINUS']
        self.codes = dict(zip(names, gotree.native_codes(names)))
        mods = [m, cspec.module('tsl_ast.c')]
        use = {n: (lambda ex, st, x, n=n: cspec.CONTRACTS[n].apply(ex, st, x)) for n in cspec.USED_AS_CONTRACT}
        ex = CExec(mods, use)
        ex.deadline = time.time() + (100 if tier == 'quick' else 300)
        try:
            st = State()
            rhs = self.rule[1]
            n = len(rhs)
            vs = ex.alloc(st, 'the stack of values', None, 'borrow')
            yv = ex.alloc(st, 'yyval', 8, 'frame')
            vals = []
            for j, x in enumerate(rhs):
                if x in g.values:
                    arr, ln = z3.Const('text%d' % (j + 1), cspec.A_), z3.Const('textlen%d' % (j + 1), cspec.I_)
                    st.pc.append(ln >= 0)
                    h = ex.new_text(st, arr, ln, 'heap')
                    vals.append(('text', (arr, ln)))
                elif x in g.nonterms:
                    t = z3.Const('arg%d' % (j + 1), cspec.T)
                    st.pc += ex.wf(t) + [t != NULLT]
                    if x in g.arrays:
                        st.pc.append(fkind(t) == ARRAY)
                    h = ex.handle(st, t, True)
                    vals.append(('tree', h))
                else:
                    vals.append((None, None))
                    continue
                st.objs[vs].fields[8 * (j + 1 - n)] = ('ptr', h)
            if n and rhs[0] in g.values or n and rhs[0] in g.nonterms:
                st.objs[yv].fields[0] = st.objs[vs].fields[8 * (1 - n)]
            root = ex.alloc(st, 'ast_root', 8, 'frame' if self.rule[0] == g.start else 'borrow')

            def outside(ex, st, name, ty):
                if name == '%yyval':
                    return Ptr(yv)
                if name.startswith('%yyvsp.'):
                    return Ptr(vs)
                return None
            st.extra['outside'] = outside
            st.extra['globals'] = lambda ex, st, nm: root if nm == 'ast_root' else None
            spec = self.spec(ex, st, self.rule[2], vals)
            pre = list(st.pc)
            outs = [(None, st)]
            if no in d.actions:
                outs = ex.run(m, d.f, st, start=d.actions[no], stop={d.join})
            work = list(outs)
            live = 0
            while work:
                at, s = work.pop()
                if at is not None and not (isinstance(at, tuple) and at[0] == 'at'):
                    s2 = s.copy()
                    ex.where = self.name
                    try:
                        ex.bad(s2, 'the action goes on to the next state')
                    except Dead:
                        pass
                    continue
                if ex.check(s.pc) != z3.unsat:
                    live += 1
                ex.where = self.name
                keep = s.copy()
                try:
                    if 0 not in s.objs[yv].fields and self.rule[0] != g.start:
                        ex.bad(s, 'the production has a value')
                    if self.rule[0] == g.start:
                        if 0 not in s.objs[root].fields:
                            ex.bad(s, 'the tree of the text is handed on')
                        w = s.objs[root].fields[0][1]
                        cspec.compare(ex, s, w, spec, 'the tree handed on')
                        ex.at_exit(s, [w])
                        continue
                    v = s.objs[yv].fields[0][1]
                    cspec.compare(ex, s, v, spec, 'the value of the production')
                    ex.at_exit(s, [v])
                except Fork as fk:
                    work += [(at, y) for y in under(keep, fk.conds)]
                except Dead:
                    pass
            r['paths'] = len(outs)
        except Unsup as e:
            r['unsupported'] = str(e)
            return r
        except RecursionError:
            r['unsupported'] = 'recursion too deep for the symbolic execution'
            return r
        except Exception as e:
            r['unsupported'] = 'the verification condition generator gave up: %s' % str(e)[:300]
            if os.environ.get('VCDEBUG'):
                traceback.print_exc()
            return r
        r['funcs'] = ['yyparse'] + sorted(ex.used)
        r['inlined'] = sorted(ex.inlined)
        r['trusted'] += ['assumed contract of the C library function ' + x for x in sorted(ex.models)]
        r['assumed'] = sorted(ex.assumed)
        cspec.finish(ex, r, tier)
        e0 = ex.check(pre)
        ok = e0 != z3.unsat and (live or any(o['status'] != 'proved' for o in r['obls']))
        r['vacuity'] = 'entry state %s; %d of %d ends satisfiable' % (e0, live, len(outs))
        r['obls'].append(dict(name='canary: the contract is not vacuous', where=self.name, status='proved' if ok else 'refuted', backend='z3', time=0, model='' if ok else r['vacuity']))
        return r


class DestructUnit:
    """yydestruct, for every kind of symbol the driver discards: releases exactly the value of such a symbol"""
    name = 'yydestruct'

    def __init__(self):
        self.ctx = Load()

    def run(self, tier):
        r = base()
        g, a, p, err = productions()
        if err:
            r['unsupported'] = err
            return r
        want = {}                     # kind -> {class: why}
        for q, k in a.discarded:
            if q in a.sym:
                x = a.sym[q]
                want.setdefault(k, {}).setdefault(klass(g, p.name[x[1]] if isinstance(x, tuple) else x), 'state %d' % q)
        for c, k in a.looks:
            if c in a.codes:
                want.setdefault(k, {}).setdefault(klass(g, a.codes[c]), 'token ' + a.codes[c])
        mods = [cspec.module('tsl_parser.tab.c'), cspec.module('tsl_ast.c')]
        use = {n: (lambda ex, st, x, n=n: cspec.CONTRACTS[n].apply(ex, st, x)) for n in cspec.USED_AS_CONTRACT}
        ex = CExec(mods, use)
        ex.deadline = time.time() + (100 if tier == 'quick' else 300)
        live = paths = 0
        try:
            if 'yydestruct' not in ex.fn:
                raise Unsup('there is no function yydestruct')
            m, f = ex.fn['yydestruct']
            if len(f.params) != 3:
                raise Unsup('yydestruct has other parameters')
            for k in sorted(want):
                for c, why in want[k].items():
                    st = State()
                    vs = ex.alloc(st, 'the value', 8, 'borrow')
                    if c == 'text':
                        arr, ln = z3.Const('text', cspec.A_), z3.Const('textlen', cspec.I_)
                        st.pc.append(ln >= 0)
                        st.objs[vs].fields[0] = ('ptr', ex.new_text(st, arr, ln, 'heap'))
                    elif c == 'tree':
                        t = z3.Const('arg', cspec.T)
                        st.pc += ex.wf(t) + [t != NULLT]
                        st.objs[vs].fields[0] = ('ptr', ex.handle(st, t, True))
                    st.env = dict(zip([x[1] for x in f.params], [cexec.Opaque('message'), k, Ptr(vs)]))
                    outs = ex.run(m, f, st)
                    paths += len(outs)
                    for _, s in outs:
                        if ex.check(s.pc) != z3.unsat:
                            live += 1
                        ex.where = 'yydestruct: the value of a %s symbol (%s)' % (c or 'valueless', why)
                        try:
                            ex.at_exit(s, [])
                        except Dead:
                            pass
        except Unsup as e:
            r['unsupported'] = str(e)
            return r
        r['paths'] = paths
        r['funcs'] = ['yydestruct'] + sorted(ex.used)
        r['trusted'] += ['assumed contract of the C library function ' + x for x in sorted(ex.models)]
        cspec.finish(ex, r, tier)
        ok = len(want) > 20 and live >= len(want) or any(o['status'] != 'proved' for o in r['obls'])
        r['vacuity'] = '%d kinds of symbol discarded, %d paths satisfiable' % (len(want), live)
        r['obls'].append(dict(name='canary: the contract is not vacuous', where=self.name, status='proved' if ok else 'refuted', backend='z3', time=0, model='' if ok else r['vacuity']))
        return r


def units():
    g = gram.Gram()
    return [LRUnit(), DestructUnit()] + [ActionUnit(k, x) for k, x in enumerate(g.rules)]
