"""L02: the scanner of v6 against the token part of spec/v6/gram/tsl.gram.

The automaton is decided in lex.py; this file has the units: the closure of the automaton, and the action of each rule with
every class of texts the automaton hands to it."""
import os, time, traceback
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
import cexec, cspec, gram, dfa, lex, gotree
from cexec import *
from cspec import module, finish, CLoad

# ------------------------------------------------------------ texts made character by character
# SRC(a, o, m, t): where the t-th character of the unescaped text comes from, in the m characters of a from o on
SRC = z3.Function('src', A_, I_, I_, I_, I_)


def ch(a, o, p):
    return z3.Select(a, o + p)


def nxt(a, o, m, p):
    return If(And(ch(a, o, p) == 92, p + 1 < m), p + 2, p + 1)


ESC = {'n': 10, 't': 9, 'r': 13, 'b': 8, 'f': 12}


def val(a, o, m, p):
    c = ch(a, o, p + 1)
    r = c
    for k, v in ESC.items():
        r = If(c == ord(k), IntVal(v), r)
    return If(And(ch(a, o, p) == 92, p + 1 < m), r, ch(a, o, p))


def chars_fact(a, o, m, i):
    return Implies(And(i >= 0, i < m), And(ch(a, o, i) != 0, ch(a, o, i) >= -128, ch(a, o, i) <= 127))


class Origin:
    """texts that are part of another text"""

    def __init__(self):
        self.of = {}
        self.keep = []

    def get(self, a):
        return self.of.get(a.get_id(), (a, IntVal(0)))

    def set(self, a, b, off):
        b, o = self.get(b)
        self.keep.append(a)
        self.of[a.get_id()] = (b, z3.simplify(o + off))


def new_part(ex, st, d, src, off, n):
    """the block d receives n characters of src from off on"""
    arr, ln = src
    o = st.w(d.oid)
    fn = lambda t: z3.Select(arr, off + t)
    fn.part = (arr, off)
    o.chars = o.chars + [('rng', (IntVal(0), Z(n)), fn)]


def texts_lib(org):
    def copy(pad):
        def f(ex, st, a):
            d, s = ex.deref(st, a[0], 'strncpy'), ex.deref(st, a[1], 'strncpy')
            n = Z(as_pyint(a[2]))
            so, do = st.objs[s.oid], st.objs[d.oid]
            if so.text is None or do.text is not None or do.fields or do.chars or d.c or d.ts:
                return cexec._memcpy(ex, st, a)
            ex.oblige(st, n >= 0, 'the number of characters is not negative')
            ex.oblige(st, And(s.off() >= 0, s.off() + n <= so.text[1] + (0 if pad else 1)), 'the characters copied are in the text')
            whole = not ex.entails(st, s.off() + n <= so.text[1])
            if whole:
                if not ex.entails(st, s.off() + n == so.text[1] + 1):
                    raise Unsup('a copy with the end of the text')
                n = z3.simplify(n - 1)
                ex.oblige(st, n + 1 <= Z(do.size), 'access within the bounds of the object')
                new_part(ex, st, d, so.text, s.off(), n)
                as_text(ex, st, d.oid, n, org)
                return [(a[0], st)]
            ex.oblige(st, n <= Z(do.size), 'access within the bounds of the object')
            if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
                return [(a[0], st)]
            new_part(ex, st, d, so.text, s.off(), n)
            return [(a[0], st)]
        return f

    def strndup(ex, st, a):
        s = ex.deref(st, a[0], 'strndup')
        n = Z(as_pyint(a[1]))
        so = st.objs[s.oid]
        if so.text is None:
            raise Unsup('strndup of a buffer')
        ex.oblige(st, And(n >= 0, s.off() >= 0, s.off() <= so.text[1]), 'the characters copied are in the text')
        c = s.off() + n <= so.text[1]
        if not ex.entails(st, c):
            if not ex.entails(st, Not(c)):
                ex.fork(st, [c, Not(c)])
            n = z3.simplify(so.text[1] - s.off())
        ex.assumed.add('malloc and strdup do not fail')
        oid = ex.alloc(st, 'text', n + 1)
        new_part(ex, st, Ptr(oid), so.text, s.off(), n)
        as_text(ex, st, oid, n, org)
        return [(Ptr(oid), st)]

    def strdup(ex, st, a):
        s = ex.deref(st, a[0], 'strdup')
        so = st.objs[s.oid]
        if so.text is None or not (s.c or s.ts):
            return cexec._strdup(ex, st, a)
        n = z3.simplify(so.text[1] - s.off())
        ex.oblige(st, And(s.off() >= 0, n >= 0), 'the characters copied are in the text')
        return strndup(ex, st, [a[0], n])

    def span(neg):
        def f(ex, st, a):
            s, t = ex.deref(st, a[0], 'strspn'), ex.deref(st, a[1], 'strspn')
            so, to = st.objs[s.oid], st.objs[t.oid]
            n = z3.simplify(to.text[1] - t.off()) if to.text is not None else None
            cs = [z3.simplify(z3.Select(to.text[0], t.off() + j)) for j in range(n.as_long())] if n is not None and z3.is_int_value(n) else [None]
            if so.text is None or not all(c is not None and z3.is_int_value(c) for c in cs):
                raise Unsup('strspn of an unknown set')
            arr, ln = so.text
            o = s.off()
            ex.oblige(st, And(o >= 0, o <= ln), 'access within the bounds of the text')
            k = ex.fresh('span')
            i = z3.Int('i!%d' % ex.nid())
            at = lambda p: Or([z3.Select(arr, p) == c for c in cs]) if not neg else And([z3.Select(arr, p) != c for c in cs])
            st.pc += [k >= 0, o + k <= ln, z3.ForAll([i], Implies(And(o <= i, i < o + k), at(i)), patterns=[z3.Select(arr, i)]), Or(o + k == ln, Not(at(o + k)))]
            return [(k, st)]
        return f

    def isdigit(ex, st, a):
        c = as_int(a[0])
        ex.oblige(st, And(c >= 0, c <= 255), 'the argument of isdigit is a character')
        return [(If(And(c >= 48, c <= 57), IntVal(1), IntVal(0)), st)]
    m = {'strncpy': copy(True), 'memcpy': copy(False), 'llvm.memcpy.p0.p0.i64': copy(False), 'memmove': copy(False), 'strndup': strndup, 'strdup': strdup, 'isdigit': isdigit, 'strspn': span(False), 'strcspn': span(True)}
    return m


def as_text(ex, st, oid, n, org):
    """the characters [0, n) and a 0: a text"""
    o = st.w(oid)
    (_, (lo, hi), fn), = o.chars
    arr = z3.Const('chars!%d' % ex.nid(), A_)
    t = z3.Int('t!%d' % ex.nid())
    st.pc.append(z3.ForAll([t], Implies(And(0 <= t, t < n), z3.Select(arr, t) == fn(t)), patterns=[z3.Select(arr, t)]))
    st.pc += [z3.Select(arr, n) == 0, n >= 0]
    # no character of it is 0
    x = ex.fresh('t')
    s2 = st.copy()
    s2.pc += [x >= 0, x < n] + (fn.facts(x) if hasattr(fn, 'facts') else [])
    if hasattr(fn, 'part'):
        a, off = fn.part
        org.set(arr, a, off)
    else:
        c = fn(x)
        ex.oblige(s2, And(c != 0, c >= -128, c <= 127), 'no character of the text is 0')
    o.chars, o.text = [], (arr, z3.simplify(Z(n)))


def ended(org):
    """the hook at a stored 0"""
    def f(ex, st, oid, off):
        o = st.objs[oid]
        if len(o.chars) == 1 and o.chars[0][0] == 'rng' and ex.entails(st, o.chars[0][1][1] == off):
            as_text(ex, st, oid, off, org)
            return True
        return False
    return f


# ------------------------------------------------------------ loops over characters
def more(s, base):
    """objects that are new, other than constants that were looked at"""
    return any(k not in base and not (o.what.startswith('global') and o.ro) for k, o in s.objs.items()) or any(k not in s.objs for k in base)


class Loops:
    def __init__(self, org, limit=24):
        self.org, self.limit, self.kind = org, limit, {}

    def __call__(self, ex, m, f, h, pb, st, depth, phis, init):
        k = (f.name, h)
        tried = [self.kind[k]] if k in self.kind else ['unroll', 'scan', 'escape']
        why = []
        for t in tried:
            n, q = len(ex.obls), ex.quiet
            try:
                r = getattr(self, t)(ex, m, f, h, pb, st.copy(), depth, phis, init)
            except Unsup as e:
                r = None
                why.append('%s: %s' % (t, e))
            except Fork:
                raise
            finally:
                ex.quiet = q
            if r is not None:
                self.kind[k] = t
                return r
            del ex.obls[n:]
        raise Unsup('the loop at %s of %s (%s)' % (h, f.name, '; '.join(why)))

    def stop(self, ex, f, h):
        body = ex.loops(f)[h]
        return body, {b for b in f.order if b not in body} | {h}

    def unroll(self, ex, m, f, h, pb, st, depth, phis, init):
        body, stop = self.stop(ex, f, h)
        st.env.update(init)
        cur, res = [st], []
        for it in range(self.limit):
            nx = []
            for s in cur:
                for r, s2 in ex.run(m, f, s, depth, start=h, stop=stop):
                    if not (isinstance(r, tuple) and r[0] == 'at'):
                        raise Unsup('a loop returns from its body')
                    if r[1] != h:
                        res.append((r[1], r[2], s2))
                        continue
                    vals = []
                    for x in phis:
                        (v,) = [v for v, q in x.a if q == r[2]]
                        vals.append((x.res, ex.ev(s2, v, x.ty, m)))
                    s2.env.update(vals)
                    nx.append(s2)
            if not nx:
                return res
            if len(nx) > 1:
                return None
            cur = nx
        return None

    def probe(self, ex, m, f, h, st, depth, phis, init):
        """one quiet iteration from loop variables that are unknown"""
        body, stop = self.stop(ex, f, h)
        probe = st.copy()
        sym = {}
        for x in phis:
            a = init[x.res]
            if x.ty == 'ptr':
                a = ex.resolve(probe, a)
                if not isinstance(a, Ptr):
                    raise Unsup('a loop variable that is no position')
                sym[x.res] = Ptr(a.oid, a.c, a.ts).add(0, 1, ex.fresh('p'))
            else:
                sym[x.res] = ex.fresh('v')
        probe.env.update(sym)
        ex.quiet += 1
        outs = ex.run(m, f, probe, depth, start=h, stop=stop)
        ex.quiet -= 1
        return sym, outs, stop

    def scan(self, ex, m, f, h, pb, st, depth, phis, init):
        """a loop that only looks: it goes on while a condition holds"""
        sym, outs, stop = self.probe(ex, m, f, h, st, depth, phis, init)
        steps = {}
        for r, s in outs:
            if not (isinstance(r, tuple) and r[0] == 'at'):
                raise Unsup('a loop returns from its body')
            if r[1] != h:
                continue
            for x in phis:
                (v,) = [v for v, q in x.a if q == r[2]]
                nv = ex.ev(s, v, x.ty, m)
                a = sym[x.res]
                d = z3.simplify(nv.off() - a.off()) if isinstance(nv, Ptr) and isinstance(a, Ptr) and nv.oid == a.oid else z3.simplify(as_int(nv) - as_int(a)) if not isinstance(a, Ptr) else None
                if d is None or not z3.is_int_value(d) or steps.setdefault(x.res, d.as_long()) != d.as_long():
                    raise Unsup('loop variable %s without a constant step' % x.res)

        def at(s, k):
            for x in phis:
                d = steps.get(x.res, 0)
                a = init[x.res]
                if x.ty == 'ptr':
                    s.env[x.res] = ex.resolve(s, a).add(0, 1, z3.simplify(d * k)) if d else ex.resolve(s, a)
                else:
                    s.env[x.res] = z3.simplify(as_int(a) + d * k)
        n0 = len(st.pc)

        def body(s):
            outs = ex.run(m, f, s, depth, start=h, stop=stop)
            go, leave = [], []
            for r, s2 in outs:
                if not (isinstance(r, tuple) and r[0] == 'at'):
                    raise Unsup('a loop returns from its body')
                if any(s2.objs.get(o) is not st.objs[o] for o in st.objs) or more(s2, st.objs) or s2.res != st.res:
                    raise Unsup('a loop with effects')
                (go if r[1] == h else leave).append((r, s2))
            return go, leave
        # 1. the condition
        k = ex.fresh('k')
        c0 = ex.cnt
        it = st.copy()
        it.pc.append(k >= 0)
        at(it, k)
        ex.quiet += 1
        go, _ = body(it)
        ex.quiet -= 1
        if not go:
            # it is left at once
            at(st, IntVal(0))
            _, leave = body(st)
            return [(r[1], r[2], s) for r, s in leave]
        G = Or([And(s.pc[n0 + 1:]) for _, s in go])
        idx = []

        def walk(e):
            if z3.is_select(e):
                idx.append(e.arg(1))
            if z3.is_const(e) and '!' in e.decl().name() and e.decl().name().rsplit('!', 1)[1].isdigit() and int(e.decl().name().rsplit('!', 1)[1]) > c0:
                raise Unsup('a loop whose condition has choices')
            for x in e.children():
                walk(x)
        walk(G)
        base = None
        for e in idx:
            b = z3.simplify(z3.substitute(e, (k, IntVal(0))))
            for sg in (1, -1):
                if z3.is_int_value(z3.simplify(e - b - sg * k)) and z3.simplify(e - b - sg * k).as_long() == 0:
                    base = b
                    break
            if base is not None:
                break
        if base is None:
            raise Unsup('a loop that does not look at consecutive characters')

        def holds(K):
            i = z3.Int('i!%d' % ex.nid())
            if sg < 0:
                g = z3.simplify(z3.substitute(G, (k, base - i)))
                return z3.ForAll([i], Implies(And(base - K < i, i <= base), g))
            g = z3.simplify(z3.substitute(G, (k, i - base)))
            return z3.ForAll([i], Implies(And(base <= i, i < base + K), g))
        # 2. an arbitrary iteration, and the end
        K = ex.fresh('K')
        after = st.copy()
        after.pc += [K >= 0, holds(K), Implies(K >= 1, z3.substitute(G, (k, K - 1)))]
        at(after, K)
        _, leave = body(after)
        return [(r[1], r[2], s) for r, s in leave]

    def escape(self, ex, m, f, h, pb, st, depth, phis, init):
        """a loop that writes what the characters of a text stand for"""
        sym, outs, stop = self.probe(ex, m, f, h, st, depth, phis, init)
        target = set()
        for r, s in outs:
            for oid, o in st.objs.items():
                if s.objs[oid] is not o:
                    if s.objs[oid].chars[:-1] != o.chars or o.chars or s.objs[oid].alive != o.alive or s.objs[oid].fields != o.fields:
                        raise Unsup('a loop that writes more than characters')
                    target.add(oid)
        if len(target) != 1:
            raise Unsup('a loop that does not write one text')
        T_, = target
        ints = [x for x in phis if x.ty != 'ptr']
        roles0 = {}
        for x in phis:
            if x.ty == 'ptr':
                roles0[x.res] = 'j' if ex.resolve(st, init[x.res]).oid == T_ else 'i'
        srcs = [oid for oid, o in st.objs.items() if o.text is not None and o.alive and not o.what.startswith('global') and oid != T_]
        import itertools
        last = None
        for src in srcs:
            arr, ln = st.objs[src].text
            for lo, hi in ((IntVal(0), ln), (IntVal(1), ln - 1)):
                for rs in itertools.product('ij', repeat=len(ints)):
                    roles = dict(roles0, **{x.res: r for x, r in zip(ints, rs)})
                    if len(set(roles.values())) != 2:
                        continue
                    n = len(ex.obls)
                    try:
                        r = self.try_escape(ex, m, f, h, st.copy(), depth, phis, init, roles, src, lo, z3.simplify(hi - lo), T_, stop)
                    except Unsup as e:
                        last = e
                        r = None
                    if r is not None:
                        return r
                    del ex.obls[n:]
        raise Unsup('no invariant found: %s' % last)

    def try_escape(self, ex, m, f, h, st, depth, phis, init, roles, src, lo, mlen, T_, stop):
        arr, ln = st.objs[src].text
        a, o = self.org.get(arr)
        o = z3.simplify(o + lo)
        M = mlen
        first = {}
        for x in phis:
            v = init[x.res]
            if x.ty == 'ptr':
                v = ex.resolve(st, v)
                want = st.objs[src] if roles[x.res] == 'i' else st.objs[T_]
                if st.objs[v.oid] is not want:
                    return None
                if roles[x.res] == 'i' and not ex.entails(st, v.off() == lo) or roles[x.res] == 'j' and not ex.entails(st, v.off() == 0):
                    return None
        if not ex.entails(st, M >= 0):
            return None
        p, j = ex.fresh('p'), ex.fresh('j')
        s = st.copy()
        t = z3.Int('t!%d' % ex.nid())
        src_t = SRC(a, o, M, t)
        s.pc += [0 <= p, p <= M, 0 <= j, j <= p, SRC(a, o, M, j) == p, SRC(a, o, M, IntVal(0)) == 0, SRC(a, o, M, j + 1) == nxt(a, o, M, p),
                 z3.ForAll([t], Implies(And(0 <= t, t < j), And(0 <= src_t, src_t < M)), patterns=[src_t])]
        fn = lambda x: val(a, o, M, SRC(a, o, M, x))

        def facts(x):
            q = SRC(a, o, M, x)
            return [chars_fact(a, o, M, q), chars_fact(a, o, M, q + 1)]
        fn.facts = facts
        w = s.w(T_)
        w.chars = [('rng', (IntVal(0), j), fn)]

        def put(s, p, j):
            for x in phis:
                d = p if roles[x.res] == 'i' else j
                v = init[x.res]
                s.env[x.res] = ex.resolve(s, v).add(0, 1, d) if x.ty == 'ptr' else as_int(v) + d
        put(s, p, j)
        base = {k: o2 for k, o2 in s.objs.items()}
        n0 = len(ex.obls)
        outs = ex.run(m, f, s, depth, start=h, stop=stop)
        leave = []
        for r, s2 in outs:
            if not (isinstance(r, tuple) and r[0] == 'at'):
                raise Unsup('a loop returns from its body')
            if any(s2.objs[k] is not o2 for k, o2 in base.items() if k != T_) or more(s2, base):
                raise Unsup('a loop with other effects')
            if r[1] != h:
                if s2.objs[T_] is not base[T_]:
                    raise Unsup('a loop that is left after it wrote')
                leave.append((r, s2))
                continue
            # the invariant again
            cs = s2.objs[T_].chars
            if len(cs) != 2 or cs[1][0] != 'pt':
                return None
            for x in phis:
                (v,) = [v for v, q in x.a if q == r[2]]
                nv = ex.ev(s2, v, x.ty, m)
                if x.ty == 'ptr':
                    nv = ex.resolve(s2, nv)
                    iv = ex.resolve(s2, init[x.res])
                    if nv.oid != iv.oid:
                        return None
                    d = z3.simplify(nv.off() - iv.off())
                else:
                    d = z3.simplify(as_int(nv) - as_int(init[x.res]))
                want = nxt(a, o, M, p) if roles[x.res] == 'i' else j + 1
                # a role that does not fit is no error of the program
                if not ex.entails(s2, d == want) and not self.near(ex, s2, d, want, s):
                    return None
                ex.oblige(s2, d == want, 'loop invariant: %s' % ('the next character of the literal' if roles[x.res] == 'i' else 'one character more'))
            ex.oblige(s2, p < M, 'loop invariant: within the literal')
            ex.oblige(s2, cs[1][1] == j, 'loop invariant: the next character of the value')
            ex.oblige(s2, cs[1][2] == val(a, o, M, p), 'loop invariant: what the characters of the literal stand for')
            ex.oblige(s2, nxt(a, o, M, p) <= M, 'loop invariant: within the literal')
        if not leave:
            return None
        res = []
        for r, s2 in leave:
            res.append((r[1], r[2], s2))
        return res

    def near(self, ex, s, d, want, s0):
        return False


# ------------------------------------------------------------ dates in strings
RUN = z3.Function('run', A_, I_, I_, I_)       # the end of the digits from a position on


def inset(c, bs):
    xs = sorted(b - 256 if b > 127 else b for b in bs)
    rs, lo = [], None
    for i, b in enumerate(xs):
        if lo is None:
            lo = b
        if i + 1 == len(xs) or xs[i + 1] != b + 1:
            rs.append(c == lo if lo == b else And(c >= lo, c <= b))
            lo = None
    return Or(rs)


def first(x):
    """(the bytes a match may begin with, may it be empty)"""
    if x[0] == 'set':
        return set(x[1]), False
    if x[0] == 'alt':
        fs = [first(y) for y in x[1]]
        return set().union(*[f for f, _ in fs]), any(e for _, e in fs)
    if x[0] == 'cat':
        out, e = set(), True
        for y in x[1]:
            f, e2 = first(y)
            out |= f
            if not e2:
                e = False
                break
        return out, e
    f, e = first(x[1])
    return f, e or x[2] == 0


def full(rx, a, n, facts):
    """the whole text (a, n) matches rx"""
    def go(xs, p):
        if not xs:
            return p == n
        x, rest = xs[0], xs[1:]
        if x[0] == 'set':
            return And(p < n, inset(z3.Select(a, p), x[1]), go(rest, z3.simplify(p + 1)))
        if x[0] == 'cat':
            return go(list(x[1]) + rest, p)
        if x[0] == 'alt':
            return Or([go([y] + rest, p) for y in x[1]])
        _, y, lo, hi = x
        if hi is not None:
            return Or([go([y] * k + rest, p) for k in range(lo, hi + 1)])
        if y[0] == 'cat' and len(y[1]) == 1:
            y = y[1][0]
        # a run: what follows it does not begin with its characters, so it is as long as can be
        f, e = first(('cat', rest))
        if y[0] != 'set' or f & y[1]:
            raise Unsup('a date format with an ambiguous repetition')
        q = RUN(a, n, p)
        i = z3.Int('i!run')
        facts.extend([Implies(And(0 <= p, p <= n), And(p <= q, q <= n, Or(q == n, Not(inset(z3.Select(a, q), y[1]))))),
                      z3.ForAll([i], Implies(And(p <= i, i < q), inset(z3.Select(a, i), y[1])), patterns=[z3.Select(a, i)])])
        return And(q >= p + lo, go(rest, q))
    return go([rx], IntVal(0))


def mentions(e, c, seen=None):
    todo, seen = [e], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(c):
            return True
        todo += [e.body()] if z3.is_quantifier(e) else e.children()
    return False


# ------------------------------------------------------------ units
class Scan:
    """the exploration of the scanner; once, in the parent process"""

    def __init__(self):
        self.r = None

    def load(self):
        if self.r is not None:
            return
        t0 = time.time()
        self.g = gram.Gram()
        self.spec = dfa.tokens(self.g)
        self.r = dict(broken=None, unsup=None, trace=None)
        self.L = None
        m = module('lex.yy.c')
        try:
            self.L = lex.Lexer(m, self.spec)
            self.L.explore()
        except lex.Broken as b:
            self.r['broken'] = b
        except Unsup as e:
            self.r['unsup'] = str(e)
        except Exception as e:
            self.r['unsup'] = 'the verifier gave up on the scanner: %s' % str(e)[:300]
            self.r['trace'] = traceback.format_exc()[-2000:]
        self.time = time.time() - t0


SCAN = Scan()
TRUST = ['clang 18 (mem2reg, instsimplify) as the meaning of the C source']


class LexUnit:
    name = 'scanner'
    ctx = None

    def run(self, tier):
        S = SCAN
        r = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=list(TRUST), assumed=['a text is shorter than 2^31 bytes'], inlined=[], funcs=[])
        if S.r['trace']:
            r['trace'] = S.r['trace']
        if S.r['unsup']:
            r['unsupported'] = S.r['unsup']
        n = {}
        for (name, where), k in (S.L.obls if S.L else {}).items():
            n.setdefault(name, [0, where])[0] += k
        for name, (k, where) in n.items():
            r['obls'].append(dict(name=name, where='%s (%d instances)' % (S.L.lex, k), status='proved', backend='closure of the scanner', time=0, model=''))
        if r['obls']:
            r['obls'][0]['time'] = round(S.time, 2)
        if S.r['unsup']:
            r['obls'] = []
            return r
        b = S.r['broken']
        if b:
            r['obls'].append(dict(name=b.name, where=S.L.lex, status='refuted', backend='closure of the scanner', time=0, model='after the text %r' % (b.text,)))
            if b.text:
                r['texts'] = variants(S, b.text)
        else:
            r['paths'] = S.L.steps
            acts = set(S.L.acts)
            cls = {c for m in S.L.acts.values() for c in m}
            want = {c for c in S.spec.acc if c}
            # every class of the specification is reached: the exploration is not vacuous
            r['obls'].append(dict(name='canary: every kind of token is reached', where=S.L.lex, status='proved' if cls == want else 'refuted', backend='closure of the scanner', time=0, model=str(cls ^ want)))
        r['funcs'] = sorted(S.L.inlined) if S.L else []
        r['vacuity'] = '%d states, %d steps' % (len(S.L.visited) + sum(len(v) for v in S.L.memo.values()), S.L.steps)
        return r


def variants(S, text):
    ts = [text]
    for a in (b'', b' ', b'1', b'a', b'(', b"'x'"):
        for b in (b'', b' ', b' = 1', b'1', b'a', b')', b"'x'"):
            ts.append(a + text + b)
    return ts


def codes():
    names = SCAN.g.terms + ['YYUNDEF']
    return dict(zip(names, gotree.native_codes(names)))


class ActUnit:
    ctx = None

    def __init__(self, act, cls, text):
        self.act, self.cls, self.text = act, cls, text
        self.name = 'action %d on %s' % (act, cls)

    def run(self, tier):
        r = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=list(TRUST), assumed=[], inlined=[], funcs=[])
        try:
            self.go(r, tier)
        except Unsup as e:
            r['unsupported'] = str(e)
            r['obls'] = []
        except Exception as e:
            r['unsupported'] = 'the verification condition generator gave up: %s' % str(e)[:300]
            r['trace'] = traceback.format_exc()[-2500:]
            r['obls'] = []
            if os.environ.get('VCDEBUG'):
                traceback.print_exc()
        if any(o['status'] != 'proved' for o in r['obls']):
            r['texts'] = variants(SCAN, self.text)
        return r

    def go(self, r, tier):
        S = SCAN
        L = S.L
        m, f = L.m, L.f
        g = S.g
        org = Origin()
        ex = CExec([m], {})
        ex.lib.update(texts_lib(org))
        ex.lib['fwrite'] = lambda ex, st, a: [(Z(a[2]), st)]
        ex.deadline = time.time() + (150 if tier == 'quick' else 400)
        ex.loopinv = Loops(org)
        ex.ended = ended(org)
        st = State()
        Y, n = z3.Const('yytext', A_), z3.Int('yyleng')
        short = len(S.spec.shortest()[self.cls])
        st.pc += [n >= short, z3.Select(Y, n) == 0]
        txt = ex.new_text(st, Y, n, 'borrow')
        st.objs[txt.oid].ro = True
        col = z3.Int('column')
        ep = z3.Int('errpos')
        st.pc += [col >= 1]

        def glob(ex, st, nm):
            if nm == 'yytext':
                oid = ex.alloc(st, 'global yytext', 8, 'frame')
                st.objs[oid].fields[0] = ('ptr', txt)
                st.objs[oid].ro = True
            elif nm == 'yyleng':
                oid = ex.alloc(st, 'global yyleng', 4, 'frame')
                st.objs[oid].fields[0] = ('i32', n)
                st.objs[oid].ro = True
            elif nm == 'yycolumn':
                oid = ex.alloc(st, 'global yycolumn', 4, 'frame')
                st.objs[oid].fields[0] = ('i32', col)
            elif nm == 'yylval':
                oid = ex.alloc(st, 'global yylval', 8, 'frame')
            elif nm == 'error_pos':
                oid = ex.alloc(st, 'global error_pos', 4, 'frame')
                st.objs[oid].fields[0] = ('i32', ep)
            elif nm.startswith('yy'):
                oid = ex.alloc(st, 'global ' + nm, None, 'frame')
                st.objs[oid].ro = True
            elif nm in ('stderr', 'stdout'):
                oid = ex.alloc(st, 'global ' + nm, 8, 'frame')
                st.objs[oid].fields[0] = ('ptr', Opaque(nm))
            else:
                return None
            return oid
        st.extra['globals'] = glob
        for nm in ('yylval', 'yycolumn', 'error_pos'):
            ex.global_(st, m, '@' + nm)
        yv = st.extra[('g', 'yylval')]
        head = L.head
        sw = f.blocks[L.swblk][-1]
        blk = dict(sw.a[2]).get(self.act, sw.a[1])
        pre = list(st.pc)
        outs = ex.run(m, f, st, start=blk, stop={head}, prev=L.swblk)
        cs = codes()
        live = 0
        where = '%s, action %d' % (L.lex, self.act)
        work = list(outs)
        while work:
            ret, s = work.pop()
            ex.where = where
            base = s.copy()
            if ex.check(s.pc) != z3.unsat:
                live += 1
            try:
                self.post(ex, s, ret, cs, yv, (Y, n), col, g)
            except Fork as fk:
                work += [(ret, y) for y in under(base, fk.conds)]
            except Dead:
                pass
        r['paths'] = len(outs)
        r['inlined'] = sorted(ex.inlined)
        r['trusted'] += ['assumed contract of the C library function ' + x for x in sorted(ex.models)]
        r['assumed'] = sorted(ex.assumed)
        r['funcs'] = [where]
        finish(ex, r, tier)
        ok = live or any(o['status'] != 'proved' for o in r['obls'])
        r['vacuity'] = '%d of %d paths satisfiable' % (live, len(outs))
        r['obls'].append(dict(name='canary: the contract is not vacuous', where=where, status='proved' if ok else 'refuted', backend='z3', time=0, model=''))

    def post(self, ex, s, ret, cs, yv, yt, col, g):
        Y, n = yt
        back = isinstance(ret, tuple) and ret[0] == 'at'
        # the column follows the text
        cf = s.objs[s.extra[('g', 'yycolumn')]].fields.get(0)
        if cf is None:
            raise Unsup('the column is not a number')
        c2 = Z(cf[1])
        ex.oblige(s, And(c2 >= 1, c2 <= col + n), 'the column is not behind the text read')
        e2 = s.objs[s.extra[('g', 'error_pos')]].fields.get(0) if ('g', 'error_pos') in s.extra else (None, z3.Int('errpos'))
        if e2 is None:
            raise Unsup('the error position is not a number')
        e2 = Z(e2[1])
        ex.oblige(s, Or(e2 == z3.Int('errpos'), And(e2 >= 0, e2 <= col + n - 1)), 'the error position is not behind the text read')
        if self.cls == 'SKIP':
            if not back:
                ex.bad(s, 'white space is no token')
            ex.at_exit(s, [])
            ex.oblige(s, BoolVal(True), 'white space is no token')
            return
        if back:
            ex.bad(s, 'a token is returned for %s' % self.cls)
        if self.cls == 'ERR':
            ex.oblige(s, Z(ret) == cs['YYUNDEF'], 'a character no token begins with is an error for the parser')
            ex.at_exit(s, [])
            return
        v = s.objs[yv].fields.get(0)
        how = g.values.get(self.cls)
        if how is None:
            ex.oblige(s, Z(ret) == cs[self.cls], 'the token is %s' % self.cls)
            ex.at_exit(s, [])
            return
        if v is None:
            ex.bad(s, 'the token has a value')
        if v[0] != 'ptr':
            raise Unsup('the value of the token is not a pointer')
        p = ex.resolve(s, v[1])
        if not isinstance(p, Ptr):
            ex.bad(s, 'the token has a value')
        if s.objs[p.oid].own != 'heap':
            ex.bad(s, 'the value of the token is memory of its own')
        a, l = ex.text_of(s, p)
        ex.at_exit(s, [p])
        if how == 'text':
            ex.oblige(s, Z(ret) == cs[self.cls], 'the token is %s' % self.cls)
            i = ex.fresh('i')
            ex.oblige(s, l == n, 'the value is as long as the text of the token')
            ex.oblige(s, Implies(And(i >= 0, i < n), z3.Select(a, i) == z3.Select(Y, i)), 'the value is the text of the token')
            return
        # quoted: what the literal stands for; a date or a time if it is exactly that
        one, mm = IntVal(1), z3.simplify(n - 2)
        s.pc.append(SRC(Y, one, mm, IntVal(0)) == 0)
        ex.oblige(s, SRC(Y, one, mm, l) == mm, 'the value is as long as what the literal stands for')
        i = ex.fresh('i')
        ex.oblige(s, Implies(And(i >= 0, i < l), z3.Select(a, i) == val(Y, one, mm, SRC(Y, one, mm, i))), 'the value is what the literal stands for')
        # what follows is about the characters of the value only
        s.pc = [f for f in s.pc if not mentions(f, Y)]
        facts = []
        rx = dict(g.tokens)
        fm = [(k, full(dfa.parse(rx[k]), a, l, facts)) for k in ('RFC3339', 'DATE')]
        s.pc += facts
        want = IntVal(cs['STRING_LITERAL'])
        for k, c in reversed(fm):
            want = If(c, IntVal(cs[k]), want)
        ex.oblige(s, Z(ret) == want, 'a literal that is exactly a date or a time is one, any other is a string')


def units(tier='quick'):
    SCAN.load()
    us = [LexUnit()]
    if SCAN.L is not None:
        for a in sorted(SCAN.L.acts):
            for c, t in sorted(SCAN.L.acts[a].items()):
                us.append(ActUnit(a, c, t))
    return us + [cspec.CUnit(n) for n in ('ast_create_number', 'ast_create_string', 'ast_create_date', 'ast_create_rfc3339', 'ast_create_identifier')]
