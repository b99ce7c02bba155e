"""Deterministic automata for the token language of a Gram: longest match, earliest rule first."""


class Bad(Exception):
    pass


ANY = frozenset(range(1, 256))


def parse(s):
    """regex -> ('set', bytes) | ('cat', [..]) | ('alt', [..]) | ('rep', x, lo, hi|None)"""
    i = 0

    def esc(c):
        return {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11}.get(c, ord(c))

    def cls():
        nonlocal i
        neg = s[i] == '^'
        if neg:
            i += 1
        out = set()
        first = True
        while first or s[i] != ']':
            first = False
            if s[i] == '\\':
                c = esc(s[i + 1])
                i += 2
            else:
                c = ord(s[i])
                i += 1
            if s[i] == '-' and s[i + 1] != ']':
                i += 1
                if s[i] == '\\':
                    i += 1
                    e = esc(s[i])
                else:
                    e = ord(s[i])
                i += 1
                out |= set(range(c, e + 1))
            else:
                out.add(c)
        i += 1
        return frozenset(ANY - out if neg else out)

    def alt():
        nonlocal i
        xs = [cat()]
        while i < len(s) and s[i] == '|':
            i += 1
            xs.append(cat())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat():
        nonlocal i
        xs = []
        while i < len(s) and s[i] not in '|)':
            c = s[i]
            i += 1
            if c == '(':
                x = alt()
                if i >= len(s) or s[i] != ')':
                    raise Bad(s)
                i += 1
            elif c == '[':
                x = ('set', cls())
            elif c == '\\':
                x = ('set', frozenset([esc(s[i])]))
                i += 1
            elif c == '.':
                x = ('set', ANY - {10})
            else:
                x = ('set', frozenset([ord(c)]))
            while i < len(s) and s[i] in '*+?{':
                q = s[i]
                i += 1
                if q == '{':
                    j = s.index('}', i)
                    n = s[i:j].split(',')
                    i = j + 1
                    x = ('rep', x, int(n[0]), int(n[-1]))
                else:
                    x = ('rep', x, 1 if q == '+' else 0, 1 if q == '?' else None)
            xs.append(x)
        return ('cat', xs)
    r = alt()
    if i != len(s):
        raise Bad(s)
    return r


def word(w):
    return ('cat', [('set', frozenset([ord(c.lower()), ord(c.upper())])) for c in w])


class Nfa:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add(self, x, a):
        """fragment from a; returns its end"""
        k = x[0]
        if k == 'set':
            b = self.new()
            self.tr[a].append((x[1], b))
            return b
        if k == 'cat':
            for y in x[1]:
                a = self.add(y, a)
            return a
        if k == 'alt':
            e = self.new()
            for y in x[1]:
                s = self.new()
                self.eps[a].append(s)
                self.eps[self.add(y, s)].append(e)
            return e
        _, y, lo, hi = x
        for _ in range(lo):
            a = self.add(y, a)
        if hi is None:
            s = self.new()
            self.eps[a].append(s)
            b = self.add(y, s)
            self.eps[b].append(s)
            e = self.new()
            self.eps[s].append(e)
            return e
        e = self.new()
        self.eps[a].append(e)
        for _ in range(hi - lo):
            a = self.add(y, a)
            self.eps[a].append(e)
        return e

    def close(self, ss):
        out, work = set(ss), list(ss)
        while work:
            for t in self.eps[work.pop()]:
                if t not in out:
                    out.add(t)
                    work.append(t)
        return frozenset(out)


class Dfa:
    """states 0..; step[d][byte] -> state or None; acc[d] -> class or None; more[d]: something longer may still match"""

    def __init__(self, rules):
        n = Nfa()
        s0 = n.new()
        ends = {}
        for p, (name, x) in enumerate(rules):
            s = n.new()
            n.eps[s0].append(s)
            ends[n.add(x, s)] = (p, name)
        start = n.close([s0])
        ids, order = {start: 0}, [start]
        self.step, self.acc = [], []
        k = 0
        while k < len(order):
            ss = order[k]
            k += 1
            a = sorted(ends[s] for s in ss if s in ends)
            self.acc.append(a[0][1] if a else None)
            by = {}
            for s in ss:
                for cs, t in n.tr[s]:
                    for c in cs:
                        by.setdefault(c, set()).add(t)
            row = [None] * 256
            memo = {}
            for c, ts in by.items():
                f = frozenset(ts)
                if f not in memo:
                    q = n.close(f)
                    if q not in ids:
                        ids[q] = len(order)
                        order.append(q)
                    memo[f] = ids[q]
                row[c] = memo[f]
            self.step.append(row)
        N = len(order)
        good = {d for d in range(N) if self.acc[d]}
        pre = [set() for _ in range(N)]
        for d in range(N):
            for t in self.step[d]:
                if t is not None:
                    pre[t].add(d)
        live, work = set(good), list(good)
        while work:
            for d in pre[work.pop()]:
                if d not in live:
                    live.add(d)
                    work.append(d)
        self.more = [any(t in live for t in set(self.step[d]) if t is not None) for d in range(N)]
        # dead ends are one state: None
        for d in range(N):
            self.step[d] = [t if t in live else None for t in self.step[d]]

    def shortest(self):
        """class -> the length of its shortest match, and one"""
        out, seen, work = {}, {0: b''}, [0]
        for d in work:
            if self.acc[d] and self.acc[d] not in out:
                out[self.acc[d]] = seen[d]
            for c in range(1, 256):
                t = self.step[d][c]
                if t is not None and t not in seen:
                    seen[t] = seen[d] + bytes([c])
                    work.append(t)
        return out


def tokens(g):
    """the automaton of a grammar's tokens; SKIP and ERR are classes of their own"""
    rules = [(n or 'SKIP', word(x) if k == 'word' else parse(x)) for n, k, x in g.order]
    rules.append(('ERR', ('set', ANY)))
    return Dfa(rules)
