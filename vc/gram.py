"""Reads spec/v6/gram/tsl.gram: the tokens, productions and trees of the v6 language."""
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(V, 'spec', 'v6', 'gram', 'tsl.gram')


def sexp(s):
    ts = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = 0

    def p():
        nonlocal pos
        t = ts[pos]
        pos += 1
        if t != '(':
            return t
        l = []
        while ts[pos] != ')':
            l.append(p())
        pos += 1
        return l
    r = p()
    assert pos == len(ts), s
    return r


class Gram:
    def __init__(self, path=PATH):
        self.words, self.tokens, self.values, self.skip, self.rules = [], [], {}, [], []
        self.order = []
        for line in open(path):
            line = line.rstrip('\n')
            if not line or line.startswith('#'):
                continue
            k, rest = line.split(' ', 1)
            if k == 'word':
                n, w = rest.split()
                self.words.append((n, w))
                self.order.append((n, 'word', w))
            elif k == 'token':
                n, rx = rest.split(' ', 1)
                self.tokens.append((n, rx))
                self.order.append((n, 'token', rx))
            elif k == 'value':
                n, f = rest.split()
                self.values[n] = f
            elif k == 'skip':
                self.skip.append(rest)
                self.order.append((None, 'skip', rest))
            elif k == 'rule':
                l, t = rest.split('=>')
                lhs, rhs = l.split(':')
                self.rules.append((lhs.strip(), tuple(rhs.split()), sexp(t)))
            else:
                raise ValueError(line)
        self.terms = [n for n, _ in self.words] + [n for n, _ in self.tokens]
        self.nonterms = []
        for l, _, _ in self.rules:
            if l not in self.nonterms:
                self.nonterms.append(l)
        self.start = self.rules[0][0]
        # nonterminals whose tree is always an array
        arr = {n for n in self.nonterms}
        ch = True
        while ch:
            ch = False
            for l, r, t in self.rules:
                ok = isinstance(t, list) and t[0] in ('arr', 'snoc') or isinstance(t, str) and r[int(t[1:]) - 1] in arr
                if l in arr and not ok:
                    arr.discard(l)
                    ch = True
        self.arrays = arr
