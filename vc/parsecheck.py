"""L03, L04: what surrounds the scanner and the parser of v6 - the native entry points (parse_input_string, yyerror, the error getters,
cleanup_parser_memory), ParseTSL and the rendering of a syntax error, and the frame that keeps concurrent parses apart."""
import os, re, time, traceback
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
import cexec, cspec, cir
from cexec import *
from cspec import module, finish, CLoad
import lexcheck

FILES = ('tsl_parser.tab.c', 'tsl_ast.c')
TRUST = ['clang 18 (mem2reg, instsimplify) as the meaning of the C source']
# the result of a parse, as far as these functions see it
WF = z3.Function('well_formed', A_, I_, z3.BoolSort())
TREE = z3.Function('tree_of_text', A_, I_, T)
SPACES = (9, 10, 11, 12, 13, 32)


def isspace(ex, st, a):
    c = as_int(a[0])
    ex.oblige(st, And(c >= -128, c <= 255), 'isspace is given a character')
    return [(z3.simplify(If(Or([c == x for x in SPACES]), IntVal(1), IntVal(0))), st)]


def snprintf(ex, st, a):
    """of a part of a text, into a buffer"""
    d = ex.deref(st, a[0], 'snprintf')
    n = as_pyint(a[1])
    if not isinstance(n, int) or n < 1:
        raise Unsup('snprintf with an unknown size')
    ex.bounds(st, d, n)
    fa, fn = ex.text_of(st, a[2])
    k = as_pyint(fn)
    fmt = ''.join(chr(as_pyint(z3.simplify(z3.Select(fa, i)))) for i in range(k))
    if fmt not in ('%.*s', '%s') or len(a) != (5 if fmt == '%.*s' else 4):
        raise Unsup('snprintf with the format %r' % fmt)
    s = ex.deref(st, a[-1], 'snprintf')
    if st.objs[s.oid].text is None:
        raise Unsup('snprintf of a buffer')
    arr, ln = st.objs[s.oid].text
    off = s.off()
    ex.oblige(st, And(off >= 0, off <= ln), 'the text printed is within its block')
    m = ln - off
    if fmt == '%.*s':
        p = as_int(a[3])
        m = If(And(p >= 0, p < m), p, m)
    m = If(m < n, m, IntVal(n - 1))
    if d.c or d.ts:
        raise Unsup('snprintf into the middle of a buffer')
    na = ex.fresh('printed', A_)
    i = z3.Int('i!%d' % ex.nid())
    nl = ex.fresh('printedlen')
    st.pc += [nl == m, nl >= 0, z3.ForAll([i], Implies(And(i >= 0, i < nl), z3.Select(na, i) == z3.Select(arr, off + i)))]
    o = st.w(d.oid)
    o.text, o.chars, o.fields = (na, nl), [], {}
    return [(ex.fresh('written'), st)]


class Shell:
    """a C function around the parser, for every state the parser can be in between two calls"""

    ctx = CLoad(FILES)

    def __init__(self, fn, cases=None):
        self.fn = fn
        self.name = fn

    # -------------------------------------------------- the state between calls
    def start(self, ex, st, case):
        """input_string and error_string are null or owned texts, the root is null or a tree that is somebody else's by now"""
        G = {}
        ms = {}
        for f in FILES:
            ms.update({k[1:]: v for k, v in module(f).globals.items()})

        def glob(name, size, ty=None, v=None):
            if name not in ms:
                return
            oid = ex.alloc(st, 'global ' + name, size, 'frame')
            if ty:
                st.objs[oid].fields[0] = (ty, v)
            G[name] = oid
        self.L = z3.Int('lastlen')
        self.ltext = z3.Const('lasttext', A_)
        st.pc.append(self.L >= 0)
        hasin, haserr, hasroot = case
        st.extra['last'] = None
        if hasin:
            p = ex.new_text(st, self.ltext, self.L, 'heap', 'input_string')
            glob('input_string', 8, 'ptr', p)
        else:
            glob('input_string', 8, 'ptr', NULL)
        if haserr:
            e = z3.Int('errlen')
            st.pc.append(e >= 0)
            glob('error_string', 8, 'ptr', ex.new_text(st, z3.Const('errtext', A_), e, 'heap', 'error_string'))
        else:
            glob('error_string', 8, 'ptr', NULL)
        if hasroot:
            t = z3.Const('oldroot', T)
            st.pc += ex.wf(t) + [t != NULLT]
            glob('ast_root', 8, 'ptr', ex.handle(st, t, False))
        else:
            glob('ast_root', 8, 'ptr', NULL)
        self.col, self.ep, self.cp = z3.Int('column'), z3.Int('errpos'), z3.Int('position')
        glob('yycolumn', 4, 'i32', self.col)
        glob('error_pos', 4, 'i32', self.ep)
        glob('current_error_position', 4, 'i32', self.cp)
        for g in ('yylval', 'yychar', 'yynerrs', 'yydebug', 'yylineno'):
            glob(g, 8)
        st.pc += [self.ep >= 0, self.ep <= self.L if hasin else BoolVal(True), self.cp >= 0]

        def hook(ex, st, nm):
            return G.get(nm)
        st.extra['globals'] = hook
        self.G = G
        for need in ('input_string', 'error_string', 'ast_root', 'yycolumn'):
            if need not in G:
                raise Unsup('there is no global %s any more' % need)
        for nm in G:
            ex.global_(st, [module(f) for f in FILES if '@' + nm in module(f).globals][0], '@' + nm)

    def cases(self):
        return [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]

    def get(self, s, name):
        v = s.objs[self.G[name]].fields.get(0)
        return v[1] if v else None

    def kept(self, ex, s):
        """what may stay between calls"""
        out = []
        for nm in ('input_string', 'error_string'):
            v = self.get(s, nm)
            v = ex.resolve(s, v) if v is not None else None
            if v is None or not (v is NULL or isinstance(v, Ptr)):
                raise Unsup('%s is not a text' % nm)
            if isinstance(v, Ptr):
                o = s.objs[v.oid]
                if not o.alive:
                    ex.bad(s, '%s is not left behind released' % nm)
                if o.own != 'heap':
                    ex.bad(s, '%s is memory of its own' % nm)
                ex.text_of(s, v)
                out.append(v)
        return out

    def between(self, ex, s):
        """the invariant the next call relies on"""
        ks = self.kept(ex, s)
        if 'error_pos' in self.G:
            v = self.get(s, 'input_string')
            v = ex.resolve(s, v)
            e = Z(self.get(s, 'error_pos'))
            ex.oblige(s, e >= 0, 'the error is not before the text')
            if isinstance(v, Ptr):
                ex.oblige(s, e <= s.objs[v.oid].text[1], 'the error is not behind the text kept for it')
        return ks

    # -------------------------------------------------- one unit
    def run(self, tier):
        r = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=list(TRUST), assumed=[], inlined=[], funcs=[])
        mods = [module(n) for n in FILES]
        try:
            live = total = 0
            for case in self.cases():
                use = {n: (lambda ex, st, a, n=n: cspec.CONTRACTS[n].apply(ex, st, a)) for n in cspec.USED_AS_CONTRACT}
                use.update(self.models())
                ex = CExec(mods, use)
                ex.lib.update(isspace=isspace, snprintf=snprintf)
                ex.loopinv = lexcheck.Loops(lexcheck.Origin())
                ex.deadline = time.time() + (60 if tier == 'quick' else 200)
                if self.fn not in ex.fn:
                    raise Unsup('the C function %s is not there any more' % self.fn)
                m, f = ex.fn[self.fn]
                st = State()
                self.start(ex, st, case)
                args = self.args(ex, st)
                if len(args) != len(f.params):
                    raise Unsup('the C function %s has other parameters' % self.fn)
                st.env = dict(zip([p[1] for p in f.params], args))
                outs = ex.run(m, f, st)
                total += len(outs)
                work = list(outs)
                while work:
                    ret, s = work.pop()
                    if ex.check(s.pc) != z3.unsat:
                        live += 1
                    ex.where = '%s: return' % self.fn
                    base = s.copy()
                    try:
                        self.post(ex, s, ret, args)
                    except Fork as fk:
                        work += [(ret, y) for y in under(base, fk.conds)]
                    except Dead:
                        pass
                r['inlined'] = sorted(set(r['inlined']) | ex.inlined - {self.fn})
                r['trusted'] = sorted(set(r['trusted']) | {'assumed contract of the C library function ' + n for n in ex.models})
                r['assumed'] = sorted(set(r['assumed']) | ex.assumed)
                finish(ex, r, tier)
            r['paths'] = total
        except Unsup as e:
            r['unsupported'] = str(e)
            return r
        except RecursionError:
            r['unsupported'] = 'recursion too deep for the symbolic execution'
            return r
        except Exception as e:
            r['unsupported'] = 'the verification condition generator gave up: %s' % str(e)[:300]
            r['trace'] = traceback.format_exc()[-2500:]
            if os.environ.get('VCDEBUG'):
                traceback.print_exc()
            return r
        r['funcs'] = [self.fn]
        ok = live or any(o['status'] != 'proved' for o in r['obls'])
        r['vacuity'] = '%d of %d return paths satisfiable' % (live, total)
        r['obls'].append(dict(name='canary: the contract is not vacuous', where=self.fn, status='proved' if ok else 'refuted', backend='z3', time=0, model='' if ok else r['vacuity']))
        return r

    def models(self):
        return {}

    def args(self, ex, st):
        return []

    def post(self, ex, s, ret, args):
        raise NotImplementedError


class Parse(Shell):
    """parse_input_string(text): the tree of the text, or null and a position within the text; nothing else stays behind"""

    def __init__(self):
        super().__init__('parse_input_string')

    def args(self, ex, st):
        self.arr, self.len = z3.Const('text', A_), z3.Int('len')
        st.pc += [self.len >= 0]
        p = ex.new_text(st, self.arr, self.len, 'borrow', 'input')
        st.objs[p.oid].ro = True
        self.inp = p
        st.extra['buf'] = {}
        st.extra['done'] = 0
        return [p]

    def models(self):
        def scan(ex, st, a):
            arr, ln = ex.text_of(st, a[0])
            if any(x[0] == 'active' for x in st.extra['buf'].values()):
                ex.bad(st, 'one text is scanned at a time')
            b = ex.alloc(st, 'scan buffer', 64, 'frame')
            st.extra['buf'] = dict(st.extra['buf'], **{b: ('active', arr, ln)})
            return [(Ptr(b), st)]

        def delete(ex, st, a):
            p = ex.resolve(st, a[0])
            if p is NULL:
                return [(None, st)]
            if not isinstance(p, Ptr) or p.oid not in st.extra['buf']:
                raise Unsup('yy_delete_buffer of %s' % p)
            if st.extra['buf'][p.oid][0] != 'active':
                ex.bad(st, 'the scan buffer is deleted once')
            st.extra['buf'] = dict(st.extra['buf'], **{p.oid: ('deleted', None, None)})
            return [(None, st)]

        def parse(ex, st, a):
            act = [x for x in st.extra['buf'].values() if x[0] == 'active']
            if len(act) != 1:
                ex.bad(st, 'a text is being scanned when the parser runs')
            if st.extra['done']:
                ex.bad(st, 'the parser runs once')
            st.extra['done'] = 1
            _, arr, ln = act[0]
            ex.oblige(st, And(arr == self.arr, ln == self.len), 'the text that is parsed is the one given')
            c0 = self.get(st, 'yycolumn')
            if c0 is None:
                ex.bad(st, 'the column has a value')
            ex.oblige(st, Z(c0) == 1, 'a parse starts in the first column')
            out = []
            # columns are at most one behind the text read (the actions of the scanner), the last token lies within it
            for ok in (True, False, 'tree'):
                s = st.copy()
                c, e = ex.fresh('column'), ex.fresh('errpos')
                s.w(self.G['yycolumn']).fields[0] = ('i32', c)
                s.pc += [c >= 1, c <= 1 + self.len]
                if 'error_pos' in self.G:
                    e0 = self.get(s, 'error_pos')
                    s.w(self.G['error_pos']).fields[0] = ('i32', e)
                    s.pc += [Or(And(e >= 0, e <= self.len), e == Z(e0)) if e0 is not None else And(e >= 0, e <= self.len)]
                if ok is True:
                    t = TREE(self.arr, self.len)
                    s.pc += [WF(self.arr, self.len), t != NULLT] + ex.wf(t)
                    s.w(self.G['ast_root']).fields[0] = ('ptr', ex.handle(s, t, True))
                    out.append((0, s))
                    continue
                s.pc.append(Not(WF(self.arr, self.len)))
                if ok == 'tree':
                    # the whole text was reduced before the error was seen
                    t = ex.fresh('partial', T)
                    s.pc += [t != NULLT] + ex.wf(t)
                    s.w(self.G['ast_root']).fields[0] = ('ptr', ex.handle(s, t, True))
                msg = ex.new_text(s, z3.Const('message', A_), z3.Int('msglen'), 'frame', 'message')
                s.objs[msg.oid].ro = True
                s.pc.append(z3.Int('msglen') >= 0)
                res = ex.fresh('result')
                s.pc.append(Or(res == 1, res == 2))
                if 'yyerror' not in ex.fn:
                    raise Unsup('there is no function yyerror')
                for _, s2 in ex.call(s, 'yyerror', [msg], None, 1):
                    out.append((res, s2))
            return out
        return dict(yy_scan_string=scan, yy_delete_buffer=delete, yyparse=parse)

    def post(self, ex, s, ret, args):
        if not s.extra['done']:
            # refused without looking at it
            ex.oblige(s, Not(WF(self.arr, self.len)), 'a well-formed text is parsed')
        if any(x[0] != 'deleted' for x in s.extra['buf'].values()):
            ex.bad(s, 'the scan buffer is deleted')
        ks = self.between(ex, s)
        r = ex.resolve(s, ret) if ret is not None else None
        if r is NULL:
            ex.oblige(s, Not(WF(self.arr, self.len)), 'a well-formed text has a tree')
            pos = self.get(s, 'current_error_position') if 'current_error_position' in self.G else None
            if pos is None:
                raise Unsup('the position of the error is kept elsewhere')
            ex.oblige(s, And(Z(pos) >= 0, Z(pos) <= self.len), 'the position of the error lies within the text')
            ex.at_exit(s, ks)
            return
        if not isinstance(r, Hnd):
            raise Unsup('the result is not a tree (%s)' % r)
        ex.oblige(s, Or(WF(self.arr, self.len), r.term == NULLT), 'a text that is not well-formed has no tree')
        ex.oblige(s, Implies(WF(self.arr, self.len), r.term == TREE(self.arr, self.len)), 'the tree is the one of the text')
        if not ex.owned(s, r):
            ex.bad(s, 'the tree is handed over')
        ex.oblige(s, Not(ex.gone(s, r)), 'the tree handed over is still there')
        ex.at_exit(s, ks + [r])


class Cleanup(Shell):
    def __init__(self):
        super().__init__('cleanup_parser_memory')

    def post(self, ex, s, ret, args):
        ks = self.between(ex, s)
        if ks:
            ex.bad(s, 'nothing of the text stays behind')
        ex.at_exit(s, [])


class ErrorText(Shell):
    def cases(self):
        return [(a, b, 0) for a in (0, 1) for b in (0, 1)]

    def post(self, ex, s, ret, args):
        p = ex.resolve(s, ret)
        if not isinstance(p, Ptr):
            ex.bad(s, 'there is a text')
        o = s.objs[p.oid]
        if not o.alive:
            ex.bad(s, 'no use of released memory')
        if o.text is None:
            raise Unsup('the text returned is a buffer')
        ex.oblige(s, And(p.off() >= 0, p.off() <= o.text[1]), 'the text returned ends within its block')
        if o.size is not None:
            ex.oblige(s, o.text[1] + 1 <= Z(o.size), 'the text returned ends within its block')
        if o.own == 'heap' and p.oid not in [k.oid for k in self.kept(ex, s)]:
            ex.bad(s, 'the text returned is released by cleanup_parser_memory')
        ex.at_exit(s, self.between(ex, s))


class Position(Shell):
    """get_error_position returns what parse_input_string left"""

    def __init__(self):
        super().__init__('get_error_position')

    def post(self, ex, s, ret, args):
        if 'current_error_position' not in self.G:
            raise Unsup('the position of the error is kept elsewhere')
        ex.oblige(s, Z(ret) == self.cp, 'the position returned is the one of the last error')
        ex.at_exit(s, self.between(ex, s))


SHELL = [Parse(), Cleanup(), ErrorText('get_error_string'), ErrorText('get_input_string_at_error'), Position()]


# ------------------------------------------------------------ ParseTSL and the error it returns
import goexec as GX
import gomodels as GM
import gotree
from goexec import Unsupported, GlobPtr, LocPtr
from gotree import PyUnit

T6 = GM.T6
SS = z3.StringSort()
GWF = z3.Function('well_formed_text', SS, z3.BoolSort())
NUL = z3.StringVal('\\u{0}')
PARSER = ('parse_input_string', 'get_error_string', 'get_error_position', 'get_input_string_at_error', 'cleanup_parser_memory')
X = {}


def xm(*names):
    def d(f):
        for n in names:
            X[n] = f
        return f
    return d


def ev(st, *e):
    st.ext['parse'] = st.ext.get('parse', ()) + (e,)


def evs(st, *kinds):
    return [e for e in st.ext.get('parse', ()) if e[0] in kinds]


def held(st):
    h = {}
    for e in evs(st, 'lock', 'unlock'):
        h[e[1]] = e[0] == 'lock'
    return {k for k, v in h.items() if v}


def l04(ex, st, goal, what, w):
    if st.ext.get('prop') == 'L04':
        ex.oblige(st, goal, what, w)


def l03(ex, st, goal, what, w):
    if st.ext.get('prop') == 'L03':
        ex.oblige(st, goal, what, w)


def lockname(a):
    if isinstance(a, GlobPtr):
        return a.name
    if isinstance(a, LocPtr):
        return None                   # a lock of this call alone keeps nobody out
    raise Unsupported('a lock that is not a variable of the package')


@xm('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock')
def m_lock(ex, fr, ins, a, st):
    n = lockname(a[0])
    if n:
        l04(ex, st, BoolVal(n not in held(st)), 'a lock is not taken twice', ex.where(fr, ins))
        ev(st, 'lock', n)


@xm('(*sync.Mutex).Unlock', '(*sync.RWMutex).Unlock')
def m_unlock(ex, fr, ins, a, st):
    n = lockname(a[0])
    if n:
        l04(ex, st, BoolVal(n in held(st)), 'a lock is held when it is released', ex.where(fr, ins))
        ev(st, 'unlock', n)


@xm('(*sync.RWMutex).RLock', '(*sync.RWMutex).RUnlock')
def m_rlock(ex, fr, ins, a, st):
    lockname(a[0])                    # other readers are let in


@xm('strings.IndexByte', 'strings.IndexRune')
def m_indexbyte(ex, fr, ins, a, st):
    c = a[1]
    if not z3.is_int_value(z3.simplify(c)) or not 0 <= z3.simplify(c).as_long() < 128:
        raise Unsupported('strings.IndexByte of an unknown byte')
    return z3.IndexOf(a[0], z3.StringVal('\\u{%x}' % z3.simplify(c).as_long()), 0)


@xm('strings.Index')
def m_index(ex, fr, ins, a, st):
    return z3.IndexOf(a[0], a[1], 0)


@xm('strings.ContainsRune')
def m_containsrune(ex, fr, ins, a, st):
    return m_indexbyte(ex, fr, ins, a, st) >= 0


@xm('strings.Repeat')
def m_repeat(ex, fr, ins, a, st):
    ex.oblige(st, a[1] >= 0, 'no panic: strings.Repeat with a count that is not negative', ex.where(fr, ins))
    return z3.Function('strings_Repeat', SS, z3.IntSort(), SS)(a[0], a[1])


@xm(gotree.M[:-len('_Cfunc_')] + '_cgoCheckPointer')
def m_check(ex, fr, ins, a, st):
    return None


def gostr(c):
    return z3.Function('gostr', c.sort(), SS)(c)


def locked(ex, fr, ins, st, nm):
    l04(ex, st, BoolVal(bool(held(st))), 'the lock of the parser is held: %s' % nm, ex.where(fr, ins))
    for n in held(st):
        ev(st, 'under', n)


def cx(name):
    return xm(gotree.M + name)


@cx('CString')
def m_cstring(ex, fr, ins, a, st):
    s = ex.p.sort(ex.p.under(ins['sig'])['results'][0])
    r = ex.fresh('cstring', s)
    st.fact(r != Const_nil(s))
    # a NUL ends what the parser sees
    st.fact(Implies(Not(z3.Contains(a[0], NUL)), gostr(r) == a[0]))
    st.fact(Not(z3.Contains(gostr(r), NUL)))
    for e in evs(st, 'cstring'):
        st.fact(r != e[1])
    ev(st, 'cstring', r)
    return r


def Const_nil(s):
    return z3.Const('nil_' + s.name(), s)


def cterm(ex, ins, a, st, i=0):
    return gotree.h(ex, st, a[i], gotree.ptype(ex, ins, i))


@cx('free')
def m_cfree(ex, fr, ins, a, st):
    v = a[0]
    c = v if z3.is_expr(v) else ex.term(st, v, gotree.ptype(ex, ins, 0))
    w = ex.where(fr, ins)
    hits = []
    for e in evs(st, 'cstring'):
        f = z3.Function('cast_%s_%s' % (e[1].sort().name(), c.sort().name()), e[1].sort(), c.sort())
        hits.append((e[1], e[1] == c if e[1].sort() == c.sort() else f(e[1]) == c))
    for r, same in hits:
        if ex.valid(st.formulas(), same):
            l03(ex, st, BoolVal(not any(z3.eq(x[1], r) for x in evs(st, 'free'))), 'no C string is released twice', w)
            ev(st, 'free', r)
            return None
    raise Unsupported('free of something that is not a C string')


@cx('parse_input_string')
def m_parse(ex, fr, ins, a, st):
    t = GM.tree(ex)
    c = cterm(ex, ins, a, st)
    w = ex.where(fr, ins)
    l03(ex, st, c != Const_nil(c.sort()), 'the parser is given a text', w)
    locked(ex, fr, ins, st, 'parse_input_string')
    for e in evs(st, 'free'):
        l03(ex, st, c != e[1], 'no use of a released C string', w)
    r = ex.fresh('parsed', t.C)
    st.fact((r != t.null) == GWF(gostr(c)))
    st.fact(Implies(r != t.null, z3.Function('parsed_from', t.C, SS)(r) == gostr(c)))
    ev(st, 'parse', gostr(c), r)
    return r


def after_failure(ex, st, w, nm):
    """the getters tell about the last parse, as long as it has not been cleaned up"""
    es = evs(st, 'parse', 'cleanup')
    l03(ex, st, BoolVal(bool(es) and es[-1][0] == 'parse'), 'the error is looked at after the parse and before the clean up: %s' % nm, w)
    return es[-1] if es and es[-1][0] == 'parse' else None


def getter(name):
    @cx(name)
    def m(ex, fr, ins, a, st):
        locked(ex, fr, ins, st, name)
        e = after_failure(ex, st, ex.where(fr, ins), name)
        rt = ex.p.under(ins['sig'])['results'][0]
        s = ex.p.sort(rt)
        if name == 'get_error_position':
            r = ex.fresh('position', z3.IntSort())
            if e:
                st.fact(Implies(e[2] == GM.tree(ex).null, And(r >= 0, r <= z3.Length(e[1]))))
            st.fact(And(r >= -2 ** 31, r < 2 ** 31))
            return r
        r = ex.fresh(name, s)
        st.fact(r != Const_nil(s))
        for e in evs(st, 'cstring'):        # it is the parser's own memory (units get_error_string, get_input_string_at_error)
            if e[1].sort() == s:
                st.fact(r != e[1])
        ev(st, 'borrowed', r)
        return r


for _n in PARSER[1:4]:
    getter(_n)


@cx('GoString')
def m_gostring(ex, fr, ins, a, st):
    c = cterm(ex, ins, a, st)
    seen = False
    es = st.ext.get('parse', ())
    for i, e in enumerate(es):
        if e[0] == 'borrowed':
            if any(x[0] in ('cleanup', 'parse') for x in es[i:]):
                l03(ex, st, c != e[1], 'the text of the error is copied before it is released', ex.where(fr, ins))
            if any(x[0] == 'unlock' for x in es[i:]):
                l04(ex, st, c != e[1], 'the text of the error is copied before the lock is released', ex.where(fr, ins))
        if e[0] == 'free':
            ex.oblige(st, c != e[1], 'no use of a released C string', ex.where(fr, ins))
    return gostr(c)


@cx('cleanup_parser_memory')
def m_cleanup(ex, fr, ins, a, st):
    locked(ex, fr, ins, st, 'cleanup_parser_memory')
    ev(st, 'cleanup')


def parse_setup(prop):
    def f(ex, st):
        st.ext['prop'] = prop
        return parse_args(ex, st)
    return f


def parse_args(ex, st):
    s = z3.Const('input', SS)
    st.fact(z3.Length(s) < 2 ** 31)
    # what the grammar says about any text
    st.fact(Not(GWF(z3.StringVal(''))))
    st.fact(Implies(z3.Contains(s, NUL), Not(GWF(s))))
    return [s], s


def only(es, k):
    return [e for e in es if e[0] == k]


def syntax_error(ex, st, v, errt):
    """(is a *SyntaxError, its fields) of an error"""
    p = ex.p
    e = ex.term(st, v, errt)
    ct = p.ctor_of[p.bystr['*' + T6 + '.SyntaxError']]
    ptr = ct[2][0](e)
    ps = ptr.sort()
    sv = ps.accessor(1, 0)(ptr)
    sid = p.bystr[T6 + '.SyntaxError']
    names = [f['name'] for f in p.under(sid)['fields']]
    fs = {n: sv.sort().accessor(0, i)(sv) for i, n in enumerate(names)}
    return And(ct[1](e), ps.recognizer(1)(ptr)), fs, e == p.Vnil


def parse_post(prop):
    def post(ex, s, st, res):
        t = GM.tree(ex)
        f = ex.p.funcs[T6 + '.ParseTSL']
        isnil, cn = gotree.result_node(ex, st, res[0])
        isse, fs, noerr = syntax_error(ex, st, res[1], f['results'][1])
        es = st.ext.get('parse', ())
        out = []
        if prop == 'L04':
            out.append((BoolVal(not held(st)), 'the lock of the parser is released'))
            names = {e[1] for e in only(es, 'under')}
            out.append((BoolVal(len(names) <= 1), 'one lock protects the parser'))
            # what is parsed is this text, what is returned is its tree
            out.append((Implies(GWF(s), And(Not(isnil), z3.Function('parsed_from', t.C, SS)(cn) == s)), 'the tree returned is the one of the text of this call'))
            return out
        good = GWF(s)
        out += [(noerr == good, 'there is an error exactly when the text is not well-formed'),
                (Implies(good, And(Not(isnil), cn != t.null)), 'a well-formed text has a tree'),
                (Implies(good, z3.Function('parsed_from', t.C, SS)(cn) == s), 'the tree is the one of the text'),
                (Implies(Not(good), isnil), 'a text that is not well-formed has no tree'),
                (Implies(Not(good), isse), 'the error is a syntax error'),
                (Implies(Not(good), And(fs['Position'] >= 0, fs['Position'] <= z3.Length(s))), 'the position of the error lies within the text'),
                (Implies(Not(good), fs['Input'] == s), 'the error carries the text')]
        for e in only(es, 'cstring'):
            out.append((BoolVal(sum(z3.eq(x[1], e[1]) for x in only(es, 'free')) == 1), 'the copy of the text is released'))
        ps = [e for e in es if e[0] in ('parse', 'cleanup')]
        for i, e in enumerate(ps):
            if e[0] == 'parse':
                ok = i + 1 < len(ps) and ps[i + 1][0] == 'cleanup'
                out.append((Or(BoolVal(ok), e[2] != t.null), 'nothing of a text that is not well-formed stays in the parser'))
                out.append((Or(e[2] == t.null, And(noerr, Not(isnil), cn == e[2])), 'a tree that was built is handed over'))
        return out
    return post


SEN = '(*%s.SyntaxError).Error' % T6


def error_setup(ex, st):
    p = ex.p
    sid = p.bystr[T6 + '.SyntaxError']
    s = ex.sym('err', sid, st)
    s = ex.term(st, s, sid)
    fs = {f['name']: s.sort().accessor(0, i)(s) for i, f in enumerate(p.under(sid)['fields'])}
    st.fact(And(fs['Position'] >= 0, fs['Position'] <= z3.Length(fs['Input'])))
    ptr = ex.alloc(st, sid, s)
    return [ptr], fs


def go_units(context, prop):
    us = [PyUnit(context, 'ParseTSL', T6 + '.ParseTSL', parse_setup(prop), parse_post(prop), hide=[gotree.METH + 'Type', gotree.METH + 'Value'], extra=X)]
    if prop == 'L03':
        us.append(PyUnit(context, 'SyntaxError.Error', SEN, error_setup, lambda ex, cx, st, res: [], extra=X))
    return us


# ------------------------------------------------------------ what is shared
class Reuse:
    """a unit of another property: what it shows is needed here, what fails in it is a violation here if it is about this property,
    and leaves the rest to the bounded check otherwise"""

    def __init__(self, u, keep, drop=None):
        self.u, self.keep, self.drop = u, keep, drop
        self.name = u.name
        self.ctx = getattr(u, 'ctx', None)

    def run(self, tier):
        r = self.u.run(tier)
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        if r['unsupported'] or not bad:
            return r
        mine = [o for o in bad if self.keep and re.search(self.keep, o['name'])]
        if not mine:
            r['unsupported'] = 'an obligation of another property fails: %s' % bad[0]['name']
            r['obls'] = []
            return r
        r['obls'] = [o for o in r['obls'] if o['status'] == 'proved'] + mine
        return r


CFILES = ('tsl_ast.c', 'tsl_parser.tab.c', 'lex.yy.c')


class Frame:
    """the native functions that are called without the lock of the parser share no variable with the ones that are called under it"""
    name = 'shared state'

    def __init__(self, context):
        self.ctx = context

    def run(self, tier):
        r = dict(obls=[], paths=1, vacuity=None, bounded=[], unsupported=None, trusted=list(TRUST), assumed=[], inlined=[], funcs=[])
        ms = {f: module(f) for f in CFILES}
        mut = set()
        for m in ms.values():
            mut |= {n for n, v in m.globals.items() if not v[2]}
        fns = {}
        for f, m in ms.items():
            for n, fn in m.funcs.items():
                txt = '\n'.join(x.text for b in fn.order for x in fn.blocks[b])
                fns[n] = set(re.findall(r'@[\w.$]+', txt))

        def touched(n):
            seen, work, out = set(), [n], set()
            while work:
                x = work.pop()
                if x in seen or x not in fns:
                    continue
                seen.add(x)
                for y in fns[x]:
                    if y in mut:
                        out.add(y)
                    work.append(y[1:])
            return out
        p, cs, dropped = self.ctx.program()
        pre = gotree.M
        calls, callers = {}, {}
        for fn, f in p.funcs.items():
            if not (T6 + '.') in fn:
                continue
            for b in f['blocks']:
                for ins in b['instrs']:
                    for nm in names(ins):
                        if nm.startswith(pre):
                            calls.setdefault(fn, set()).add(nm[len(pre):])
                        elif (T6 + '.') in nm:
                            callers.setdefault(nm, set()).add(fn)
        entry = T6 + '.ParseTSL'
        # the functions that run inside ParseTSL only
        inner = {entry}
        while True:
            new = {f for f, c in callers.items() if f not in inner and c <= inner and not exported(f)}
            new |= {f for f in p.funcs if f.split('$')[0] in inner and f not in inner}
            if not new:
                break
            inner |= new
        native = lambda fs: {n for f in fs for n in calls.get(f, ()) if n in fns}
        locked, free = native(inner), native(set(calls) - inner)
        state = set().union(*[touched(n) for n in locked]) if locked else set()
        if len(state) < 5 or not free:
            r['unsupported'] = 'the state of the parser was not found'
            return r
        for n in sorted(free):
            both = touched(n) & state
            who = sorted(f for f in set(calls) - inner if n in calls[f])[0]
            r['obls'].append(dict(name='%s shares no variable with the parser' % n, where='called from ' + GX.short(who), status='refuted' if both else 'proved', backend='evaluation of the call graph', time=0, model=', '.join(sorted(both))))
        r['vacuity'] = '%d native functions under the lock, %d without, %d variables of the parser' % (len(locked), len(free), len(state))
        r['funcs'] = sorted(free)
        return r


def exported(f):
    n = f.rsplit('.', 1)[-1]
    return n[:1].isupper() or n == 'init'


def names(ins):
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get('k') == 'func':
                out.append(x['name'])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(ins)
    return out


MEM = r'released|leak|freed|memory|bounds|uninitialised|null pointer|twice'
ERRS = r'rejected|is an error|discarded|error is reported|nothing but a whole|error recovery|behind the text|error for the parser'
HIST = r'starts with|starts in state|nothing happens before|at the start of a copy'


def units03(context, tier):
    import lrcheck
    us = list(SHELL) + go_units(context, 'L03')
    us += [Reuse(u, ERRS + '|' + MEM) for u in lexcheck.units(tier) + lrcheck.units()]
    return us


def units04(context, tier):
    import lrcheck
    us = [Reuse(u, '.' if u.name in ('cleanup_parser_memory',) else HIST + '|one text is scanned|first column|buffer is deleted') for u in SHELL[:2]] + go_units(context, 'L04') + [Frame(context)]
    us += [Reuse(u, HIST) for u in lexcheck.units(tier) + lrcheck.units()[:2]]
    return us
