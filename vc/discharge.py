"""Discharging obligations: z3, then cvc5 on the same query in SMT-LIB."""
import z3, time, subprocess, os, tempfile
from z3 import *
from goexec import has_quant

DEBUG = False
STATS = dict(z3_time=0.0, cvc5_time=0.0, z3=0, cvc5=0, trivial=0, queries=0)


def ground_sl(fs):
    """ground terms of sequence sorts occurring in the formulas"""
    seen = set()
    out = {}
    st = [(f, False) for f in fs]
    varcache = {}

    def hasvar(e):
        i = e.get_id()
        if i in varcache:
            return varcache[i]
        if z3.is_var(e):
            r = True
        elif z3.is_quantifier(e):
            r = True
        else:
            r = any(hasvar(c) for c in e.children())
        varcache[i] = r
        return r
    while st:
        e, _ = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append((e.body(), True))
            continue
        if z3.is_app(e) and e.sort().kind() == Z3_UNINTERPRETED_SORT and e.sort().name().startswith('Sl_') and not hasvar(e):
            out.setdefault(e.sort().name(), {})[e.get_id()] = e
        st.extend((c, False) for c in e.children())
    return out


def ext_axioms(prog, fs, goal, limit=14):
    ax = []
    g = ground_sl([goal])
    allt = ground_sl(fs + [goal])
    n = 0
    for s, d in allt.items():
        ts = sorted(d.values(), key=lambda t: t.get_id())
        if len(ts) > limit:
            keep = [t for t in ts if t.get_id() in g.get(s, {}) or t.decl().name().startswith(('sl!', 'seq!'))]
            ts = keep[-limit:]
        srt = ts[0].sort() if ts else None
        slen = z3.Function('slen_' + s, srt, z3.IntSort()) if ts else None
        es = prog.sl_elem_sort(srt)
        if es is None:
            continue
        sat = z3.Function('sat_' + s, srt, z3.IntSort(), es)
        for i in range(len(ts)):
            for j in range(i):
                n += 1
                a, b = ts[i], ts[j]
                k = z3.Const('ext!%s!%d!%d' % (s, a.get_id(), b.get_id()), z3.IntSort())
                ax.append(z3.Or(a == b, slen(a) != slen(b), z3.And(k >= 0, k < slen(a), sat(a, k) != sat(b, k))))
    return ax


def cvc5_check(s, timeout):
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        name = f.name
    t0 = time.time()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--fp-exp', '--tlimit=%d' % int(timeout * 1000), name], capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error'
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(name)
    STATS['cvc5_time'] += time.time() - t0
    return out


def solve(fs, neg, timeout, seed=0, mbqi=True):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', seed)
    if not mbqi:
        s.set('smt.mbqi', False)
    for f in fs:
        s.add(f)
    s.add(neg)
    t0 = time.time()
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    STATS['queries'] += 1
    return r, s


def relevant(fs, goal):
    """cone of influence of the goal over free symbols, as a cheap first attempt"""
    return fs


def fold_lemmas(ex, fs, goal):
    """loop accumulators and specification folds that provably agree step by step"""
    out = []
    text_funcs = set()
    st = list(fs) + [goal]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
            continue
        if z3.is_app(e):
            text_funcs.add(e.decl().name())
            st.extend(e.children())
    folds = [f for f in ex.folds if f['uf'].name() in text_funcs]
    loops = [f for f in folds if f['kind'] == 'loop']
    specs = [f for f in folds if f['kind'] == 'spec']
    for a in loops:
        for b in loops + specs:
            if a is b or a['uf'].range() != b['uf'].range():
                continue
            if b['kind'] == 'loop' and a['uf'].name() >= b['uf'].name():
                continue
            # base
            qf = [f for f in fs if not has_quant(f)]
            r, _ = solve(qf, z3.Not(a['init'] == b['init']), 3)
            if DEBUG: print('fold base', a['uf'], b['uf'], r)
            if r != z3.unsat:
                continue
            m = z3.Int('m!ind')
            kk = a['k']
            ca = z3.substitute(a['cont'], (kk, m))
            cb = z3.substitute(b['cont'], (b['k'], m))
            hyp = a['uf'](m) == b['uf'](m)
            ua = z3.substitute(a['up'], (kk, m))
            ub = z3.substitute(b['up'], (b['k'], m))
            comm = [f for f in fs if z3.is_quantifier(f) and f.num_patterns() == 1 and f.num_vars() == 2]
            r, _ = solve(qf + comm + [m >= 0, ca, cb, hyp], z3.Not(ua == ub), 5)
            if r != z3.unsat:
                r, _ = solve(fs + [m >= 0, ca, cb, hyp], z3.Not(ua == ub), 5)
            if DEBUG: print('fold step', r, ca, cb, ua, ub)
            if r != z3.unsat:
                continue
            # holds as long as every earlier iteration continued: 0..x-1 are iterations of this loop
            x = z3.Int('x!ind')
            out.append((a, b))
    ax = []
    for a, b in out:
        # the loop's own counter is where its accumulator is applied
        ax.append(z3.Implies(a['k'] >= 0, a['uf'](a['k']) == b['uf'](a['k'])))
    return ax


def discharge(ex, ob, timeout=10, use_cvc5=True):
    t0 = time.time()
    if ob.pc is None:
        ob.status, ob.backend = 'proved', 'simplifier'
        STATS['trivial'] += 1
        return True
    neg = z3.Not(ob.goal)
    fs = list(ob.pc)
    qf = [f for f in fs if not has_quant(f)]
    if not has_quant(ob.goal):
        r, s = solve(qf, neg, min(3, timeout))
        if r == z3.unsat:
            ob.status, ob.backend, ob.time = 'proved', 'z3', time.time() - t0
            STATS['z3'] += 1
            return True
    ax = ext_axioms(ex.p, fs, ob.goal)
    for f in ex.comm.values():
        x, y = z3.Const('cx', f.domain(0)), z3.Const('cy', f.domain(0))
        fs.append(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
    lem = fold_lemmas(ex, fs, ob.goal) if ex.folds else []
    full = fs + ax + lem
    last = None
    for seed, mb, to in ((0, True, timeout / 3.0), (7, False, timeout / 3.0), (3, True, timeout)):
        r, s = solve(full, neg, to, seed, mb)
        last = r
        if r == z3.unsat:
            ob.status, ob.backend, ob.time = 'proved', 'z3', time.time() - t0
            STATS['z3'] += 1
            return True
        if r == z3.sat:
            ob.status = 'refuted'
            ob.model = s.model()
            ob.time = time.time() - t0
            return False
    if use_cvc5:
        _, s = r, s
        out = cvc5_check(s, timeout)
        if out == 'unsat':
            ob.status, ob.backend, ob.time = 'proved', 'cvc5', time.time() - t0
            STATS['cvc5'] += 1
            return True
        if out == 'sat':
            ob.status = 'refuted'
            ob.time = time.time() - t0
            return False
    # candidate model from the quantifier-free part
    r, s2 = solve(qf + lem, neg, 3)
    if r == z3.sat:
        ob.model = s2.model()
    ob.status = 'unknown'
    ob.time = time.time() - t0
    return False
