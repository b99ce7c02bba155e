#!/usr/bin/env python3
"""Decides one property: check.py ID   (VERIF_TIER, VERIF_SEED from the environment)"""
import os, sys, json, time, subprocess, multiprocessing, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctx
from ctx import V, BUILD, BuildError

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = max(2, min(8, os.cpu_count() or 2))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


UNITS = []


def dispatch(i):
    """runs one unit in a worker process (forked, so it has UNITS); the result is plain data"""
    u = UNITS[i]
    sys.setrecursionlimit(20000)
    t0 = time.time()
    try:
        r = u.run(TIER)
    except BuildError as e:
        r = dict(error='build: ' + str(e)[:2000])
    except Exception as e:
        r = dict(error='internal: %s\n%s' % (e, traceback.format_exc()[-3000:]))
    r.setdefault('obls', [])
    r['unit'] = u.name
    r['wall'] = time.time() - t0
    return r


def search(prop, hs, budget, tag):
    """runs the executable contracts on concrete inputs, in parallel; returns (stats, failing case file or None, text)"""
    stats = dict(n=0, distinct=0, samples=[])
    fails = []
    for h in hs:
        procs = []
        for i in range(NPROC):
            out = os.path.join(BUILD, 'case-%s-%d-%d.json' % (prop, os.getpid(), i))
            cmd = h.cmd(prop, budget, SEED, i, NPROC, out)
            procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=h.cwd(), env=h.env())))
        for out, p in procs:
            try:
                so, se = p.communicate(timeout=budget * 3 + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
                fails.append((h, None, 'a concrete execution did not finish within %d s' % (budget * 3 + 60)))
                continue
            try:
                j = json.loads(so.strip().split('\n')[-1])
                stats['n'] += j.get('n', 0)
                stats['distinct'] += j.get('distinct', 0)
                stats['samples'] += (j.get('samples') or [])[:3]
                if 'fail' in j:
                    fails.append((h, j['fail'], j['fail'].get('why', '')))
            except Exception:
                if p.returncode and p.returncode != 0:
                    # the real code brought the process down (a fault that cannot be recovered)
                    cur = h.current(out)
                    fails.append((h, cur, 'the process running the real code died: %s' % (se.strip()[-1500:])))
            for f in (out, out + '.cur'):
                if os.path.exists(f):
                    os.unlink(f)
    return stats, fails


def main():
    import registry
    pid = sys.argv[1]
    tier = TIER
    prop = registry.PROPS[pid]
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    try:
        units = prop.units(tier)
        hs = prop.harnesses()
        for h in hs:
            h.build()
    except BuildError as e:
        print('ERROR: cannot build the inputs of this check from /repo:\n' + str(e))
        return 2
    UNITS[:] = units
    with multiprocessing.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
        results = pool.map(dispatch, range(len(units)), chunksize=1)
    obls, failed, unsupported, bounded, errors = [], [], [], [], []
    trusted, inlined, funcs, assumed = set(prop.trusted), set(), set(), set()
    for r in results:
        if r.get('error'):
            errors.append((r['unit'], r['error']))
            continue
        if r.get('unsupported'):
            unsupported.append((r['unit'], r['unsupported']))
        obls += r['obls']
        for o in r['obls']:
            if o['status'] != 'proved':
                failed.append((r['unit'], o))
        bounded += [(r['unit'], b) for b in r.get('bounded', [])]
        trusted |= set(r.get('trusted', []))
        assumed |= set(r.get('assumed', []))
        inlined |= set(r.get('inlined', []))
        funcs |= set(r.get('funcs', []))
    for u, e in errors:
        log('unit %s: %s' % (u, e))
    if errors:
        for h in hs:
            h.clean()
        print('ERROR: the verifier failed internally on %s: %s' % (errors[0][0], errors[0][1].split('\n')[0]))
        return 2
    # search for a failing concrete input: hard when an obligation is open, a smoke test otherwise
    hard = bool(failed or unsupported or bounded)
    budget = (30 if failed else 25 if hard else 2) if tier == 'quick' else (240 if hard else 120)
    texts = list(dict.fromkeys(t for r in results for t in r.get('texts') or []))
    if texts:
        for h in hs:
            h.add_texts(texts)
    stats, fails = search(pid, hs, budget, 'x')
    findings = registry.known(pid)
    viol = []
    known = []
    n = 0
    for h, case, why in fails:
        k = [f for f in findings if h.matches(f, case, why)]
        if k:
            known.append((k[0], why))
            continue
        path = os.path.join(V, 'evidence', 'replay', '%s-%d.json' % (pid, n))
        json.dump(dict(case or {}, property=pid, how='%s -replay FILE (this file)' % h.describe(), why=why, failing_input=case,
                       failed_obligations=['%s: %s (%s)' % (u, o['name'], o['where']) for u, o in failed][:20]), open(path, 'w'), indent=1)
        viol.append((path, '', why))
        n += 1
        break
    for u, o in failed:
        k = [f for f in findings if f.get('obligation') and f['obligation'] == '%s: %s' % (u, o['name'])]
        if k:
            known.append((k[0], 'obligation %s' % o['name']))
            o['known'] = True
    openf = [(u, o) for u, o in failed if not o.get('known')]
    if openf and not viol:
        path = os.path.join(V, 'evidence', 'replay', '%s-obligation.json' % pid)
        json.dump(dict(property=pid, failed_obligations=[dict(unit=u, obligation=o['name'], where=o['where'], status=o['status'], verifier_output=o.get('model', '')) for u, o in openf][:40],
                       searched=dict(cases=stats['n'])), open(path, 'w'), indent=1)
        viol.append((path, ' no-failing-input-found', 'obligation not discharged: %s: %s (%s, %s)' % (openf[0][0], openf[0][1]['name'], openf[0][1]['where'], openf[0][1]['status'])))
    for h in hs:
        h.clean()
    proved = sum(1 for o in obls if o['status'] == 'proved')
    backends = {}
    for o in obls:
        backends[o.get('backend') or 'none'] = backends.get(o.get('backend') or 'none', 0) + 1
    level = prop.level
    cov = dict(obligations=len(obls), discharged=proved, checker_cmd=prop.checker_cmd, trusted_base=sorted(trusted),
               functions_under_contract=sorted(funcs), functions_inlined=sorted(inlined), units=[dict(unit=r['unit'], obligations=len(r['obls']), paths=r.get('paths'), seconds=round(r['wall'], 2), vacuity=r.get('vacuity')) for r in results],
               back_ends=backends, solver_seconds=round(sum(o.get('time', 0) for o in obls), 2),
               bounded_standins=['%s: %s' % b for b in bounded] + ['%s: outside the verifier\'s subset (%s); only the bounded concrete search below covers it' % b for b in unsupported] + prop.bounded,
               concrete_search=dict(note='executable contracts run on the real code; bounded, never counted as proof', **stats),
               evaluations=stats['n'], distinct_nontrivial=stats['distinct'], rule=prop.rule, samples=stats['samples'][:5] or ['none'],
               open_obligations=['%s: %s (%s, %s)' % (u, o['name'], o['where'], o['status']) for u, o in failed][:50],
               explanation=prop.note)
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=sorted(assumed) + prop.assumptions,
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, why in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', why)))
    # findings that hold on every run although the search need not hit them each time
    for f in findings:
        if not any(k is f for k, _ in known) and f.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    print('%s: %d/%d obligations discharged over %d units, %d functions under contract, %d concrete cases, %.1f s' % (pid, proved, len(obls), len(results), len(funcs), stats['n'], time.time() - T0))
    for u, w in unsupported:
        print('note: %s is outside the verifier\'s subset (%s): bounded stand-in' % (u, w))
    for u, w in bounded:
        print('note: %s: bounded: %s' % (u, w))
    if not obls and not prop.allow_empty:
        print('ERROR: no obligations were generated')
        return 2
    for path, suffix, why in viol[:1]:
        print(why[:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, suffix))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
