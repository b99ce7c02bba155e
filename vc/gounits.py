"""Units of deductive verification of Go functions: one contract, one case."""
import base64, time, json, os, traceback
from gomodels import *
import goexec2
import discharge as D
from goexec import Unsupported, short
import ctx


class GoContext:
    """one Go module with its specification module: exported once, in the parent process"""

    def __init__(self, specdir, prefix, patterns, contracts, setup, opts=None, env=None, roots=()):
        self.specdir = specdir
        self.prefix = prefix
        self.patterns = patterns
        self.mk = contracts            # () -> list of Contract; attribute entry: must exist
        self.setup = setup             # (Exec) -> None
        self.opts = opts or {}
        self.env = env
        self.roots = roots
        self.js = None
        self.prog = None

    def load(self):
        if self.js is None:
            self.js = ctx.export(self.specdir, self.prefix, self.patterns, self.env() if self.env else None)
        return self.js

    def program(self):
        """the program and the contracts that apply to the functions present"""
        if self.prog is None:
            p = Program(self.load())
            cs, dropped = self.resolve(p)
            roots = [c.fn for c in cs] + [c.post for c in cs] + [f for f in p.funcs if any(f == r or f.startswith(r + '.') or r in f and r.endswith('*') for r in self.roots)]
            p.build_sorts(roots)
            self.prog = (p, cs, dropped)
        return self.prog

    def sig(self, p, fn, recv=True):
        f = p.funcs[fn]
        return [p.types[x['type']]['str'] for x in f['params']], [p.types[x]['str'] for x in f['results']]

    def resolve(self, p):
        cs, dropped, taken = [], [], set()
        all_c = self.mk()
        names = {c.fn for c in all_c}
        for c in all_c:
            post = p.funcs.get(c.post)
            want = [p.types[x['type']]['str'] for x in post['params']]

            def fits(fn):
                a, r = self.sig(p, fn)
                return a + r == want
            if c.fn in p.funcs and fits(c.fn):
                cs.append(c)
                continue
            # the helper is gone: a recursive function of the same shape in the same package takes its contract
            pkg = c.fn.rsplit('.', 1)[0] + '.'
            cand = [f for f in p.funcs if f.startswith(pkg) and '$' not in f and f not in names and f not in taken and f in p.sccs() and fits(f)]
            if len(cand) == 1 and not getattr(c, 'entry', False):
                c.fn = cand[0]
                taken.add(cand[0])
                cs.append(c)
            else:
                dropped.append(c)
        return cs, dropped


class GoUnit:
    def __init__(self, context, cname, case=None, casename=None, alt=None, optional=False, opts=None):
        self.ctx = context
        self.cname = cname
        self.case = case
        self.name = cname + ('[%s]' % casename if casename else '')
        self.alt = alt              # units that cover this one when its function is inlined into its callers
        self.optional = optional
        self.opts = opts

    def run(self, tier, without=()):
        p, cs, dropped = self.ctx.program()
        r = dict(obls=[], paths=0, vacuity=None, bounded=[], unsupported=None, trusted=[], assumed=[], inlined=[], funcs=[])
        c = next((c for c in cs if c.name == self.cname), None)
        if c is None:
            r['unsupported'] = 'the function this contract is on is not there any more, or has another signature' if not self.optional else None
            r['vacuity'] = 'dropped: the function is verified inlined into its callers'
            return r
        use = [x for x in cs if x.name not in without]
        o = dict(self.ctx.opts)
        if self.opts:
            o.update(self.opts)
        ex = Exec(p, use, MODELS, opts=o)
        self.ctx.setup(ex)
        dl = 100 if tier == 'quick' else 400
        ex.deadline = time.time() + dl
        try:
            outs = verify_unit(ex, c, self.case, self.name)
        except Unsupported as e:
            r['unsupported'] = str(e)
            return r
        except RecursionError:
            r['unsupported'] = 'recursion too deep for the symbolic execution'
            return r
        except Exception as e:
            r['unsupported'] = 'the verification condition generator gave up: %s' % str(e)[:300]
            r['trace'] = traceback.format_exc()[-2500:]
            return r
        r['paths'] = len(outs)
        r['funcs'] = [short(c.fn)] + [short(f) for f in ex.used if not ex.isspec(f)]
        r['inlined'] = [short(f) for f in ex.inlined]
        r['trusted'] = sorted(set(TRUST.get(m, 'assumed contract of ' + short(m)) for m in ex.used_models if not m.startswith('verif/')))
        r['bounded'] = [str(b) for b in ex.bounded]
        nbad = 0
        t_end = time.time() + (150 if tier == 'quick' else 420)
        for ob in ex.obls:
            to = 10 if nbad < 2 else 3
            if tier == 'thorough':
                to *= 3
            if nbad >= 5 or time.time() > t_end:
                ob.status = 'not attempted'
                ob.backend = 'none'
            else:
                try:
                    if not D.discharge(ex, ob, timeout=to, use_cvc5=nbad < 2):
                        nbad += 1
                except Exception as e:
                    ob.status = 'unknown'
                    ob.model = 'solver error: %s' % str(e)[:200]
                    nbad += 1
            m = ''
            if ob.status != 'proved' and ob.model is not None:
                m = str(ob.model)[:3000]
            r['obls'].append(dict(name=ob.kind, where=ob.where, status=ob.status, backend=ob.backend, time=round(ob.time or 0, 3), model=m))
        # vacuity: the case is not contradictory and some return is reachable
        st0 = ex.entry[1]
        vac = []
        s = z3.Solver()
        s.set('timeout', 3000)
        for f in st0.formulas():
            s.add(f)
        e0 = s.check()
        vac.append('entry state %s' % e0)
        live = 0
        for oo in outs[:200]:
            s = z3.Solver()
            s.set('timeout', 500)
            for f in oo.state.formulas():
                if not has_quant(f):
                    s.add(f)
            if s.check() != z3.unsat:
                live += 1
        vac.append('%d of %d return paths satisfiable' % (live, len(outs)))
        r['vacuity'] = '; '.join(vac)
        if e0 == z3.unsat or live == 0 and not any(ob.status != 'proved' for ob in ex.obls):
            r['obls'].append(dict(name='canary: the contract is not vacuous', where=short(c.fn), status='refuted', backend='z3', time=0, model='; '.join(vac)))
        else:
            r['obls'].append(dict(name='canary: the contract is not vacuous', where=short(c.fn), status='proved', backend='z3', time=0, model=''))
        return r


def constants(js, pkgs):
    """string and number constants of the code under test, as a dictionary for the concrete search"""
    strs, nums = set(), set()

    def val(v):
        if isinstance(v, dict) and v.get('k') == 'const':
            if 'strb' in v:
                import base64
                x = base64.b64decode(v['strb'] or '').decode('utf8', 'replace')
                if len(x) < 40:
                    strs.add(x)
            elif 'int' in v or 'float' in v:
                from fractions import Fraction
                try:
                    nums.add(float(Fraction(v.get('int', v.get('float')))))
                except Exception:
                    pass
    for fn, f in js['funcs'].items():
        if not any(s in fn for s in pkgs):
            continue
        for b in f['blocks']:
            for i in b['instrs']:
                for v in i.values():
                    if isinstance(v, dict):
                        val(v)
                    elif isinstance(v, list):
                        for y in v:
                            val(y)
    return dict(str=sorted(strs)[:400], num=sorted(nums)[:200])


class GoHarness:
    def __init__(self, specdir, pkg, name, env=None, dict_from=None):
        self.specdir = specdir
        self.pkg = pkg
        self.name = name
        self._env = env
        self.dict_from = dict_from
        self.bin = None
        self.dictf = None

    def build(self):
        self.bin = ctx.build_harness(self.specdir, self.pkg, self.name, self._env() if self._env else None)
        if self.dict_from:
            d = constants(*self.dict_from())
            self.dictf = self.bin + '.dict.json'
            json.dump(d, open(self.dictf, 'w'))

    def cmd(self, prop, budget, seed, shard, n, out):
        c = [self.bin, '-prop', prop, '-budget', str(budget), '-seed', str(seed), '-shard', str(shard), '-shards', str(n), '-out', out]
        if self.dictf:
            c += ['-dict', self.dictf]
        return c

    def add_texts(self, texts):
        """inputs the verifier derived from obligations that failed; tried first"""
        d = json.load(open(self.dictf)) if self.dictf else {}
        d['texts'] = [base64.b64encode(t).decode() for t in texts]
        self.dictf = self.bin + '.dict.json'
        json.dump(d, open(self.dictf, 'w'))

    def cwd(self):
        return ctx.BUILD

    def env(self):
        e = ctx.goenv()
        e['TZ'] = 'UTC'
        return e

    def current(self, out):
        try:
            return json.load(open(out + '.cur'))
        except Exception:
            return None

    def matches(self, finding, case, why):
        return False

    def describe(self):
        return 'cd %s && go build -o H %s && ./H' % (self.specdir, self.pkg)

    def clean(self):
        for f in (self.bin, self.dictf):
            if f and os.path.exists(f):
                os.unlink(f)
