"""tryedits.py FILE.py [name...]: applies each edit to a private copy of /repo, builds it and runs the checks named.
FILE.py defines EDITS = [(name, [(file, old, new)], [properties])]."""
import os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ISO = os.path.join(V, 'tools', 'iso.sh')


def one(e):
    name, edits, props = e
    tmp = tempfile.mkdtemp()
    try:
        work = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', work])
        if callable(edits):
            edits(work)
            edits = []
        for f, old, new in edits:
            p = os.path.join(work, f)
            s = open(p).read()
            if old is not None and s.count(old) < 1:
                return '%s: NO MATCH %r' % (name, old[:50])
            open(p, 'w').write(s.replace(old, new, 1) if old is not None else s + new)
        pf = os.path.join(tmp, 'p.diff')
        open(pf, 'w').write(subprocess.run(['git', '-C', work, 'diff'], capture_output=True, text=True).stdout)
        shutil.rmtree(work)
        r = subprocess.run([ISO, pf, 'bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        if r.returncode:
            return '%s: DOES NOT BUILD %s' % (name, r.stderr[-400:])
        out = []
        for q in props:
            r = subprocess.run([ISO, pf, V + '/bin/check', q], capture_output=True, text=True)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            n = [l for l in r.stdout.split('\n') if l.startswith('note:')]
            out.append('%s:%d%s%s' % (q, r.returncode, ' NFI' if v and 'no-failing' in v[0] else ' V' if v else '', ' B(%s)' % n[0][6:140] if n else ''))
            if r.returncode not in (0, 1) or r.returncode == 1 and not v:
                out.append((r.stdout + r.stderr)[-600:])
            elif r.returncode and os.environ.get('WHY'):
                out.append(r.stdout[-500:])
        return '%s | %s' % (name, ' '.join(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for r in ex.map(one, [e for e in g['EDITS'] if len(sys.argv) < 3 or any(x in e[0] for x in sys.argv[2:])]):
            print(r, flush=True)
