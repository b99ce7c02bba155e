"""plant.py FILE.py [name...]: turn bug descriptions into seeded/<id>/ and confirm them in a private copy of /repo.
FILE.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], mod, pkg, demo=go test source)]."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ISO = os.path.join(V, 'tools', 'iso.sh')
DEMO6 = '''#!/bin/bash
# runs the test beside this file inside %(mod)s/%(pkg)s of the current tree
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 GOFLAGS=%(flags)s
root=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$root/%(mod)s/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/o.json"
%(pre)scd "$root/%(mod)s" || exit 3
go test %(modfile)s-overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' ./%(pkg)s
'''


def make(b):
    d = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    work = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', work])
    ok = True
    if b.get('gen'):
        b['gen'](work)
    for f, old, new in b.get('edits', []):
        p = os.path.join(work, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'edit matches', s.count(old), 'times:', f, repr(old[:60]))
            shutil.rmtree(tmp)
            shutil.rmtree(d)
            return
        open(p, 'w').write(s.replace(old, new))
    files = sorted({e[0] for e in b.get('edits', [])})
    for f in files:
        if f.endswith('.go'):
            subprocess.run(['gofmt', '-l', os.path.join(work, f)])
    patch = subprocess.run(['git', '-C', work, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    mod = b.get('mod', 'v6')
    sub = dict(mod=mod, pkg=b['pkg'], flags='-mod=readonly', pre='', modfile='')
    if mod != 'v6':
        shutil.copy('/opt/vp/gomod/%s/go.sum' % mod, os.path.join(d, 'go.sum'))
        sub.update(flags='-mod=mod', pre='cp "$root/%s/go.mod" "$t/go.mod" && cp "$here/go.sum" "$t/go.sum"\n' % mod, modfile='-modfile="$t/go.mod" ')
    open(os.path.join(d, 'demo_test.go.txt'), 'w').write(b['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO6 % sub)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    shutil.rmtree(tmp)
    r0 = subprocess.run([ISO, '-', 'bash', os.path.join(d, 'demo.sh')], capture_output=True, text=True)
    r = subprocess.run([ISO, os.path.join(d, 'patch.diff'), 'bash', '-c', 'bash /opt/vp/build.sh >/tmp/iso/b.log 2>&1 || { echo BUILD; tail -5 /tmp/iso/b.log; exit 9; }; bash /opt/vp/test.sh /tmp/iso/r.json >/dev/null 2>&1; cat /tmp/iso/r.json; echo; echo ====; bash %s; echo "rc=$?"' % os.path.join(d, 'demo.sh')], capture_output=True, text=True)
    try:
        js = json.loads(r.stdout.split('\n====')[0])
        passed = set(js.get('passed', []))
        missing = [t for t in base if t not in passed]
    except Exception as e:
        missing = ['?? %r' % e]
    rc1 = r.stdout.strip().rsplit('rc=', 1)[-1]
    good = r0.returncode == 0 and rc1 not in ('0',) and not missing and 'FAIL' in r.stdout
    print(b['id'], 'OK' if good else 'BAD', 'demo clean=%d patched=%s' % (r0.returncode, rc1), 'tests broken: %d %s' % (len(missing), missing[:2]), flush=True)
    if not good:
        print(r0.stdout[-600:], r0.stderr[-300:], r.stdout.split('====')[-1][-800:], r.stderr[-500:])


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(make, [b for b in g['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]))
