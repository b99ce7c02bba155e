"""Contexts: a Go module under verification with the contracts its functions carry."""
import os, json, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, 'build')
REPO = '/repo'


def goenv(mod=None):
    e = dict(os.environ)
    e.update(GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='1', GOTOOLCHAIN='local', CGO_LDFLAGS_ALLOW='-Wl,--wrap=.*')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    e['PATH'] = '/usr/local/go/bin:' + e.get('PATH', '')
    return e


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env or goenv(), capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('%s\n%s%s' % (' '.join(cmd), r.stdout[-3000:], r.stderr[-3000:]))
    return r.stdout


def ensure_gossa():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'gossa')
    src = [os.path.join(V, 'gossa', f) for f in ('main.go', 'go.mod')]
    if not os.path.exists(out) or any(os.path.getmtime(s) > os.path.getmtime(out) for s in src):
        tmp = out + '.%d' % os.getpid()
        run(['go', 'build', '-o', tmp, '.'], os.path.join(V, 'gossa'))
        os.replace(tmp, out)
    return out


def export(specdir, prefix, patterns, extra_env=None):
    g = ensure_gossa()
    out = os.path.join(BUILD, 'ssa-%d-%s.json' % (os.getpid(), hashlib.md5(specdir.encode()).hexdigest()[:6]))
    env = goenv()
    if extra_env:
        env.update(extra_env)
    run([g, '-dir', specdir, '-prefix', prefix, '-o', out] + patterns, specdir, env)
    try:
        return json.load(open(out))
    finally:
        os.unlink(out)


def build_harness(specdir, pkg, name, extra_env=None):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s-%d' % (name, os.getpid()))
    env = goenv()
    if extra_env:
        env.update(extra_env)
    run(['go', 'build', '-o', out, pkg], specdir, env)
    return out
