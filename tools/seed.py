#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py, and confirms each change in
a scratch copy: it applies, builds, passes the stable tests, its demonstration
tells the two trees apart, and prints which checks report it.

usage: seed.py [-n] id...      (-n: only the checks are run again)
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
S = {}
def seed(id, prop, needs, breaks, edits, pkg, test, name='TestDemo', timeout=120):
    assert id not in S, id
    S[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, name=name, timeout=timeout)
G = {'seed': seed}
for f in sorted(glob.glob(os.path.join(here, 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), G)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package %(pkg)s of the repository (through an overlay).
dir="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
export TMPDIR="$scratch"
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$dir/demo_test.go" > "$scratch/overlay.json"
go test -vet=off -count=1 -timeout %(timeout)ss -tags sqlite_fts5 -overlay "$scratch/overlay.json" -run '^%(name)s$' "./%(pkg)s"
'''
args = sys.argv[1:]
only = '-n' in args
args = [a for a in args if a != '-n'] or sorted(S)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('pass', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
scratch = tempfile.mkdtemp(prefix='seed', dir='/tmp'); work = os.path.join(scratch, 'repo')
subprocess.check_call(['cp', '-a', '/repo', work])
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOPROXY='off', GOFLAGS='-mod=readonly', GOTOOLCHAIN='local')
def run(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
try:
    for id in args:
        s = S[id]; d = os.path.join(root, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        run(['git', '-C', work, 'checkout', '-q', '--', '.'])
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(work, f); t = open(p).read()
            if t.count(old) != 1: bad = 'pattern found %d times in %s: %r' % (t.count(old), f, old[:70]); break
            open(p, 'w').write(t.replace(old, new))
        if bad: print(id, 'FAIL', bad); continue
        run(['gofmt', '-l', work])
        diff = run(['git', '-C', work, 'diff']).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % s); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo_test.go'), 'w').write(s['test'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        res = []
        if not only:
            b = run(['go', 'build', '-tags', 'sqlite_fts5', './...'], cwd=work, env=dict(env, CGO_ENABLED='1'))
            if b.returncode: print(id, 'FAIL does not build', b.stderr[:500]); continue
            dm = run(['bash', os.path.join(d, 'demo.sh')], cwd=work, env=env)
            res.append('demo-patched=%d' % dm.returncode)
            if dm.returncode == 0: res.append('FAIL(demo passes with the patch)')
            elif '[build failed]' in dm.stdout or 'setup failed' in dm.stdout: res.append('FAIL(demo build) ' + (dm.stdout + dm.stderr)[:800])
            else: res.append(' / '.join(l.strip() for l in dm.stdout.splitlines() if '_test.go:' in l or 'panic' in l)[:200])
            t = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '2m', '-tags', 'sqlite_fts5', './cmd/...', './pkg/...'], cwd=work, env=dict(env, CGO_ENABLED='1', TMPDIR=scratch))
            fails = sorted(set(re.findall(r'"Action":"fail","Package":"([^"]*)","Test":"([^"]*)"', t.stdout)))
            subprocess.run("find /tmp -maxdepth 1 -type f \\( -name 'test-index*' -o -name 'test-stream*' \\) -delete", shell=True)
            res.append('tests:' + (str(fails[:3]) if fails else 'pass') + (' FAIL' if fails else ''))
            c = run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', env=env)
            res.append('demo-clean=%d' % c.returncode)
            if c.returncode: res.append('FAIL ' + (c.stdout + c.stderr)[:800])
        v = os.path.join(scratch, 'v'); os.makedirs(v, exist_ok=True)
        if os.path.exists('/verif/known_findings.txt'): shutil.copy('/verif/known_findings.txt', v)
        k = run(['/tmp/checker', 'all'], env=dict(env, VERIF_REPO=work, VERIF_DIR=v))
        got = sorted(set(re.findall(r'VIOLATION property=(\S+)', k.stdout)))
        res.append('caught by ' + ','.join(got) if s['prop'] in got else 'MISSED (others: %s)' % ','.join(got))
        print(id, s['prop'], '; '.join(res), flush=True)
finally:
    shutil.rmtree(scratch)
