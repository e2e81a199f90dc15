#!/usr/bin/env python3
"""Runs the checker against small edits of a scratch copy of /repo.

usage: [JOBS=n] [KIND=ok|bug] [ONLY=ids] mutants.py [name-substring]...
Each entry of mutants/*.py is (name, check ids, expected, [(file, old, new)...]).
expected: 'bug' (exit 1 with the property's VIOLATION line for at least one of
the ids), 'ok' (every listed id quiet). Development aid: no check reads this.
"""
import glob, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
M = []
def bug(name, ids, *edits): M.append((name, ids.split(), 'bug', edits))
def ok(name, ids, *edits): M.append((name, ids.split(), 'ok', edits))
for f in sorted(glob.glob(os.path.join(here, 'mutants', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'bug': bug, 'ok': ok})
flt = sys.argv[1:]
jobs, part = int(os.environ.get('JOBS', '1')), os.environ.get('PART')
if jobs > 1 and part is None:
    ps = [subprocess.Popen([sys.executable, __file__] + flt, env=dict(os.environ, PART=str(i))) for i in range(jobs)]
    sys.exit(max(x.wait() for x in ps))
if part is not None:
    M = M[int(part)::jobs]
checker = os.environ.get('CHECKER', '/tmp/checker')
scratch = tempfile.mkdtemp(prefix='mut', dir='/tmp')
work = os.path.join(scratch, 'repo')
subprocess.check_call(['cp', '-a', '/repo', work])
env = dict(os.environ, VERIF_REPO=work, VERIF_DIR=os.path.join(scratch, 'v'), VERIF_SEED='1',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
os.makedirs(env['VERIF_DIR'])
shutil.copy('/verif/known_findings.txt', env['VERIF_DIR']) if os.path.exists('/verif/known_findings.txt') else None
bad = 0
try:
    for name, ids, exp, edits in M:
        if flt and not any(x in name or x in ids for x in flt):
            continue
        if os.environ.get('SKIP') and name in open(os.environ['SKIP']).read().split():
            continue
        if os.environ.get('KIND', exp) != exp:
            continue
        if os.environ.get('ONLY'):
            ids = os.environ['ONLY'].split()
        saved = {}
        err = None
        for f, old, new in edits:
            p = os.path.join(work, f)
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                err = 'pattern not found in %s: %r' % (f, old[:60]); break
            open(p, 'w').write(s.replace(old, new, 1))
        if not err:
            b = subprocess.run(['go', 'vet', '-tags', 'sqlite_fts5', './pkg/...', './cmd/...'] if os.environ.get('VET') else
                               ['go', 'build', '-tags', 'sqlite_fts5', '-o', '/dev/null', './cmd/...'], cwd=work,
                               env=dict(env, CGO_ENABLED='0', GOFLAGS='-mod=readonly', GOPROXY='off'), capture_output=True, text=True)
            if b.returncode:
                err = 'does not build: ' + b.stderr[:400]
        if not err:
            r = subprocess.run([checker] + ids, env=env, capture_output=True, text=True, errors="replace")
            viol = set(re.findall(r'VIOLATION property=(\S+)', r.stdout))
            if r.returncode not in (0, 1):
                err = 'exit %d %s' % (r.returncode, r.stderr[-300:])
            elif exp == 'bug' and not viol:
                err = 'MISSED'
            elif exp == 'ok' and viol:
                err = 'FALSE ALARM ' + '\n'.join(re.findall(r'property C\d+: .*?VIOLATION property=C\d+', r.stdout, re.S))[:5000]
        for p, s in saved.items():
            open(p, 'w').write(s)
        if err: bad += 1
        why = ''
        if not err and exp == 'bug':
            why = ' | '.join(sorted(set(re.findall(r'rule (\S+) (?:violated|not decided)', r.stdout))))
            if 'not decided' in r.stdout: why += ' (UNDECIDED)'
        print(('FAIL ' if err else 'ok   ') + exp.ljust(4), name, ','.join(ids), err or why, flush=True)
finally:
    shutil.rmtree(scratch)
print('failures:', bad)
sys.exit(1 if bad else 0)
