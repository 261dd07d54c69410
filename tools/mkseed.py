#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ID...]: makes /verif/seeded/<id> from descriptions of
planted bugs (id, property, needs, breaks, edits [(file, old, new)], lib, pkg,
test) and confirms each in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = '7408c75'
W = '/tmp/seedrepo'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
SH = '''#!/bin/bash
# run in the root of the repository: 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap '/bin/rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/local/go/bin:$PATH
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -run '^TestDemo$' -count=1 -timeout 120s ./%(pkg)s
'''
def sh(cmd, cwd=W, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def tests():
    r = sh('go test -json -vet=off -count=1 ./...')
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add((e['Package'], e['Test']))
    return ok
def main():
    ns = runpy.run_path(sys.argv[1]); seeds = ns['SEEDS']; only = sys.argv[2:]
    if os.path.exists(W): shutil.rmtree(W)
    sh('git clone -q /repo ' + W, cwd='/tmp')
    base = tests(); print(len(base), 'tests pass')
    for s in seeds:
        if only and s['id'] not in only: continue
        d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        pkg = s.get('pkg', 'detour'); lib = open(os.path.join(HERE, 'seedlib', s.get('lib', pkg.replace('/', '_')) + '.go')).read()
        open(d + '/demo_test.go.txt', 'w').write(lib + '\n' + s['test'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(SH % {'pkg': pkg}); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh('git checkout -q -- .')
        r0 = sh('bash %s/demo.sh' % d)
        bad = []
        for f, o, n in s['edits']:
            t = open(W + '/' + f).read()
            if t.count(o) != 1: bad.append('edit %r occurs %d times' % (o, t.count(o))); continue
            open(W + '/' + f, 'w').write(t.replace(o, n))
        p = sh('git diff').stdout
        open(d + '/patch.diff', 'w').write(p)
        # only lines of the original repository
        cur = None; ln = 0
        for l in p.splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-'):
                b = sh('git blame -l -L %d,%d HEAD -- %s' % (ln, ln, cur)).stdout
                if not b.lstrip('^').startswith(BASE): bad.append('not original: ' + l)
                ln += 1
            elif not l.startswith('+') and not l.startswith('\\'): ln += 1
        if sh('go build ./...').returncode: bad.append('does not build')
        miss = base - tests()
        r1 = sh('bash %s/demo.sh' % d)
        if r0.returncode: bad.append('demo fails without the change:\n' + r0.stdout[-1500:])
        if miss: bad.append('tests fail: %s' % miss)
        if r1.returncode == 0: bad.append('demo passes with the change')
        elif 'build failed' in r1.stdout: bad.append('demo does not build: ' + r1.stdout[-800:])
        print(s['id'], 'ok' if not bad else bad, r1.stdout.strip().splitlines()[0][:150] if r1.stdout.strip() else '')
        sys.stdout.flush()
    shutil.rmtree(W)
main()
