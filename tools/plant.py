#!/usr/bin/env python3
"""plant.py SPEC...: build and confirm seeded changes from spec files.

A spec file is: header lines "key: value" (id, property, needs, breaks), then
"--- edits" (python: sub(file, old, new)), then "--- demo" (Go test functions
named TestDemo*, in package go3mf_test unless the header says "pkg: <dir>").
Options: -n only confirm, do not run the check."""
import sys, os, re, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOWORK='off', GOSUMDB='off')
DEMO = '''#!/bin/bash
# Runs the test beside this file against the package in the working directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo.go.txt"}}' "$PWD/PKG" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run 'TestDemo' ./PKG
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def go(spec, check):
    s = open(spec).read()
    head, rest = s.split('--- edits\n', 1)
    edits, demo = rest.split('--- demo\n', 1)
    h = dict(re.findall(r'(?m)^(\w+): *(.*)$', head))
    pkg = h.get('pkg', '.')
    sc = '/tmp/plant_' + h['id']
    subprocess.run(['rm', '-rf', sc]); subprocess.run(['cp', '-a', '/repo', sc])
    def sub(f, a, b, n=1):
        p = sc + '/' + f; t = open(p).read()
        if a not in t: raise SystemExit('%s: no match in %s: %s' % (h['id'], f, a))
        open(p, 'w').write(t.replace(a, b, n))
    exec(edits, {'sub': sub})
    try:
        r = sh(['gofmt', '-l', '.'], sc)
        if r.stdout.strip(): print('gofmt:', r.stdout)
        patch = sh(['git', 'diff'], sc).stdout
        old = 0
        f = None
        for l in patch.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m: n = int(m.group(1)); continue
            if f and l.startswith('-') and not l.startswith('---'):
                b = sh(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], sc).stdout
                old += b.startswith('^')
                n += 1
            elif f and l.startswith(' '): n += 1
        if not old: print(h['id'], 'WARNING: changes no original line')
        r = sh('go build ./... && go test -vet=off -count=1 ./...', sc, shell=True)
        if r.returncode: print(h['id'], 'TESTS FAIL\n', '\n'.join(l for l in r.stdout.splitlines() if not l.startswith('ok'))[:3000]); return False
        d = V + '/seeded/' + h['id']
        os.makedirs(d, exist_ok=True)
        name = 'go3mf_test' if pkg == '.' else open([f'/repo/{pkg}/{x}' for x in os.listdir('/repo/'+pkg) if x.endswith('.go')][0]).read().split('\npackage ')[1].split()[0].strip() + '_test'
        open(d + '/demo.go.txt', 'w').write('package %s\n\n' % h.get('package', name) + demo)
        g = subprocess.run(['goimports', '-srcdir', '/repo/' + pkg + '/x.go', d + '/demo.go.txt'], env=ENV, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if g.returncode: print(g.stderr); return False
        open(d + '/demo.go.txt', 'w').write(g.stdout)
        open(d + '/demo.sh', 'w').write(DEMO.replace('PKG', pkg)); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': h['property'], 'needs': h['needs'], 'what_it_breaks': h['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = sh(['bash', d + '/demo.sh'], '/repo'); bad = sh(['bash', d + '/demo.sh'], sc)
        if good.returncode: print(h['id'], 'DEMO FAILS ON UNCHANGED\n', good.stdout[-2000:]); return False
        if bad.returncode == 0: print(h['id'], 'DEMO PASSES WITH CHANGE'); return False
        msg = 'confirmed'
        if 'build failed' in bad.stdout: print(bad.stdout[-2000:]); return False
        if check:
            assert not sh(['git', 'status', '--short'], '/repo').stdout.strip()
            a = sh(['git', 'apply', d + '/patch.diff'], '/repo')
            assert a.returncode == 0, a.stdout
            try:
                c = sh(['./run.sh', h['property']], V)
            finally:
                sh(['git', 'checkout', '--', '.'], '/repo')
            hit = c.returncode == 1 and ('VIOLATION property=' + h['property']) in c.stdout
            msg += ' CAUGHT' if hit else ' MISSED rc=%d' % c.returncode
            if not hit: msg += '\n' + c.stdout[-800:]
        print(h['id'], h['property'], msg, flush=True)
        return True
    finally:
        subprocess.run(['rm', '-rf', sc])
args = sys.argv[1:]
chk = '-n' not in args
for a in args:
    if a != '-n': go(a, chk)
