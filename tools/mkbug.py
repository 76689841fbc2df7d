#!/usr/bin/env python3
"""Makes seeded/<id>/ from a description on stdin (Python dict literal) and
confirms it in a scratch copy: compiles, stable tests pass, demo passes on the
clean copy and fails on the patched one.

keys: id, property, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test
source with TestDemo), extra={name: text}, race(optional)"""
import ast, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = '. /opt/vp/env.sh; '
DEMO = '''#!/bin/bash
# %s
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
export TMPDIR="$t"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./%s
'''

def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    skip = '--notests' in sys.argv
    b = eval(sys.stdin.read())
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkbug-')
    r = os.path.join(t, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    open(d + '/demo_test.go', 'w').write(b['demo'].lstrip())
    sh('gofmt -w ' + d + '/demo_test.go', '/')
    open(d + '/demo.sh', 'w').write(DEMO % (b['breaks'].replace('\n', ' '), b['pkg'], b['pkg']))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    x = sh('bash %s/demo.sh' % d, r)
    if x.returncode != 0:
        print('demo FAILS on the clean copy\n' + x.stdout[-3000:]); ok = False
    for f, old, new in b['edits']:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            print('edit matches %d times in %s: %r' % (s.count(old), f, old)); ok = False; continue
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    x = sh('go build ./...', r)
    if x.returncode != 0:
        print('does not compile\n' + x.stdout[-2000:]); ok = False
    x = sh('bash %s/demo.sh' % d, r)
    if x.returncode == 0:
        print('demo PASSES with the bug'); ok = False
    else:
        print('demo says: ' + '\n'.join(l for l in x.stdout.splitlines() if 'demo_test.go' in l or 'panic' in l)[:600])
    if ok and not skip:
        x = sh('go test -json -vet=off -count=1 -timeout 5m ./...', r)
        passed = set()
        for l in x.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'):
                passed.add(e['Package'] + '/' + e['Test'])
        miss = [s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if s not in passed]
        if miss:
            print('stable tests fail:', miss); ok = False
    shutil.rmtree(t)
    print(b['id'], 'OK' if ok else 'NOT OK')
    sys.exit(0 if ok else 1)
main()
