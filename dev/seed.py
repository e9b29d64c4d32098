#!/usr/bin/env python3
"""Writes and validates the planted bugs of dev/seeds.py as /verif/seeded/<id>/.
usage: seed.py [id-substring]"""
import sys, os, shutil, subprocess, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
BASE = 'a4aa997'
DEMO = '''#!/bin/bash
# runs the demonstration as an extra test of the package; nothing is written outside a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 3
trap 'rm -r "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$tmp/zz_demo_test.go" > "$tmp/overlay.json"
timeout 120 go test -vet=off -count=1 -timeout 60s -overlay "$tmp/overlay.json" -run '^TestDemo$' "./%(pkg)s"
'''
def sh(cmd, cwd): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
def one(s):
    d = os.path.join(ROOT, 'seeded', s['id'])
    t = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        sh(['git', 'clone', '-q', '/repo', t + '/r'], '/')
        r = t + '/r'
        for f, old, new in s['edits']:
            p = os.path.join(r, f); x = open(p).read()
            if x.count(old) != 1: return 'MATCHES %d: %r' % (x.count(old), old)
            # the lines changed must be the original repository's
            open(p, 'w').write(x.replace(old, new))
        diff = sh(['git', 'diff'], r).stdout
        # removed lines
        for f in {e[0] for e in s['edits']}:
            orig = sh(['git', 'show', BASE + ':' + f], '/repo').stdout.split('\n')
            cur = None
            for l in sh(['git', 'diff', '--', f], r).stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in orig:
                    return 'NOT-ORIGINAL ' + l
        if not any(l.startswith('-') and not l.startswith('---') for l in diff.split('\n')): return 'ONLY ADDS LINES'
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go.txt', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s['pkg']}); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        x = sh(['go', 'build', './...'], r)
        if x.returncode: return 'NOBUILD ' + x.stderr[:300]
        x = sh(['go', 'test', './...'], r)
        if x.returncode: return 'TESTS-FAIL ' + x.stdout[-600:]
        shutil.copytree(d, t + '/d')
        x = sh(['bash', t + '/d/demo.sh'], r)
        if x.returncode == 0: return 'DEMO PASSES WITH PATCH ' + x.stdout[-300:]
        bad = x.stdout[-1200:] + x.stderr[-300:]
        if '--- FAIL: TestDemo' not in bad and 'panic' not in x.stdout: return 'DEMO BROKEN ' + bad
        sh(['git', 'checkout', '-q', '--', '.'], r)
        x = sh(['bash', t + '/d/demo.sh'], r)
        if x.returncode: return 'DEMO FAILS CLEAN ' + x.stdout[-800:] + x.stderr[-300:]
        # caught?
        sh(['git', 'apply', d + '/patch.diff'], r)
        x = sh([os.environ.get('TCHECK', '/tmp/tcheck'), '-property', s['property'], '-repo', r, '-out', t + '/out'], r)
        return 'caught' if 'VIOLATION property=' + s['property'] in x.stdout else 'MISSED'
    finally:
        shutil.rmtree(t)
def main():
    g = {}
    for f in sorted(os.listdir(os.path.join(ROOT, 'dev'))):
        if f.startswith('seeds') and f.endswith('.py'):
            exec(open(os.path.join(ROOT, 'dev', f)).read(), g)
    for s in g['SEEDS']:
        if len(sys.argv) > 1 and not any(a in s['id'] for a in sys.argv[1:]): continue
        print(s['id'], s['property'], one(s), flush=True)
main()
