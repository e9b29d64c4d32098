#!/usr/bin/env python3
"""Development aid: apply textual mutants / refactorings to a scratch copy of
/repo and show which checks report. usage: mut.py FILE [name-substring] [-p PROPS] [-v] [-t]"""
import sys, os, shutil, subprocess, importlib.util, concurrent.futures as cf, tempfile
CH = os.environ.get('TCHECK', '/tmp/tcheck')
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off')
def run(m, props, verbose, dotest):
    name, kind, expect, edits = m
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if old is None:
                open(p, 'w').write(new); continue
            if s.count(old) < 1: return name, kind, 'NOMATCH %s: %r' % (f, old), []
            open(p, 'w').write(s.replace(old, new, 1))
        b = subprocess.run(['go', 'vet', './encoding/...', './thrift/...', './tools/...', './internal/...'], cwd=d, env=ENV, capture_output=True, text=True)
        note = ''
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode: return name, kind, 'NOBUILD ' + b.stderr[:300], []
        if dotest:
            t = subprocess.run(['go', 'test', './...'], cwd=d, env=ENV, capture_output=True, text=True)
            note = '' if t.returncode == 0 else ' TESTS-FAIL'
        hit = []
        out = os.path.join(d, '.out')
        r = subprocess.run([CH, '-property', props, '-repo', d, '-out', out], env=ENV, capture_output=True, text=True)
        lines = (r.stdout + r.stderr).splitlines()
        hit = [l.split('property=')[1].split()[0] for l in lines if l.startswith('VIOLATION')]
        det = lines if verbose else []
        und = [l.split('property=')[1].split()[0] for l in lines if 'undecided=' in l and 'undecided=0' not in l]
        if und: note += ' undecided:' + ','.join(und)
        if sum(l.startswith(('OK','VIOLATION')) for l in lines) < len(props.split(',')): note += ' NOOUTPUT ' + ' '.join(lines[-3:])
        return name, kind, ','.join(hit) + note, det
    finally:
        shutil.rmtree(d)
def main():
    a = sys.argv[1:]; props = 'all'; verbose = '-v' in a; dotest = '-t' in a
    a = [x for x in a if x not in ('-v', '-t')]
    if '-p' in a:
        i = a.index('-p'); props = a[i+1]; del a[i:i+2]
    spec = importlib.util.spec_from_file_location('m', a[0]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    ms = [m for m in mod.MUTANTS if len(a) < 2 or a[1] in m[0]]
    with cf.ThreadPoolExecutor(3) as ex:
        for m, r in zip(ms, ex.map(lambda m: run(m, props, verbose, dotest), ms)):
            name, kind, hit, det = r
            exp = m[2]
            hs = set(hit.split(' ')[0].split(',')) - {''}
            good = (not hs and 'NO' not in hit) if kind == 'ok' else bool(hs) and 'NO' not in hit
            print(('  ' if good else '!!'), kind, name, '->', hit or '-', '' if not exp else '(expect %s)' % exp)
            for l in det: print('      ', l[:600])
main()
