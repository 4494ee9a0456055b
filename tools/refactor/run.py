#!/usr/bin/env python3
# run.py [-p P01,P02] name...: apply each behaviour-preserving edit to a scratch copy, run the
# repository's tests and the quick checks there; nothing may be reported.
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(__file__))
from refs import REFS
import refs2, refs3
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = open(V + '/tools/claimed.txt').read().split()
args = sys.argv[1:]
if args and args[0] == '-p':
    props = [x for x in args[1].split(',') if x]; args = args[2:]
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
names = list(args or REFS)
if names[0] == '-c':  # everything which can be combined in one tree, then the rest in another...
    todo, groups = [(n, REFS[n]) for n in (names[1:] or REFS)], []
    while todo:
        tree, g, rest = {}, [], []
        for n, es in todo:
            t2 = dict(tree)
            for f, old, new in es:
                if f not in t2: t2[f] = open('/repo/' + f).read() if os.path.exists('/repo/' + f) else ''
                if old not in t2[f]: break
                t2[f] = t2[f].replace(old, new, 1)
            else:
                tree = t2; g += [(n, es)]; continue
            rest.append((n, es))
        if not g: print('NOMATCH', [n for n, _ in rest]); break
        groups.append(g); todo = rest
    names = []
    for g in groups:
        n = '+'.join(n for n, _ in g); names.append(n); REFS[n] = [e for _, es in g for e in es]
for name in names:
    d = tempfile.mkdtemp(prefix='refac.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, old, new in REFS[name]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) < 1:
                print('NOMATCH', name, f, repr(old[:60])); continue
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        r = subprocess.run(['go', 'vet', './...'], cwd=d, env=env, capture_output=True, text=True)
        if 'vet:' in r.stderr or r.returncode: print('VET', name, r.stderr[:600])
        r = subprocess.run(['go', 'test', './...'], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode: print('TESTS', name, r.stdout[-800:], r.stderr[-500:]); continue
        for p in props:
            r = subprocess.run([V + '/check.sh', p, 'quick'], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            last = (r.stdout.strip().splitlines() or [''])[-1]
            print('quiet' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, name, p, last, flush=True)
            if r.returncode: print(r.stdout[:1500], r.stderr[-500:])
    finally:
        shutil.rmtree(d)
