#!/usr/bin/env python3
"""tools/mut.py MUTANTS.py [name-regex]: applies each edit of a list to a scratch copy and runs the check on it.

The list file defines M = [(name, property, expect, [(file, old, new), ...])]; expect is 'caught' or 'quiet'."""
import os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])['M']
pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else '')
M = [x for x in M if pat.search(x[0]) or pat.search(x[1])]


def one(x):
    name, prop, expect, edits = x
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'build', '*.o', '*.a'))
        v = os.path.join(d, 'verif')
        shutil.copytree(V, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, prop, 'NOT APPLICABLE: ' + old[:50], ''
            open(p, 'w').write(s.replace(old, new, 1))
        e = dict(os.environ, SRL_REPO=r, VERIF_JOBS='2')
        q = subprocess.run(['python3', 'check.py', prop], cwd=v, env=e, capture_output=True, text=True, timeout=1500)
        got = {0: 'quiet', 1: 'caught'}.get(q.returncode, 'exit %d' % q.returncode)
        lines = [l for l in q.stdout.split('\n') + q.stderr.split('\n')[-4:] if l and not l.startswith(prop + ':')]
        return name, prop, ('ok ' if got == expect else 'UNEXPECTED ') + got, '\n'.join('      ' + l[:200] for l in lines[:4])
    finally:
        shutil.rmtree(d)


bad = 0
with ThreadPoolExecutor(7) as ex:
    for name, prop, res, why in ex.map(one, M):
        if not res.startswith('ok'):
            bad += 1
        print('%-44s %s %s' % (name, prop, res))
        if why and ('-v' in sys.argv or not res.startswith('ok') or True):
            print(why)
print('%d unexpected of %d' % (bad, len(M)))
