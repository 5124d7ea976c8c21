#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seedspecs.py and checks every change in a scratch copy:
patched tree builds, passes the stable tests, demo fails with the change and passes without.
  mkseed.py [id ...]   (all specs when no id is given)"""
import sys, os, shutil, subprocess, json, difflib, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF); sys.path.insert(0, HERE)
import seedspecs, check
REPO = '/repo'
DEMO_SH = '#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\nexec /opt/venv/bin/python -B "$d/demo.py"\n'
HEAD = '''import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, 'shim'))
sys.path.insert(0, D)
from bootstrap import install
install(os.getcwd())
sys.path.insert(0, D)
import numpy as np
import ref
'''
C_HEAD = '''import os, sys, subprocess, tempfile, shutil
'''


def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def demo(d, root):
    return sh('bash %s/demo.sh' % d, root)


def main():
    ids = sys.argv[1:] or [s['id'] for s in seedspecs.SEEDS]
    base = tempfile.mkdtemp(prefix='seedbase_', dir='/tmp')
    shutil.copytree(REPO, base + '/r', ignore=shutil.ignore_patterns('.git'))
    orig = sh('git -C /repo rev-list --max-parents=0 HEAD', '/').stdout.split()[0]
    bad = []
    for s in seedspecs.SEEDS:
        if s['id'] not in ids:
            continue
        out = os.path.join(VERIF, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        r = w + '/r'
        shutil.copytree(base + '/r', r)
        patch = ''
        for f in sorted(set(e[0] for e in s['edits'])):
            txt = src = open(os.path.join(REPO, f)).read()
            for e in s['edits']:
                if e[0] == f:
                    assert txt.count(e[1]) == 1, (s['id'], f, txt.count(e[1]), e[1])
                    txt = txt.replace(e[1], e[2])
            open(os.path.join(r, f), 'w').write(txt)
            # removed lines must be lines of the original commit
            o = sh('git -C /repo show %s:%s' % (orig, f), '/').stdout.split('\n')
            for l in difflib.unified_diff(src.split('\n'), txt.split('\n'), lineterm='', n=0):
                if l.startswith('-') and not l.startswith('---') and l[1:] not in o:
                    print(s['id'], 'CHANGES A FIX LINE:', l)
                    bad.append(s['id'])
        g = sh('git diff --no-index --no-color /repo/edpyt %s/edpyt; git diff --no-index --no-color /repo/edpyt_backend %s/edpyt_backend' % (r, r), w).stdout
        g = g.replace('a/repo/', 'a/').replace('b' + r + '/', 'b/').replace('a' + r + '/', 'a/').replace('b/repo/', 'b/')
        # keep text hunks of the edited files only
        parts = re.split(r'(?m)^(?=diff --git )', g)
        patch = ''.join(p for p in parts if any(('b/' + e[0]) in p.split('\n')[0] for e in s['edits']))
        open(out + '/patch.diff', 'w').write(patch)
        a = sh('git -C /repo apply --check %s/patch.diff' % out, '/')
        if a.returncode:
            print(s['id'], 'patch does not apply', a.stdout); bad.append(s['id'])
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        open(out + '/demo.py', 'w').write(HEAD + s['demo'])
        shutil.copytree(VERIF + '/oracle/shim', out + '/shim', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(VERIF + '/oracle/common.py', out + '/ref.py')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        # build
        for x in ('edpyt', 'edpyt_backend'):
            sh('rm -f *.so', r + '/' + x)
        e = check.build(r, 'C15')
        saved = check.NO_EXT; check.NO_EXT = set()
        e = e or check.build(r, 'C07'); check.NO_EXT = saved
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_continued_fraction.py tests/test_integrate_gf.py tests/test_psparse.py tests/test_transpose.py 2>&1 | tail -3', r)
        d0 = demo(out, base + '/r')
        d1 = demo(out, r)
        ok = not e and ' passed' in t.stdout and 'failed' not in t.stdout and d0.returncode == 0 and d1.returncode != 0
        print(s['id'], s['property'], 'OK' if ok else 'BAD', 'build:', e, 'tests:', t.stdout.strip().split('\n')[-1], 'demo', d0.returncode, d1.returncode, d1.stdout.strip().split('\n')[-1][:150])
        if not ok:
            print(d0.stdout[-600:] if d0.returncode else '', t.stdout[-500:] if 'failed' in t.stdout else '')
            bad.append(s['id'])
        shutil.rmtree(w)
    shutil.rmtree(base)
    print('BAD:', bad)


main()
