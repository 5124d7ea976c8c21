#!/usr/bin/env python3
"""proofmut.py PROP FILE OLD NEW [OLD NEW ...]: deductive stage on a scratch copy with textual replacements (development aid)."""
import sys, os, subprocess, tempfile, shutil, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, f = sys.argv[1:3]
d = tempfile.mkdtemp(prefix='pm_')
try:
    for s in ('edpyt', 'edpyt_backend'):
        shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('*.so', '*.o', '__pycache__', 'build'))
    t = open(d + '/' + f).read()
    a = sys.argv[3:]
    for o, n in zip(a[::2], a[1::2]):
        assert o in t, 'text not found: ' + o
        t = t.replace(o, n, 1)
    open(d + '/' + f, 'w').write(t)
    subprocess.run(['python3-vt', '-B', '-m', 'pyvc.run', prop, d, 'quick', '1', d + '/o.json'], cwd=H, check=False, env=dict(os.environ, PYTHONHASHSEED='0'))
    r = json.load(open(d + '/o.json'))
    o = r['obligations']
    print(prop, {k: sum(x['status'] == k for x in o) for k in ('discharged', 'refuted', 'undecided')}, 'groups', round(sum(x['time'] for x in r['groups']), 1))
    for x in o:
        if x['status'] != 'discharged':
            print('  ', x['status'], x['name'], '|', x['detail'][:300])
finally:
    shutil.rmtree(d)
