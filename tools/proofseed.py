#!/usr/bin/env python3
"""proofseed.py PROP [patch.diff]: runs only the deductive stage on a scratch copy of /repo with the patch applied."""
import sys, os, subprocess, tempfile, shutil, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
d = tempfile.mkdtemp(prefix='ps_')
try:
    for s in ('edpyt', 'edpyt_backend'):
        shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('*.so', '*.o', '__pycache__', 'build'))
    for p in sys.argv[2:]:
        subprocess.run(['patch', '-p1', '-s', '-i', os.path.abspath(p)], cwd=d, check=True)
    subprocess.run(['python3-vt', '-B', '-m', 'pyvc.run', prop, d, 'quick', '1', d + '/o.json'], cwd=H, check=False, env=dict(os.environ, PYTHONHASHSEED='0'))
    r = json.load(open(d + '/o.json'))
    o = r['obligations']
    print(prop, {k: sum(x['status'] == k for x in o) for k in ('discharged', 'refuted', 'undecided')}, 'groups', sum(x['time'] for x in r['groups']))
    for x in o:
        if x['status'] != 'discharged':
            print('  ', x['status'], x['name'], '|', x['detail'][:300])
    print('  functions:', r['functions'])
finally:
    shutil.rmtree(d)
