#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property on /repo's current working tree.

  check.py C05                 (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py C05 --replay FILE   re-runs the recorded input on the real code

Two stages run side by side on a scratch copy of /repo that is removed at the end:
  1. contracts/C05.py: verification conditions generated from the current source of the
     functions the property depends on, discharged by the back ends of pyvc;
  2. oracle/orc_C05.py: the same postconditions evaluated on the real, freshly built code
     (bounded stand-in; it also turns a failed obligation into a failing input).
Exit 0: every obligation of stage 1 that could be generated is discharged (the others are
reported as undecided and covered by the bounded stage 2 only) and stage 2 found nothing.
Exit 1: a failing input, or a refuted obligation.
"""
import sys, os, json, time, tempfile, shutil, subprocess, threading, traceback, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
NEED_BACKEND = {'C15', 'C16', 'C17'}
NO_EXT = {'C02', 'C03', 'C15', 'C16', 'C17'}
STALL = 240         # seconds without a new evaluation before a run counts as hanging
T0 = time.time()


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy_tree(root):
    ig = shutil.ignore_patterns('*.so', '*.o', '__pycache__', '*.pyc', 'build')
    shutil.copytree(os.path.join(REPO, 'edpyt'), os.path.join(root, 'edpyt'), ignore=ig)
    shutil.copytree(os.path.join(REPO, 'edpyt_backend'), os.path.join(root, 'edpyt_backend'), ignore=ig)


def build(root, prop):
    """compiles the current sources; returns an error text or None"""
    jobs = []
    inc = '-I/usr/include/pypy3.9 -I/opt/venv/lib/pypy3.9/site-packages/numpy/core/include -Iedpyt'
    ext = '.pypy39-pp73-x86_64-linux-gnu.so'

    def cy(name, extra):
        r = sh('/opt/venv/bin/cython --module-name edpyt._%s edpyt/%s.pyx -o edpyt/%s.c && gcc -O1 -fopenmp -ffast-math -fPIC -shared %s edpyt/%s.c %s '
               '-o edpyt/_%s%s -w' % (name, name, name, inc, name, extra, name, ext), root)
        return r.returncode and r.stdout

    def fit():
        d = os.path.join(root, 'edpyt_backend')
        src = [f for f in sorted(os.listdir(d)) if re.match(r'[a-z].*\.c$', f)]
        r = sh('gcc -O3 -funroll-loops -fpic -shared -w %s -o libfit.so -lm' % ' '.join(src), d)
        if r.returncode:
            return r.stdout
        if prop == 'C16':
            shutil.copy(os.path.join(HERE, 'oracle', 'asan_fit.c'), d)
            sh('gcc -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -I. asan_fit.c %s -o asan_fit -lm'
               % ' '.join(src), d)
    todo = []
    if prop in NEED_BACKEND:
        todo.append(fit)
    if prop not in NO_EXT:
        todo += [lambda: cy('psparse', 'edpyt/cs_gaxpy.c'), lambda: cy('continued_fraction', '')]
    err = []

    def run(f):
        try:
            e = f()
        except Exception as x:
            e = repr(x)
        if e:
            err.append(e)
    th = [threading.Thread(target=run, args=(f,)) for f in todo]
    [t.start() for t in th]
    [t.join() for t in th]
    return err[0] if err else None


def oracle(root, prop, tier, seed, res, replay=None):
    """runs the concrete stage; fills res"""
    out = os.path.join(root, 'oracle.json')
    e = build(root, prop)
    if e:
        res['error'] = 'build failed: ' + e[-2000:]
        return
    budget = 240 if tier == 'quick' else 1500
    cmd = [PYPY, '-B', os.path.join(HERE, 'oracle', 'runner.py'), '--prop', prop, '--root', root, '--tier', tier,
           '--seed', str(seed), '--out', out, '--budget', str(budget)]
    if replay:
        cmd += ['--replay', replay]
    env = dict(os.environ, OMP_NUM_THREADS='2', PYTHONDONTWRITEBYTECODE='1')
    log = open(os.path.join(root, 'oracle.log'), 'w')
    p = subprocess.Popen(cmd, cwd=root, stdout=log, stderr=subprocess.STDOUT, env=env)
    cur = out + '.cur'
    start = time.time()
    hang = False
    while p.poll() is None:
        time.sleep(0.1)
        last = max([start] + [os.path.getmtime(f) for f in (cur,) if os.path.exists(f)])
        if time.time() - last > STALL:
            hang = True
            p.kill()
            p.wait()
            break
    log.close()
    res['log'] = open(log.name, errors='replace').read()[-3000:]
    r = {}
    if os.path.exists(out):
        r = json.load(open(out))
    res.update(r)
    res.setdefault('fails', [])
    if not r.get('done'):
        c = json.load(open(cur)) if os.path.exists(cur) else None
        if hang:
            c = dict(c or {}, message='no result after %d s (the evaluation does not end)' % STALL)
        elif c:
            c = dict(c, message='the process died (exit status %s) in this evaluation' % p.returncode, traceback=res['log'][-1500:])
        else:
            res['error'] = 'the oracle did not start: ' + res['log'][-1500:]
            return
        if c.get('check') == 'import' and not hang:
            res['error'] = 'the code under test does not import: ' + res['log'][-1500:]
        res['fails'] = list(res['fails']) + [c]
    res['oracle_wall'] = time.time() - start


def known():
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    root = tempfile.mkdtemp(prefix='edpyt_%s_' % prop, dir='/tmp')
    try:
        copy_tree(root)
        res = {}
        if replay:
            oracle(root, prop, tier, seed, res, replay)
            print(json.dumps(res.get('fails'), indent=1))
            return 1 if res.get('fails') else 0
        th = threading.Thread(target=oracle, args=(root, prop, tier, seed, res))
        th.start()
        ctx = proof(root, prop, tier, seed)
        th.join()
        return report(prop, tier, seed, ctx, res)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def proof(root, prop, tier, seed):
    """runs contracts/<prop>.py in its own process (time and memory limits); returns its report"""
    f = os.path.join(HERE, 'contracts', prop + '.py')
    if not os.path.exists(f):
        return None
    out = os.path.join(root, 'proof.json')
    lim = 420 if tier == 'quick' else 1500
    try:
        p = subprocess.run([sys.executable, '-B', '-m', 'pyvc.run', prop, root, tier, str(seed), out], cwd=HERE, timeout=lim,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PYTHONHASHSEED='0'))
        txt = p.stdout
    except subprocess.TimeoutExpired as e:
        txt = 'time limit of %d s' % lim
    if os.path.exists(out):
        r = json.load(open(out))
    else:
        r = dict(obligations=[], functions=[], assumptions=[], done=False)
    if not r.get('done'):
        r['stage_error'] = txt[-2500:]
    return r


def report(prop, tier, seed, ctx, res):
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    if res.get('error') and not res.get('fails'):
        print('ERROR', prop, res['error'])
        return 2
    kn = [k for k in known() if k['property'] == prop]
    fails, listed = [], []
    for f in res.get('fails', []):
        m = [k for k in kn if k.get('check') == f.get('check') and k.get('inputs') == f.get('inputs')]
        (listed if m else fails).append((f, m))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    obl = ctx['obligations'] if ctx else []
    refuted = [o for o in obl if o['status'] == 'refuted']
    code = 0
    rp = os.path.join(ev, prop + '.replay.json')
    if fails:
        f = fails[0][0]
        json.dump(dict(property=prop, kind='failing input', check=f.get('check'), inputs=f.get('inputs'), message=f.get('message'),
                       traceback=f.get('traceback'), refuted_obligations=refuted[:5],
                       rerun='python3-vt /verif/check.py %s --replay %s' % (prop, rp)), open(rp, 'w'), indent=1, default=str)
        for f, _ in fails[:6]:
            print('  %s %s: %s' % (f.get('check'), json.dumps(f.get('inputs')), str(f.get('message'))[:600]))
        for o in refuted[:4]:
            print('  failed obligation %s: %s' % (o['name'], str(o.get('detail'))[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        code = 1
    elif refuted:
        json.dump(dict(property=prop, kind='failed obligation', obligations=refuted), open(rp, 'w'), indent=1, default=str)
        for o in refuted[:6]:
            print('  failed obligation %s: %s' % (o['name'], str(o.get('detail'))[:600]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        code = 1
    elif os.path.exists(rp):
        os.remove(rp)
    level = manifest_level(prop)
    cov = dict(evaluations=res.get('evaluations', 0), distinct_nontrivial=res.get('distinct', 0),
               rule='each evaluation runs the real code of the current tree on one input of the named sub-check and compares it '
                    'with an independent reference written from the statement; distinct by (sub-check, input)',
               samples=res.get('samples', [])[:8], per_check=res.get('per_check', {}), skipped_entry_points=res.get('skipped', []),
               oracle_truncated=bool(res.get('truncated')))
    assumptions = ['the concrete stage runs under PyPy with stand-ins for numba (decorators executed as plain Python), '
                   'scipy.optimize/interpolate/fftpack, traitlets, ase and matplotlib (oracle/shim)']
    if ctx:
        n = len(obl)
        d = sum(o['status'] == 'discharged' for o in obl)
        by = {}
        for o in obl:
            if o['status'] == 'discharged':
                by[o.get('backend', '?')] = by.get(o.get('backend', '?'), 0) + 1
        cov.update(obligations=n, discharged=d, undecided=[dict(name=o['name'], why=str(o.get('detail'))[:300]) for o in obl if o['status'] == 'undecided'],
                   by_back_end=by, solver_s=round(sum(o.get('time', 0) for o in obl), 2),
                   functions_under_contract=ctx.get('functions', []), bounded_functions=ctx.get('bounded', []),
                   obligation_samples=[dict(name=o['name'], function=o.get('function'), back_end=o.get('backend'), detail=str(o.get('detail', ''))[:200]) for o in obl[:12]],
                   vacuity_checks=ctx.get('vacuity', []),
                   checker_cmd='python3-vt -m pyvc.run %s <copy of /repo> %s %d out.json' % (prop, tier, seed),
                   trusted_base=['pyvc (source to verification conditions, canonical forms)', 'z3', 'cvc5'] + ctx.get('trusted', []))
        assumptions += ctx.get('assumptions', [])
        if ctx.get('stage_error'):
            cov['proof_stage_error'] = ctx['stage_error']
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - T0, 2), violations=len(fails) + (0 if fails else len(refuted))),
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    if ctx:
        und = [o['name'] for o in obl if o['status'] == 'undecided']
        print('%s: %d obligations, %d discharged, %d refuted, %d undecided; %d evaluations; %.1f s'
              % (prop, len(obl), sum(o['status'] == 'discharged' for o in obl), len(refuted), len(und), res.get('evaluations', 0), time.time() - T0))
        for u in und[:12]:
            print('  undecided (bounded check only): ' + u)
        if ctx.get('stage_error'):
            print('  proof stage: ' + ctx['stage_error'][-600:])
    else:
        print('%s: %d evaluations; %.1f s' % (prop, res.get('evaluations', 0), time.time() - T0))
    return code


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'exploration'


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
