"""Runs one property's concrete oracle on the real code (PyPy, scratch copy).

usage: runner.py --prop C01 --root DIR --tier quick --seed 1 --out OUT.json [--replay FILE]
"""
import sys, os, json, time, argparse, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True


class Violation(Exception):
    pass


class NotHere(Exception):
    """the entry point this sub-check drives does not exist (any more)"""


class T:
    def __init__(self, prop, root, tier, seed, out, budget):
        self.prop, self.root, self.tier, self.seed, self.out = prop, root, tier, seed, out
        self.fails = []
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.skipped = []
        self.per = {}
        self.t0 = time.time()
        self.budget = budget
        self.thorough = tier == 'thorough'

    # -- reporting
    def cur(self, rec):
        with open(self.out + '.cur', 'w') as f:
            json.dump(rec, f)

    def run(self, fn, **inp):
        """one evaluation: fn(T, **inp) raises on violation"""
        name = fn.__name__
        if any(f['check'] == name for f in self.fails) and not self.thorough:
            return          # one witness per check is enough
        if self.over():
            return
        rec = dict(check=name, inputs=inp)
        self.cur(rec)
        try:
            fn(self, **inp)
        except NotHere as e:
            if str(e) not in self.skipped:
                self.skipped.append(str(e))
            return
        except Exception as e:
            rec['message'] = '%s: %s' % (type(e).__name__, str(e)[:1500])
            rec['traceback'] = traceback.format_exc()[-3000:]
            self.fails.append(rec)
            self.flush()
        self.evals += 1
        self.per[name] = self.per.get(name, 0) + 1
        k = json.dumps([name, inp], sort_keys=True, default=str)
        if k not in self.keys:
            self.keys.add(k)
            if self.per[name] <= 2 and len(self.samples) < 40:
                self.samples.append(dict(check=name, inputs=inp))

    def over(self):
        return time.time() - self.t0 > self.budget

    def flush(self, done=False):
        with open(self.out + '.tmp', 'w') as f:
            json.dump(dict(prop=self.prop, done=done, fails=self.fails, evaluations=self.evals,
                           distinct=len(self.keys), per_check=self.per, samples=self.samples,
                           skipped=self.skipped, wall_s=time.time() - self.t0,
                           truncated=self.over()), f, default=str)
        os.replace(self.out + '.tmp', self.out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--root'); ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--out')
    ap.add_argument('--replay'); ap.add_argument('--budget', type=float, default=200)
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(HERE, 'shim'))
    sys.path.insert(0, HERE)
    import bootstrap
    bootstrap.install(a.root)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    t = T(a.prop, a.root, a.tier, a.seed, a.out, a.budget)
    t.cur(dict(check='import', inputs={}))
    import common
    common.Violation, common.NotHere = Violation, NotHere
    mod = importlib.import_module('orc_' + a.prop)
    if a.replay:
        r = json.load(open(a.replay))
        t.run(getattr(mod, r['check']), **r['inputs'])
    else:
        mod.main(t)
    t.flush(done=True)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
