"""python -m pyvc.run <prop> <root> <tier> <seed> <out.json>: runs the contract groups of a property."""
import sys, os, json, time, importlib, traceback, signal, multiprocessing as mp
sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


def one(args):
    prop, k, root, tier, seed = args
    import threading
    res = {}

    def go():
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        except Exception:
            pass
        from . import vc as V
        from .interp import Unsupported, PyExc
        from .loops import Unmergeable
        importlib.import_module('contracts.' + prop)
        name, fn, limit, tiers, f = V.GROUPS[k]
        t = time.time()
        g = V.G(name, fn, root, tier, seed)

        def alarm(*a):
            raise Limit('time limit of %d s' % limit)
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(limit if tier == 'quick' else 4 * limit)
        err = None
        try:
            f(g)
        except (Unsupported, Unmergeable, Limit, V.PathExc, RecursionError, MemoryError) as e:
            err = '%s: %s' % (type(e).__name__, e)
        except PyExc as e:
            err = 'exception on the symbolic path: %s' % (e,)
        except Exception as e:
            err = 'engine: ' + traceback.format_exc()[-650:]
        finally:
            signal.alarm(0)
        if err:
            g.add('symbolic execution reaches the postcondition', 'undecided', '', 0., err)
        elif not g.obl:
            g.add('at least one obligation', 'undecided', '', 0., 'the group generated no obligation')
        seen = set()
        for I in g.interps:
            seen |= I.seen
        good = all(o['status'] == 'discharged' for o in g.obl)
        res.update(obligations=g.obl, functions=sorted(seen) + g.extra if good else [], assumptions=g.assumptions, vacuity=g.vacuity,
                   bounded=g.bounded, time=time.time() - t, solver=g.S.time, name=name)
    go()
    return res


def main():
    prop, root, tier, seed, out = sys.argv[1:6]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from . import vc as V
    importlib.import_module('contracts.' + prop)
    jobs = [(prop, k, root, tier, int(seed)) for k, g in enumerate(V.GROUPS) if tier in g[3]]
    tot = dict(obligations=[], functions=set(), assumptions=[], vacuity=[], bounded=[], groups=[], trusted=TRUSTED, done=False)
    ctx = mp.get_context('fork')
    with ctx.Pool(5, maxtasksperchild=1) as pool:
        for j, r in zip(jobs, pool.imap(one, jobs, chunksize=1)):
            tot['obligations'] += r['obligations']
            tot['functions'] |= set(r['functions'])
            for k in ('assumptions', 'vacuity', 'bounded'):
                tot[k] += [x for x in r[k] if x not in tot[k]]
            tot['groups'].append(dict(name=r['name'], time=round(r['time'], 2), solver=round(r['solver'], 2)))
            if os.environ.get('PYVC_V'):
                print('%-60s %6.1f s' % (r['name'], r['time']))
                for o in r['obligations']:
                    print('    %-10s %s  (%s, %.1fs) %s' % (o['status'], o['name'][len(r['name']) + 2:], o['backend'], o['time'],
                                                    '' if o['status'] == 'discharged' else o['detail']))
    if not jobs:
        raise SystemExit('no contract groups')
    tot['functions'] = sorted(tot['functions'])
    tot['done'] = True
    json.dump(tot, open(out, 'w'), indent=1, default=str)


TRUSTED = ['models of numpy/scipy/numba/builtins in pyvc/npmodel.py', 'real and complex arithmetic is exact (no rounding)',
           'machine integers are mathematical except where a group says bit-vector']

if __name__ == '__main__':
    main()
