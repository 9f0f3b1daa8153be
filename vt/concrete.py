"""Runs scenarios with real floats on the repository's own interpreter.
usage: concrete.py JOBS.json OUT.json   (JOBS: list of {scenario,params,dtype,seed,values})"""
import os, sys, json, io, contextlib, warnings, traceback, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VT_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import collections, collections.abc
for n in ('Iterable', 'Mapping', 'Sequence', 'Callable'):
    if not hasattr(collections, n):
        setattr(collections, n, getattr(collections.abc, n))
from vt import env


def run_one(job, sc):
    import numpy as np
    np.random.seed(job.get('seed', 1))
    E = env.ConEnv(seed=job.get('seed', 1), dtype=job['dtype'], values=job.get('values'), tol=sc['tol'])
    out = {'scenario': job['scenario'], 'params': job['params'], 'dtype': job['dtype'], 'seed': job.get('seed', 1)}
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sc['f'](E, **job['params'])
        out['status'] = 'fail' if E.fails else 'ok'
        out['fails'] = E.fails
    except env.Skip as e:
        out['status'] = 'skip'
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        loc = [f for f in tb if f.filename.startswith(REPO)]
        where = '%s:%d %s' % (os.path.relpath(loc[-1].filename, REPO), loc[-1].lineno, loc[-1].name) if loc else None
        # an unusable result (wrong shape, None, ...) is the code's failure, a missing or renamed name is not
        bad = isinstance(e, (ValueError, IndexError, AssertionError, ArithmeticError, KeyError, np.linalg.LinAlgError)) or (
            isinstance(e, TypeError) and 'argument' not in str(e))
        out['status'] = 'raised' if loc or bad else 'scenario-error'
        out['fails'] = [('raises', '%s: %s at %s' % (type(e).__name__, e, where or tb[-1]))]
        out['tb'] = traceback.format_exc()[-2000:]
    out['goals'] = E.ngoals
    return out


def main():
    import matplotlib
    matplotlib.use('Agg')
    jobs = json.load(open(sys.argv[1]))
    scen = {}
    for lst in env.load_scenarios().values():
        for s in lst:
            scen[s['pid'] + ':' + s['name']] = s
    res = []
    for j in jobs:
        res.append(run_one(j, scen[j['scenario']]))
    json.dump(res, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
