"""Runs a plan (or one case) on the real code. stdout: one JSON line per event."""
import sys, os, json, time, argparse, traceback, gc, importlib
ap = argparse.ArgumentParser()
ap.add_argument('--impl', default='c')
ap.add_argument('--ext', default='')        # directory holding the freshly built extension
ap.add_argument('--prop')
ap.add_argument('--tier', default='quick')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--budget', type=float, default=60)
ap.add_argument('--case')                    # JSON {"family":..,"params":..}
ap.add_argument('--part', default='0/1')
ap.add_argument('--fill', type=float, default=0)     # repeat the plan with further seeds until this many seconds have passed
ap.add_argument('--repo', default='/repo')
a = ap.parse_args()
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ([a.ext] if a.ext else []) + [here, a.repo]
sys.dont_write_bytecode = True
if a.impl == 'py':
    os.environ['PYRSISTENT_NO_C_EXTENSION'] = '1'
else:
    os.environ.pop('PYRSISTENT_NO_C_EXTENSION', None)
sys.setrecursionlimit(20000)
def emit(**kw):
    sys.stdout.write(json.dumps(kw, default=repr) + '\n')
    sys.stdout.flush()
import pyrsistent
assert pyrsistent.__file__ == a.repo + '/pyrsistent/__init__.py', pyrsistent.__file__
if a.impl == 'c':
    import pvectorc
    assert type(pyrsistent.pvector()) is type(pvectorc.pvector())
    if a.ext:
        assert pvectorc.__file__.startswith(a.ext), pvectorc.__file__
else:
    from pyrsistent._pvector import PythonPVector
    assert type(pyrsistent.pvector()) is PythonPVector
import base
for f in sorted(os.listdir(here)):
    if f.endswith('.py') and f not in ('worker.py', 'base.py'):
        importlib.import_module(f[:-3])
from base import FAMILIES, PLANS, Violation

def run(fam, params):
    try:
        FAMILIES[fam](params)
        return None
    except Violation as e:
        return str(e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4))

if a.case:
    c = json.loads(a.case)
    emit(ev='case', msg=run(c['family'], c['params']))
    sys.exit(0)
env = dict(impl=a.impl, tier=a.tier, seed=a.seed, ext=a.ext)
i, n = map(int, a.part.split('/'))
t0 = time.time()
done = 0
fams = {}
seen = set()
stopped = False
idx = 0
from itertools import zip_longest
SENT = object()
def rounds():
    n = 0
    while True:
        had = len(seen)
        yield from zip_longest(*[g(dict(env, seed=env['seed'] + 7 * n)) for g in PLANS.get(a.prop, [])], fillvalue=SENT)
        n += 1
        if time.time() - t0 > a.fill or len(seen) == had or n > 200:
            return
for row in rounds():
    for item in row:
        if item is SENT:
            continue
        fam, params = item
        idx += 1
        if idx % n != i:
            continue
        if time.time() - t0 > a.budget:
            stopped = True
            break
        key = json.dumps([fam, params], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        emit(ev='start', family=fam, params=params)
        msg = run(fam, params)
        done += 1
        fams[fam] = fams.get(fam, 0) + 1
        if msg:
            emit(ev='violation', family=fam, params=params, msg=msg)
            sys.exit(0)
    if stopped:
        break
emit(ev='done', cases=done, families=fams, stopped_by_budget=stopped, wall=time.time() - t0)
