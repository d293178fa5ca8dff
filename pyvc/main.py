"""Deductive part: generates and discharges all obligations of one property from /repo's current source."""
import sys, os, json, time, argparse, importlib, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(12000)
sys.dont_write_bytecode = True
import core, rt, std, load, common, assume
MODULES = ['c_plist', 'c_pdeque', 'c_pvector', 'c_pmap', 'c_pset', 'c_pbag', 'c_pclass', 'c_precord', 'c_transform', 'c_helpers', 'c_checked', 'c_misc', 'c_cext']

def run_one(args):
    mod, name, repo, opts, variant = args
    t0 = time.time()
    try:
        m = importlib.import_module(mod)
        h = next(h for h in common.HARNESSES if h['module'] == mod and h['name'] == name)
        rt.RECUR[:] = [rt.RInt()]
        rt.MLISTS[:] = [rt.MListAdapter()]
        rt.DictType.hook = rt.SetType.hook = rt.FrozensetType.hook = rt.TypeShim.hook = None
        H = std.make(rt.RT(repo))
        env = common.Env()
        env.H = H
        env.repo = repo
        env.replace = {}
        env.variant = variant
        env.get = None
        if hasattr(m, 'prepare'):
            m.prepare(env)
        core.C = core.Ctx([], core.Store('load'), {})
        env.get = load.load_package(repo, H, env.replace)
        m.setup(env)
        core.C = None
        H.called.clear()
        o = dict(opts)
        if 'budget' in h:
            o['budget'] = h['budget']
        o['deadline'] = time.time() + o.get('budget', 120)
        st = core.Store(name + ('' if variant is None else ' [%s]' % (variant,)))
        f = h['f']
        def body(ctx):
            try:
                f(env) if variant is None else f(env, variant)
            except Exception as e:
                if getattr(e, '_vc_raised', False):
                    ctx.prove(False, 'no undocumented exception', 'raised %s: %s' % (type(e).__name__, e))
                else:
                    raise core.Unsupported('native %s: %s @ %s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__, limit=-3)).replace('\n', ' ')[-400:]))
        core.explore(body, st.harness, o, st)
        if st.completed == 0 and not any(x['status'] != 'proved' for x in st.obs.values()):
            st.add('reachability: some path reaches the end of the harness', 'unknown', 0, '-', detail='no path reached the end (vacuous)')
        if st.relied or st.broken:      # what is refuted after a loop whose invariant was not found says nothing about the code
            for x in st.obs.values():
                if x['status'] == 'refuted' and (st.broken or not x['exact']):
                    x.update(status='unknown', suspect=True, detail='relies on an invariant that was not established: ' + x['detail'])
        return dict(harness=name, variant=variant, module=mod, obs=list(st.obs.values()), paths=st.paths, completed=st.completed, solver_time=st.solver_time, wall=time.time() - t0, called=sorted(H.called))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(harness=name, variant=variant, module=mod, obs=[dict(name='%s%s: generation' % (name, '' if variant is None else ' [%s]' % (variant,)), status='unsupported', time=0, instances=0, backend={}, detail='%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]), exact=False)], paths=0, completed=0, solver_time=0, wall=time.time() - t0, called=[])

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--out')
    ap.add_argument('--scratch')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    common.TIER = a.tier
    for m in MODULES:
        importlib.import_module(m)
    opts = dict(branch_timeout=4000, prove_timeout=15000 if a.tier == 'quick' else 60000, budget=150 if a.tier == 'quick' else 1200, debug=a.debug)
    jobs = []
    for h in common.HARNESSES:
        if (a.prop and a.prop not in h['props']) or (a.only and a.only not in h['name']):
            continue
        for v in h.get('variants', [None]):
            jobs.append((h['module'], h['name'], a.repo, opts, v))
    jobs.sort(key=lambda j: -(j[4] if isinstance(j[4], int) else 100 + j[4][0] if isinstance(j[4], tuple) and isinstance(j[4][0], int) else 12))      # long ones first
    t0 = time.time()
    if any(j[0] == 'c_cext' for j in jobs):
        import ctrans
        try:
            ctrans.extract(a.repo)       # once, before the workers are forked
        except Exception:
            pass
    if a.debug or len(jobs) == 1:
        res = [run_one(j) for j in jobs]
    else:
        with mp.Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=4) as p:
            res = p.map(run_one, jobs, chunksize=1)
    obs, funcs, trusted = [], set(), set()
    be = {}
    for r in res:
        for o in r['obs']:
            obs.append(o)
            for k, v in o['backend'].items():
                be[k] = be.get(k, 0) + v
        funcs.update(r['called'])
        if a.v:
            bad = [o for o in r['obs'] if o['status'] != 'proved']
            print('%-45s %s obligations %d instances %d paths %d  %.1fs (solver %.1fs)' % (r['harness'] + ('' if r['variant'] is None else ' [%s]' % (r['variant'],)), 'OK  ' if not bad else 'FAIL', len(r['obs']), sum(o['instances'] for o in r['obs']), r['paths'], r['wall'], r['solver_time']))
            for o in bad:
                print('      %s %s: %s' % (o['status'], o['name'], o['detail'][:700]))
                if a.debug and o.get('model'):
                    print(o['model'][:1500])
    out = dict(obligations=obs, functions=sorted(funcs), back_ends=be, wall=time.time() - t0,
               trusted=assume.of(a.prop)[0], assumptions=assume.of(a.prop)[1], vacuity=dict(harnesses=len(res), harnesses_with_completed_paths=sum(1 for r in res if r['completed']), obligation_instances=sum(o['instances'] for o in obs)))
    if a.out:
        json.dump(out, open(a.out, 'w'), default=repr)
    print('%d harnesses, %d obligations (%d instances), %d proved, %d refuted, %d undecided, %.1f s' % (len(res), len(obs), sum(o['instances'] for o in obs), sum(o['status'] == 'proved' for o in obs), sum(o['status'] == 'refuted' for o in obs), sum(o['status'] in ('unknown', 'unsupported') for o in obs), time.time() - t0))
if __name__ == '__main__':
    main()
