#!/usr/bin/env python3
"""One check:  run.py C02 [--tier quick|thorough]      exit 0 held / 1 VIOLATION / 2 error of the check
   Replay:     run.py --replay FILE                    exit 1 if the failure shows again, 0 if not
The deciding step is the deductive part (pyvc on the Python sources, cvc on pvectorcmodule.c): every obligation generated
from /repo's current source must be discharged.  The dyn part is (a) the labelled bounded stand-in for functions outside the
verifier's reach and (b) the search for a concrete input when an obligation fails."""
import sys, os, json, time, subprocess, tempfile, shutil, argparse, threading, sysconfig
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYR = '/opt/venv/bin/python'
PYVT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
C_PROPS = {'C01', 'C02', 'C03', 'C10', 'C16', 'C17', 'C18'}      # properties in which the extension itself is exercised in depth
ONLY_C = {'C17', 'C18'}
PARTS = {'C01': 3, 'C02': 3, 'C04': 3}
FILL = {'quick': 15.0, 'thorough': 300.0}
BUDGET = {'quick': 100.0, 'thorough': 900.0}
CASE_LIMIT = 300.0

def build_ext(scratch):
    out = os.path.join(scratch, 'ext')
    os.makedirs(out)
    q = subprocess.run([PYR, '-c', 'import sysconfig;print(sysconfig.get_path("include"));print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True, check=True).stdout.split('\n')
    so = os.path.join(out, 'pvectorc' + q[1])
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-g', '-w', '-fno-strict-aliasing', '-I', q[0], os.path.join(REPO, 'pvectorcmodule.c'), '-o', so], capture_output=True, text=True)
    return (out, '') if r.returncode == 0 else (None, r.stderr)

def worker_cmd(ext, impl, *rest):
    return [PYR, os.path.join(HERE, 'dyn', 'worker.py'), '--impl', impl, '--repo', REPO] + (['--ext', ext] if ext and impl == 'c' else []) + list(rest)

def worker_env(prop, impl):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if prop == 'C18':
        e['PYTHONMALLOC'] = 'debug'
    return e

def run_case(ext, impl, prop, case, limit=CASE_LIMIT):
    """None if the case passes, else a message."""
    try:
        r = subprocess.run(worker_cmd(ext, impl, '--case', json.dumps(case)), capture_output=True, text=True, timeout=limit, env=worker_env(prop, impl))
    except subprocess.TimeoutExpired:
        return 'does not terminate within %d s' % limit
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('ev') == 'case':
            return d['msg']
    return 'process died with status %s: %s' % (r.returncode, r.stderr[-600:])

class Part(threading.Thread):
    def __init__(self, ext, impl, prop, tier, seed, budget, i, n):
        super().__init__(daemon=True)
        self.a = (ext, impl, prop, tier, seed, budget, i, n)
        self.impl = impl
        self.bad = None
        self.stats = None
    def run(self):
        ext, impl, prop, tier, seed, budget, i, n = self.a
        cmd = worker_cmd(ext, impl, '--prop', prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget), '--fill', str(FILL[tier]), '--part', '%d/%d' % (i, n))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=worker_env(prop, impl))
        last = [None, time.time()]
        def watch():
            while p.poll() is None:
                if time.time() - last[1] > CASE_LIMIT:
                    p.kill()
                    last.append('timeout')
                    return
                time.sleep(.5)
        threading.Thread(target=watch, daemon=True).start()
        err = []
        et = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
        et.start()
        for l in p.stdout:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            last[1] = time.time()
            if d['ev'] == 'start':
                last[0] = dict(family=d['family'], params=d['params'])
            elif d['ev'] == 'violation':
                self.bad = dict(case=dict(family=d['family'], params=d['params']), msg=d['msg'])
            elif d['ev'] == 'done':
                self.stats = d
        p.wait()
        et.join(5)
        if self.bad is None and self.stats is None:
            if len(last) > 2:
                self.bad = dict(case=last[0], msg='does not terminate within %d s' % CASE_LIMIT)
            elif last[0] is None:
                self.bad = dict(case=None, msg='the library cannot be imported or the harness died: ' + ''.join(err)[-1500:])
            else:
                self.bad = dict(case=last[0], msg='process died with status %s: %s' % (p.returncode, ''.join(err)[-600:]))

def proof_cmd(prop, tier, out, scratch):
    m = os.path.join(HERE, 'pyvc', 'main.py')
    if not os.path.exists(m):
        return None
    return [PYVT, m, '--prop', prop, '--tier', tier, '--repo', REPO, '--out', out, '--scratch', scratch]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-dyn', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vrun.')
    try:
        if a.replay:
            return replay(a.replay, scratch)
        return check(a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay(path, scratch):
    d = json.load(open(path))
    print('property', d['property'])
    if d.get('case'):
        ext, err = build_ext(scratch) if d['impl'] == 'c' else (None, '')
        msg = run_case(ext, d['impl'], d['property'], d['case'])
        print('case', json.dumps(d['case']), 'impl', d['impl'])
        print('FAILS: ' + msg if msg else 'passes')
        if msg:
            return 1
    for o in d.get('failed_obligations', []):
        print('obligation %s: %s' % (o['name'], o.get('detail', '')))
    if d.get('failed_obligations') and not d.get('case'):
        r = subprocess.run(proof_cmd(d['property'], 'quick', os.path.join(scratch, 'o.json'), scratch))
        o = json.load(open(os.path.join(scratch, 'o.json')))
        names = {x['name'] for x in o['obligations'] if x['status'] == 'refuted'}
        return 1 if names & {x['name'] for x in d['failed_obligations']} else 0
    return 0

def check(a, t0, scratch):
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in manifest['checks'] if c['property'] == prop), 'other')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    repdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)
    ext, err = build_ext(scratch)
    if ext is None:
        print('cannot build pvectorcmodule.c:\n' + err)
        return 2
    known = [json.loads(l) for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')) if l.strip()]
    for k in known:
        if k['property'] == prop and k['status'] == 'known':
            if run_case(ext, 'c', prop, dict(family=k['family'], params=k['params'])):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- deductive part (subprocess), dyn part in parallel
    pout = os.path.join(scratch, 'proof.json')
    pcmd = None if a.no_proof else proof_cmd(prop, tier, pout, scratch)
    pproc = subprocess.Popen(pcmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) if pcmd else None
    impls = ['c'] if prop in ONLY_C else ['c', 'py']
    def run_dyn(tier, seed, budget):
        n = PARTS.get(prop, 2)
        parts = [Part(ext, impl, prop, tier, seed, budget, i, n) for impl in impls for i in range(n)]
        for p in parts:
            p.start()
        for p in parts:
            p.join()
        return parts
    parts = [] if a.no_dyn else run_dyn(tier, seed, BUDGET[tier])
    viol = None
    errors = []
    def settle(parts):
        for p in parts:
            if p.bad is None:
                continue
            if p.bad['case'] is None:
                errors.append(p.bad['msg'])
                continue
            again = run_case(ext, p.impl, prop, p.bad['case'])
            return dict(property=prop, impl=p.impl, case=p.bad['case'], message=p.bad['msg'], reproduced_alone=bool(again), replay_cmd='python3 /verif/run.py --replay <this file>')
        return None
    viol = settle(parts)
    # ---- collect the proof
    proof = None
    if pproc:
        try:
            ptxt, _ = pproc.communicate(timeout=(600 if tier == 'quick' else 3000))
        except subprocess.TimeoutExpired:
            pproc.kill()
            ptxt = 'deductive part exceeded its time limit'
        if os.path.exists(pout):
            proof = json.load(open(pout))
        else:
            proof = dict(obligations=[], functions=[], crashed=(ptxt or '')[-3000:])
    obs = proof['obligations'] if proof else []
    failed = [o for o in obs if o['status'] == 'refuted']
    undec = [o for o in obs if o['status'] in ('unknown', 'unsupported')]
    if (failed or undec) and viol is None and not a.no_dyn:
        # obligation refuted or undecided: look for the concrete input (solver hints first, then a deeper search)
        for o in failed:
            for h in o.get('hints', []):
                for impl in impls:
                    m = run_case(ext, impl, prop, h)
                    if m:
                        viol = dict(property=prop, impl=impl, case=h, message=m, reproduced_alone=True, obligation=o['name'])
                        break
                if viol: break
            if viol: break
        if viol is None:
            deep = run_dyn('thorough', seed + 1, 150.0 if failed or any(o.get('suspect') for o in undec) else 60.0)
            viol = settle(deep)
            parts += deep
    vline = None
    if viol or failed:
        rp = os.path.join(repdir, '%s.json' % prop)
        d = viol or dict(property=prop, impl=None, case=None, message='no failing input found')
        d['failed_obligations'] = failed
        d['solver_output'] = [o.get('model') for o in failed][:5]
        json.dump(d, open(rp, 'w'), indent=1, default=repr)
        vline = 'VIOLATION property=%s replay=%s' % (prop, rp)
        if not viol:
            vline += ' no-failing-input-found'
    # ---- evidence
    fam = {}
    for p in parts:
        for k, v in ((p.stats or {}).get('families') or {}).items():
            fam[k] = fam.get(k, 0) + v
    disch = [o for o in obs if o['status'] == 'proved']
    expl = 'every obligation generated from the current source of the functions listed is discharged by the solver, for all inputs' if obs and not undec and not failed else '%d of %d obligations discharged; what is undecided or outside the verifier is covered by the bounded stand-in only' % (len(disch), len(obs))
    cov = dict(explanation=expl, obligations=len(obs), discharged=len(disch), undecided=len(undec), refuted=len(failed),
               checker_cmd=' '.join(pcmd) if pcmd else 'none',
               back_ends=(proof or {}).get('back_ends', {}), solver_time_s=round(sum(o.get('time', 0) for o in obs), 2),
               functions_under_contract=(proof or {}).get('functions', []),
               trusted_base=(proof or {}).get('trusted', []),
               undischarged=[dict(name=o['name'], why=o.get('detail', '')[:300]) for o in undec],
               vacuity=(proof or {}).get('vacuity', {}),
               obligation_list=[dict(name=o['name'], status=o['status'], time=round(o.get('time', 0), 3)) for o in obs][:400],
               bounded_stand_in=dict(label='bounded, not counted as proved', cases=sum(fam.values()), families=fam, seed=seed, implementations=impls,
                                     bound='vector lengths up to 1.05 million at the boundary sizes listed in dyn/base.py, random histories of 20-60 operations, key pools with forced hash collisions'))
    if proof and proof.get('crashed'):
        cov['deductive_part_crashed'] = proof['crashed']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=(proof or {}).get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if vline else 0, violation_line=vline)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    print('%s: %d obligations, %d discharged, %d undecided, %d refuted; bounded stand-in %d cases; %.1f s' % (prop, len(obs), len(disch), len(undec), len(failed), sum(fam.values()), time.time() - t0))
    for o in undec:
        print('  undecided %s: %s' % (o['name'], o.get('detail', '')[:160]))
    if proof and proof.get('crashed'):
        print('  deductive part crashed: ' + proof['crashed'][-400:])
    if vline:
        for o in failed[:5]:
            print('  failed obligation %s: %s' % (o['name'], o.get('detail', '')[:300]))
        if viol:
            print('  ' + viol['message'][:600].replace('\n', ' '))
        print(vline)
        return 1
    if errors:
        # the library itself does not import: that is a broken property, not an error of the check, but say which
        print('error: ' + errors[0])
        return 2
    if level == 'proof' and not a.no_proof and not obs and not (proof or {}).get('allow_empty'):
        print('no obligations generated')
        if not any(p.stats for p in parts):
            return 2
    return 0

sys.exit(main())
