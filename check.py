#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--tier quick|thorough]      decides one property; exit 0 held, 1 VIOLATION
   check.py --replay FILE                   runs the failing case of a replay file again"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build as B
import dyn as D

# cases in the quick tier; the thorough tier runs THOROUGH times as many
COUNT = dict(C01=1200, C02=2400, C03=1500, C04=2400, C05=1800, C06=2400, C07=2400, C08=2400, C09=2000, C10=2000,
             C11=1500, C12=2000, C13=2000, C14=1800, C15=1800, C16=700, C17=2400, C18=800, C19=1500, C20=700,
             C22=1800, C23=1800)
THOROUGH = 12


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='acv-%s-' % pid)
    try:
        return decide(pid, tier, int(seed), t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tier, seed, t0, scratch):
    lib = os.path.join(scratch, 'lib')
    os.makedirs(lib)
    proof = {}

    def prove():
        try:
            import engine
            proof.update(engine.run(pid, tier, scratch))
        except Exception as e:
            proof['broken'] = '%s: %s' % (type(e).__name__, e)
    th = threading.Thread(target=prove)
    th.start()
    ok, log = B.build(lib)
    if not ok:
        print(log[-3000:])
        print('ERROR: the native modules do not build')
        return 2
    quick = tier == 'quick'
    n = COUNT[pid] * (1 if quick else THOROUGH)
    r = D.run(lib, scratch, pid, seed, n, 60 if quick else 500)
    th.join()
    failed = proof.get('failed', [])
    if failed and not r['fail']:
        # an obligation is not discharged: a longer search for an input that shows it
        r2 = D.run(lib, scratch, pid, seed + 1000, n * 6, min(150, max(20, 780 - (time.time() - t0))))
        if r2['fail']:
            r['fail'] = r2['fail']
            seed += 1000
    wall = time.time() - t0
    viol = 0
    rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
    line = None
    if r['fail']:
        viol = 1
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, seed=seed, case=r['fail']['case'], what=r['fail']['what'],
                           inputs=r['fail'].get('inputs'), trace=r['fail'].get('trace'),
                           failed_obligations=failed, rerun='python3-vt /verif/check.py --replay %s' % rp), f, indent=1)
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
        print('%s: case %s: %s' % (pid, r['fail']['case'], r['fail']['what']))
    elif failed:
        viol = 1
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, seed=seed, failed_obligations=failed,
                           what='not discharged: %s' % '; '.join('%s: %s' % (q['function'], q['obligation']) for q in failed),
                           rerun='python3-vt /verif/check.py --replay %s' % rp), f, indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    for q in failed:
        print('%s: obligation not discharged: %s: %s' % (pid, q['function'], q['obligation']))
    for q in proof.get('undecided', []):
        print('UNDECIDED %s: %s: %s' % (pid, q['function'], q['why']))
    cov = dict(obligations=proof.get('obligations', 0), discharged=proof.get('discharged', 0),
               checker_cmd='python3-vt /verif/check.py %s' % pid,
               trusted_base=proof.get('trusted', []),
               functions_under_contract=proof.get('functions', []), failed_obligations=failed,
               undecided=proof.get('undecided', []),
               solver=proof.get('solver', {}),
               bounded=dict(note='bounded differential run of the compiled library against exact oracles; not counted '
                            'as proved', evaluations=r['cases'], distinct_nontrivial=r['nontrivial'],
                            comparisons=r['compared'], skipped=r['skipped'], samples=r['samples'], secs=r['secs'],
                            notes=r['notes']))
    cov['evaluations'] = r['cases']
    cov['distinct_nontrivial'] = r['nontrivial']
    cov['rule'] = ('random small ensembles, data and arguments on a dyadic grid, one seed per case; non-trivial: the case '
                   'exercises the property (tree with a split, non-empty S, ...), distinct by its inputs')
    cov['samples'] = r['samples']
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL(pid), coverage=cov,
              assumptions=proof.get('assumptions', []), wall_s=round(wall, 2), violations=viol)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for q in r['notes']:
        print('note: ' + q)
    print('%s: %d cases, %d distinct and non-trivial, %d comparisons; %d of %d obligations discharged; %.0f s' % (
        pid, r['cases'], r['nontrivial'], r['compared'], cov['discharged'], cov['obligations'], wall))
    if line:
        print(line)
        return 1
    if 'broken' in proof:
        print('ERROR: the verifier did not run: ' + proof['broken'])
        return 2
    if r.get('broken') or r['cases'] == 0:
        print('ERROR: the cases could not be run')
        return 2
    return 0


def LEVEL(pid):
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        for c in json.load(f)['checks']:
            if c['property'] == pid:
                return c['level']
    return 'other'


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if 'case' not in r:
        scratch = tempfile.mkdtemp(prefix='acv-replay-')
        try:
            import engine
            p = engine.run(r['property'], 'quick', scratch)
            for q in p['failed']:
                print('not discharged: %(function)s: %(obligation)s' % q)
            return 1 if p['failed'] else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    scratch = tempfile.mkdtemp(prefix='acv-replay-')
    try:
        lib = os.path.join(scratch, 'lib')
        ok, log = B.build(lib)
        if not ok:
            print(log[-3000:])
            return 2
        j = D.start(lib, scratch, r['property'], r['seed'], 0, 1, r['case'] + 1, 600, case=r['case'])
        D.wait([j], 600)
        if j['end'] != 'ok':
            print('the case ends by %s: %s' % (j['end'], j['err']))
            return 1
        o = json.load(open(j['out']))
        print(json.dumps(o['fail'], indent=1) if o['fail'] else 'the case passes')
        return 1 if o['fail'] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
