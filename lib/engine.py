"""The deductive part of a check: every function under contract for a property, against its contract, from /repo's sources."""
import json
import warnings
import os
import signal
import subprocess
import sys
import time

import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
warnings.simplefilter('ignore', SyntaxWarning)
ROOT = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(ROOT, 'prove'), os.path.join(ROOT, 'contracts')]

ASSUMED = [
    'doubles are treated as real numbers and C integers as mathematical integers (no rounding, no overflow, signedness of comparisons ignored)',
    'no NaN among the inputs',
    'array and vector indices are in range (the library is compiled without bounds checks); arguments do not alias',
    'partial correctness: loops over ranges and over sets that the body does not change, so termination is by form',
    'the extraction drops decorators and compiler directives, nogil blocks, prange scheduling, casts between C types',
    'a prange loop is verified as a loop together with the obligation that its iterations do not interfere (each writes, and reads of what '
    'is written, only its own cells; scalars private or summed); Cython\'s thread-private scalars and OpenMP itself are trusted',
    'preconditions: fewer than 2**15 coalitions in a search, minimal size not negative, at least one tree and one leaf per tree, arrays of '
    'matching sizes (contracts/*.py: requires)',
    'itertools.combinations, sorting and set iteration order behave as the executor says',
    'the C++ containers, numpy constructors and the loops of Cython behave as the executor says (prove/execu.py)',
    'the soundness of the normal form (prove/terms.py, loops.py, folds.py): each rewriting is an identity of real arithmetic, '
    'finite sums or an induction scheme over a loop; no external solver is involved',
]


def dump(scratch):
    ext = os.path.join(B.REPO, 'acv_explainers', 'cyext_acv')
    pyx = [os.path.join(ext, c + '.pyx') for c in B.CY]
    out = os.path.join(scratch, 'ir.json')
    p = subprocess.run([B.PY, os.path.join(ROOT, 'prove', 'dump_pyx.py'), out] + [q for q in pyx if os.path.exists(q)],
                       env=B.env(), cwd=scratch, capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise RuntimeError('the sources could not be read: ' + p.stderr[-500:])
    ir = json.load(open(out))
    import lang
    d = os.path.join(B.REPO, 'acv_explainers')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            try:
                ir[os.path.join(d, f)] = lang.parse(os.path.join(d, f))
            except SyntaxError:
                pass
    with open(out, 'w') as f:
        json.dump(ir, f)
    return out, ir


def run(pid, tier, scratch, parallel=7):
    t0 = time.time()
    import job
    reg = job.registry()
    mine = [k for k, e in enumerate(reg) if pid in e.props]
    res = dict(obligations=0, discharged=0, functions=[], failed=[], undecided=[], trusted=[], assumptions=[], solver={})
    if not mine:
        return res
    limit, total = (420, 560) if tier == 'quick' else (800, 840)
    ir, fns = dump(scratch)

    def size(k):
        f = job.functions(fns, reg[k].file).get(reg[k].fn)
        return len(json.dumps(f)) if f else 0
    todo = sorted(mine, key=lambda k: -size(k))
    running, done = {}, {}
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    while todo or running:
        while todo and len(running) < parallel and time.time() - t0 < total:
            k = todo.pop(0)
            out = os.path.join(scratch, 'job-%d.json' % k)
            p = subprocess.Popen([sys.executable, os.path.join(ROOT, 'prove', 'job.py'), ir, str(k), out], cwd=scratch, env=e,
                                 stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), start_new_session=True)
            running[k] = (p, out, time.time())
        time.sleep(.05)
        for k, (p, out, t) in list(running.items()):
            if p.poll() is not None:
                del running[k]
                if os.path.exists(out):
                    done[k] = json.load(open(out))
                else:
                    err = open(out + '.err').read()[-400:]
                    done[k] = dict(status='late: ended by %s: %s' % (p.returncode, err), obligations=[], secs=round(time.time() - t, 1))
            elif time.time() - t > limit or time.time() - t0 > total:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                del running[k]
                done[k] = dict(status='late: time', obligations=[], secs=round(time.time() - t, 1))
        if not running and todo and time.time() - t0 >= total:
            break
    secs = 0
    rules = {}
    for k in mine:
        e, d = reg[k], done.get(k, dict(status='late: not started', obligations=[], secs=0))
        name = '%s:%s' % (e.file, e.fn)
        secs += d['secs']
        good = [q for q in d['obligations'] if q['ok']]
        bad = [q for q in d['obligations'] if not q['ok']]
        res['obligations'] += max(len(d['obligations']), 1)
        res['discharged'] += len(good)
        res['functions'].append(dict(function=name, contract='%s.%s' % (e.module, e.spec), requires=e.requires,
                                     obligations=len(d['obligations']), discharged=len(good), secs=d['secs'], status=d['status'],
                                     loops=d.get('loops', [])))
        for q in d.get('loops', []):
            r = q.split()[-1]
            rules[r] = rules.get(r, 0) + 1
        if d['status'].startswith('unsupported') and e.wrapper:
            # a method the evaluator does not cover: left to the bounded part, which calls it
            res['undecided'].append(dict(function=name, why=d['status']))
        elif d['status'].startswith('unsupported'):
            res['failed'].append(dict(function=name, obligation='the function can be verified', output=d['status']))
        elif d['status'] != 'ok':
            res['undecided'].append(dict(function=name, why=d['status']))
        for q in bad:
            res['failed'].append(dict(function=name, obligation=q['name'], got=q['got'], want=q['want']))
    res['solver'] = dict(back_end='normal-form engine of prove/ (python %s)' % sys.version.split()[0], secs=round(secs, 1),
                         wall=round(time.time() - t0, 1), loop_rules=rules)
    res['assumptions'] = list(ASSUMED)
    if any(reg[k].wrapper for k in mine):
        import wrap
        res['assumptions'] += wrap.TRUSTED
    called = sorted(set('%s (proved under %s)' % (o.fn, ' '.join(o.props)) for o in reg if o.ret for k in mine if not reg[k].wrapper
                        if o.fn in str(job.functions(fns, reg[k].file).get(reg[k].fn, {}).get('body')) and o.fn != reg[k].fn))
    res['trusted'] = ['prove/ (extraction, executor, normal form)', 'the Cython and C++ compilers'] + \
        ['contract at its calls: ' + q for q in called]
    return res
