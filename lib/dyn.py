"""Drives dyn/run.py: several processes, crash and hang attribution, one merged result."""
import json
import os
import resource
import signal
import subprocess
import time

import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
RUN = os.path.join(os.path.dirname(HERE), 'dyn', 'run.py')
CASE_LIMIT = 60.0


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def start(lib, scratch, pid, seed, shard, nsh, count, secs, case=None, tag=''):
    out = os.path.join(scratch, 'dyn%s-%d.json' % (tag, shard))
    for q in (out, out + '.prog'):
        if os.path.exists(q):
            os.remove(q)
    e = B.env(lib)
    e['OMP_NUM_THREADS'] = '2'
    e['MPLCONFIGDIR'] = scratch
    e['TMPDIR'] = scratch
    err = open(out + '.err', 'w')
    p = subprocess.Popen([B.PY, '-W', 'ignore', RUN, pid, str(seed), str(shard), str(nsh), str(count), str(secs), out] +
                         ([] if case is None else [str(case)]), cwd=scratch, env=e, stdout=subprocess.DEVNULL,
                         stderr=err, stdin=subprocess.DEVNULL, preexec_fn=limits)
    return dict(p=p, out=out, shard=shard, t=time.time(), seen=None, at=time.time())


def kill(j):
    try:
        os.killpg(j['p'].pid, signal.SIGKILL)
    except OSError:
        pass
    j['p'].wait()


def case_of(j):
    try:
        return int(open(j['out'] + '.prog').read().split()[0])
    except (OSError, ValueError, IndexError):
        return None


def wait(jobs, secs):
    """Waits for all; marks each with how it ended: ok, crash, hang or late."""
    todo = list(jobs)
    while todo:
        time.sleep(.1)
        for j in list(todo):
            if j['p'].poll() is not None:
                todo.remove(j)
                j['end'] = 'ok' if j['p'].returncode == 0 and os.path.exists(j['out']) else 'crash'
                continue
            now = time.time()
            k = case_of(j)
            if k != j['seen']:
                j['seen'], j['at'] = k, now
            if k is not None and now - j['at'] > CASE_LIMIT:
                kill(j)
                todo.remove(j)
                j['end'] = 'hang'
            elif now - j['t'] > secs + 2 * CASE_LIMIT:
                kill(j)
                todo.remove(j)
                j['end'] = 'late'
    for j in jobs:
        j['case'] = case_of(j)
        j['err'] = open(j['out'] + '.err').read()[-3000:]


def run(lib, scratch, pid, seed, count, secs, nsh=6):
    """-> dict(cases, nontrivial, compared, skipped, samples, fail, notes)"""
    t0 = time.time()
    jobs = [start(lib, scratch, pid, seed, s, nsh, count, secs) for s in range(nsh)]
    wait(jobs, secs)
    r = dict(cases=0, nontrivial=0, compared=0, skipped=0, samples=[], fail=None, notes=[])
    keys = set()
    for j in jobs:
        if j['end'] != 'ok':
            # a crash or a hang counts only when it shows again: the case alone first, then the same sequence of cases
            why, k = j['end'], j['case']
            a = b = None
            if k is not None:
                a = start(lib, scratch, pid, seed, j['shard'], nsh, count, secs, case=k, tag='c')
                wait([a], secs)
            if a is None or a['end'] == 'ok':
                b = start(lib, scratch, pid, seed, j['shard'], nsh, count, secs, tag='b')
                wait([b], secs)
            again = a if a is not None and a['end'] != 'ok' else b
            if again is not None and again['end'] in ('crash', 'hang') and k is not None:
                how = 'crashes' if again['end'] == 'crash' else 'does not return within %d s' % CASE_LIMIT
                code = again['p'].returncode
                r['fail'] = r['fail'] or dict(case=k, what='the library %s (status %s) on a valid input; alone: %s' % (
                    how, code, again is a), inputs=None, trace=again['err'])
                continue
            if again is not None and again['end'] == 'ok':
                r['notes'].append('shard %d: %s in case %r did not show again' % (j['shard'], why, k))
                j = again if again is b else j
                if j is not b:
                    continue
            else:
                r['notes'].append('shard %d ended by %s before any case: %s' % (j['shard'], why, j['err'][-300:]))
                r['broken'] = True
                continue
        with open(j['out']) as f:
            o = json.load(f)
        r['cases'] += o['cases']
        r['compared'] += o['compared']
        r['skipped'] += o['skipped']
        keys |= set(o['keys'])
        if len(r['samples']) < 2:
            r['samples'] += o['samples'][:1]
        if o['fail'] and not r['fail']:
            r['fail'] = o['fail']
    r['nontrivial'] = len(keys)
    r['secs'] = round(time.time() - t0, 1)
    return r
