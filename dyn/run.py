"""Runs cases of one property against the built library.  PyPy, one shard.
run.py PID SEED SHARD NSHARDS COUNT SECONDS OUT [CASE]"""
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
gen.quiet()
from rec import Fail, Rec

WHERE = {'C01': 'models', 'C02': 'trees', 'C03': 'models', 'C04': 'trees', 'C05': 'variants', 'C06': 'variants',
         'C07': 'trees', 'C08': 'trees', 'C09': 'rf', 'C10': 'rf', 'C11': 'rf', 'C12': 'rf', 'C13': 'rf',
         'C14': 'variants', 'C15': 'rf', 'C16': 'rules', 'C17': 'rules', 'C18': 'rules', 'C19': 'rules',
         'C20': 'variants', 'C22': 'trees', 'C23': 'rf', 'C21': 'trees', 'C24': 'models'}


def plain(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


def main():
    pid, seed, shard, nsh, count, secs, out = sys.argv[1:8]
    shard, nsh, count, secs = int(shard), int(nsh), int(count), float(secs)
    only = int(sys.argv[8]) if len(sys.argv) > 8 else None
    import numpy as np
    t0 = time.time()
    fn = getattr(importlib.import_module(WHERE[pid]), pid)
    rec = Rec()
    res = dict(fail=None, done=False, cases=0)
    prog = open(out + '.prog', 'w')
    for k in ([only] if only is not None else range(shard, count, nsh)):
        if time.time() - t0 > secs and only is None:
            break
        prog.seek(0)
        prog.write('%-12d' % k)
        prog.flush()
        name = '%s-%s-%d' % (pid, seed, k)
        rng = random.Random(name)
        np.random.seed(abs(hash(name)) % (2**31))
        random.seed(name)
        rec.cur = None
        try:
            fn(rng, rec)
        except Fail as e:
            res['fail'] = dict(case=k, what=e.msg, inputs=plain(e.inputs))
        except Exception as e:
            res['fail'] = dict(case=k, what='%s: %s' % (type(e).__name__, str(e)[:300]), inputs=plain(rec.cur),
                               trace=traceback.format_exc()[-3000:])
        if res['fail']:
            break
    res.update(cases=rec.n, nontrivial=rec.nontrivial, compared=rec.compared, skipped=rec.skipped, done=True,
               keys=sorted(rec.keys), samples=[json.dumps(plain(s))[:900] for s in rec.samples],
               secs=time.time() - t0)
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


main()
