"""One function against its contract: job.py IR INDEX OUT.  Writes the obligations with their outcomes as JSON."""
import glob
import importlib
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CON = os.path.join(os.path.dirname(HERE), 'contracts')
sys.path[:0] = [HERE, CON]


def registry():
    import dsl
    for p in sorted(glob.glob(os.path.join(CON, '*.py'))):
        m = os.path.basename(p)[:-3]
        if m != 'dsl':
            importlib.import_module(m)
    return dsl.REGISTRY


def specs():
    import lang
    r = {}
    for p in sorted(glob.glob(os.path.join(CON, '*.py'))):
        m = os.path.basename(p)[:-3]
        r[m] = {f['name']: f for f in lang.parse(p)}
    return r


def functions(ir, file):
    """of the file with that name, by name; the last definition counts"""
    for p, fs in ir.items():
        if p.endswith('/' + file):
            return {(f['cls'] + '.' if f.get('cls') else '') + f['name']: f for f in fs}
    return {}


def text(p):
    """a term, as far as it can be printed quickly"""
    import signal

    def stop(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(10)
    try:
        s = str(p)
        return s if len(s) < 3000 else s[:3000] + ' ...'
    except Exception as e:
        return 'a term of %d monomials' % len(getattr(p, 't', ()))
    finally:
        signal.alarm(0)


def main():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    ir = json.load(open(sys.argv[1]))
    reg = registry()
    e = reg[int(sys.argv[2])]
    out = dict(function='%s:%s' % (e.file, e.fn), spec='%s.%s' % (e.module, e.spec), obligations=[], status='ok', loops=[])
    t0 = time.time()
    import verify as V
    fs = functions(ir, e.file)
    try:
        if e.fn not in fs:
            raise V.Unsupported('no function of that name in the file')
        sp = {}
        for m, q in specs().items():
            if m != e.module:
                sp.update(q)
        sp.update(specs()[e.module])
        cs = {}
        for o in reg:
            if o.ret and o.fn != e.fn and o.file == e.file and o.fn in fs:
                cs[o.fn] = V.Contract(o.fn, [a[0] for a in fs[o.fn]['args']], o.ret, o.writes)
        log = []
        if e.wrapper:
            import wrap
            taken = set(o.spec for o in reg if o.module == e.module)
            mine = {k: q for k, q in specs()[e.module].items() if k not in taken}
            obs = wrap.prove(fs[e.fn], sp[e.spec], fs, mine, wrap.signatures(ir), wrap.QUIET)
        else:
            obs = V.prove_cases(fs[e.fn], sp[e.spec], fs, sp, cs, e.sorts, V.assumptions(e.requires), log, e.split)
        for name, ok, got, want in obs:
            q = dict(name=name, ok=bool(ok))
            if not ok:
                q['got'], q['want'] = text(got), text(want)
            out['obligations'].append(q)
        out['loops'] = ['%s %s %s' % q for q in log][:60]
        out['calls'] = sorted(cs)
        if not obs:
            out['status'] = 'unsupported: no obligation'
    except (V.Unsupported, V.T.TooBig) as x:
        out['status'] = 'unsupported: %s' % x
    except MemoryError:
        out['status'] = 'late: memory'
    except RecursionError:
        out['status'] = 'unsupported: recursion'
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as x:
        out['status'] = 'unsupported: %s: %s' % (type(x).__name__, x)
    out['secs'] = round(time.time() - t0, 2)
    with open(sys.argv[3] + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(sys.argv[3] + '.tmp', sys.argv[3])


if __name__ == '__main__':
    main()
