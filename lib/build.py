"""Builds the native modules of /repo's current working tree in a scratch directory.

The .pyx files are cut, at top-level definitions, into shards (each function of the file goes verbatim into
one shard, together with the cdef helpers it calls), which Cython and g++ build in parallel; a Python module
of the original name re-exports them.  If a shard does not build, the file is built whole instead.
Usage: build.py OUTDIR            prints BUILD OK and exits 0, or prints the error and exits 3.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/pypyvenv/bin/python'
CY = ('cyext_acv', 'cyext_acv_nopa', 'cyext_acv_cache')
NSHARD = {'cyext_acv': 10, 'cyext_acv_nopa': 4, 'cyext_acv_cache': 2}


def env(lib=None):
    e = {'HOME': '/root', 'PATH': '/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8',
         'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
         'OMP_NUM_THREADS': '4', 'MPLCONFIGDIR': '/tmp'}
    for k in ('VERIF_SEED', 'VERIF_TIER'):
        if k in os.environ:
            e[k] = os.environ[k]
    if lib:
        e['PYTHONPATH'] = lib + ':' + REPO
    return e


def split_top(src):
    """-> header text, [(name, kind, text)] in order; decorators stay with their function."""
    lines = src.split('\n')
    starts = []
    i = 0
    n = len(lines)
    defre = re.compile(r'^(cpdef|cdef|def)\s+(?:inline\s+)?(?:[\w\[\]:,&* ]+?\s+)?(\w+)\s*\(')
    while i < n:
        l = lines[i]
        if l.startswith('@') or (defre.match(l) and not l.startswith('cdef extern')):
            j = i
            while j < n and lines[j].startswith('@'):
                j += 1
            m = defre.match(lines[j]) if j < n else None
            if m:
                starts.append((i, m.group(1), m.group(2)))
                i = j + 1
                continue
        i += 1
    header = '\n'.join(lines[:starts[0][0]]) + '\n'
    out = []
    for k, (s, kind, name) in enumerate(starts):
        e = starts[k + 1][0] if k + 1 < len(starts) else n
        out.append((name, kind, '\n'.join(lines[s:e]) + '\n'))
    return header, out


def shards(src, nsh):
    header, fns = split_top(src)
    # the last definition of a name wins, as in a module
    names = {}
    for idx, (name, kind, text) in enumerate(fns):
        names.setdefault(name, []).append(idx)
    word = re.compile(r'\b\w+\b')
    uses = []
    for idx, (name, kind, text) in enumerate(fns):
        body = re.sub(r'#.*', '', text)
        uses.append({w for w in set(word.findall(body)) if w in names and w != name})

    def closure(idx):
        seen, todo = set(), [idx]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for w in uses[k]:
                todo += names[w]
        return seen
    exported = [i for i, f in enumerate(fns) if f[1] != 'cdef']
    cost = {i: sum(len(fns[k][2]) for k in closure(i)) for i in exported}
    bins = [[0, set(), []] for _ in range(nsh)]
    for i in sorted(exported, key=lambda i: -cost[i]):
        best = None
        for b in bins:
            add = sum(len(fns[k][2]) for k in closure(i) - b[1])
            c = b[0] + add
            if best is None or c < best[0]:
                best = (c, b)
        best[1][0] = best[0]
        best[1][1] |= closure(i)
        best[1][2].append(i)
    res = []
    for _, cl, exp in bins:
        if exp:
            text = header + '\n' + '\n'.join(fns[k][2] for k in sorted(cl))
            res.append((text, sorted({fns[k][0] for k in exp})))
    return res


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


_inc = None


def incs():
    global _inc
    if _inc is None:
        o = subprocess.check_output([PY, '-c', "import sysconfig, numpy, importlib.machinery as m;"
                                     "print(sysconfig.get_paths()['include']); print(numpy.get_include());"
                                     "print(m.EXTENSION_SUFFIXES[0])"], env=env()).decode().split()
        _inc = o
    return _inc


def build_pyx(name, text, out):
    d = os.path.join(out, 'w_' + name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + '.pyx'), 'w') as f:
        f.write(text)
    a, b, suf = incs()
    rc, o = run([PY, '-m', 'cython', '--cplus', name + '.pyx'], d)
    if rc == 0:
        rc, o2 = run(['g++', '-O0', '-w', '-fPIC', '-shared', '-fopenmp', '-I' + a, '-I' + b, name + '.cpp', '-o',
                      os.path.join(out, name + suf)], d)
        o += o2
    shutil.rmtree(d, ignore_errors=True)
    return rc, o


def build_cext(out):
    a, b, suf = incs()
    d = os.path.join(REPO, 'acv_explainers/cext_acv')
    return run(['g++', '-O1', '-w', '-fPIC', '-shared', '-I' + a, '-I' + b, '_cext.cc', '-o',
                os.path.join(out, 'cext_acv' + suf)], d)


def significant(path):
    """The source without comment lines: two sources with the same result build the same module."""
    keep = []
    with open(path, encoding='utf8') as f:
        txt = f.read()
    if path.endswith('.pyx'):
        for l in txt.split('\n'):
            s = l.strip()
            if s == '' or (s.startswith('#') and 'cython' not in s and 'distutils' not in s):
                continue
            keep.append(l.rstrip())
        # triple-quoted text may hold lines that look like comments: then compare exactly
        if '"""' in txt or "'''" in txt:
            return txt
    else:
        for l in txt.split('\n'):
            if l.strip() == '' or l.strip().startswith('//') and not l.rstrip().endswith('\\'):
                continue
            keep.append(l.rstrip())
    return '\n'.join(keep)


def reuse(out):
    """The sandbox's own build of exactly these sources, if there is one."""
    base = '/opt/acv-build'
    rel = ['acv_explainers/cyext_acv/%s.pyx' % n for n in CY] + ['acv_explainers/cext_acv/_cext.cc',
                                                                 'acv_explainers/cext_acv/acv_tree.h']
    mod = {'acv_tree.h': 'cext_acv', '_cext.cc': 'cext_acv'}
    sos = []
    try:
        suf = incs()[2]
        for r in rel:
            s = os.path.join(base, 'src', r)
            if significant(s) != significant(os.path.join(REPO, r)):
                return False
            b = os.path.basename(r)
            so = os.path.join(base, 'lib', mod.get(b, b[:-4]) + suf)
            o = os.path.join(base, 'out', mod.get(b, b[:-4]) + suf)
            if open(so, 'rb').read() != open(o, 'rb').read() or os.path.getmtime(o) < os.path.getmtime(s):
                return False
            sos.append(so)
    except (OSError, ValueError):
        return False
    for so in set(sos):
        shutil.copy(so, out)
    return True


def build(out, modules=None, allow_reuse=True):
    """-> (ok, log)"""
    os.makedirs(out, exist_ok=True)
    if allow_reuse and not os.environ.get('VERIF_NOREUSE') and reuse(out):
        return True, 'reused /opt/acv-build (same sources)'
    log = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        incs()
        jobs = {}
        srcs = {}
        for n in CY:
            if modules and n not in modules:
                continue
            with open(os.path.join(REPO, 'acv_explainers/cyext_acv', n + '.pyx'), encoding='utf8') as f:
                srcs[n] = f.read()
            try:
                sh = shards(srcs[n], NSHARD[n])
            except Exception as e:  # unusual layout: build it whole
                log.append('shards of %s: %r' % (n, e))
                sh = None
            if sh is None:
                jobs[n] = [(None, ex.submit(build_pyx, n, srcs[n], out))]
            else:
                jobs[n] = [(exp, ex.submit(build_pyx, '%s__s%d' % (n, k), text, out)) for k, (text, exp) in
                           enumerate(sh)]
        cj = ex.submit(build_cext, out)
        ok = True
        whole = []
        for n, js in jobs.items():
            res = [j.result() for _, j in js]
            if js[0][0] is None:
                if res[0][0]:
                    ok = False
                    log.append(res[0][1][-4000:])
                continue
            if any(r[0] for r in res):
                log += [r[1][-1500:] for r in res if r[0]]
                whole.append(n)
                continue
            with open(os.path.join(out, n + '.py'), 'w') as f:
                for k, (exp, _) in enumerate(js):
                    f.write('from %s__s%d import %s\n' % (n, k, ', '.join(exp)))
        for n, j in [(n, ex.submit(build_pyx, n, srcs[n], out)) for n in whole]:
            rc, o = j.result()
            if rc:
                ok = False
                log.append(o[-4000:])
        rc, o = cj.result()
        if rc:
            ok = False
            log.append(o[-4000:])
    return ok, '\n'.join(log)


if __name__ == '__main__':
    ok, log = build(sys.argv[1])
    print(log)
    print('BUILD OK' if ok else 'BUILD FAILED')
    sys.exit(0 if ok else 3)
