"""Obligations: a function of the library against its contract, on the terms of both."""
import itertools
import time

from execu import *
import terms as T
import cuts


def bind(ex, fn, env, sorts=None, names=None):
    """arbitrary values of the declared types for the parameters"""
    args = []
    for k, (n, t, d) in enumerate(fn['args']):
        nm = n
        ty = (sorts or {}).get(n) or ctype(t)
        args.append(arbitrary(ex, env, nm, ty))
    return args


def arbitrary(ex, env, nm, ty):
    if callable(ty):
        return ty(ex, env, nm)
    if isinstance(ty, list):
        ty = tuple(ty)
    if ty == 'n':               # a natural number
        return Num(sym(nm, True, False, True), 'i')
    if ty in ('i', 'r', 'b'):
        return Num(sym(nm, ty == 'i', ty == 'b'), ty)
    if ty and ty[0] in ('mem', 'arr'):
        ps = [fresh('p') for _ in range(ty[2])]
        a = Arr([T.subst(app('dim:%s:%d' % (nm, j), [], isint=True, nonneg=True), ASSUME) for j in range(ty[2])], ps,
                app(nm, [sym(q, True) for q in ps], isint=ty[1] in 'in', ind=ty[1] == 'b', nonneg=ty[1] == 'n'),
                'i' if ty[1] == 'n' else ty[1])
        return ex.new(env, a)
    if ty and ty[0] == 'vec':
        lens = []
        for j in range(ty[1]):
            ps = [fresh('p') for _ in range(j)]
            ln = app('len:%s:%d' % (nm, j), [sym(q, True) for q in ps], isint=True, nonneg=True)
            for (n0, pos, case) in CASE:
                if n0 == 'len:%s:%d' % (nm, j):
                    at = ONE
                    for q, c in zip(ps, pos):
                        at = at * T.eq(sym(q, True) - c)
                    ln = ln * (ONE - at) if case == 0 else ln + at
            lens.append((ps, ln))
        ps = [fresh('p') for _ in range(ty[1])]
        return VecV(ty[1], lens, ps, app(nm, [sym(q, True) for q in ps], isint=ty[2] == 'i'), ty[2])
    if ty and ty[0] == 'obj':
        return ObjV(nm, {k: arbitrary(ex, env, nm + '.' + k, t) for k, t in sorted(ty[1].items())}, dict(ty[2]) if len(ty) > 2 else {})
    if ty == 'none':
        return NONE
    if ty and ty[0] == 'set':
        p = fresh('p')
        return SetV(p, app(nm, [sym(p, True)], ind=True))
    return Undef(None, nm)


ASSUME = {}        # preconditions
CASE = []          # the case of the proof: lengths at given positions taken to be 0, or to be positive


def split_of(s):
    """'len(C[0])': (name of the length, positions)"""
    c = _ast.parse(s, mode='eval').body
    name, k = pname(c)
    pos = []
    b = c.args[0]
    while isinstance(b, _ast.Subscript):
        pos.append(b.slice.value)
        b = b.value
    return name, pos[::-1]


def prove_cases(fn, spec, functions, specs, contracts, sorts=None, assume=None, log=None, split=()):
    """the obligations, for each combination of: the length is 0, or is positive"""
    for k, t in sorted((sorts or {}).items()):
        if isinstance(t, tuple) and t[0] == 'oneof':
            ob = []
            for s in t[1:]:
                ob += [('if %s is %s: %s' % (k, s if isinstance(s, str) else s[0], o[0]),) + o[1:] for o in
                       prove_cases(fn, spec, functions, specs, contracts, dict(sorts, **{k: s}), assume, log, split)]
            return ob
    ASSUME.clear()
    ASSUME.update(assume or {})
    if not split:
        return prove(fn, spec, functions, specs, contracts, sorts, assume, log)
    ob = []
    for case in itertools.product((0, 1), repeat=len(split)):
        CASE[:] = [split_of(s) + (c,) for s, c in zip(split, case)]
        try:
            r = prove(fn, spec, functions, specs, contracts, sorts, assume, log)
        finally:
            CASE[:] = []
        nm = ', '.join('%s %s 0' % (s, '>' if c else '==') for s, c in zip(split, case))
        ob += [('if %s: %s' % (nm, o[0]),) + o[1:] for o in r]
    return ob


class Failed(Exception):
    def __init__(self, what, got, want):
        Exception.__init__(self, what)
        self.what, self.got, self.want = what, got, want


def references(a):
    """[(path, array)] of an argument"""
    if isinstance(a, Ref):
        return [('', a)]
    if isinstance(a, ObjV):
        return [('.' + k + l, q) for k, v in sorted(a.attrs.items()) for l, q in references(v)]
    return []


def outcome(fn, functions, contracts, sorts, mode, log):
    """the value a function returns and the arrays it was given, afterwards"""
    while True:
        try:
            return outcome1(fn, functions, contracts, sorts, mode, log)
        except Late:
            pass


def outcome1(fn, functions, contracts, sorts, mode, log):
    ex = Ex(functions, contracts, mode, log)
    env = Env()
    env['#err'] = Num(ZERO, 'b')
    args = bind(ex, fn, env, sorts)
    before = {}
    for (n, _, _), a in zip(fn['args'], args):
        for l, q in references(a):
            before[n + l] = (q, env[q.obj])
    v = ex.call_function(fn, args, env, fn.get('mode', mode))
    res = [('result ' + l, p) for l, p in flatten(ex, env, v)]
    after = {n: flatten(ex, env, a) for n, (a, _) in before.items()}
    e0 = Env({a.obj: o for n, (a, o) in before.items()})
    start = {n: flatten(ex, e0, a) for n, (a, _) in before.items()}
    ex.err = env['#err'].p
    return res, start, after, ex


def positional(fn, spec, sorts):
    """the specification's parameters get the sorts of the function's, by position, under the function's names"""
    r = dict(spec)
    names = [a[0] for a in fn['args']]
    if len(spec['args']) != len(names):
        raise Unsupported('parameters of %s' % fn['name'])
    return r


def prove(fn, spec, functions, specs, contracts, sorts=None, assume=None, log=None):
    """[(obligation, holds, got, want)]"""
    log = [] if log is None else log
    cuts.LETS.clear()
    so = {}
    if len(spec['args']) != len(fn['args']):
        raise Unsupported('parameters of ' + fn['name'])
    for (n, t, d), (m, _, _) in zip(fn['args'], spec['args']):
        ty = (sorts or {}).get(n) or ctype(t)
        so[m] = (lambda n, ty: lambda ex, env, nm: arbitrary(ex, env, n, ty))(n, ty)
    res2, start2, after2, ex2 = outcome(spec, specs, contracts, so, 'py', [])
    res, start, after, ex = outcome(fn, functions, contracts, sorts, 'pyx', log)
    ob = []

    def cmp(name, a, b):
        if len(a) != len(b):
            ob.append((name + ': shape', False, str([l for l, _ in a]), str([l for l, _ in b])))
            return
        for (l, p), (_, q) in zip(a, b):
            if assume:
                p, q = T.subst(p, assume), T.subst(q, assume)
            ob.append(('%s: %s' % (name, l), p == q, p, q))
    cmp('ensures', res, res2)
    cmp('divides by zero only where the specification does', [('', ex.err)], [('', ex2.err)])
    for (n0, _, _), (m0, _, _) in zip(fn['args'], spec['args']):
        for n in sorted(after):
            if n == n0 or n.startswith(n0 + '.'):
                m = m0 + n[len(n0):]
                changed = [q.key for _, q in after2[m]] != [q.key for _, q in start2[m]]
                cmp(('ensures %s' if changed else 'assigns: %s unchanged') % n, after[n], after2[m])
    for q, bad in sorted(ex.races.items()):
        ob.append((q, not bad, 'an iteration may see what another one wrote to ' + ', '.join(sorted(set(bad))), 'each iteration on its own'))
    return ob


# ------------------------------------------------------------ preconditions
import ast as _ast


def assumptions(requires):
    """{name: substitute} for preconditions of the forms  a == b  (a: a dimension or length)  and  f[...] <= e"""
    r = {}
    for s in requires:
        c = _ast.parse(s, mode='eval').body
        (op,), (rhs,) = c.ops, c.comparators
        if isinstance(op, _ast.Eq):
            name, nargs = pname(c.left)
            v = pterm(rhs)
            r[name] = (lambda v: lambda args: v)(v)
        elif isinstance(op, _ast.LtE):
            name, nargs = pname(c.left)
            v = pterm(rhs)
            if nargs == 0 and not isinstance(c.left, _ast.Subscript):
                r[name] = v - app('slack:' + name, [], isint=True, nonneg=True)
            else:
                r[name] = (lambda v, name: lambda args: v - app('slack:' + name, args, isint=True, nonneg=True))(v, name)
        else:
            raise Unsupported('precondition ' + s)
    return r


def pname(e):
    """(function name in terms, number of arguments)"""
    if isinstance(e, _ast.Name):
        return e.id, 0
    if isinstance(e, _ast.Call) and e.func.id == 'len':
        b = e.args[0]
        k = 0
        while isinstance(b, _ast.Subscript):
            b = b.value
            k += 1
        return 'len:%s:%d' % (b.id, k), k
    if isinstance(e, _ast.Subscript):
        b = e.value
        if isinstance(b, _ast.Attribute) and b.attr == 'shape':
            return 'dim:%s:%d' % (b.value.id, e.slice.value), 0
        k = 1
        while isinstance(b, _ast.Subscript):
            b = b.value
            k += 1
        return b.id, k
    raise Unsupported('precondition')


def pterm(e):
    if isinstance(e, _ast.Constant):
        return P(e.value)
    if isinstance(e, _ast.BinOp):
        a, b = pterm(e.left), pterm(e.right)
        return a + b if isinstance(e.op, _ast.Add) else a - b
    name, n = pname(e)
    if name.startswith('dim:') or name.startswith('len:'):
        return app(name, [], isint=True, nonneg=True)
    if n == 0:
        return sym(name, True)
    raise Unsupported('precondition')
