"""Symbolic executor: a function's body to the terms of what it returns, for all inputs.

Statements are executed on an environment of symbolic values; the branches of an if are merged; a loop is executed once
on arbitrary values of what it changes and replaced by the closed form of loops.py."""
import terms as T
from terms import *
from values import *
import loops as L
import folds
import cuts

INTS = {'int', 'unsigned int', 'long int', 'long', 'long long int', 'unsigned long', 'long unsigned int', 'long long unsigned int',
        'size_t', 'Py_ssize_t', 'unsigned', 'unsigned long int', 'short', 'char'}
REALS = {'double', 'float', 'long double'}


def ctype(t):
    """i, r, b for scalars; ('mem', ty, n), ('vec', depth, ty), ('set',), ('iter',), None"""
    if isinstance(t, str):
        if t in INTS:
            return 'i'
        if t in REALS:
            return 'r'
        if t in ('bint', 'bool'):
            return 'b'
        return None
    if not isinstance(t, (list, tuple)) or len(t) < 2:
        return None
    if t[0] == 'mem':
        e = ctype(t[1])
        return ('mem', e, t[2])
    if t[0] == 'vector':
        e = ctype(t[1])
        if e in ('i', 'r'):
            return ('vec', 1, e)
        if e and e[0] == 'vec':
            return ('vec', e[1] + 1, e[2])
        return None
    if t[0] == 'set':
        return ('set',)
    if isinstance(t[0], list) and t[1] == 'iterator':
        return ('iter',)
    return None


# variables that Python code reads after the loop that assigns them: (function, variable) -> type
LATE = {}


class Late(Unsupported):
    """one more of them: execute the function again"""


class Frame(object):
    """what does not change during the execution of one function"""

    def __init__(self, fn, mode):
        self.fn, self.mode = fn, mode
        self.types = {n: ctype(t) for n, t in fn.get('types', {}).items()}
        for n, t, d in fn['args']:
            self.types.setdefault(n, ctype(t))
        self.late = {}
        if mode == 'py':
            self.types.update({k: t for (f, k), t in LATE.items() if f == fn.get('name')})
        self.enums = set()
        listed(fn.get('body', []), self.enums)


def listed(x, out):
    """names of lists values are removed from, and of lists of what is removed"""
    if not isinstance(x, list):
        return
    if x and x[0] == 'call':
        f, a = x[1], x[2]
        if f[0] == 'index':
            f = f[1]
        if f == ['name', 'std_remove'] and len(a) == 3:
            if a[0][0] == 'call' and a[0][1][0] == 'attr' and a[0][1][1][0] == 'name':
                out.add(a[0][1][1][1])
            if a[2][0] == 'index' and a[2][1][0] == 'name':
                out.add(a[2][1][1])
        if f[0] == 'attr' and f[2] == 'remove' and f[1][0] == 'name':
            out.add(f[1][1])
            if len(a) == 1 and a[0][0] == 'index' and a[0][1][0] == 'name':
                out.add(a[0][1][1])
    for q in x:
        listed(q, out)


def removed_only(body, name):
    """the block changes the list by removals alone"""
    ok = [True]

    def go(x):
        if not isinstance(x, list) or not x:
            return
        if x[0] in ('assign', 'aug'):
            for t in (x[2] if x[0] == 'assign' else [x[3]]):
                while t[0] in ('index', 'attr'):
                    t = t[1]
                if t == ['name', name]:
                    ok[0] = False
        if x[0] == 'for' and x[2] == ['name', name]:
            ok[0] = False
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][1] == ['name', name] and \
                x[1][2] in ('push_back', 'append', 'clear', 'resize', 'insert', 'extend', 'pop', 'sort'):
            ok[0] = False
        for q in x:
            go(q)
    go(body)
    return ok[0]


def unchanged(a, b):
    if a is b or isinstance(a, Lazy) and a.val is not None and a.val is b or isinstance(b, Lazy) and b.val is not None and b.val is a:
        return True
    return same(force(a), force(b))


def unclipped(lo, hi):
    """q if hi is max(0, q) and lo is 0: a range up to either is the same"""
    if lo != ZERO:
        return hi
    if len(hi.t) == 1:
        (m, c), = hi.t.items()
        if c == 1 and len(m) == 1 and m[0].kind == 'app' and m[0].args[0] == 'max0':
            return P(m[0].args[1][0])
        return hi
    common = None
    for m in hi.t:
        common = set(m) if common is None else common & set(m)
    g = [a for a in common if a.ind]
    if len(g) != 1:
        return hi
    q = ZERO
    for m, c in hi.t.items():
        q = q + T.mono(tuple(a for a in m if a is not g[0])).scale(c)
    if (ONE - P(g[0])) * (ONE - le0(q)) == ZERO:
        return q
    return hi


class Ex(object):
    """functions: name -> IR; contracts: name -> callable(ex, env, args) giving the value of a call"""

    def __init__(self, functions, contracts=None, mode='pyx', log=None):
        self.functions = functions
        self.contracts = contracts or {}
        self.mode = mode
        self.depth = 0
        self.nobj = 0
        self.writes = {}
        self.log = log if log is not None else []
        self.races = {}
        self.parallels = {}
        self.fr = None
        self.line = 0

    # ------------------------------------------------------------ heap
    def new(self, env, arr):
        self.nobj += 1
        k = '#%d' % self.nobj
        env[k] = arr
        return Ref(k, [None] * len(arr.dims))

    def view(self, env, ref):
        """the Arr a reference denotes"""
        a = env[ref.obj]
        if all(i is None for i in ref.idx):
            return a
        ren, ps, dims = {}, [], []
        for p, d, i in zip(a.params, a.dims, ref.idx):
            if i is None:
                q = fresh('p')
                ren[p] = sym(q, True)
                ps.append(q)
                dims.append(d)
            else:
                ren[p] = i
        return Arr(dims, ps, T.subst(a.body, ren), a.ty)

    def write_view(self, env, ref, arr):
        """the cells of a view take the values of an array of its shape"""
        a = env[ref.obj]
        c = ONE
        free = []
        for p, i in zip(a.params, ref.idx):
            if i is None:
                free.append(sym(p, True))
            else:
                c = c * eq(sym(p, True) - i)
        env[ref.obj] = Arr(a.dims, a.params, ite(c, arr.at(free), a.body), a.ty)

    def arr(self, env, v):
        if isinstance(v, Ref):
            return self.view(env, v)
        if isinstance(v, Arr):
            return v
        raise Unsupported('not an array: ' + type(v).__name__)

    # ------------------------------------------------------------ functions
    def call_function(self, fn, args, env, mode):
        """executes fn on values; returns its value; env (the heap) is updated"""
        if 'unsupported' in fn:
            raise Unsupported('%s: %s' % (fn['name'], fn['unsupported']))
        if self.depth > 12:
            raise Unsupported('recursion')
        saved, sline, smode = self.fr, self.line, self.mode
        self.fr, self.mode = Frame(fn, mode), mode
        self.depth += 1
        try:
            e2 = Env({k: v for k, v in env.items() if k[0] == '#'})
            for k, (n, t, d) in enumerate(fn['args']):
                if k < len(args):
                    e2[n] = args[k]
                elif d is not None:
                    e2[n] = self.ev(d, e2)
                else:
                    raise Unsupported('missing argument ' + n)
                e2[n] = self.conv(e2[n], self.fr.types.get(n))
            outs = self.block(fn['body'], e2)
            rets = [(g, e, e['%ret']) for kd, (g, e) in outs.items() if kd == 'return']
            if 'normal' in outs:
                g, e = outs['normal']
                rets.append((g, e, NONE))
            if not rets:
                raise Unsupported('no return')
            if len(rets) > 1:
                rets = [(g, e, self.arr(e, v) if isinstance(v, Ref) else v) for g, e, v in rets]
            g, e, v = rets[0]
            for g2, e3, v2 in rets[1:]:
                e = self.menv(g, e, e3)
                v = merge(g, v, v2)
                g = g + g2
            for k, q in e.items():
                if k[0] == '#':
                    env[k] = q
            return v
        finally:
            self.fr, self.line, self.mode = saved, sline, smode
            self.depth -= 1

    def menv(self, g, a, b):
        """the environment that is a where g holds, else b"""
        r = Env()
        for k in set(a) | set(b):
            x, y = a.raw(k), b.raw(k)
            if x is None or y is None:
                if k[0] == '#':
                    r[k] = x if y is None else y
                    continue
                x = Undef(None, k) if x is None else x
                y = Undef(None, k) if y is None else y
            if x is y or isinstance(x, Lazy) and x.val is y and y is not None:
                r[k] = y
                continue
            if isinstance(y, Lazy) and y.val is x:
                r[k] = x
                continue
            sh = common_shape(x, y)
            if sh is not None:
                r[k] = Lazy(sh, (lambda x, y: lambda: merge(g, force(x), force(y)))(x, y))
                continue
            x, y = force(x), force(y)
            try:
                r[k] = merge(g, x, y)
            except Unsupported:
                if k[0] in '#%':
                    raise
                r[k] = Undef(None, k)
        return r

    def conv(self, v, ty):
        if isinstance(v, Num) and ty in ('i', 'r', 'b'):
            if v.ty == ty:
                return v
            if ty == 'r':
                return Num(v.p, 'r')
            if ty == 'b':
                return Num(self.truth(v), 'b')
            if v.p.isint():
                return Num(v.p, 'i')
            return Num(app('trunc', [v.p], isint=True), 'i')
        if isinstance(ty, tuple) and ty[0] == 'vec':
            if isinstance(v, TupV) and not v.items:
                return self.empty_vec(ty[1], ty[2])
            w = tovec(v)
            if w is not None and w.depth == ty[1]:
                return w
        return v

    # ------------------------------------------------------------ blocks
    def block(self, stmts, env):
        """{kind: (guard, env)}"""
        outs = {}
        g, e = ONE, Env(env)
        for s in stmts:
            self.line = s[1]
            r = self.stmt(s, e)
            nxt = None
            for kd, (g2, e2) in r.items():
                if kd == 'normal':
                    nxt = (g * g2, e2)
                else:
                    self.add(outs, kd, g * g2, e2)
            if nxt is None or nxt[0] == ZERO:
                g = ZERO
                break
            g, e = nxt
        if g != ZERO:
            self.add(outs, 'normal', g, e)
        return outs

    def add(self, outs, kd, g, e):
        if g == ZERO:
            return
        if kd in outs:
            g0, e0 = outs[kd]
            outs[kd] = (g0 + g, self.menv(g, e, e0))
        else:
            outs[kd] = (g, e)

    def stmt(self, s, env):
        k = s[0]
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (k, s[1]))
        return m(s, env)

    def s_decl(self, s, env):
        _, ln, name, t, init = s
        ty = ctype(t)
        e = Env(env)
        if init is not None:
            self.store(['name', name], self.ev(init, e), e)
        elif name not in e:
            if ty == ('set',):
                e[name] = SetV(fresh('p'), ZERO)
            elif ty and ty[0] == 'vec':
                e[name] = self.empty_vec(ty[1], ty[2])
            else:
                e[name] = Undef(ty, name)
        return {'normal': (ONE, e)}

    def empty_vec(self, depth, ty):
        lens = [([fresh('p') for _ in range(k)], ZERO) for k in range(depth)]
        return VecV(depth, lens, [fresh('p') for _ in range(depth)], ZERO, ty)

    def s_assign(self, s, env):
        e = Env(env)
        v = self.ev(s[3], e)
        if isinstance(v, Num) and cuts.LETS and self.mode == 'pyx' and v.ty == 'r':
            v = Num(cuts.recognised(v.p), v.ty)
        for t in s[2]:
            self.store(t, v, e)
        return {'normal': (ONE, e)}

    def s_aug(self, s, env):
        e = Env(env)
        cur = self.ev(s[3], e)
        v = self.binop(s[2], cur, self.ev(s[4], e), e, aug=True)
        self.store(s[3], v, e)
        return {'normal': (ONE, e)}

    def s_pass(self, s, env):
        return {'normal': (ONE, env)}

    def s_break(self, s, env):
        return {'break': (ONE, env)}

    def s_continue(self, s, env):
        return {'continue': (ONE, env)}

    def s_return(self, s, env):
        e = Env(env)
        v = NONE if s[2] is None else self.ev(s[2], e)
        e['%ret'] = self.arr(e, v) if isinstance(v, Ref) else v
        return {'return': (ONE, e)}

    def s_raise(self, s, env):
        return {'raise': (ONE, env)}

    def s_expr(self, s, env):
        e = Env(env)
        x = s[2]
        if x[0] == 'str':
            return {'normal': (ONE, e)}
        self.ev(x, e)
        return {'normal': (ONE, e)}

    def s_if(self, s, env):
        e = Env(env)
        c = self.truth(self.ev(s[2], e))
        outs = {}
        for g, b in ((c, s[3]), (ONE - c, s[4])):
            if g == ZERO:
                continue
            for kd, (g2, e2) in self.block(b, e).items():
                self.add(outs, kd, g * g2, e2)
        return outs

    # ------------------------------------------------------------ stores
    def store(self, t, v, env):
        k = t[0]
        if k == 'name':
            name = t[1]
            ty = self.fr.types.get(name)
            old = env.get(name)
            if isinstance(ty, tuple) and ty[0] == 'vec' and isinstance(v, Ref):
                v = self.arr(env, v)
            if isinstance(v, Arr) and not (isinstance(ty, tuple) and ty[0] in ('vec',)):
                v = self.new(env, v)
            if isinstance(ty, tuple) and ty[0] == 'mem' and isinstance(v, Num):
                raise Unsupported('scalar into a memoryview')
            env[name] = self.conv(v, ty)
            if name in self.fr.enums:
                if isinstance(v, TupV) and not v.items:
                    env[name] = EnumV(fresh('p'), ZERO)
                env[name] = enumerated(env[name])
        elif k == 'index':
            self.store_index(t[1], t[2], v, env)
        elif k in ('tuple', 'list'):
            if not isinstance(v, TupV) or len(v.items) != len(t[1]):
                raise Unsupported('unpacking')
            for q, w in zip(t[1], v.items):
                self.store(q, w, env)
        else:
            raise Unsupported('store to ' + k)

    def flat_index(self, b, idx):
        """base expression and all index expressions of a[i][j, k]"""
        while b[0] == 'index':
            idx = b[2] + idx
            b = b[1]
        return b, idx

    def store_index(self, b, idx, v, env):
        b, idx = self.flat_index(b, idx)
        base = self.ev(b, env)
        if isinstance(base, Ref):
            a = env[base.obj]
            full = []
            it = iter(idx)
            for i in base.idx:
                if i is not None:
                    full.append(i)
                else:
                    q = next(it, None)
                    if q is None or q[0] == 'slice':
                        if q is not None and any(z is not None for z in q[1:]):
                            if q[3] is not None:
                                raise Unsupported('store to a slice with a step')
                            d = a.dims[len(full)]
                            lo = ZERO if q[1] is None else self.wrap(self.num(self.ev(q[1], env)), d)
                            hi = d if q[2] is None else self.wrap(self.num(self.ev(q[2], env)), d)
                            full.append((lo, hi))
                            continue
                        full.append(None)
                    else:
                        w = self.ev(q, env)
                        if not isinstance(w, Num):
                            full.append(w)
                        else:
                            full.append(self.wrap(w.p, a.dims[len(full)], q))
            if next(it, None) is not None:
                raise Unsupported('too many indices')
            c = ONE
            free, at, sizes = [], [], {}
            for p, i in zip(a.params, full):
                if i is None:
                    free.append(p)
                    at.append(sym(p, True))
                elif isinstance(i, Poly):
                    c = c * eq(sym(p, True) - i)
                elif isinstance(i, tuple):
                    c = c * rng(i[0], sym(p, True), i[1])
                    free.append(p)
                    at.append(sym(p, True) - i[0])
                    sizes[len(free) - 1] = i[1] - i[0]
                else:
                    # an array of indices: the cells whose coordinate occurs in it
                    ia = self.arr(env, i)
                    if len(ia.dims) != 1:
                        raise Unsupported('index array')
                    j = fresh('j')
                    c = c * mex(j, ZERO, ia.dims[0], eq(sym(p, True) - ia.at([sym(j, True)])))
                    free.append(p)
                    at.append(sym(p, True))
                    if not isinstance(v, Num):
                        v = self.scatter(env, v, ia, p)
            if isinstance(v, Num):
                w = v.p
            else:
                if isinstance(v, VecV) and v.depth == 1:
                    v = Arr([v.len()], v.params, v.body, v.ty)
                va = self.arr(env, v)
                if len(va.dims) > len(free):
                    raise Unsupported('shape of a stored array')
                for j, n in sizes.items():
                    k = j - (len(free) - len(va.dims))
                    if k >= 0:
                        self.error(env, Not(eq(va.dims[k] - n)))
                w = va.at(at[len(free) - len(va.dims):])
            env[base.obj] = Arr(a.dims, a.params, ite(c, w, a.body), a.ty)
            return
        if isinstance(base, VecV):
            ix = [self.num(self.ev(q, env)) for q in idx]
            if len(ix) == 1:
                ix = [self.wrap(ix[0], base.len())]
            env_name = b[1] if b[0] == 'name' else None
            if env_name is None:
                raise Unsupported('store to a nested vector')
            env[env_name] = self.vec_set(base, ix, v)
            return
        raise Unsupported('indexed store to ' + type(base).__name__)

    def scatter(self, env, v, ia, p):
        """data[:, S] = x[S]: the value for coordinate p when both index arrays agree"""
        if isinstance(v, Gather) and v.index.body == ia.at([sym(q, True) for q in v.index.params]):
            return Arr([P(0)], [p], v.source.at([sym(p, True)]), v.source.ty)
        raise Unsupported('store through an index array')

    def vec_set(self, vec, ix, v):
        """vec with the element (or subvector) at ix replaced"""
        n = len(ix)

        def cond(ps):
            c = ONE
            for q, i in zip(ps, ix):
                c = c * eq(sym(q, True) - i)
            return c
        lens = list(vec.lens)
        if isinstance(v, VecV):
            if v.depth != vec.depth - n:
                raise Unsupported('vector depth')
            for k in range(n, vec.depth):
                ps, b = lens[k]
                ps2, b2 = v.lens[k - n]
                lens[k] = (ps, ite(cond(ps[:n]), T.subst(b2, dict(zip(ps2, [sym(q, True) for q in ps[n:]]))), b))
            w = T.subst(v.body, dict(zip(v.params, [sym(q, True) for q in vec.params[n:]])))
        else:
            if n != vec.depth or not isinstance(v, Num):
                raise Unsupported('vector element')
            w = v.p
        return VecV(vec.depth, lens, vec.params, ite(cond(vec.params[:n]), w, vec.body), vec.ty)

    def wrap(self, i, dim, q=None):
        """negative literal indices count from the end (Python mode)"""
        c = i.const()
        if c is not None and c < 0 and self.mode == 'py':
            return dim + i
        return i

    # ------------------------------------------------------------ loops
    def assigned(self, stmts, out):
        """names a block may change (names, and bases of indexed stores and of methods)"""
        for s in stmts:
            k = s[0]
            if k == 'decl':
                if s[4] is not None:
                    out.add(s[2])
                    self.names_called(s[4], out)
            elif k == 'assign':
                for t in s[2]:
                    self.target_names(t, out)
                self.names_called(s[3], out)
            elif k == 'aug':
                self.target_names(s[3], out)
                self.names_called(s[4], out)
            elif k == 'if':
                self.names_called(s[2], out)
                self.assigned(s[3], out)
                self.assigned(s[4], out)
            elif k == 'for':
                self.target_names(s[2], out)
                self.names_called(s[3], out)
                self.assigned(s[4], out)
            elif k == 'while':
                self.names_called(s[2], out)
                self.assigned(s[3], out)
            elif k == 'expr':
                self.names_called(s[2], out)
            elif k == 'return':
                pass
        return out

    def target_names(self, t, out):
        if t[0] == 'name':
            out.add(t[1])
        elif t[0] in ('index', 'attr'):
            self.target_names(t[1], out)
        elif t[0] in ('tuple', 'list'):
            for q in t[1]:
                self.target_names(q, out)

    MUT = {'insert', 'erase', 'clear', 'push_back', 'pop_back', 'resize', 'append', 'remove', 'extend', 'add', 'pop', 'sort'}

    def names_called(self, x, out):
        if not isinstance(x, list):
            return
        if x and x[0] == 'call':
            f = x[1]
            if f[0] == 'attr' and f[2] in self.MUT:
                self.target_names(f[1], out)
            fn = f[1] if f[0] == 'name' else (f[1][1] if f[0] == 'index' and f[1][0] == 'name' else None)
            if fn in ('inc', 'preincrement', 'std_remove', 'dec'):
                for q in x[2]:
                    self.base_names(q, out)
            if fn in self.contracts:
                for w in self.contracts[fn].writes:
                    if w < len(x[2]):
                        self.target_names(x[2][w], out)
            if fn in self.functions and fn not in self.contracts:
                # arrays passed to a function that assigns to its parameter
                w = self.written(fn)
                for k, q in enumerate(x[2]):
                    if q[0] in ('name', 'index') and k in w:
                        self.target_names(q, out)
        for q in x:
            if isinstance(q, list):
                self.names_called(q, out)

    def written(self, fn):
        """positions of the parameters a function assigns to, as far as names show (try_loop sees the rest)"""
        if fn not in self.writes:
            self.writes[fn] = set()
            f = self.functions[fn]
            names = self.assigned(f.get('body', []), set())
            self.writes[fn] = set(k for k, a in enumerate(f['args']) if a[0] in names)
        return self.writes[fn]

    def base_names(self, x, out):
        if isinstance(x, list):
            if x and x[0] == 'name':
                out.add(x[1])
            else:
                for q in x:
                    self.base_names(q, out)

    def s_for(self, s, env):
        _, ln, target, it, body = s
        e = Env(env)
        if it[0] == 'call' and it[1][0] == 'name' and it[1][1] in ('range', 'prange', 'tqdm', 'list', 'enumerate'):
            fn = it[1][1]
            if fn in ('tqdm', 'list'):
                return self.s_for(['for', ln, target, it[2][0], body], env)
            if fn in ('range', 'prange'):
                a = [self.num(self.ev(q, e)) for q in it[2]]
                lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
                if len(a) > 2 and a[2] != ONE:
                    raise Unsupported('range with a step')
                if target[0] != 'name':
                    raise Unsupported('loop target')
                return self.loop(('range', lo, hi), lambda k, e: e.__setitem__(target[1], Num(k, 'i')), {target[1]}, body, e,
                                 parallel=fn == 'prange')
        if it[0] == 'call' and it[1] == ['name', 'sorted']:
            d = self.domain_of(it, e)
            out = set()
            self.target_names(target, out)
            return self.loop(('set', d[1]), lambda k, e: self.store(target, d[3](k), e), out, body, e)
        return self.for_iter(target, it, body, e)

    def for_iter(self, target, it, body, e):
        v = self.ev(it, e)
        out = set()
        self.target_names(target, out)
        if isinstance(v, TupV):
            # literal sequence: unrolled
            outs = {}
            g = ONE
            cur = e
            for w in v.items:
                c2 = Env(cur)
                self.store(target, w, c2)
                r = self.block(body, c2)
                g2, nxt = ZERO, None
                for kd, (h, e2) in r.items():
                    if kd in ('normal', 'continue'):
                        nxt = e2 if nxt is None else self.menv(h, e2, nxt)
                        g2 = g2 + h
                    elif kd == 'break':
                        self.add(outs, 'normal', g * h, e2)
                    else:
                        self.add(outs, kd, g * h, e2)
                if nxt is None:
                    return outs
                g = g * g2
                cur = nxt
            self.add(outs, 'normal', g, cur)
            return outs
        if isinstance(v, EnumV):
            v.ready()
            return self.loop(('set', v.has), lambda k, e: self.store(target, Num(k, 'i'), e), out, body, e)
        n, elem = self.sequence(e, v)
        return self.loop(('range', ZERO, n), lambda k, e: self.store(target, elem(k), e), out, body, e)

    def sequence(self, env, v):
        """length and element function of an iterable value"""
        if isinstance(v, Ref):
            a = env[v.obj]
            j = [i for i, q in enumerate(v.idx) if q is None][0]

            def elem(k):
                idx = list(v.idx)
                idx[j] = k
                if all(q is not None for q in idx):
                    return Num(a.at(idx), a.ty)
                return Ref(v.obj, idx)
            return a.dims[j], elem
        if isinstance(v, Arr):
            if len(v.dims) == 1:
                return v.dims[0], lambda k: Num(v.at([k]), v.ty)
            return v.dims[0], lambda k: Arr(v.dims[1:], v.params[1:], T.subst(v.body, {v.params[0]: k}), v.ty)
        if isinstance(v, VecV):
            return v.len(), lambda k: v.at([k])
        if isinstance(v, CombV):
            return T.ONE + app('combinations', v.args, isint=True, nonneg=True), lambda k: CombV(v.args + [k])
        raise Unsupported('iteration over ' + type(v).__name__)

    def s_while(self, s, env):
        """while it != S.end(): ... inc(it)"""
        _, ln, c, body = s
        e = Env(env)
        pat = self.iter_cond(c, e)
        if pat is None:
            raise Unsupported('while loop at line %s' % ln)
        itname, sname = pat
        iv = e[itname]
        if not isinstance(iv, IterV) or iv.pos != 'begin':
            raise Unsupported('iterator not at the beginning')
        mods = self.assigned(body, set())
        if sname in mods:
            raise Unsupported('set changed while iterated')
        S = iv.set
        if not same(S, e[sname]):
            raise Unsupported('set changed after begin()')

        def bind(k, e2):
            e2[itname] = IterV(S, 'at', k, 0)

        def after(kd, e2):
            v = e2.get(itname)
            if kd != 'break':
                if not isinstance(v, IterV) or v.steps != 1:
                    raise Unsupported('iterator not advanced once')
            e2[itname] = IterV(S, 'end', None, 0)
        r = self.loop(('set', S.has), bind, set(), body, e, after=after, skip={itname})
        for kd, (g, e2) in r.items():
            e2[itname] = IterV(S, 'end', None, 0)
        return r

    def iter_cond(self, c, env):
        if c[0] == 'cmp' and c[1] == '!=' and c[2][0] == 'name' and c[3][0] == 'call' and c[3][1][0] == 'attr' and \
                c[3][1][2] == 'end' and c[3][1][1][0] == 'name':
            return c[2][1], c[3][1][1][1]
        return None

    def loop(self, domain, bind, targets, body, env, after=None, skip=(), parallel=False):
        mods = self.assigned(body, set()) | set(targets)
        mods -= set(skip)
        keys = ['#err'] if '#err' in env else []
        for n in sorted(mods):
            v = env.get(n)
            if isinstance(v, Ref):
                if v.obj not in keys:
                    keys.append(v.obj)
                if n in self.rebound(body):
                    keys.append(n)
            else:
                keys.append(n)
        if domain[0] == 'range':
            w = (domain[2] - domain[1]).const()
            if w is not None and w <= 0:
                return {'normal': (ONE, env)}
            domain = ('range', domain[1], unclipped(domain[1], domain[2]))
        for k in keys:
            v = env.raw(k)
            if isinstance(v, TupV) and v.items and all(isinstance(q, Num) for q in v.items) and k in self.rebound(body):
                env[k] = tovec(v)
            if k in self.fr.enums and isinstance(shape(env.raw(k)), VecV):
                env[k] = enumerated(env[k])
        groups = self.guess(keys, env, body)
        for attempt in range(5):
            r = self.try_loop(domain, bind, keys, body, env, after, groups, parallel)
            if isinstance(r, set):
                keys += sorted(r)
                continue
            if not isinstance(r, list):
                return r
            groups = r
        raise Unsupported('loop')

    def rebound(self, body, out=None):
        """names assigned as a whole in a block"""
        out = set() if out is None else out
        for s in body:
            if s[0] == 'assign':
                for t in s[2]:
                    if t[0] == 'name':
                        out.add(t[1])
                    elif t[0] in ('tuple', 'list'):
                        out |= set(q[1] for q in t[1] if q[0] == 'name')
            elif s[0] == 'aug' and s[3][0] == 'name':
                out.add(s[3][1])
            elif s[0] == 'decl' and s[4] is not None:
                out.add(s[2])
            elif s[0] == 'if':
                self.rebound(s[3], out)
                self.rebound(s[4], out)
            elif s[0] == 'for':
                if s[2][0] == 'name':
                    out.add(s[2][1])
                self.rebound(s[4], out)
            elif s[0] == 'while':
                self.rebound(s[3], out)
        return out

    def added(self, body, out):
        """names of numbers assigned in a block: True when only by +="""
        for s in body:
            if s[0] == 'aug' and s[3][0] == 'name':
                out[s[3][1]] = out.get(s[3][1], True) and s[2] == '+'
            elif s[0] == 'assign':
                for t in s[2]:
                    for q in ([t] if t[0] == 'name' else t[1] if t[0] in ('tuple', 'list') else ()):
                        if q[0] == 'name':
                            out[q[1]] = False
            elif s[0] == 'if':
                self.added(s[3], out)
                self.added(s[4], out)
            elif s[0] == 'for':
                if s[2][0] == 'name':
                    out[s[2][1]] = False
                self.added(s[4], out)
            elif s[0] == 'while':
                self.added(s[3], out)
        return out

    def ordinal(self, body):
        """the number of a parallel loop in its function"""
        return self.parallels.setdefault((self.fr.fn['name'], id(body)), 1 + sum(1 for f, _ in self.parallels if f == self.fr.fn['name']))

    def guess(self, keys, env, body):
        """sets with equal values before the loop of which one is copied to the other: they are guessed to stay equal"""
        links = []

        def walk(ss):
            for s in ss:
                if s[0] == 'assign' and s[3][0] == 'name':
                    links.extend((t[1], s[3][1]) for t in s[2] if t[0] == 'name')
                elif s[0] == 'if':
                    walk(s[3])
                    walk(s[4])
                elif s[0] == 'for':
                    walk(s[4])
                elif s[0] == 'while':
                    walk(s[3])
        walk(body)
        gs = []
        for a, b in links:
            if a == b or a not in keys or b not in keys:
                continue
            if type(shape(env.raw(a))) is not type(shape(env.raw(b))) or not isinstance(shape(env.raw(a)), (SetV, EnumV)):
                continue
            if not same(env[a], env[b]):
                continue
            ga = [g for g in gs if a in g or b in g]
            n = sorted(set([a, b]).union(*ga))
            gs = [g for g in gs if g not in ga] + [n]
        return gs

    def try_loop(self, domain, bind, keys, body, env, after, groups, parallel=False):
        rep = {}
        for g in groups:
            for k in g[1:]:
                rep[k] = g[0]
        var = fresh('k')
        kv = sym(var, True)
        if domain[0] == 'range':
            T.fact(var, domain[1], domain[2])
        henv = Env(env)
        comps = {}
        temps = set()
        init = {}
        shrinks = []
        for k in keys:
            if k in rep:
                continue
            v = env.raw(k)
            sh = shape(v)
            if v is None:
                v = sh = Undef(self.fr.types.get(k), k)
            if isinstance(sh, Undef) and sh.ty in ('i', 'r', 'b'):
                v = sh = Num(app('undef:' + k, [], sh.ty == 'i', sh.ty == 'b'), sh.ty)
            if isinstance(sh, TupV) and not sh.items:
                henv[k] = sh
                continue
            if not isinstance(sh, (Num, Arr, SetV, VecV)):
                temps.add(k)
                henv[k] = Undef(sh.ty if isinstance(sh, Undef) else None, k)
                continue
            init[k] = sh
            parts = []
            cs = []
            for n, (ps, b, isint, ind) in enumerate(comps_of(sh)):
                nm = fresh('h.' + k.replace('#', 'o') + '.')
                ps2 = [fresh('p') for _ in ps]

                def ini(v=v, n=n, ps2=ps2):
                    ps, b, _, _ = comps_of(force(v))[n]
                    return T.subst(b, {q: sym(z, True) for q, z in zip(ps, ps2)})
                cs.append((nm, ps2, ini, isint, ind))
                hd = folds.call(nm, [sym(z, True) for z in ps2], isint, ind)
                if isinstance(sh, EnumV) and removed_only(body, k):
                    # guess: only numbers of its range before the loop
                    q = ini()
                    if len(q.t) == 1 and all(a.kind == 'rng' for a in q.atoms()):
                        hd = hd * q
                        shrinks.append((k, q))
                parts.append((ps2, hd))
            comps[k] = cs
            henv[k] = rebuild(sh, parts)
        for k, r in rep.items():
            henv[k] = henv[r]
        e1 = Env(henv)
        bind(kv, e1)
        outs = self.block(body, e1)
        # objects written under another name
        more = set()
        for g, e in outs.values():
            for k in env:
                if k[0] == '#' and k not in keys and not unchanged(env.raw(k), e.raw(k)):
                    more.add(k)
        if more:
            return more
        for k in keys:
            v = shape(env.raw(k))
            if k not in rep and isinstance(v, TupV) and not v.items:
                for g, e in outs.values():
                    v = shape(e.raw(k))
                    if isinstance(v, VecV):
                        env[k] = self.empty_vec(v.depth, v.ty)
                        return groups
        gN, eN = ZERO, None
        gB, eB = ZERO, None
        rest = {}
        for kd, (g, e) in outs.items():
            if after:
                after(kd, e)
            if kd in ('normal', 'continue'):
                eN = e if eN is None else self.menv(g, e, eN)
                gN = gN + g
            elif kd == 'break':
                gB, eB = g, e
            elif kd == 'raise':
                raise Unsupported('raise in a loop')
            else:
                raise Unsupported('return in a loop')
        if eN is None:
            eN = eB
        # empty lists the body appends to
        empty = [k for k in keys if k not in rep and isinstance(shape(env.raw(k)), TupV) and not shape(env.raw(k)).items]
        for k in empty:
            v = shape(eN.raw(k))
            if isinstance(v, VecV):
                env[k] = self.empty_vec(v.depth, v.ty)
            elif not (isinstance(v, TupV) and not v.items):
                raise Unsupported('list %s: %s' % (k, type(v).__name__))
        if any(isinstance(shape(env.raw(k)), VecV) for k in empty):
            return groups
        # guesses
        if groups:
            new = []
            bad = False
            for g in groups:
                cl = []
                for k in g:
                    for c in cl:
                        if same(eN[c[0]], eN[k]) and (eB is None or same(eB[c[0]], eB[k])):
                            c.append(k)
                            break
                    else:
                        cl.append([k])
                bad = bad or len(cl) > 1
                new += [c for c in cl if len(c) > 1]
            if bad:
                return new
        for k, q in shrinks:
            for e in (eN, eB):
                if e is None:
                    continue
                v = e[k]
                if not isinstance(v, EnumV) or v.pred * T.subst(q, {comps[k][0][1][0]: sym(v.param, True)}) != v.pred:
                    if T.os.environ.get('ERRS'): print('LIST', k, T.show(q), '|', T.show(v.pred)[:1500])
                    raise Unsupported('list %s: %s' % (k, type(v).__name__))
        # literal lists
        for k in comps:
            if type(init[k]) is VecV:
                for e in (eN, eB):
                    if e is not None and isinstance(shape(e.raw(k)), TupV):
                        v = force(e.raw(k))
                        v = tovec(v) if v.items else emptied(init[k])
                        if v is not None:
                            e[k] = v
        brk = None
        cl = []
        if gB != ZERO:
            brk = fresh('h.brk')
            b = sym(brk, True, True)
            cl.append(L.C(brk, (), lambda: ZERO, lambda b=b: b + (ONE - b) * gB, True, True))
        where = {}
        pushes = []
        heads = set(c[0] for q in comps.values() for c in q)
        for k, cs in comps.items():
            v = eN.raw(k)
            sh = shape(v)
            shB = shape(eB.raw(k)) if eB is not None else sh
            if not isinstance(sh, (Num, Arr, SetV, VecV)) or type(sh) is not type(init[k]) or type(shB) is not type(sh) or \
                    isinstance(sh, Arr) and not (len(sh.dims) == len(init[k].dims) and all(x == y for x, y in zip(sh.dims, init[k].dims))) or \
                    isinstance(sh, VecV) and sh.depth != init[k].depth:
                temps.add(k)
                continue
            if isinstance(sh, EnumV) and (sh.pushed or shB.pushed):
                pushes.append(k)
            if isinstance(sh, Num):
                init[k] = Num(ZERO, join_ty(init[k].ty, sh.ty))
            lst = []
            for n, (nm, ps, ini, isint, ind) in enumerate(cs):
                def out(k=k, n=n, nm=nm, ps=ps, ini=ini, isint=isint, ind=ind):
                    o1 = comps_of(eN[k])[n]
                    r = T.subst(o1[1], {q: sym(z, True) for q, z in zip(o1[0], ps)})
                    if brk is None:
                        return r
                    r2 = r
                    if eB is not eN:
                        o2 = comps_of(eB[k])[n]
                        r2 = T.subst(o2[1], {q: sym(z, True) for q, z in zip(o2[0], ps)})
                    h = folds.call(nm, [sym(z, True) for z in ps], isint, ind)
                    # changed by the breaking iteration only: until then the initial value
                    if r == h and nm in r2.free:
                        r2 = T.subst(r2, {nm: L.lam(ps, ini())})
                    # after the break nothing changes
                    if r == h and not (gB.free & heads) and not (r2.free & (heads | {var})):
                        return ite(gB, r2, h)
                    b = sym(brk, True, True)
                    return ite(b, h, ite(gB, r2, r))
                c = L.C(nm, ps, ini, out, isint if not isinstance(sh, Num) or init[k].ty != 'r' else False, ind and (not isinstance(sh, Num) or init[k].ty == 'b'))
                lst.append(c)
                cl.append(c)
            where[k] = lst
        lp = L.Loop(var, domain, cl, self.log, '%s:%s' % (self.fr.fn['name'], self.line))
        if parallel:
            scal = {c.name: k for k, cs in where.items() if k[0] != '#' for c in cs}
            adds = self.added(body, {})
            private = {n for n, k in scal.items() if adds.get(k) is not True}
            bad = lp.interference(private, set(scal) - private)
            bad = [n for n in bad if not n.startswith('h.oerr.')]
            key = 'iterations do not interfere: %s, loop %s' % (self.fr.fn['name'], self.ordinal(body))
            self.races[key] = self.races.get(key, []) + (['break'] if brk else []) + bad
            for n in private:
                # what is left of an iteration that another one has not written
                if lp.byname[n].out.free & heads:
                    k = scal[n]
                    where.pop(k, None)
                    temps.add(k)
        for k in pushes:
            c, = where[k]
            for o in (eN, eB):
                if o is not None and not lp.appended(c, T.subst(o[k].pred, {o[k].param: sym(c.params[0], True)}) - L.head(c)):
                    raise Unsupported('list %s not increasing' % k)
        e = Env(env)
        for k, cs in where.items():
            e[k] = Lazy(init[k], (lambda k, cs: lambda: rebuild(init[k], [(list(c.params), lp.value(c)) for c in cs]))(k, cs))
        for k, r in rep.items():
            e[k] = e.raw(r)
        for k in temps:
            e[k] = Undef(self.fr.types.get(k), k)
            v = eN.get(k)
            if self.fr.mode == 'py' and isinstance(v, Num):
                self.fr.late[k] = v.ty
            if eB is None and domain[0] == 'range' and le0(domain[1] + 1 - domain[2]) == ONE and isinstance(v, EnumV) and \
                    not v.pushed and v.pend is None and not (v.pred.free & (heads | {var})):
                # the last iteration, and there is one, leaves this value
                e[k] = v
        return {'normal': (ONE, e)}

    # ------------------------------------------------------------ expressions
    def num(self, v):
        if isinstance(v, Num):
            return v.p
        raise Unsupported('number expected, not ' + type(v).__name__)

    def truth(self, v):
        if isinstance(v, Num):
            if v.ty == 'b' or v.p.isind():
                return v.p
            return Not(eq(v.p))
        if isinstance(v, NoneV):
            return ZERO
        raise Unsupported('truth of ' + type(v).__name__)

    def ev(self, x, env):
        k = x[0]
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (k, self.line))
        return m(x, env)

    def e_int(self, x, env):
        return Num(x[1], 'i')

    def e_float(self, x, env):
        return Num(F(x[1]), 'r')

    def e_true(self, x, env):
        return Num(1, 'b')

    def e_false(self, x, env):
        return Num(0, 'b')

    def e_none(self, x, env):
        return NONE

    def e_str(self, x, env):
        return StrV(x[1])

    def e_name(self, x, env):
        v = env.get(x[1])
        if v is None:
            raise Unsupported('name ' + x[1])
        if isinstance(v, Undef):
            if v.ty in ('i', 'r', 'b'):
                return Num(app('undef:' + v.name, [], v.ty == 'i', v.ty == 'b'), v.ty)
            if x[1] in self.fr.late and (self.fr.fn.get('name'), x[1]) not in LATE:
                LATE[self.fr.fn.get('name'), x[1]] = self.fr.late[x[1]]
                raise Late('undefined ' + x[1])
            raise Unsupported('undefined ' + x[1])
        return v

    def e_tuple(self, x, env):
        return TupV([self.ev(q, env) for q in x[1]])

    e_list = e_tuple

    def e_cast(self, x, env):
        return self.conv(self.ev(x[2], env), ctype(x[1]))

    def e_neg(self, x, env):
        return self.binop('*', Num(-1, 'i'), self.ev(x[1], env), env)

    def e_pos(self, x, env):
        return self.ev(x[1], env)

    def e_not(self, x, env):
        return Num(Not(self.truth(self.ev(x[1], env))), 'b')

    def e_and(self, x, env):
        a, b = self.ev(x[1], env), None
        if self.truth(a) == ZERO:
            return Num(0, 'b')
        b = self.under(self.truth(a), x[2], env)
        return Num(And(self.truth(a), self.truth(b)), 'b')

    def e_or(self, x, env):
        a = self.ev(x[1], env)
        if self.truth(a) == ONE:
            return Num(1, 'b')
        return Num(Or(self.truth(a), self.truth(self.under(Not(self.truth(a)), x[2], env))), 'b')

    def e_cond(self, x, env):
        c = self.truth(self.ev(x[1], env))
        if c == ONE:
            return self.ev(x[2], env)
        if c == ZERO:
            return self.ev(x[3], env)
        return merge(c, self.under(c, x[2], env), self.under(Not(c), x[3], env))

    def under(self, c, x, env):
        """an expression evaluated only if c holds"""
        if '#err' not in env:
            return self.ev(x, env)
        before = env.raw('#err')
        env['#err'] = Num(ZERO, 'b')
        v = self.ev(x, env)
        e = env['#err'].p
        env['#err'] = before
        self.error(env, c * e)
        return v

    def error(self, env, e):
        """an execution with e divides by zero"""
        if e != ZERO and '#err' in env:
            old = env.raw('#err')
            env['#err'] = Lazy(Num(ZERO, 'b'), lambda: Num(Or(force(old).p, e), 'b'))

    def e_cmp(self, x, env):
        op, a, b = x[1:]
        # membership in a vector
        f = self.find_pattern(a, b, env)
        if f is not None and op in ('!=', '=='):
            return Num(f if op == '!=' else Not(f), 'b')
        # a bit of a number
        if a[0] == 'bin' and a[1] == '&' and b == ['int', 0] and op in ('>', '!='):
            for u, w in ((a[2], a[3]), (a[3], a[2])):
                if w[0] == 'bin' and w[1] == '<<' and w[2] == ['int', 1]:
                    return Num(app('bit', [self.num(self.ev(u, env)), self.num(self.ev(w[3], env))], ind=True), 'b')
        va, vb = self.ev(a, env), self.ev(b, env)
        if op in ('in', 'not_in'):
            f = vb.has(self.num(va)) if isinstance(vb, (SetV, BagV)) else self.member(self.as_vec(vb, env), va)
            return Num(f if op == 'in' else Not(f), 'b')
        return self.compare(op, va, vb, env)

    def as_vec(self, v, env):
        if isinstance(v, (Ref, Arr)):
            a = self.arr(env, v)
            if len(a.dims) == 1:
                return VecV(1, [([], a.dims[0])], a.params, a.body, a.ty)
        return v

    def compare(self, op, va, vb, env):
        if op in ('is', '==') and isinstance(va, NoneV) != isinstance(vb, NoneV):
            return Num(0, 'b')
        if op in ('is_not', '!=') and isinstance(va, NoneV) != isinstance(vb, NoneV):
            return Num(1, 'b')
        if isinstance(va, NoneV) and isinstance(vb, NoneV):
            return Num(1 if op in ('is', '==') else 0, 'b')
        if self.below_limit(op, vb):
            return Num(ZERO, 'b')
        if isinstance(va, Num) and isinstance(vb, Num):
            return Num(self.cmp(op, va.p, vb.p), 'b')
        for u, w in ((va, vb), (vb, va)):
            if isinstance(u, TupV) and not u.items and isinstance(w, VecV) and op in ('==', '!='):
                z = eq(w.len())
                return Num(z if op == '==' else Not(z), 'b')
        if isinstance(va, (Ref, Arr)) or isinstance(vb, (Ref, Arr)):
            return self.elementwise(lambda p, q: self.cmp(op, p, q), va, vb, env, 'b')
        raise Unsupported('comparison of %s and %s' % (type(va).__name__, type(vb).__name__))

    def cmp(self, op, a, b):
        if op == '==':
            return eq(a - b)
        if op == '!=':
            return Not(eq(a - b))
        if op == '<=':
            return le0(a - b)
        if op == '>=':
            return le0(b - a)
        if op == '<':
            return Not(le0(b - a))
        if op == '>':
            return Not(le0(a - b))
        raise Unsupported('comparison ' + op)

    def below_limit(self, op, vb):
        """the precondition of the searches: fewer than 2**15 coalitions, so that none is left out"""
        return op in ('>=', '>') and isinstance(vb, Num) and vb.p.const() == 2 ** 15

    def elementwise(self, f, va, vb, env, ty=None):
        """broadcasting of scalars and arrays"""
        a = self.arr(env, va) if not isinstance(va, Num) else None
        b = self.arr(env, vb) if not isinstance(vb, Num) else None
        n = max(len(a.dims) if a else 0, len(b.dims) if b else 0)
        ps = [fresh('p') for _ in range(n)]
        ss = [sym(q, True) for q in ps]

        def part(z, v):
            if z is None:
                return v.p
            idx = ss[n - len(z.dims):]
            idx = [ZERO if d.const() == 1 else q for d, q in zip(z.dims, idx)]
            return z.at(idx)
        dims = []
        for j in range(n):
            ds = [z.dims[j - (n - len(z.dims))] for z in (a, b) if z is not None and j >= n - len(z.dims)]
            ds = [d for d in ds if d.const() != 1] or ds[:1]
            dims.append(ds[0])
        ta = va.ty if a is None else a.ty
        tb = vb.ty if b is None else b.ty
        return Arr(dims, ps, f(part(a, va), part(b, vb)), ty or join_ty(ta, tb))

    def find_pattern(self, a, b, env):
        """std_find(v.begin(), v.end(), e) compared with v.end()"""
        if a[0] == 'call' and a[1][0] == 'index' and a[1][1] == ['name', 'std_find'] or \
                a[0] == 'call' and a[1] == ['name', 'std_find']:
            args = a[2]
            if len(args) != 3:
                return None
            v = args[0][1][1]
            if args[0] != ['call', ['attr', v, 'begin'], [], []] or args[1] != ['call', ['attr', v, 'end'], [], []] or \
                    b != ['call', ['attr', v, 'end'], [], []]:
                raise Unsupported('use of std_find')
            vec = self.ev(v, env)
            e = self.ev(args[2], env)
            return self.member(vec, e)
        return None

    def member(self, vec, e):
        if isinstance(vec, VecV) and vec.depth == 1:
            j = fresh('j')
            return mex(j, ZERO, vec.len(), eq(vec.at([sym(j, True)]).p - self.num(e)))
        raise Unsupported('membership')

    # ------------------------------------------------------------ comprehensions
    def domain_of(self, it, env):
        """('range', lo, hi, elem) or ('set', has, elem) of an iterable expression"""
        if it[0] == 'call' and it[1][0] == 'name' and it[1][1] not in env:
            fn = it[1][1]
            if fn in ('sorted', 'list', 'tqdm', 'set') and len(it[2]) == 1:
                d = self.domain_of(it[2][0], env)
                if fn in ('list', 'tqdm') or d[0] == 'set':
                    return d
                raise Unsupported(fn + ' of a sequence')
            if fn in ('range', 'prange'):
                a = [self.num(self.ev(q, env)) for q in it[2]]
                lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
                if len(a) > 2 and a[2] != ONE:
                    raise Unsupported('range with a step')
                return 'range', lo, hi, lambda k: Num(k, 'i')
        v = self.ev(it, env)
        if isinstance(v, EnumV):
            v.ready()
        if isinstance(v, (SetV, EnumV)):
            return 'set', v.has, None, lambda k: Num(k, 'i')
        if isinstance(v, TupV):
            raise Unsupported('comprehension over a literal')
        n, elem = self.sequence(env, v)
        return 'range', ZERO, n, elem

    def reduce(self, gens, env, leaf, comb):
        """comb(variable, domain, guard, value) from the inside out over the generators of a comprehension"""
        if not gens:
            return leaf(env)
        t, it, conds = gens[0]
        d = self.domain_of(it, env)
        k = fresh('k')
        e2 = Env(env)
        e2['#err'] = Num(ZERO, 'b')
        self.store(t, d[3](sym(k, True)), e2)
        g = ONE
        for c in conds:
            g = g * self.truth(self.ev(c, e2))
        r = self.reduce(gens[1:], e2, leaf, comb)
        self.some(env, k, d, e2['#err'].p * g)
        return comb(k, d, g, r)

    def some(self, env, k, d, e):
        """a division by zero for some k of a domain"""
        if e != ZERO:
            self.error(env, mex(k, d[1], d[2], e) if d[0] == 'range' else mex(k, None, None, d[1](sym(k, True)) * e))

    def q_sum(self, gen, env):
        ty = ['i']

        def leaf(e):
            v = self.ev(gen[2], e)
            ty[0] = join_ty(ty[0], v.ty)
            return self.num(v)

        def comb(k, d, g, p):
            if d[0] == 'range':
                return msum(k, d[1], d[2], g * p)
            return msum(k, None, None, d[1](sym(k, True)) * g * p)
        return Num(self.reduce(gen[3], env, leaf, comb), ty[0])

    def q_all(self, gen, env, neg=False):
        def leaf(e):
            v = self.truth(self.ev(gen[2], e))
            return Not(v) if neg else v

        def comb(k, d, g, p):
            if d[0] == 'range':
                return mall(k, d[1], d[2], Or(Not(g), p))
            return mall(k, None, None, Or(Not(d[1](sym(k, True)) * g), p))
        r = self.reduce(gen[3], env, leaf, comb)
        return Num(Not(r) if neg else r, 'b')

    def e_gen(self, x, env):
        if x[1] == 'set':
            p = fresh('p')
            r = self.q_all(['gen', 'gen', ['cmp', '==', x[2], ['name', '%p']], x[3]],
                           self.with_name(env, '%p', Num(sym(p, True), 'i')), neg=True)
            return SetV(p, r.p)
        if x[1] == 'list' and len(x[3]) == 1 and not x[3][0][2]:
            t, it, _ = x[3][0]
            d = self.domain_of(it, env)
            if d[0] == 'range':
                k = fresh('p')
                e2 = Env(env)
                e2['#err'] = Num(ZERO, 'b')
                self.store(t, d[3](sym(k, True) + d[1]), e2)
                v = self.ev(x[2], e2)
                n = cnt(d[1], d[2])
                self.some(env, k, ('range', ZERO, n), e2['#err'].p)
                if isinstance(v, Num):
                    return VecV(1, [([], n)], [k], v.p, v.ty)
                v = tovec(v) or v
                if isinstance(v, VecV):
                    return VecV(v.depth + 1, [([], n)] + [([k] + list(ps), b) for ps, b in v.lens], [k] + list(v.params), v.body, v.ty)
        if x[1] == 'list' and len(x[3]) == 1:
            # a filter: the elements at the enumerated positions
            t, it, conds = x[3][0]
            d = self.domain_of(it, env)
            if d[0] == 'range':
                k = fresh('k')
                e2 = Env(env)
                e2['#err'] = Num(ZERO, 'b')
                self.store(t, d[3](sym(k, True)), e2)
                g = rng(d[1], sym(k, True), d[2])
                for c in conds:
                    g = g * self.truth(self.ev(c, e2))
                v = self.ev(x[2], e2)
                v = v if isinstance(v, Num) else tovec(v)
                self.some(env, k, d, e2['#err'].p)
                if v is not None:
                    p = fresh('p')
                    v = VecV(1, [([], ZERO)], [p], v.p, v.ty) if isinstance(v, Num) else v
                    n = msum(fresh('z'), None, None, ZERO)
                    z = fresh('z')
                    n = msum(z, None, None, T.subst(g, {k: sym(z, True)}))
                    e = {k: T.enum(k, g, sym(p, True))}
                    if isinstance(self.ev(x[2], e2), Num):
                        return VecV(1, [([], n)], [p], T.subst(v.body, e), v.ty)
                    return VecV(v.depth + 1, [([], n)] + [([p] + list(ps), T.subst(b, e)) for ps, b in v.lens],
                                [p] + list(v.params), T.subst(v.body, e), v.ty)
        if x[1] == 'list':
            p = fresh('p')
            e2 = self.with_name(env, '%p', Num(sym(p, True), 'i'))
            return BagV(p, self.q_all(['gen', 'gen', ['cmp', '==', x[2], ['name', '%p']], x[3]], e2, neg=True).p)
        raise Unsupported('comprehension')

    def with_name(self, env, n, v):
        e = Env(env)
        e[n] = v
        return e

    def e_set(self, x, env):
        p = fresh('p')
        r = ZERO
        for q in x[1]:
            r = Or(r, eq(sym(p, True) - self.num(self.ev(q, env))))
        return SetV(p, r)

    def e_bin(self, x, env):
        return self.binop(x[1], self.ev(x[2], env), self.ev(x[3], env), env)

    def binop(self, op, va, vb, env, aug=False):
        if isinstance(va, Num) and isinstance(vb, Num):
            if op in ('/', '//', '%') and vb.p.const() in (None, 0):
                self.error(env, eq(vb.p))
            return self.arith(op, va, vb)
        if isinstance(va, SetV) and isinstance(vb, SetV) and op in '|&-':
            q = vb.has(sym(va.param, True))
            return SetV(va.param, Or(va.pred, q) if op == '|' else va.pred * (q if op == '&' else Not(q)))
        if isinstance(va, TupV) and isinstance(vb, TupV) and op == '+':
            return TupV(va.items + vb.items)
        if isinstance(va, (TupV, VecV)) and isinstance(vb, (TupV, VecV)) and op == '+':
            if isinstance(va, TupV) and not va.items or isinstance(vb, TupV) and not vb.items:
                return vb if isinstance(va, TupV) and not va.items else va
            x, y = tovec(va), tovec(vb)
            if x is not None and y is not None and x.depth == y.depth:
                return concat(x, y)
        if isinstance(va, (Ref, Arr, Num)) and isinstance(vb, (Ref, Arr, Num)):
            ta = va.ty if isinstance(va, Num) else self.arr(env, va).ty
            tb = vb.ty if isinstance(vb, Num) else self.arr(env, vb).ty
            r = self.arith(op, Num(ZERO, ta), Num(ONE, tb))
            if op in ('/', '//', '%'):
                b = None if isinstance(vb, Num) else self.arr(env, vb)
                e = eq(vb.p if b is None else b.body)
                for p, d in [] if b is None else zip(b.params, b.dims):
                    e = mex(p, ZERO, d, e)
                self.error(env, e)
            return self.elementwise(lambda p, q: self.arith(op, Num(p, ta), Num(q, tb)).p, va, vb, env, r.ty)
        raise Unsupported('%s of %s and %s' % (op, type(va).__name__, type(vb).__name__))

    def arith(self, op, a, b):
        ty = join_ty(a.ty, b.ty)
        if ty == 'b':
            ty = 'i'
        if op == '+':
            return Num(a.p + b.p, ty)
        if op == '-':
            return Num(a.p - b.p, ty)
        if op == '*':
            if a.ty == 'b' and b.ty == 'b':
                return Num(a.p * b.p, 'b')
            return Num(a.p * b.p, ty)
        if op == '/':
            if ty == 'r' or self.mode == 'py':
                return Num(a.p * inv(b.p), 'r')
            return Num(self.idiv(a.p, b.p), 'i')
        if op == '//':
            return Num(self.idiv(a.p, b.p), ty)
        if op == '**':
            if b.p.const() is not None and b.p.const().denominator == 1 and 0 <= b.p.const() <= 4:
                r = ONE
                for _ in range(int(b.p.const())):
                    r = r * a.p
                return Num(r, ty)
            if a.p.const() is not None and b.p.const() is not None and b.p.const().denominator == 1 and 0 <= b.p.const() <= 64:
                return Num(P(a.p.const() ** int(b.p.const())), ty)
            if a.p.const() == 2:
                return Num(app('pow2', [b.p], isint=True, nonneg=True), 'i')
            return Num(app('pow', [a.p, b.p]), 'r')
        if op == '%':
            return Num(app('mod', [a.p, b.p], isint=ty == 'i'), ty)
        if op == '&' and a.ty == 'b' and b.ty == 'b':
            return Num(And(a.p, b.p), 'b')
        if op == '|' and a.ty == 'b' and b.ty == 'b':
            return Num(Or(a.p, b.p), 'b')
        if op in ('&', '|', '^', '<<', '>>'):
            return Num(app('bitop' + op, [a.p, b.p], isint=True), 'i')
        raise Unsupported('operator ' + op)

    def idiv(self, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb:
            return P(ca // cb)
        if cb == 1:
            return a
        return app('idiv', [a, b], isint=True)

    def e_attr(self, x, env):
        v = self.ev_quiet(x[1], env)
        if x[2] == 'shape' and isinstance(v, (Ref, Arr)):
            return TupV([Num(d, 'i') for d in self.arr(env, v).dims])
        if x[2] == 'size' and isinstance(v, (Ref, Arr)):
            r = ONE
            for d in self.arr(env, v).dims:
                r = r * d
            return Num(r, 'i')
        if isinstance(v, ObjV) and x[2] in v.attrs:
            return v.attrs[x[2]]
        raise Unsupported('attribute ' + x[2])

    def ev_quiet(self, x, env):
        return self.ev(x, env)

    def e_index(self, x, env):
        b, idx = x[1], x[2]
        if b[0] == 'attr' and b[2] == 'shape':
            v = self.ev(b[1], env)
            d = self.arr(env, v).dims
            i = idx[0]
            k = self.num(self.ev(i, env)).const()
            if k is None:
                raise Unsupported('shape index')
            return Num(d[int(k)], 'i')
        base = self.ev(b, env)
        return self.index(base, idx, env)

    def index(self, base, idx, env):
        if isinstance(base, Ref):
            a = env[base.obj]
            new = list(base.idx)
            pos = [j for j, q in enumerate(new) if q is None]
            if len(idx) > len(pos):
                raise Unsupported('too many indices')
            general = []
            for j, q in zip(pos, idx):
                if q[0] == 'slice':
                    if all(z is None for z in q[1:]):
                        continue
                    general.append((j, q))
                else:
                    v = self.ev(q, env)
                    if isinstance(v, Num) and v.ty != 'b':
                        new[j] = self.wrap(v.p, a.dims[j], q)
                    else:
                        general.append((j, v))
            if general:
                return self.fancy(env, a, new, general)
            if all(q is not None for q in new):
                return Num(a.at(new), a.ty)
            return Ref(base.obj, new)
        if isinstance(base, Arr):
            r = self.new(env, base)
            v = self.index(r, idx, env)
            if isinstance(v, Ref) and v.obj == r.obj:
                v = self.view(env, v)
            return v
        if isinstance(base, VecV):
            v = base
            for q in idx:
                if q[0] == 'slice':
                    if q[1] is None and q[3] is None and q[2] is not None:
                        # at least that many elements: indices are in range
                        v = VecV(v.depth, [([], self.num(self.ev(q[2], env)))] + list(v.lens[1:]), v.params, v.body, v.ty)
                        continue
                    raise Unsupported('slice of a vector')
                v = v.at([self.wrap(self.num(self.ev(q, env)), v.len())])
            return v
        if isinstance(base, TupV):
            k = self.num(self.ev(idx[0], env)).const()
            if k is None or len(idx) != 1:
                raise Unsupported('index of a tuple')
            return base.items[int(k)]
        raise Unsupported('index of ' + type(base).__name__)

    def fancy(self, env, a, new, general):
        """slices with bounds, index arrays"""
        ren, ps, dims = {}, [], []
        g = dict(general)
        for j, (p, d) in enumerate(zip(a.params, a.dims)):
            if new[j] is not None:
                ren[p] = new[j]
                continue
            q = fresh('p')
            if j in g:
                z = g[j]
                if isinstance(z, list) and z[0] == 'slice':
                    lo = ZERO if z[1] is None else self.num(self.ev(z[1], env))
                    hi = d if z[2] is None else self.num(self.ev(z[2], env))
                    if z[3] is not None:
                        raise Unsupported('slice step')
                    lo, hi = self.wrap(lo, d), self.wrap(hi, d)
                    ren[p] = sym(q, True) + lo
                    dims.append(hi - lo)
                else:
                    ia = self.arr(env, z)
                    if len(ia.dims) == 1 and ia.ty == 'b':
                        # the rows where a mask holds
                        k = fresh('k')
                        ks = sym(k, True)
                        m = ia.at([ks]) * rng(ZERO, ks, d)
                        ren[p] = T.enum(k, m, sym(q, True))
                        k2 = fresh('k')
                        dims.append(msum(k2, None, None, T.subst(m, {k: sym(k2, True)})))
                        ps.append(q)
                        continue
                    if len(ia.dims) != 1 or ia.ty == 'b':
                        raise Unsupported('index array')
                    if len(a.dims) == 1:
                        return Gather([ia.dims[0]], [q], a.at([ia.at([sym(q, True)])]), a.ty, a, ia)
                    ren[p] = ia.at([sym(q, True)])
                    dims.append(ia.dims[0])
            else:
                ren[p] = sym(q, True)
                dims.append(d)
            ps.append(q)
        return Arr(dims, ps, T.subst(a.body, ren), a.ty)

    # ------------------------------------------------------------ calls
    def e_call(self, x, env):
        f, args, kw = x[1], x[2], x[3]
        if f[0] == 'attr':
            if f[1] == ['name', 'itertools'] and f[2] == 'combinations':
                v, n = [self.ev(q, env) for q in args]
                return CombV([p for _, p in flatten(self, env, tovec(v) or v)] + [self.num(n)])
            if f[1][0] == 'name' and f[1][1] in ('np', 'numpy') and f[1][1] not in env:
                return self.numpy(f[2], args, dict(kw), env)
            return self.method(f, args, dict(kw), env)
        if f[0] == 'index' and f[1][0] == 'name':
            f = f[1]
        if f[0] != 'name':
            raise Unsupported('call')
        n = f[1]
        if n == 'deref' or n == 'dereference':
            v = self.ev(args[0], env)
            if isinstance(v, IterV) and v.pos == 'at' and v.steps == 0:
                return Num(v.elem, 'i')
            raise Unsupported('deref')
        if n in ('inc', 'preincrement'):
            if args[0][0] != 'name':
                raise Unsupported('inc')
            v = env[args[0][1]]
            if not isinstance(v, IterV) or v.pos != 'at':
                raise Unsupported('inc')
            env[args[0][1]] = IterV(v.set, v.pos, v.elem, v.steps + 1)
            return NONE
        if n == 'std_remove' and len(args) == 3:
            b = args[0][1][1] if args[0][0] == 'call' and args[0][1][0] == 'attr' else None
            if b is None or b[0] != 'name' or args[0] != ['call', ['attr', b, 'begin'], [], []] or \
                    args[1] != ['call', ['attr', b, 'end'], [], []]:
                raise Unsupported('use of std::remove')
            v = enumerated(env[b[1]])
            if not isinstance(v, EnumV):
                raise Unsupported('std::remove from a list that is not increasing')
            v.ready()
            env[b[1]] = EnumV(v.param, v.pred, self.num(self.ev(args[2], env)))
            return NONE
        if n == 'cut' and self.mode == 'py':
            v = self.ev(args[0], env)
            return Num(cuts.cut(self.num(v)), 'r')
        if n == 'range':
            a = [self.num(self.ev(q, env)) for q in args]
            lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2:
                raise Unsupported('range with a step')
            p = fresh('p')
            return VecV(1, [([], cnt(lo, hi))], [p], lo + sym(p, True), 'i')
        if n in ('abs', 'fabs'):
            a = self.ev(args[0], env)
            return Num(ite(le0(-a.p), a.p, -a.p), a.ty)
        if n in ('max', 'min') and len(args) == 2:
            a, b = [self.ev(q, env) for q in args]
            c = le0(b.p - a.p) if n == 'max' else le0(a.p - b.p)
            return Num(ite(c, a.p, b.p), join_ty(a.ty, b.ty))
        if n == 'sum' and len(args) == 2 and args[1] == ['list', []]:
            v = self.ev(args[0], env)
            if isinstance(v, CombV):
                p = fresh('p')
                return VecV(1, [([], app('len:combination', v.args, isint=True, nonneg=True))], [p],
                            app('combination', v.args + [sym(p, True)], isint=True), 'i')
        if n in ('list', 'tuple', 'tqdm') and len(args) == 1:
            v = self.ev(args[0], env)
            if isinstance(v, SetV) and n != 'tqdm':
                # in an order that only depends on the set
                p, k = fresh('p'), fresh('k')
                return VecV(1, [([], msum(k, None, None, v.has(sym(k, True))))], [p],
                            app('inorder', [T.mklam([k], v.has(sym(k, True))), sym(p, True)], isint=True), 'i')
            return v
        if n in ('sum', 'all', 'any') and len(args) == 1 and args[0][0] == 'gen' and n not in env:
            if n == 'sum':
                return self.q_sum(args[0], env)
            return self.q_all(args[0], env, neg=n == 'any')
        if n == 'set' and n not in env:
            if not args:
                return SetV(fresh('p'), ZERO)
            if args[0][0] == 'gen':
                return self.e_gen(['gen', 'set'] + args[0][2:], env)
            d = self.domain_of(args[0], env)
            k, p = fresh('k'), fresh('p')
            if d[0] == 'set':
                return SetV(p, d[1](sym(p, True)))
            return SetV(p, mex(k, d[1], d[2], eq(d[3](sym(k, True)).p - sym(p, True))))
        if n == 'len':
            v = self.ev(args[0], env)
            return Num(self.length(v, env), 'i')
        if n == 'int':
            return self.conv(self.ev(args[0], env), 'i')
        if n == 'float':
            return self.conv(self.ev(args[0], env), 'r')
        if n in self.contracts:
            c = self.contracts[n]
            vals = [self.ev(q, env) for q in args]
            d = {k: self.ev(q, env) for k, q in kw}
            for nm in c.names[len(vals):]:
                if nm in d:
                    vals.append(d.pop(nm))
                else:
                    break
            if d or len(vals) != len(c.names):
                raise Unsupported('arguments of ' + n)
            return c(self, env, vals)
        if n in self.functions:
            fn = self.functions[n]
            vals = [self.ev(q, env) for q in args]
            if kw:
                names = [a[0] for a in fn['args']]
                d = {k: self.ev(q, env) for k, q in kw}
                for nm in names[len(vals):]:
                    if nm in d:
                        vals.append(d.pop(nm))
                    else:
                        break
                if d:
                    raise Unsupported('keyword arguments')
            return self.call_function(fn, vals, env, fn.get('mode', self.mode))
        raise Unsupported('call of ' + n)

    def length(self, v, env):
        if isinstance(v, (Ref, Arr)):
            return self.arr(env, v).dims[0]
        if isinstance(v, VecV):
            return v.len()
        if isinstance(v, TupV):
            return P(len(v.items))
        if isinstance(v, SetV):
            n = fresh('k')
            return msum(n, None, None, v.has(sym(n, True)))
        raise Unsupported('len of ' + type(v).__name__)

    def method(self, f, args, kw, env):
        base, name = f[1], f[2]
        if name == 'copy':
            v = self.ev(base, env)
            if isinstance(v, (Ref, Arr)):
                return self.arr(env, v)
            return v
        if base[0] == 'name':
            v = self.ev(base, env)
            if isinstance(v, TupV) and not v.items and name == 'append':
                x = self.ev(args[0], env)
                x = tovec(self.arr(env, x) if isinstance(x, Ref) else x) or x
                if not isinstance(x, (VecV, Num)):
                    raise Unsupported('append')
                v = env[base[1]] = self.empty_vec(1 if isinstance(x, Num) else x.depth + 1, x.ty)
            if isinstance(v, SetV):
                return self.set_method(base[1], v, name, args, env)
            if isinstance(v, VecV):
                return self.vec_method(base, v, name, args, env)
            if isinstance(v, (Ref, Arr)):
                return self.arr_method(v, name, args, kw, env)
            if isinstance(v, ObjV):
                return self.obj_method(v, name, args, kw, env)
            raise Unsupported('method %s of %s' % (name, type(v).__name__))
        v = self.ev(base, env)
        if isinstance(v, ObjV):
            return self.obj_method(v, name, args, kw, env)
        if isinstance(v, VecV):
            return self.vec_method(base, v, name, args, env)
        if isinstance(v, (Ref, Arr)):
            return self.arr_method(v, name, args, kw, env)
        raise Unsupported('method ' + name)

    def obj_method(self, v, name, args, kw, env):
        how = v.methods.get(name)
        if how == 'rowwise' and len(args) == 1 and not kw:
            # some function of each row
            a = self.arr(env, self.ev(args[0], env))
            if len(a.dims) != 2:
                raise Unsupported('shape of an argument')
            q = fresh('p')
            row = mklam([a.params[1]], T.subst(a.body, {a.params[0]: sym(q, True)}) * rng(ZERO, sym(a.params[1], True), a.dims[1]))
            return Arr([a.dims[0]], [q], app('%s.%s' % (v.name, name), [a.dims[1], row]), 'r')
        raise Unsupported('method %s of %s' % (name, v.name))

    def arr_method(self, v, name, args, kw, env):
        a = self.arr(env, v)
        if name == 'reshape' and len(a.dims) == 1:
            d = [self.num(self.ev(q, env)).const() for q in args]
            if d == [1, -1]:
                return Arr([ONE] + list(a.dims), [fresh('p')] + list(a.params), a.body, a.ty)
        raise Unsupported('array method ' + name)

    def set_method(self, key, v, name, args, env):
        s = sym(v.param, True)
        if name == 'clear':
            env[key] = SetV(v.param, ZERO)
            return NONE
        if name in ('insert', 'add'):
            x = self.num(self.ev(args[0], env))
            env[key] = SetV(v.param, Or(v.pred, eq(s - x)))
            return NONE
        if name in ('erase', 'discard'):
            x = self.num(self.ev(args[0], env))
            env[key] = SetV(v.param, v.pred * Not(eq(s - x)))
            return NONE
        if name == 'size':
            n = fresh('k')
            return Num(msum(n, None, None, v.has(sym(n, True))), 'i')
        if name == 'empty':
            n = fresh('k')
            return Num(mall(n, None, None, Not(v.has(sym(n, True)))), 'b')
        if name == 'count':
            return Num(v.has(self.num(self.ev(args[0], env))), 'b')
        if name == 'begin':
            return IterV(v, 'begin')
        if name == 'end':
            return IterV(v, 'end')
        raise Unsupported('set method ' + name)

    def enum_method(self, key, v, name, args, env):
        """a change of an increasing list, or None"""
        s = sym(v.param, True)
        if name == 'clear':
            return EnumV(v.param, ZERO)
        if name == 'pop_back' and v.pend is not None:
            self.error(env, Not(v.has(v.pend)))
            return EnumV(v.param, v.pred * Not(eq(s - v.pend)))
        v.ready()
        if name == 'remove':
            x = self.num(self.ev(args[0], env))
            self.error(env, Not(v.has(x)))
            return EnumV(v.param, v.pred * Not(eq(s - x)))
        if name in ('push_back', 'append'):
            return EnumV(v.param, Or(v.pred, eq(s - self.num(self.ev(args[0], env)))), None, True)
        return None

    def vec_method(self, base, v, name, args, env):
        if base[0] == 'name' and base[1] in self.fr.enums:
            if name == 'clear' and v.depth == 1:
                v = EnumV(fresh('p'), ZERO)
            if isinstance(v, EnumV):
                new = self.enum_method(base[1], v, name, args, env)
                if new is not None:
                    env[base[1]] = new
                    return NONE
        if name == 'size':
            return Num(v.len(), 'i')
        if name == 'empty':
            return Num(eq(v.len()), 'b')
        b, idx = self.flat_index(base, [])
        if b[0] != 'name':
            raise Unsupported('method of an expression')
        ix = [self.num(self.ev(q, env)) for q in idx]
        root = env[b[1]]
        if name == 'clear':
            new = self.empty_vec(v.depth, v.ty)
        elif name in ('push_back', 'append'):
            x = self.ev(args[0], env)
            x = tovec(self.arr(env, x) if isinstance(x, Ref) else x) or x
            n = v.len()
            lens = list(v.lens)
            if isinstance(x, VecV):
                if x.depth != v.depth - 1:
                    raise Unsupported('push_back')
                w = self.vec_set(v, [n], x)
                lens = list(w.lens)
                lens[0] = ([], n + 1)
                new = VecV(v.depth, lens, w.params, w.body, v.ty)
            else:
                p = v.params[0]
                lens[0] = ([], n + 1)
                new = VecV(1, lens, v.params, ite(eq(sym(p, True) - n), self.num(x), v.body), v.ty)
        elif name == 'pop_back':
            lens = list(v.lens)
            lens[0] = ([], v.len() - 1)
            new = VecV(v.depth, lens, v.params, v.body, v.ty)
        elif name == 'resize':
            lens = list(v.lens)
            lens[0] = ([], self.num(self.ev(args[0], env)))
            new = VecV(v.depth, lens, v.params, v.body, v.ty)
        else:
            raise Unsupported('vector method ' + name)
        if not ix:
            env[b[1]] = new
        else:
            env[b[1]] = self.vec_set(root, ix, new)
        return NONE

    def numpy(self, name, args, kw, env):
        if name in ('zeros', 'ones', 'empty'):
            v = self.ev(args[0] if args else kw['shape'], env)
            dims = [self.num(q) for q in v.items] if isinstance(v, TupV) else [self.num(v)]
            ty = 'r'
            dt = kw.get('dtype') or (args[1] if len(args) > 1 else None)
            if dt is not None and dt[-1] in ('int', 'int32', 'int64', 'long', 'intc'):
                ty = 'i'
            val = {'zeros': ZERO, 'ones': ONE, 'empty': app('undef:np', [])}[name]
            return zeros(dims, ty, val)
        if name in ('asarray', 'array', 'ascontiguousarray'):
            v = self.ev(args[0], env)
            dt = kw.get('dtype') or (args[1] if len(args) > 1 else None)
            dt = dt[-1] if dt is not None else None
            if isinstance(v, (Ref, Arr)):
                a = self.arr(env, v)
                if dt in ('bool', 'bool_') and a.ty != 'b':
                    return Arr(a.dims, a.params, Not(eq(a.body)), 'b')
                if dt in ('double', 'float', 'float64') and a.ty != 'r':
                    return Arr(a.dims, a.params, a.body, 'r')
                if dt in ('int', 'long', 'int64') and a.ty == 'r':
                    raise Unsupported('real numbers to integers')
                return a
            if isinstance(v, TupV) and all(isinstance(q, Num) for q in v.items):
                p = fresh('p')
                b = ZERO
                ty = 'i'
                for k, q in enumerate(v.items):
                    b = b + eq(sym(p, True) - k) * q.p
                    ty = join_ty(ty, q.ty)
                return Arr([P(len(v.items))], [p], b, ty)
            if isinstance(v, VecV) and v.depth == 1:
                return Arr([v.len()], v.params, v.body, v.ty)
            raise Unsupported('np.%s of %s' % (name, type(v).__name__))
        if name in ('abs', 'absolute'):
            v = self.ev(args[0], env)
            if isinstance(v, Num):
                return Num(ite(le0(-v.p), v.p, -v.p), v.ty)
            a = self.arr(env, v)
            return Arr(a.dims, a.params, ite(le0(-a.body), a.body, -a.body), a.ty)
        if name in ('mean', 'sum') and len(args) == 1 and not kw:
            a = self.arr(env, self.ev(args[0], env))
            if len(a.dims) == 1:
                k = fresh('k')
                r = msum(k, ZERO, a.dims[0], a.at([sym(k, True)]))
                if name == 'sum':
                    return Num(r, 'i' if a.ty == 'b' else a.ty)
                self.error(env, eq(a.dims[0]))
                return self.arith('/', Num(r, 'r'), Num(a.dims[0], 'r'))
        raise Unsupported('np.' + name)


# ------------------------------------------------------------ contracts
def ranged(params, dims, body):
    """the body where the indices are in range, 0 elsewhere"""
    for q, d in zip(params, dims):
        body = body * rng(ZERO, sym(q, True), d)
    return body


def flatten(ex, env, v):
    """[(label, polynomial)] that determine a value"""
    v = force(v)
    if isinstance(v, Num):
        return [('value', v.p)]
    if isinstance(v, (Ref, Arr)):
        a = ex.arr(env, v)
        return [('dimension %d' % j, d) for j, d in enumerate(a.dims)] + [('element', mklam(a.params, ranged(a.params, a.dims, a.body)))]
    if isinstance(v, VecV):
        r = []
        for ps, b in v.lens:
            r.append(('length', mklam(ps, ranged(ps, vec_dims(v, ps), b)) if ps else b))
        return r + [('element', mklam(v.params, ranged(v.params, vec_dims(v, v.params), v.body)))]
    if isinstance(v, SetV):
        return [('members', mklam([v.param], v.pred))]
    if isinstance(v, TupV):
        r = []
        for j, q in enumerate(v.items):
            r += [('item %d %s' % (j, l), p) for l, p in flatten(ex, env, q)]
        return r
    if isinstance(v, NoneV):
        return [('none', app('None', []))]
    if isinstance(v, ObjV):
        return [('object', app('obj:' + v.name, []))]
    if isinstance(v, StrV):
        return [('text', app('str:' + v.s, []))]
    raise Unsupported('value ' + type(v).__name__)


def vec_dims(v, ps):
    return [v.len([sym(q, True) for q in ps[:j]]) for j in range(len(ps))]


class Contract(object):
    """stands for a function under contract at its calls: its result and what it writes are uninterpreted functions of its
    arguments (the postcondition that gives their value is proved for its body)"""

    def __init__(self, name, names, ret, writes=()):
        self.name, self.names, self.ret, self.writes = name, names, ret, list(writes)

    def __call__(self, ex, env, vals):
        args = [p for v in vals for _, p in flatten(ex, env, v)]
        for w in self.writes:
            ref = vals[w]
            if isinstance(ref, Arr):        # a temporary array
                continue
            if not isinstance(ref, Ref):
                raise Unsupported('output argument')
            a = ex.view(env, ref)
            new = Arr(a.dims, a.params, app('%s>%d' % (self.name, w), args + [sym(q, True) for q in a.params], a.ty == 'i'), a.ty)
            ex.write_view(env, ref, new)
        return self.result(ex, env, args)

    def result(self, ex, env, args):
        r = self.ret
        if r in ('r', 'i', 'b'):
            return Num(app(self.name + '=', args, r == 'i', r == 'b'), r)
        if r is None:
            return NONE
        raise Unsupported('result of a contract')


class Gather(Arr):
    """source[index]"""
    __slots__ = ('source', 'index')

    def __init__(self, dims, params, body, ty, source, index):
        Arr.__init__(self, dims, params, body, ty)
        self.source, self.index = source, index
