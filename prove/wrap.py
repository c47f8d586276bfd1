"""Contracts of the Python layer: methods that check their arguments, choose defaults, call a kernel and return what it returns.

Every value is a term; what a call, an attribute or an item is, is an uninterpreted function of its arguments (the kernels have contracts of
their own).  Conditions are 0/1 terms, so that the method and its specification are compared for all values of all arguments by the normal
form of terms.py.  Functions of the same file that the specification does not call by name are executed; try is taken as its body
if its handlers raise.  Trusted: the argument checks below return what they are given, calls do not change what other terms denote."""
import terms as T
from terms import P, ONE, ZERO, And, Or, Not, app, eq, fresh, ite, le0, sym
from values import Unsupported

SAME = {'check_X_y': 2, 'check_array': 1, 'as_float_array': 1, 'column_or_1d': 1, 'list': 1, 'tuple': 1, 'tqdm': 1}
NOTHING = {'check_consistent_length', 'check_is_fitted', 'print'}
TRUSTED = ['check_X_y, check_array, as_float_array, column_or_1d and astype(np.double) return the numbers they are given; check_is_fitted, '
           'check_consistent_length and check_is_explainer change nothing a contract reads',
           'calls of functions without contract depend on their arguments only and leave them alone']
PURE = {'len', 'range', 'int', 'float', 'bool', 'str', 'isinstance', 'type', 'min', 'max', 'sum', 'abs', 'id', 'repr', 'shape', 'zeros', 'copy'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'add', 'update', 'fill', 'resize'}


class Tup(object):
    def __init__(self, items):
        self.items = list(items)


class Obj(object):
    """an object some attributes of which were assigned"""

    def __init__(self, base, attrs):
        self.base, self.attrs = base, attrs

    def get(self, n):
        return self.attrs[n] if n in self.attrs else app('py:.' + n, [self.base])


def pack(v):
    if isinstance(v, Tup):
        return app('py:list', [pack(q) for q in v.items])
    if isinstance(v, Obj):
        return app('py:obj', [v.base] + [app('set:' + n, [pack(v.attrs[n])]) for n in sorted(v.attrs)
                                         if pack(v.attrs[n]) != app('py:.' + n, [v.base])]) if v.attrs else v.base
    return v


def join(g, a, b):
    if a is b or isinstance(a, T.Poly) and isinstance(b, T.Poly) and a == b:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([join(g, p, q) for p, q in zip(a.items, b.items)])
    if isinstance(a, Obj) or isinstance(b, Obj):
        a, b = [q if isinstance(q, Obj) else Obj(q, {}) for q in (a, b)]
        if a.base == b.base:
            return Obj(a.base, {n: join(g, a.get(n), b.get(n)) for n in set(a.attrs) | set(b.attrs)})
    return ite(g, pack(a), pack(b))


NONE = app('None', [])


def isnone(p):
    if p == NONE:
        return ONE
    r, rest = ZERO, p
    if p.const() is not None:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0].kind == 'app' and (m[0].args[0].startswith('py:') or m[0].args[0].startswith('str:')):
            return ZERO
    return app('isnone', [p], ind=True)


class Wrap(object):
    def __init__(self, fns, signatures, opaque, cls, methods=None):
        self.fns, self.sigs, self.opaque, self.cls = fns, signatures, opaque, cls
        self.methods = fns if methods is None else methods
        self.depth = 0
        self.called = set()

    # ------------------------------------------------------------ functions
    def run(self, fn, args):
        """(value, condition of raising, environment at the end)"""
        if 'unsupported' in fn:
            raise Unsupported('%s: %s' % (fn['name'], fn['unsupported']))
        if self.depth > 8:
            raise Unsupported('recursion')
        self.depth += 1
        try:
            env = {}
            for (n, _, d), a in zip(fn['args'], args):
                env[n] = a
            outs = dict(ret=[], bad=ZERO)
            g = self.block(fn['body'], env, ONE, outs)
            if g != ZERO:
                outs['ret'].append((g, NONE, env))
            if not outs['ret']:
                return NONE, outs['bad'], env
            g, v, e = outs['ret'][-1]
            e = dict(e)
            for g2, v2, e2 in reversed(outs['ret'][:-1]):
                v = join(g2, v2, v)
                e = {k: join(g2, e2[k], e[k]) for k in e if k in e2}
            return v, outs['bad'], e
        finally:
            self.depth -= 1

    def block(self, body, env, g, outs):
        """executes on env (updated); g: the condition under which; returns the condition of going on"""
        live = g
        for s in body:
            if live == ZERO:
                break
            live = self.stmt(s, env, live, outs)
        return live

    def stmt(self, s, env, g, outs):
        k = s[0]
        if k == 'assign':
            v = self.ev(s[3], env, outs, g)
            for t in s[2]:
                self.store(t, v, env, outs, g)
            return g
        if k == 'aug':
            self.store(s[3], self.binop(s[2], pack(self.ev(s[3], env, outs, g)), pack(self.ev(s[4], env, outs, g))), env, outs, g)
            return g
        if k == 'expr':
            x = s[2]
            if x[0] == 'call':
                r = self.ev(x, env, outs, g, True)
                f = x[1]
                if r != NONE and f[0] == 'name' and f[1] not in PURE and f[1] not in self.fns:
                    # a procedure: it may change what its arguments name
                    sig = [a for a, _ in self.sigs.get(f[1], [])]
                    par = [(sig[i] if i < len(sig) else str(i), q) for i, q in enumerate(x[2])] + [(a, q) for a, q in x[3]]
                    for a, q in par:
                        if q[0] == 'name' and q[1] in env:
                            env[q[1]] = app('py:after.' + a, [pack(r)])
                elif r != NONE and f[0] == 'attr' and f[2] not in PURE and f[1] != ['name', 'self']:
                    raise Unsupported('procedure ' + f[2])
            elif x[0] != 'str':
                self.ev(x, env, outs, g, True)
            return g
        if k == 'pass':
            return g
        if k == 'return':
            v = NONE if s[2] is None else self.ev(s[2], env, outs, g)
            outs['ret'].append((g, v, dict(env)))
            return ZERO
        if k == 'raise':
            outs['bad'] = Or(outs['bad'], g)
            return ZERO
        if k == 'for':
            return self.loop(s, env, g, outs)
        if k == 'if':
            c = self.truth(self.ev(s[2], env, outs, g))
            ea, eb = dict(env), dict(env)
            ga = self.block(s[3], ea, And(g, c), outs) if c != ZERO else ZERO
            gb = self.block(s[4], eb, And(g, Not(c)), outs) if c != ONE else ZERO
            env.clear()
            if ga == ZERO:
                env.update(eb)
            elif gb == ZERO:
                env.update(ea)
            else:
                for n in set(ea) | set(eb):
                    u = app('undef:' + n, [])
                    env[n] = join(c, ea.get(n, u), eb.get(n, u))
            return Or(ga, gb)
        raise Unsupported('statement ' + k)

    def loop(self, s, env, g, outs):
        """for v in A: L += [e], with L empty before, perhaps under a condition, is a comprehension"""
        body, conds = s[4], []
        while len(body) == 1 and body[0][0] == 'if' and not body[0][4]:
            conds.append(body[0][2])
            body = body[0][3]
        if len(body) == 1:
            q, n = body[0], None
            if q[0] == 'aug' and q[2] == '+' and q[3][0] == 'name' and q[4][0] == 'list' and len(q[4][1]) == 1:
                n, x = q[3][1], q[4][1][0]
            elif q[0] == 'expr' and q[2][0] == 'call' and q[2][1][0] == 'attr' and q[2][1][2] == 'append' and \
                    q[2][1][1][0] == 'name' and len(q[2][2]) == 1:
                n, x = q[2][1][1][1], q[2][2][0]
            if n and isinstance(env.get(n), Tup) and not env[n].items:
                env[n] = self.gen(['gen', 'list', x, [[s[2], s[3], conds]]], env, outs, g)
                return g
        raise Unsupported('loop')

    def store(self, t, v, env, outs, g):
        if t[0] == 'name':
            env[t[1]] = v
        elif t[0] in ('tuple', 'list'):
            if isinstance(v, Tup):
                if len(v.items) != len(t[1]):
                    raise Unsupported('unpacking')
                items = v.items
            else:
                items = [self.item(v, [P(k)]) for k in range(len(t[1]))]
            for q, w in zip(t[1], items):
                self.store(q, w, env, outs, g)
        elif t[0] == 'attr':
            b = self.ev(t[1], env, outs, g)
            b = Obj(b.base, dict(b.attrs)) if isinstance(b, Obj) else Obj(pack(b), {})
            b.attrs[t[2]] = v
            self.store(t[1], b, env, outs, g)
        elif t[0] == 'index':
            b = pack(self.ev(t[1], env, outs, g))
            self.store(t[1], app('py:put', [b] + [self.key(q, env, outs, g) for q in t[2]] + [pack(v)]), env, outs, g)
        else:
            raise Unsupported('store to ' + t[0])

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        v = pack(v)
        if v == NONE:
            return ZERO
        if v.const() is not None:
            return ZERO if v.const() == 0 else ONE
        return v if v.isind() else app('truth', [v], ind=True)

    def ev(self, x, env, outs, g, statement=False):
        k = x[0]
        E = lambda q: self.ev(q, env, outs, g)
        if k == 'int':
            return P(x[1])
        if k == 'float':
            from fractions import Fraction
            return P(Fraction(x[1]))
        if k == 'none':
            return NONE
        if k in ('true', 'false'):
            return P(int(k == 'true'))
        if k == 'str':
            return app('str:' + x[1], [])
        if k == 'name':
            return env[x[1]] if x[1] in env else app('py:' + x[1], [])
        if k in ('tuple', 'list'):
            return Tup([E(q) for q in x[1]])
        if k == 'dict':
            return app('py:dict', [pack(E(q)) for p in x[1] for q in p])
        if k == 'not':
            return Not(self.truth(E(x[1])))
        if k in ('and', 'or'):
            a, b = E(x[1]), E(x[2])
            ta = self.truth(a)
            if all(isinstance(q, T.Poly) and (q.isind() or q.const() in (0, 1)) for q in (a, b)):
                return And(a, b) if k == 'and' else Or(a, b)
            return join(ta, b, a) if k == 'and' else join(ta, a, b)
        if k == 'cond':
            return join(self.truth(E(x[1])), E(x[2]), E(x[3]))
        if k == 'neg':
            return -pack(E(x[1]))
        if k == 'pos':
            return E(x[1])
        if k == 'inv':
            return app('py:~', [pack(E(x[1]))])
        if k == 'bin':
            return self.binop(x[1], pack(E(x[2])), pack(E(x[3])))
        if k == 'cmp':
            return self.compare(x[1], pack(E(x[2])), pack(E(x[3])))
        if k == 'attr':
            return self.attr(E(x[1]), x[2])
        if k == 'index':
            b = E(x[1])
            if isinstance(b, Tup) and len(x[2]) == 1 and x[2][0][0] == 'int' and x[2][0][1] < len(b.items):
                return b.items[x[2][0][1]]
            return self.item(pack(b), [self.key(q, env, outs, g) for q in x[2]])
        if k == 'gen':
            return self.gen(x, env, outs, g)
        if k == 'call':
            return self.call(x, env, outs, g, statement)
        raise Unsupported('expression ' + k)

    def attr(self, b, name):
        return b.get(name) if isinstance(b, Obj) else app('py:.' + name, [pack(b)])

    def item(self, b, idx):
        if len(idx) == 1 and idx[0] == ZERO and len(b.t) == 1:
            (m, c), = b.t.items()
            if c == 1 and len(m) == 1 and m[0].kind == 'app' and m[0].args[0] == 'py:.shape':
                return app('py:len()', [m[0].args[1][0]])
        return app('py:item', [b] + idx)

    def key(self, q, env, outs, g):
        if q[0] == 'slice':
            return app('py:slice', [NONE if z is None else pack(self.ev(z, env, outs, g)) for z in q[1:]])
        return pack(self.ev(q, env, outs, g))

    def binop(self, op, a, b):
        if op in '+-*' and (op == '-' or a.const() is not None or b.const() is not None):
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
        if op == '/' and b.const():
            return a * P(1 / b.const())
        return app('py:op' + op, [a, b])

    def compare(self, op, a, b):
        if op in ('is', '==', 'is_not', '!='):
            for u, w in ((a, b), (b, a)):
                if u == NONE:
                    c = isnone(w)
                    return c if op in ('is', '==') else Not(c)
        if op in ('is', 'is_not'):
            c = app('py:is', sorted([a, b], key=lambda q: q.key), ind=True)
            return c if op == 'is' else Not(c)
        if op == '==':
            return eq(a - b)
        if op == '!=':
            return Not(eq(a - b))
        if op == '<=':
            return le0(a - b)
        if op == '>=':
            return le0(b - a)
        if op == '<':
            return Not(le0(b - a))
        if op == '>':
            return Not(le0(a - b))
        c = app('py:in', [a, b], ind=True)
        return c if op == 'in' else Not(c)

    def gen(self, x, env, outs, g):
        e = dict(env)
        parts = []
        ks = []
        for t, it, conds in x[3]:
            src = pack(self.ev(it, e, outs, g))
            k = fresh('k')
            ks.append(k)
            cur = self.item(src, [sym(k, True)])
            self.store(t, cur, e, outs, g)
            c = ONE
            for q in conds:
                c = And(c, self.truth(self.ev(q, e, outs, g)))
            parts += [T.mklam(ks[:-1], src) if ks[:-1] else src, T.mklam(list(ks), c)]
        r = pack(self.ev(x[2], e, outs, g))
        if len(x[3]) == 1 and x[1] == 'list' and r == cur and c == ONE:
            return src
        return app('py:' + x[1], parts + [T.mklam(list(ks), r)])

    # ------------------------------------------------------------ calls
    def call(self, x, env, outs, g, statement):
        f, args, kw = x[1], x[2], x[3]
        vals = [self.ev(q, env, outs, g) for q in args]
        d = {k: self.ev(q, env, outs, g) for k, q in kw}
        if f[0] == 'name' and f[1] not in env:
            n = f[1]
            if n in NOTHING:
                return NONE
            if n == 'check_array' and 'dtype' in d and not self.double(d['dtype']):
                return app('py:check_array', [pack(vals[0]), pack(d['dtype'])])
            if n in SAME and len(vals) >= SAME[n]:
                return vals[0] if SAME[n] == 1 else Tup(vals[:SAME[n]])
            if n in self.fns and n not in self.opaque:
                return self.inline(self.fns[n], vals, d, outs, g)[0]
            return self.opaque_call(n, 'py:' + n + '()', [], vals, d)
        if f[0] == 'attr':
            base, n = f[1], f[2]
            if base[0] == 'name' and base[1] not in env:
                if base[1] in ('np', 'numpy'):
                    if n in ('array', 'asarray', 'ascontiguousarray') and len(vals) == 1 and set(d) <= {'dtype'} and \
                            ('dtype' not in d or self.double(d['dtype'])):
                        return vals[0]
                    if n in ('zeros', 'ones', 'empty') and 'shape' in d:
                        vals = [d.pop('shape')] + vals
                    return self.opaque_call(None, 'py:np.' + n, [], vals, d)
                return self.opaque_call(n, 'py:%s.%s()' % (base[1], n), [], vals, d)
            if base == ['name', 'self']:
                if n in self.opaque and n + '!' in self.opaque:
                    return NONE
                q = self.cls + '.' + n
                if q in self.fns and n not in self.opaque:
                    fn = self.fns[q]
                    own = [env['self']] if fn['args'] and fn['args'][0][0] == 'self' else []
                    v, e = self.inline(fn, own + vals, d, outs, g)
                    if own:
                        env['self'] = e['self']
                    return v
            sig = None
            if base == ['name', 'self'] and self.cls + '.' + n in self.methods:
                sig = [(a[0], a[2]) for a in self.methods[self.cls + '.' + n]['args']]
                sig = sig[1:] if sig and sig[0][0] == 'self' else sig
            b = pack(self.ev(base, env, outs, g))
            if n == 'astype' and len(vals) == 1 and self.double(vals[0]):
                return b
            if n == 'copy' and not vals:
                return b
            if n in MUTATORS:
                r = self.opaque_call(None, 'py:after.' + n, [b], vals, d)
                self.store(base, r, env, outs, g)
                if not statement:
                    raise Unsupported('value of ' + n)
                return NONE
            return self.opaque_call(None, 'py:.%s()' % n, [b], vals, d, sig)
        raise Unsupported('call')

    def double(self, v):
        if isinstance(v, Tup):
            return bool(v.items) and all(self.double(q) for q in v.items)
        return any(v == q for q in DOUBLE)

    def inline(self, fn, vals, d, outs, g):
        vals = list(vals)
        names = [a[0] for a in fn['args']]
        for n, _, df in fn['args'][len(vals):]:
            if n in d:
                vals.append(d.pop(n))
            elif df is not None:
                vals.append(self.ev(df, {}, outs, g))
            else:
                raise Unsupported('missing argument ' + n)
        if d or len(vals) != len(names):
            raise Unsupported('arguments of ' + fn['name'])
        v, bad, e = self.run(fn, vals)
        outs['bad'] = Or(outs['bad'], And(g, bad))
        return v, e

    def opaque_call(self, n, name, own, vals, d, sig=None):
        """an uninterpreted call, keywords in their place where the parameters are known"""
        vals, d = list(vals), dict(d)
        sig = sig or self.sigs.get(n)
        if sig:
            for a, df in sig[len(vals):]:
                if a in d:
                    vals.append(d.pop(a))
                elif df is not None:
                    vals.append(self.ev(df, {}, dict(ret=[], bad=ZERO), ONE))
                else:
                    break
        return app(name, own + [pack(q) for q in vals] + [app('kw:' + k, [pack(d[k])]) for k in sorted(d)])


DOUBLE = [app('py:.' + t, [app('py:np', [])]) for t in ('double', 'float64', 'float', 'float_')] + [app('py:float', [])]


def names_called(x, out):
    if isinstance(x, list):
        if x and x[0] == 'call':
            f = x[1]
            if f[0] in ('name', 'attr'):
                out.add(f[1] if f[0] == 'name' else f[2])
        for q in x:
            names_called(q, out)
    return out


def default(d):
    return None if d is None else str(d)


def prove(fn, spec, fns, helpers, sigs, quiet=()):
    """[(obligation, holds, got, want)]; quiet: methods of self without effect"""
    cls = fn.get('cls') or ''
    if 'unsupported' in spec:
        raise Unsupported('specification: ' + spec['unsupported'])
    ob = []
    want = [a[0] for a in spec['args']]
    same = [(a[0], default(a[2])) for a in fn['args'][:len(want)]] == [(a[0], default(a[2])) for a in spec['args']]
    extra = fn['args'][len(want):]
    ob.append(('parameters: the names and defaults a caller relies on', same and all(a[2] is not None for a in extra),
               str(fn['args']), str(spec['args'])))
    if not ob[0][1]:
        return ob
    args = [sym(n) for n in want]
    opaque = names_called([spec['body']] + [h['body'] for h in helpers.values() if 'body' in h], set()) - set(helpers)
    opaque |= set(quiet) | set(q + '!' for q in quiet)
    w = Wrap(helpers, sigs, set(quiet) | set(q + '!' for q in quiet), cls, fns)
    v2, bad2, e2 = w.run(spec, args)
    w = Wrap(fns, sigs, opaque, cls)
    v, bad, e = w.run(fn, args + [w.ev(a[2], {}, dict(ret=[], bad=ZERO), ONE) for a in extra])
    ok = Not(bad2)
    if isinstance(v, Tup) and isinstance(v2, Tup) and len(v.items) == len(v2.items):
        for k, (a, b) in enumerate(zip(v.items, v2.items)):
            a, b = ok * pack(a), ok * pack(b)
            ob.append(('ensures: result %d' % k, a == b, a, b))
    else:
        a, b = ok * pack(v), ok * pack(v2)
        ob.append(('ensures: result', a == b, a, b))
    ob.append(('raises only where the specification does', bad == bad2, bad, bad2))
    if 'self' in e and 'self' in e2:
        a, b = ok * pack(e['self']), ok * pack(e2['self'])
        ob.append(('assigns: the object', a == b, a, b))
    return ob


QUIET = ('check_is_explainer',)


def signatures(ir):
    r = {}
    for p, fs in sorted(ir.items()):
        for f in fs:
            if not f.get('cls') and 'unsupported' not in f:
                r[f['name']] = [(a[0], a[2]) for a in f['args']]
    return r
