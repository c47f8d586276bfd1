"""Loops without a closed form: a canonical term for 'the value of this component after the loop'.

A fold is (domain, components); the domain is ('range', lo, hi) or ('set', pred) (increasing order), a component is
(parameters, sort, initial value, value after one iteration) over the variable of the loop, its parameters and the
components' values before the iteration.  Two folds with the same domain and the same components up to names and order
denote the same value: this is the only fact about folds that is used (congruence)."""
import itertools

from terms import *
from terms import rough, open_
import terms as T


class Comp(object):
    """name: of the value before the iteration; params: names; init, out: polynomials over them; ty; ind"""

    def __init__(self, name, params, init, out, isint, ind):
        self.name, self.params, self.init, self.out, self.isint, self.ind = name, list(params), init, out, int(isint), bool(ind)


def call(name, args, isint, ind):
    """isint: 0 real, 1 integer, 2 natural number"""
    if not args:
        return sym(name, bool(isint), ind, isint == 2)
    return app(name, args, bool(isint) and not ind, ind, isint == 2 and not ind)


def sort_of(a):
    return 0 if a.ind or not a.isint else 2 if a.nonneg else 1


def unify(comps):
    """drops components equal to another one; returns the kept ones and {dropped: kept}"""
    groups = {}
    for c in comps:
        c.rep = None
    ren = {}
    cand = {}
    for c in comps:
        k = (len(c.params), c.isint, c.ind, canon_params(c, c.init).key)
        cand.setdefault(k, []).append(c)
    cls = {c.name: k for k, cs in cand.items() for c in cs}
    while True:
        rep = {}
        ren = {}
        for c in comps:
            r = rep.setdefault(cls[c.name], c)
            if r is not c:
                ren[c.name] = namer(r)
        new = {}
        for c in comps:
            new[c.name] = (cls[c.name], canon_params(c, subst(c.out, ren)).key)
        if len(set(new.values())) == len(set(cls.values())):
            break
        cls = new
    keep, drop = [], {}
    for c in comps:
        if c.name in ren:
            drop[c.name] = rep[cls[c.name]].name
        else:
            keep.append(c)
    for c in keep:
        c.out = subst(c.out, ren)
    return keep, drop


def namer(c):
    """the substitute for a component's name"""
    if not c.params:
        return call(c.name, [], c.isint, c.ind)
    return Rename(c.name, c.isint, c.ind)


def canon_params(c, p):
    return subst(p, {q: sym('%%%d' % j, True) for j, q in enumerate(c.params)})


def needed(comps, name):
    """the components the named one depends on"""
    d = {c.name: c for c in comps}
    todo, seen = [name], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo += [m for m in d[n].out.free if m in d]
    return [c for c in comps if c.name in seen]


def make(var, domain, comps):
    """{name: function(args) -> polynomial} of the components' final values"""
    if domain[0] == 'range' and domain[1] != ZERO:
        # iterations are counted from 0
        lo = domain[1]
        z = fresh('k')
        up = {var: sym(z, True) + lo}
        comps = [Comp(c.name, c.params, c.init, subst(c.out, up), c.isint, c.ind) for c in comps]
        var, domain = z, ('range', ZERO, domain[2] - lo)
    keep, drop = unify(comps)
    res = {}
    cache = {}
    for c in comps:
        n = drop.get(c.name, c.name)
        if n not in cache:
            sub = needed(keep, n)
            cache[n] = canonical(var, domain, sub, n)
        spec, which, caps = cache[n]
        res[c.name] = (lambda spec, which, caps, c: lambda args: atom(spec, which, caps, list(args), c.isint, c.ind))(spec, which, caps, c)
    return res


def collect(p, names, out):
    """{name: atom or function description} of the free names in question"""
    for m in p.t:
        for a in m:
            collect_atom(a, names, out)


def collect_atom(a, names, out):
    if not (a.free & names):
        return
    if a.kind == 'sym':
        out[a.args[0]] = P(a)
        return
    if a.kind == 'app':
        if a.args[0] in names:
            out[a.args[0]] = ('fn', a.args[0], sort_of(a), a.ind)
        for q in a.args[1]:
            collect(q, names, out)
        return

    def go(q):
        if isinstance(q, Poly):
            collect(q, names, out)
        elif isinstance(q, Atom):
            collect_atom(q, names, out)
        elif isinstance(q, (tuple, list)):
            if len(q) == 4 and q[0] == 'fn':
                if q[1] in names:
                    out[q[1]] = q
                return
            for z in q:
                go(z)
    if a.kind == 'fold':
        go(a.args[2])
        go(a.args[3])
    elif a.kind in ('sum', 'all', 'lam'):
        if not a.args[5].isdisjoint(names):
            bs, body = T.open_(a)
            go(body)
            go(bs)
        go(a.args[2])
    else:
        for q in a.args:
            go(q)


class Rename(object):
    """substitute for a function name: another function name"""

    def __init__(self, name, isint, ind):
        self.name, self.isint, self.ind = name, int(isint), bool(ind)

    def __call__(self, args):
        return call(self.name, args, self.isint, self.ind)


def slot(name, q):
    """a substitute for a captured name"""
    if isinstance(q, tuple):
        return Rename(name, q[2], q[3])
    (a,) = list(q.t)[0]
    return sym(name, a.isint and not a.ind, a.ind, a.nonneg and not a.ind)


def canonical(var, domain, comps, name):
    h = 1 + max([p.h for c in comps for p in (c.init, c.out)] + [q.h for q in domain[1:] if isinstance(q, Poly)] + [0])
    own = set(c.name for c in comps) | {var} | set(q for c in comps for q in c.params)
    dpolys = [q for q in domain[1:] if isinstance(q, Poly)]
    if domain[0] == 'set':
        own.add(domain[1])
    # names bound outside are captured: the fold is a closed term applied to them
    fr = set()
    for c in comps:
        fr |= c.init.free | c.out.free
    for q in dpolys:
        fr |= q.free
    capn = set(n for n in fr - own if n[0] in '!~')
    info = {}
    for p in [c.init for c in comps] + [c.out for c in comps] + dpolys:
        collect(p, capn, info)
    capn = sorted(info)
    # order: refine by what a component looks like, seen from the wanted one
    rank = {c.name: '%d%d%d%d' % (len(c.params), c.isint, c.ind, c.name == name) for c in comps}
    base = {n: '*' for n in capn}
    base[var] = '$'
    for _ in range(len(comps) + 1):
        new = {}
        for c in comps:
            ren = dict(base)
            ren.update({q.name: rank[q.name] for q in comps})
            for j, q in enumerate(c.params):
                ren[q] = '%%%d' % j
            new[c.name] = T.digest(rank[c.name] + rough_fn(c.init, ren) + '/' + rough_fn(c.out, ren))
        if len(set(new.values())) == len(set(rank.values())):
            rank = new
            break
        rank = new
    if len(capn) > 1:
        cr = {}
        for n in capn:
            s = []
            for c in comps:
                ren = dict(base)
                ren.update({q.name: rank[q.name] for q in comps})
                for j, q in enumerate(c.params):
                    ren[q] = '%%%d' % j
                ren[n] = '@'
                s.append(rank[c.name] + rough_fn(c.init, ren) + '/' + rough_fn(c.out, ren))
            s.sort()
            ren = dict(base)
            ren[n] = '@'
            if domain[0] == 'set':
                ren[domain[1]] = '%0'
            s += [rough_fn(q, ren) for q in dpolys]
            cr[n] = T.digest(';'.join(s))
        capn.sort(key=lambda n: (cr[n], n))
    caps = tuple(info[n] for n in capn)
    cren = {n: slot(T.slotname(h, j, info[n]), info[n]) for j, n in enumerate(capn)}
    order = sorted(comps, key=lambda c: (rank[c.name], ))
    runs = [list(g) for _, g in itertools.groupby(order, key=lambda c: rank[c.name])]
    best = None
    n = 0
    for perm in itertools.product(*[itertools.permutations(r) for r in runs]):
        n += 1
        if n > 24:
            break
        seq = [c for r in perm for c in r]
        ren = dict(cren)
        for j, c in enumerate(seq):
            cn = '~%d.s%d' % (h, j)
            if c.params:
                ren[c.name] = Rename(cn, c.isint, c.ind)
            else:
                ren[c.name] = call(cn, [], c.isint, c.ind)
        ren[var] = sym('~%d.k' % h, True)
        body = []
        for c in seq:
            r2 = dict(ren)
            for j, q in enumerate(c.params):
                r2[q] = sym('~%d.p%d' % (h, j), True)
            body.append((len(c.params), c.isint, c.ind, subst(c.init, r2), subst(c.out, r2)))
        k = ';'.join('%d%d%d %s %s' % (b[0], b[1], b[2], b[3].key, b[4].key) for b in body)
        if best is None or k < best[0]:
            best = (k, body, [c.name for c in seq].index(name))
    k, body, which = best
    bound = set('~%d.s%d' % (h, j) for j in range(len(body))) | set('~%d.p%d' % (h, j) for j in range(9)) | {'~%d.k' % h} | \
        set(T.slotname(h, j, q) for j, q in enumerate(caps))
    fr = set()
    for b in body:
        fr |= b[3].free | b[4].free
    dom = [domain[0]]
    if domain[0] == 'set':
        d2 = dict(cren)
        d2[domain[1]] = sym('~%d.p0' % h, True)
        dom.append(subst(domain[2], d2))
    else:
        dom += [subst(domain[1], cren), subst(domain[2], cren)]
    for q in dom[1:]:
        fr |= q.free
    spec = (tuple(dom), tuple(body), h, frozenset(fr - bound), k + '@' + ','.join(q if isinstance(q, str) else q.key for q in dom))
    return spec, which, caps


def rough_fn(p, ren, memo=None):
    """like terms.rough, also for renamed functions"""
    if memo is None:
        memo = {}
    out = []
    for m, c in p.t.items():
        out.append('%s*%s' % (c, ','.join(sorted(rough_fa(a, ren, memo) for a in m))))
    out.sort()
    return '+'.join(out)


_plain = {}


def rough_fa(a, ren, memo):
    r = memo.get(a.key)
    if r is None:
        r = memo[a.key] = rough_fa_(a, ren, memo)
    return r


def rough_fa_(a, ren, memo):
    if a.free.isdisjoint(ren):
        r = _plain.get(a.key)
        if r is None:
            r = _plain[a.key] = T.rough_atom(a, {n: '*' for n in a.free if n[0] in '!~'})
        return r
    if a.kind == 'sym':
        return ren[a.args[0]]
    if a.kind == 'app':
        return str(ren.get(a.args[0], a.args[0])) + '(' + ','.join(rough_fn(q, ren, memo) for q in a.args[1]) + ')'
    if a.kind == 'fold':
        spec, which, caps, args = a.args
        return T.digest('fold%s!%d[%s](%s)' % (spec[4] if spec[3].isdisjoint(ren) else '', which, ','.join(
            str(ren.get(q[1], '*' if q[1][0] in '!~' else q[1])) if isinstance(q, tuple) else rough_fn(q, ren, memo) for q in caps),
            ','.join(rough_fn(q, ren, memo) for q in args)))
    if a.kind in ('sum', 'all', 'lam'):
        sk, fr0 = a.args[4], a.args[5]
        hit0 = sorted((n, str(ren[n])) for n in fr0 if n in ren)
        return T.digest('%s%s%s[%s]' % (a.kind, sk, hit0, ','.join(
            str(ren.get(q[1], '*' if q[1][0] in '!~' else q[1])) if isinstance(q, tuple) else rough_fn(q, ren, memo) for q in a.args[2])))
    sub = []

    def go(q):
        if isinstance(q, Poly):
            r = rough_fn(q, ren, memo)
            sub.append(min(r, rough_fn(-q, ren, memo)) if a.kind == 'eq' else r)
        elif isinstance(q, Atom):
            sub.append(rough_fa(q, ren, memo))
        elif isinstance(q, (tuple, list)):
            for z in q:
                go(z)
    for q in a.args:
        go(q)
    sub.sort()
    return T.digest(a.kind + ';'.join(sub))


def atom(spec, which, caps, args, isint, ind):
    def build(args):
        dom, body, h, fr, k = spec
        fr2 = frozenset(fr.union(*[a.free for a in args]).union(*[(q[1],) if isinstance(q, tuple) else q.free for q in caps]))
        ck = ','.join('%s' % (q,) if isinstance(q, tuple) else q.key for q in caps)
        return P(T.mkatom('fold', (spec, which, caps, tuple(args)), '%s!%d[%s](%s)' % (k, which, ck, ','.join(a.key for a in args)), ind, fr2,
                          bool(isint or ind), max([h] + [a.h for a in args]), ind or isint == 2))
    return T.lift(list(args), build)


def plain(q, ren):
    """the captured item after a substitution that only renames it, else None"""
    if isinstance(q, tuple):
        r = ren.get(q[1])
        if r is None:
            return q
        if isinstance(r, Rename) and (r.isint, r.ind) == (q[2], q[3]):
            return ('fn', r.name, r.isint, r.ind)
        return None
    (a,) = list(q.t)[0]
    r = ren.get(a.args[0])
    if r is None:
        return q
    if isinstance(r, Poly) and len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0].kind == 'sym' and (m[0].isint, m[0].ind, m[0].nonneg) == (a.isint, a.ind, a.nonneg) and \
                T.isstate(m[0].args[0]) == T.isstate(a.args[0]) and \
                m[0].args[0][0] in '!~':
            return r
    return None


def subst_fold(a, ren, memo):
    spec, which, caps, args = a.args
    dom, body, h, fr, k = spec
    args = [subst(q, ren, memo) for q in args]
    if not (fr & ren.keys()):
        c2 = tuple(plain(q, ren) for q in caps)
        if None not in c2 and len(set(q[1] if isinstance(q, tuple) else q.key for q in c2)) == len(c2):
            return atom(spec, which, c2, args, sort_of(a), a.ind)
    mk = ('fold', a.key.split('!')[0] if False else k, which, tuple(q[1] if isinstance(q, tuple) else q.key for q in caps))
    r = memo.get(mk)
    if r is None:
        # open with fresh names, substitute, close again
        var, comps, d2 = opened(a)
        for c in comps:
            c.init, c.out = subst(c.init, ren, memo), subst(c.out, ren, memo)
        d2 = d2[:1] + tuple(subst(q, ren, memo) if isinstance(q, Poly) else q for q in d2[1:])
        r = memo[mk] = make(var, d2, comps)[comps[which].name]
    return r(args)


def opened(a):
    """variable, components and domain of a fold atom, with fresh names for what is bound"""
    spec, which, caps, args = a.args
    dom, body, h, fr, k = spec
    var = fresh('k')
    names = [fresh('s') for _ in body]
    comps = []
    op = {'~%d.k' % h: sym(var, True)}
    for j, q in enumerate(caps):
        op[T.slotname(h, j, q)] = Rename(q[1], q[2], q[3]) if isinstance(q, tuple) else q
    for j, b in enumerate(body):
        if b[0]:
            op['~%d.s%d' % (h, j)] = Rename(names[j], b[1], b[2])
        else:
            op['~%d.s%d' % (h, j)] = call(names[j], [], b[1], b[2])
    for j, b in enumerate(body):
        ps = [fresh('p') for _ in range(b[0])]
        o2 = dict(op)
        for i, q in enumerate(ps):
            o2['~%d.p%d' % (h, i)] = sym(q, True)
        comps.append(Comp(names[j], ps, subst(b[3], o2), subst(b[4], o2), b[1], b[2]))
    if dom[0] == 'set':
        pn = fresh('p')
        o2 = dict(op)
        o2['~%d.p0' % h] = sym(pn, True)
        d2 = ('set', pn, subst(dom[1], o2))
    else:
        d2 = ('range', subst(dom[1], op), subst(dom[2], op))
    return var, comps, d2


def show_fold(a, d):
    spec, which, caps, args = a.args
    dom, body, h, fr, k = spec
    return 'FOLD#%d(%s){%s | %s}' % (which, ', '.join(T.show(q, d) for q in args),
                                    ' .. '.join(q if isinstance(q, str) else T.show(q, d) for q in dom),
                                    ' ; '.join('%s -> %s' % (T.show(b[3], d), T.show(b[4], d)) for b in body))
