"""Values a specification names: cut(e) in a specification abstracts the value of e, a term F(a1..an) with loop variables and list
members ai, to let(a1..an); a value the code assigns that is F(b1..bn) becomes let(b1..bn).  F is closed but for its parameters, so
equal names mean equal values; a value that is not recognised stays as it is."""
import terms as T
from terms import *
import folds

LETS = {}


def isheadname(n):
    return n.startswith('!h.')


def public(p):
    return frozenset(n for n in p.free if n[0] not in '!~' and n != 'enum')


def calls(p):
    """{function: argument lists of its occurrences}, also under binders"""
    out = {}
    seen = set()

    def go(q):
        if isinstance(q, Poly):
            for m in q.t:
                for a in m:
                    atom(a)
        elif isinstance(q, Atom):
            atom(q)
        elif isinstance(q, (tuple, list)):
            for z in q:
                go(z)

    def atom(a):
        if a.kind == 'sym' or a.key in seen:
            return
        seen.add(a.key)
        if a.kind == 'app':
            out.setdefault(a.args[0], []).append(a.args[1])
            go(a.args[1])
        elif a.kind in ('sum', 'all', 'lam'):
            go(T.open_(a))
        elif a.kind == 'fold':
            var, comps, dom = folds.opened(a)
            for c in comps:
                go(c.init)
                go(c.out)
            go(dom)
            go(a.args[3])
        else:
            go(a.args)
    go(p)
    return out


def template(p):
    """(key, arguments) or None"""
    called = calls(p)
    free = p.free
    ren = {}
    pairs = []          # (parameter, argument)
    if 'enum' in free:
        seen = {}
        for S, k in called.get('enum', []):
            if S.free <= free and k.free <= free:
                seen[S.key, k.key] = S, k
        for S, k in seen.values():
            z = fresh('e')
            pairs.append((z, app('enum', [S, k], isint=True), (S, k)))
        if len(pairs) > 4:
            return None
    inner = set(n for _, _, (S, k) in pairs for n in (S.free | k.free) if n[0] == '!')
    vs = sorted(n for n in free if n[0] == '!' and not isheadname(n))
    if len(vs) > 8:
        return None
    offs = {}
    uses = {}
    for fn in sorted(n for n in free if n[0] not in '!~' and n != 'enum'):
        for args in called.get(fn, []):
            for j, q in enumerate(args):
                if len(q.t) == 1:
                    (m, c), = q.t.items()
                    if c == 1 and len(m) == 1 and m[0].kind == 'app' and m[0].args[0] == 'enum':
                        for z, a, _ in pairs:
                            if a == q:
                                uses.setdefault(z, set()).add((fn, j))
                        continue
                for v in vs:
                    if v in q.free:
                        r = q - sym(v, True)
                        if not any(n[0] in '!~' for n in r.free):
                            uses.setdefault(v, set()).add((fn, j))
                            if r != ZERO:
                                offs[v] = r
    sub = {}
    new = []
    for v in vs:
        z = fresh('e')
        a = sym(v, True)
        if v in offs:
            sub[v] = sym(z, True) - offs[v]
            a = a + offs[v]
        else:
            sub[v] = sym(z, True)
        new.append((z, a, v))
    if pairs:
        known = [(z, T.subst(S, sub), T.subst(k, sub), S, k) for z, _, (S, k) in pairs]

        def put(args):
            for z, S, k, S0, k0 in known:
                if (args[0] == S and args[1] == k) or (args[0] == S0 and args[1] == k0):
                    return sym(z, True)
            return app('enum', args, isint=True)
        sub['enum'] = put
    q = T.subst(p, sub)
    if any(isheadname(n) for n in q.free):
        return None
    allp = [(z, a, sorted(uses.get(z, ()))) for z, a, _ in pairs] + [(z, a, sorted(uses.get(v, ()))) for z, a, v in new]
    allp = [w for w in allp if w[0] in q.free]
    allp.sort(key=lambda w: (w[2], w[0]))
    q = T.subst(q, {w[0]: sym('~let.%d' % j, True) for j, w in enumerate(allp)})
    if any(n[0] == '!' for n in q.free):
        return None
    return q.key, [w[1] for w in allp]


def cut(p):
    """a specification's value"""
    r = template(p)
    if r is None:
        return p
    key, args = r
    name, _ = LETS.setdefault(key, ('let%d' % len(LETS), public(p)))
    return app(name, args)


def recognised(p):
    """a value of the code"""
    if not LETS:
        return p
    f = public(p)
    if not any(f >= g for _, g in LETS.values()):
        return p
    r = template(p)
    if r is None or r[0] not in LETS:
        return p
    return app(LETS[r[0]][0], r[1])
