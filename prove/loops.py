"""Closed forms of loops.

A loop is given by its variable, its domain and, for every component that one iteration may change, the value before the
loop and the value after one iteration in terms of the values before the iteration.  solve() returns for every component
the value after the loop.  Each rule is an induction scheme; the invariant it stands for is noted beside it."""
import terms as T
from terms import *
import folds


class C(object):
    """a component: name of its value before the iteration, params, init and out (polynomials over params, made on demand)"""
    __slots__ = ('name', 'params', '_init', '_out', 'isint', 'ind', 'at', 'final', 'rule', 'todo')

    def __init__(self, name, params, init, out, isint, ind):
        self.name, self.params, self._init, self._out, self.isint, self.ind = name, tuple(params), init, out, isint, ind
        self.at = self.final = self.rule = None

    @property
    def init(self):
        if callable(self._init):
            self._init = self._init()
        return self._init

    @property
    def out(self):
        if callable(self._out):
            self._out = self._out()
        return self._out

    @out.setter
    def out(self, v):
        self._out = v


def occurrences(p, name, out):
    """argument lists of all occurrences of the function (or () for a variable), also under binders"""
    for m in p.t:
        for a in m:
            occ_atom(a, name, out)
    return out


def occ_atom(a, name, out):
    if name not in a.free:
        return
    if a.kind == 'sym':
        out.append(())
        return
    if a.kind == 'app':
        if a.args[0] == name:
            out.append(a.args[1])
        for q in a.args[1]:
            occurrences(q, name, out)
        return

    def go(q):
        if isinstance(q, Poly):
            occurrences(q, name, out)
        elif isinstance(q, Atom):
            occ_atom(q, name, out)
        elif isinstance(q, (tuple, list)):
            for z in q:
                go(z)
    if a.kind in ('sum', 'all', 'lam'):
        go(T.open_(a))
        return
    if a.kind == 'fold':
        var, comps, dom = folds.opened(a)
        for c in comps:
            go(c.init)
            go(c.out)
        go(dom)
        go(a.args[3])
        return
    for q in a.args:
        go(q)


def head(c):
    return folds.call(c.name, [sym(q, True) for q in c.params], c.isint, c.ind)


def lam(params, body):
    """substitute for a component name"""
    if not params:
        return body
    return lambda args: T.subst(body, dict(zip(params, args)))


class Loop(object):
    def __init__(self, var, domain, comps, log=None, where=''):
        self.var, self.domain, self.comps = var, domain, comps
        self.log = log if log is not None else []
        self.where = where
        self.byname = {c.name: c for c in comps}
        self.kind = domain[0]

    # sums and quantifiers over the iterations, all or those before the current one
    def dsum(self, p, upto=None):
        n = fresh('k')
        q0 = ZERO
        if self.kind == 'range' and upto is not None:
            # the iterations before this one: upto - lo of them
            q0 = Poly({m: c for m, c in p.t.items() if not any(self.var in a.free for a in m)})
            p = p - q0
            q0 = q0 * (upto - self.domain[1])
        q = T.subst(p, {self.var: sym(n, True)})
        if self.kind == 'range':
            return q0 + msum(n, self.domain[1], self.domain[2] if upto is None else upto, q)
        g = self.domain[1](sym(n, True))
        if upto is not None:
            g = g * le0(sym(n, True) - upto + 1)
        return msum(n, None, None, g * q)

    def dall(self, p, upto=None):
        n = fresh('k')
        q = T.subst(p, {self.var: sym(n, True)})
        if self.kind == 'range':
            return mall(n, self.domain[1], self.domain[2] if upto is None else upto, q)
        g = self.domain[1](sym(n, True))
        if upto is not None:
            g = g * le0(sym(n, True) - upto + 1)
        return mall(n, None, None, Or(Not(g), q))

    def value(self, c):
        """the final value of a component; only what it depends on is solved"""
        if c.rule is None:
            self.solve(self.closure([c]))
        if callable(c.final):
            c.final = c.final()
        return c.final

    def closure(self, cs):
        """the components these depend on, and they themselves"""
        seen, todo, r = set(), list(cs), []
        while todo:
            c = todo.pop()
            if c.name in seen:
                continue
            seen.add(c.name)
            r.append(c)
            if c.rule is None or c.rule == 'fold':
                todo += [self.byname[n] for n in c.out.free if n in self.byname]
        return r

    def solve(self, cs):
        """solves the components cs (closed under dependency)"""
        todo = [c for c in cs if c.rule is None]
        ren = {c.name: lam(c.params, c.at) for c in cs if c.rule not in (None, 'fold')}
        for c in todo:
            c.out = T.subst(c.out, ren)
        while todo:
            moved = False
            for c in list(todo):
                if c.out.free & (self.byname.keys() - {c.name}):
                    continue
                if self.closed(c):
                    self.log.append((self.where, c.name, c.rule))
                    todo.remove(c)
                    ren = {c.name: lam(c.params, c.at)}
                    for o in todo:
                        o.out = T.subst(o.out, ren)
                    moved = True
            if not moved:
                g = [c for c in todo if not T.os.environ.get('NOST') and self.stationary(c)]
                if not g:
                    g = self.own_group(todo)
                if not g:
                    break
                for c in g:
                    self.log.append((self.where, c.name, c.rule))
                    todo.remove(c)
                ren = {c.name: lam(c.params, c.at) for c in g}
                for o in todo:
                    o.out = T.subst(o.out, ren)
        for c in todo:
            c.rule = 'fold'
            self.log.append((self.where, c.name, c.rule))
            c.final = (lambda c: lambda: self.fold(c))(c)

    def closed(self, c):
        """tries the induction schemes; c.at: value before iteration var, c.final: value after the loop"""
        k = sym(self.var, True)
        h = head(c)
        if c.out == h:                                     # unchanged
            c.at = c.final = c.init
            c.rule = 'frame'
            return True
        if c.name not in c.out.free:                       # overwritten: holds what the last iteration wrote
            if self.kind == 'range':
                lo, hi = self.domain[1], self.domain[2]
                c.at = ite(le0(lo + 1 - k), T.subst(c.out, {self.var: k - 1}), c.init)
                c.final = ite(le0(lo + 1 - hi), T.subst(c.out, {self.var: hi - 1}), c.init)
            else:
                if self.var in c.out.free:
                    u = app('last:' + c.out.key, [], bool(c.isint), c.ind)
                else:
                    u = c.out
                c.at = c.final = ite(self.nonempty(), u, c.init)
                if self.var in c.out.free:
                    c.at = app('lastbefore:' + c.out.key, [k], bool(c.isint), c.ind)
                else:
                    c.at = ite(Not(self.dall(ZERO, k)), u, c.init)
            c.rule = 'last'
            return True
        d = c.out - h
        # x' = x + d, d free of x: x = x0 + sum of the d so far (an array: cell by cell)
        if c.name not in d.free:
            c.at = c.init + self.dsum(d, k)
            c.final = c.init + self.dsum(d)
            c.rule = 'sum'
            return True
        # every write of iteration k is at a cell with coordinate k, and only such cells are read
        e = self.own_cells(c, d, k)
        if e is not None:
            c.at = c.init + self.dsum(e, k)
            c.final = c.init + self.dsum(e)
            c.rule = 'cells'
            return True
        # x' = g*x + w with an indicator g
        (ha,) = list(h.t)[0]
        g, w = ZERO, ZERO
        for m, co in c.out.t.items():
            if ha in m:
                q = list(m)
                q.remove(ha)
                g = g + Poly({tuple(q): co})
            else:
                w = w + Poly({m: co})
        if c.name in g.free or c.name in w.free:
            return False
        if not g.isind():
            return False
        if not w.t:                                        # x' = g*x: x = x0 * (all g so far)
            c.at = c.init * self.dall(g, k)
            c.final = c.init * self.dall(g)
            c.rule = 'all'
            return True
        r = T.ratio(w, ONE - g)
        if r is None:
            r = self.const_of(w, g)
        if r is not None:                                  # x' = g ? x : v   with v the same in all iterations
            v = r if isinstance(r, Poly) else P(r)
            a1, a2 = self.dall(g, k), self.dall(g)
            c.at = ite(a1, c.init, v)
            c.final = ite(a2, c.init, v)
            c.rule = 'once'
            return True
        return False

    def stationary(self, c):
        """an iteration leaves the initial value as it is, whatever the other components are"""
        if T.subst(c.out, {c.name: lam(c.params, c.init)}) != c.init:
            return False
        c.at = c.final = c.init
        c.rule = 'frame'
        return True

    def const_of(self, w, g):
        """v with w == v*(1 - g), the same in all iterations"""
        q = ONE - g
        if len(q.t) != 1:
            return None
        (m, c), = q.t.items()
        if c != 1:
            return None
        v = ZERO
        for m2, c2 in w.t.items():
            if not all(a in m2 for a in m):
                return None
            v = v + Poly({tuple(a for a in m2 if a not in m): c2})
        return v if self.var not in v.free and v * q == w else None

    def nonempty(self):
        return Not(self.dall(ZERO))

    def own_cells(self, c, d, k):
        """d with the initial values put in, if iteration k only touches cells whose some coordinate is k"""
        if not c.params:
            return None
        for j, pn in enumerate(c.params):
            la, cell = self.link(c, pn, d, k)
            if la is None:
                continue
            occ = []
            occurrences(d, c.name, occ)
            if all(a[j] == cell or a[j] == sym(pn, True) for a in occ):
                return T.subst(d, {c.name: lam(c.params, c.init)})
        return None

    def link(self, c, pn, d, k):
        """the atom [pn == cell] all monomials of d share, cell being another one in every iteration"""
        if not d.t:
            return None, None
        first = min(d.t, key=len)
        for a in first:
            if a.kind != 'eq' or pn not in a.free or self.var not in a.free:
                continue
            q = a.args[0]
            s = sym(pn, True)
            for sg in (1, -1):
                r = s - q.scale(sg)             # q = 0 iff pn = r
                if pn in r.free or not self.injective(r, k) or r.free & (self.byname.keys() | set(c.params)):
                    continue
                if all(a in m for m in d.t):
                    return a, r
        return None, None

    def injective(self, r, k):
        """r takes another value in every iteration"""
        return self.increasing(r, k) or self.increasing(-r, k)

    def increasing(self, r, k):
        """r is greater in every later iteration"""
        if self.var not in (r - k).free:
            return True
        up = [(m, c) for m, c in r.t.items() if any(self.var in a.free for a in m)]
        if len(up) == 1:
            (m, c), = up
            if c == 1 and len(m) == 1 and m[0].kind == 'app' and m[0].args[0] == 'enum':
                S, i = m[0].args[1]
                return self.var not in S.free and self.var not in (i - k).free
        return False

    def appended(self, c, d):
        """d is the appending to an empty list, in some iterations, of something that is greater in every later one"""
        if not d.t:
            return True
        if c.init != ZERO:
            return False
        k = sym(self.var, True)
        la, cell = self.link(c, c.params[0], d, k)
        if la is None or not self.increasing(cell, k):
            return False
        return d == T.subst(d, {c.name: lam(c.params, ZERO)}) * (ONE - head(c))

    def own_group(self, todo):
        """arrays of which iteration k reads and writes only the cells with some coordinate k, each its own"""
        k = sym(self.var, True)
        g = {}
        for c in todo:
            d = c.out - head(c)
            for j, pn in enumerate(c.params):
                la, cell = self.link(c, pn, d, k)
                if la is not None:
                    g[c.name] = (c, j, d, cell)
                    break
        names = {c.name for c in todo}
        while True:
            bad = set()
            for n, (c, j, d, cell) in g.items():
                for o in d.free & names:
                    if o not in g:
                        bad.add(n)
                        continue
                    jo = g[o][1]
                    occ = []
                    occurrences(d, o, occ)
                    if g[o][3] != cell or not all(a[jo] == cell or a[jo] == sym(c.params[j], True) for a in occ):
                        bad.add(n)
            if not bad:
                break
            for n in bad:
                del g[n]
        if not g:
            return None
        ini = {n: lam(c.params, c.init) for n, (c, j, d, cell) in g.items()}
        for n, (c, j, d, cell) in g.items():
            e = T.subst(d, ini)
            c.at = c.init + self.dsum(e, k)
            c.final = c.init + self.dsum(e)
            c.rule = 'cells'
        return [c for c, j, d, cell in g.values()]

    def interference(self, private, reduced):
        """components of which an iteration may see what another one did, run at the same time; before solve().  private: scalars every
        iteration has its own copy of; reduced: scalars only added to, summed up at the end"""
        k = sym(self.var, True)
        bad = []
        own = {}
        for c in self.comps:
            d = c.out - head(c)
            if c.name in private:
                continue
            if c.name in reduced:
                if c.name in d.free:
                    bad.append(c.name)
            elif d.t:
                for j, pn in enumerate(c.params):
                    la, cell = self.link(c, pn, d, k)
                    if la is not None:
                        own[c.name] = (j, cell, d)
                        break
                else:
                    bad.append(c.name)
        for c in self.comps:
            if c.name in private:
                continue
            d = own[c.name][2] if c.name in own else c.out - head(c)
            for o in self.comps:
                if o.name not in d.free or o.name == c.name and c.name not in own:
                    continue
                if o.name in own and o.params:
                    j, cell, _ = own[o.name]
                    mine = [sym(c.params[own[c.name][0]], True)] if c.name in own and own[c.name][1] == cell else []
                    occ = []
                    occurrences(d, o.name, occ)
                    if all(a[j] == cell or a[j] in mine for a in occ):
                        continue
                elif o.name not in private and o.name not in reduced and o.name not in bad:
                    continue        # not changed
                bad.append(o.name)
        return sorted(set(bad))

    def fold(self, c):
        todo = self.closure([c])
        comps = [folds.Comp(o.name, o.params, o.init, o.out, o.isint, o.ind) for o in todo]
        if self.kind == 'range':
            dom = ('range', self.domain[1], self.domain[2])
        else:
            pn = fresh('p')
            dom = ('set', pn, self.domain[1](sym(pn, True)))
        fin = folds.make(self.var, dom, comps)
        return fin[c.name]([sym(q, True) for q in c.params])
