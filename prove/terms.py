"""Terms of the verifier and their normal form.

Numbers and truth values are polynomials with rational coefficients over atoms; a truth value is a polynomial that only
takes the values 0 and 1 (an indicator).  Atoms:
  sym    a variable                          app    a function or array applied to polynomials
  le     [p <= 0]      eq   [p == 0]         rng    [lo <= x < hi]
  all    1 if a polynomial is 1 for all values of the bound variables in their ranges, else 0
  sum    the sum of a monomial over bound variables in their ranges (or over all integers, range None)
  inv    1/p, 0 for p = 0 (a division by zero is an obligation of its own)
  fold  a component of the state of a loop that has no closed form
Every rewriting below is an identity of real arithmetic (integers where marked), indicator logic or finite sums."""
import hashlib
import itertools
from fractions import Fraction as F

_atoms = {}
LIMIT = 400000
LIFT = 6
_fresh = [0]


class TooBig(Exception):
    pass


def digest(s):
    return hashlib.md5(s.encode()).hexdigest()[:20]


def fresh(hint='v'):
    _fresh[0] += 1
    return '!%s%d' % (hint, _fresh[0])


class Atom(object):
    __slots__ = ('kind', 'args', 'key', 'ind', 'free', 'isint', 'h', 'nonneg')

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.key < o.key


def mkatom(kind, args, structure, ind, free, isint, h, nonneg):
    key = kind + ':' + digest(structure)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.key, a.ind, a.free, a.isint, a.h, a.nonneg = kind, args, key, ind, free, isint, h, nonneg
        _atoms[key] = a
    return a


class Poly(object):
    __slots__ = ('t', '_key', '_free', '_h')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._free = None
        self._h = None

    @property
    def key(self):
        if self._key is None:
            self._key = digest('|'.join(sorted('%s*%s' % (c, ','.join(a.key for a in m)) for m, c in self.t.items())))
        return self._key

    @property
    def free(self):
        if self._free is None:
            s = set()
            for m in self.t:
                for a in m:
                    s |= a.free
            self._free = frozenset(s)
        return self._free

    @property
    def h(self):
        if self._h is None:
            self._h = max([a.h for m in self.t for a in m] or [0])
        return self._h

    def const(self):
        """its value if constant, else None"""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def isint(self):
        return all(c.denominator == 1 and all(a.isint for a in m) for m, c in self.t.items())

    def isind(self):
        """surely 0/1-valued, judged by enumeration of its indicator atoms"""
        ats = set(a for m in self.t for a in m)
        if any(not a.ind for a in ats):
            return False
        if len(ats) > 9:
            return None
        ats = sorted(ats)
        for bits in itertools.product((0, 1), repeat=len(ats)):
            v = self.at(dict(zip(ats, bits)))
            if v not in (0, 1):
                return False
        return True

    def at(self, val):
        s = F(0)
        for m, c in self.t.items():
            if all(val[a] for a in m):
                s += c
        return s

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            c2 = t.get(m, 0) + c
            if c2:
                t[m] = c2
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if len(self.t) * len(o.t) > LIMIT:
            raise TooBig('product of %d by %d terms' % (len(self.t), len(o.t)))
        if len(o.t) == 1 and () in o.t:
            return self.scale(o.t[()])
        if len(self.t) == 1 and () in self.t:
            return o.scale(self.t[()])
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono(m1 + m2).t.items():
                    v = acc.get(m, 0) + c * c1 * c2
                    if v:
                        acc[m] = v
                    else:
                        acc.pop(m, None)
        return Poly(acc)

    __rmul__ = __mul__

    def __repr__(self):
        return show(self)

    def atoms(self):
        return set(a for m in self.t for a in m)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(x,): F(1)})
    x = F(x)
    return Poly({(): x}) if x else ZERO


ZERO = Poly({})
ONE = Poly({(): F(1)})


# ---------------------------------------------------------------- monomials
def lin_split(p):
    """p = q + c with c constant"""
    c = p.t.get((), F(0))
    if not c:
        return p, c
    t = dict(p.t)
    del t[()]
    return Poly(t), c


_mono_memo = {}


def mono(atoms):
    """The product of atoms, as a polynomial."""
    k = tuple(sorted(atoms, key=lambda a: a.key))
    r = _mono_memo.get(k)
    if r is None:
        r = _mono_memo[k] = _mono(k)
    return r


def _mono(k):
    out = []
    for a in k:
        if a.ind and out and out[-1] is a:
            continue
        out.append(a)
    ii = [a for a in out if a.kind in ('le', 'eq', 'rng')]
    if ii:
        # an equation fixes a variable in the other factors
        for a in ii:
            if a.kind == 'eq':
                s = solvable(a.args[0])
                for name, e in s:
                    if any(name in b.free for b in out if b is not a):
                        r = P(a)
                        for b in out:
                            if b is not a:
                                r = r * subst(P(b), {name: e})
                        return r
                if any(b.kind == 'inv' and (b.args[0] == a.args[0] or b.args[0] == -a.args[0]) for b in out):
                    return ZERO
                if not s:
                    s = pivot(a.args[0])
                    if s is not None and any(b is not a and mentions(b, s[0]) for b in out):
                        r = P(a)
                        for b in out:
                            if b is not a:
                                r = r * rewritten(b, s[0], s[1])
                        return r
        for x in range(len(ii)):
            for y in range(x + 1, len(ii)):
                r = pair(ii[x], ii[y])
                if r is not None:
                    rest = list(out)
                    rest.remove(ii[x])
                    rest.remove(ii[y])
                    return r * mono(tuple(rest)) if rest else r
    return Poly({tuple(out): F(1)})


def isstate(n):
    """the name of a value before an iteration, not of an index"""
    return n.startswith('!h.') or n.startswith('!s') or (n[0] == '~' and '.s' in n)


def slotname(h, j, q):
    """of the j-th captured name of a term of height h"""
    n = q[1] if isinstance(q, tuple) else list(q.t)[0][0].args[0]
    return '~%d.%s%d' % (h, 'sc' if isstate(n) else 'c', j)


def solvable(p):
    """(name, value) pairs for the variables p == 0 determines, bound ones first"""
    r = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0].kind == 'sym' and abs(c) == 1:
            name = m[0].args[0]
            if isstate(name):
                continue
            rest = Poly({q: -d / c for q, d in p.t.items() if q != m})
            if name not in rest.free and (not m[0].isint or rest.isint()):
                r.append((name, rest))
    r.sort(key=lambda q: (not q[0].startswith('!'), q[0]), reverse=False)
    # only bound variables and, failing them, the last variable by name
    return r[:1]


_pivot = {}


def pivot(p):
    """(atom, value): the largest application p == 0 determines"""
    if p.key in _pivot:
        return _pivot[p.key]
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0].kind == 'app' and not m[0].ind and abs(c) == 1:
            a = m[0]
            rest = Poly({q: -d / c for q, d in p.t.items() if q != m})
            if any(mentions(b, a) for q in rest.t for b in q) or a.isint and not rest.isint():
                continue
            ren = {n: '*' for n in a.free if n[0] in '!~'}
            k = (weight(a), rough_atom(a, ren), a.key)
            if best is None or k > best[0]:
                best = (k, a, rest)
    _pivot[p.key] = best and best[1:]
    return _pivot[p.key]


def weight(a):
    return 1 + sum(weight(b) for q in a.args[1] for m in q.t for b in m) if a.kind == 'app' else 1


def mentions(b, a):
    """a occurs in b, not counting what is under a binder"""
    if b is a:
        return True
    if a.args[0] not in b.free or not a.free <= b.free:
        return False
    if b.kind in ('app', 'fold'):
        qs = b.args[1] if b.kind == 'app' else b.args[3]
    elif b.kind in ('le', 'eq', 'inv', 'rng'):
        qs = b.args
    else:
        return False
    return any(mentions(z, a) for q in qs if isinstance(q, Poly) for m in q.t for z in m)


def rewritten(b, a, e):
    if b is a:
        return e
    if not mentions(b, a):
        return P(b)

    def go(q):
        r = ZERO
        for m, c in q.t.items():
            x = P(c)
            for z in m:
                x = x * rewritten(z, a, e)
            r = r + x
        return r
    k = b.kind
    if k == 'app':
        return app(b.args[0], [go(q) for q in b.args[1]], b.isint and not b.ind, b.ind, b.nonneg and not b.ind)
    if k == 'fold':
        import folds
        return folds.atom(b.args[0], b.args[1], b.args[2], [go(q) for q in b.args[3]], folds.sort_of(b), b.ind)
    if k == 'le':
        return le0(go(b.args[0]))
    if k == 'eq':
        return eq(go(b.args[0]))
    if k == 'inv':
        return inv(go(b.args[0]))
    return rng(*[go(q) for q in b.args])


def pair(a, b):
    """the product of two comparisons of the same quantity, if it simplifies"""
    if a.kind == 'rng' or b.kind == 'rng':
        if a.kind != 'rng':
            a, b = b, a
        lo, x, hi = a.args
        if b.kind == 'rng':
            return None
        if b.kind == 'le':
            q, _ = lin_split(b.args[0])
            # b: q + c <= 0
            d = (hi - 1 - x) + b.args[0]        # x <= hi-1 implies b if b.p == x - (hi-1) - k, k >= 0
            d = b.args[0] - (x - hi + 1)
            if d.const() is not None:
                if d.const() <= 0:
                    return P(a)
            d = b.args[0] - (lo - x)
            if d.const() is not None:
                if d.const() <= 0:
                    return P(a)
            d = b.args[0] + (x - hi + 1)       # b: hi - 1 - x + d <= 0, with x <= hi-1: false if d > 0
            if d.const() is not None and d.const() > 0:
                return ZERO
            d = b.args[0] + (lo - x)           # b: x - lo + d <= 0
            if d.const() is not None and d.const() > 0:
                return ZERO
        return None
    if a.kind == 'eq' and b.kind == 'eq':
        qa, ca = lin_split(a.args[0])
        qb, cb = lin_split(b.args[0])
        if qa == qb and ca != cb:
            return ZERO
        return None
    if a.kind == 'eq':
        a, b = b, a
    if b.kind == 'eq':
        qa, ca = lin_split(a.args[0])
        qb, cb = lin_split(b.args[0])
        if qa == qb:            # q = -cb ; le: q + ca <= 0
            return P(b) if ca - cb <= 0 else ZERO
        if qa == -qb:           # q = cb for -qb.. : qa = cb
            return P(b) if cb + ca <= 0 else ZERO
        return None
    qa, ca = lin_split(a.args[0])
    qb, cb = lin_split(b.args[0])
    if qa == qb:
        return P(a) if ca >= cb else P(b)
    if qa == -qb:               # qa <= -ca and qa >= cb
        if cb > -ca:
            return ZERO
        if cb == -ca:
            if a.args[1]:
                return eq(a.args[0])
            return P(a) + P(b) - 1
    return None


# ---------------------------------------------------------------- constructors
def sym(name, isint=False, ind=False, nonneg=False):
    return P(mkatom('sym', (name,), '%s %d%d%d' % (name, isint, ind, nonneg), ind, frozenset([name]), isint or ind, 0,
                    nonneg or ind))


def split_inds(p, limit=5):
    """indicator atoms occurring at the top of p"""
    r = sorted(a for a in p.atoms() if a.ind)
    return r if len(r) <= limit else None


def at_partial(p, val):
    t = {}
    for m, c in p.t.items():
        keep = []
        z = False
        for a in m:
            if a in val:
                if not val[a]:
                    z = True
                    break
            else:
                keep.append(a)
        if z:
            continue
        k = tuple(keep)
        v = t.get(k, 0) + c
        if v:
            t[k] = v
        else:
            t.pop(k, None)
    return Poly(t)


def lift(args, build):
    """build(args) with the indicators at the top of the arguments taken outside: a sum over their truth values"""
    ats = set()
    for p in args:
        ats |= set(a for a in p.atoms() if a.ind)
    if not ats:
        return build(args)
    if len(ats) > LIFT:
        return build(args)
    ats = sorted(ats)
    r = ZERO

    def go(k, lits, cur):
        if not any(set(p.atoms()) & set(ats[k:]) for p in cur):
            return lits * build(cur)
        a = ats[k]
        if not any(a in p.atoms() for p in cur):
            return go(k + 1, lits, cur)
        s = ZERO
        for v in (1, 0):
            l2 = lits * (P(a) if v else ONE - P(a))
            if not l2.t:
                continue
            s = s + go(k + 1, l2, [at_partial(p, {a: v}) for p in cur])
        return s
    return go(0, ONE, list(args))


def app(name, args, isint=False, ind=False, nonneg=False):
    args = [P(a) for a in args]

    def build(args):
        if ind and MEMBERS:
            for j, q in enumerate(args):
                S = member(q)
                if S is not None:
                    for f, v in S:
                        if f.kind == 'app' and f.args[0] == name and len(f.args[1]) == len(args) and \
                                all(subst(x, {v: q}) == y for x, y in zip(f.args[1], args)):
                            return ONE
        if name == 'pos':               # max(q, 0)
            q = args[0]
            s = sign(q)
            if s is not None:
                return q if s > 0 else ZERO
            if leading(q) < 0:
                return app('pos', [-q]) + q
        fr = frozenset([name]).union(*[a.free for a in args])
        return P(mkatom('app', (name, tuple(args)), '%s(%s)%d%d' % (name, ','.join(a.key for a in args), isint, ind), ind, fr,
                        isint or ind, max([a.h for a in args] or [0]), nonneg or ind))
    return lift(args, build)


def content(p):
    """positive rational g such that p/g has leading coefficient +-1 (reals) or coprime integer coefficients (ints)"""
    cs = [abs(c) for m, c in p.t.items() if m]
    import math
    num = 0
    den = 1
    for c in cs:
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    return F(num, den)


def leading(p):
    """coefficient of the first monomial in an order that does not depend on the names of bound variables"""
    ren = {n: '*' for n in p.free if n[0] in '!~'}
    if not ren:
        return min((tuple(a.key for a in m), c) for m, c in p.t.items() if m)[1]
    return min((tuple(sorted(rough_atom(a, ren) for a in m)), tuple(a.key for a in m), c) for m, c in p.t.items() if m)[2]


def le0(p):
    """[p <= 0]"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c <= 0 else ZERO
    return lift([p], lambda q: _le0(q[0]))


def _le0(p):
    c = p.const()
    if c is not None:
        return ONE if c <= 0 else ZERO
    s = sign(p)
    if s is not None:
        if s <= 0 and s != 0:
            return ONE
        if s == 2:
            return ZERO
    r = two_members(p)
    if r is not None and r[2] in (0, 1):
        return le0(r[0] - r[1] + r[2])
    r = counting(p, 'le')
    if r is not None:
        return r
    p = p.scale(1 / content(p))
    isint = p.isint_vars()
    if isint:
        q, c = lin_split(p)
        import math
        p = q + math.ceil(c)
        if leading(p) < 0:
            return ONE - _le_atom(1 - p, True)
    return _le_atom(p, isint)


def _isint_vars(self):
    return all(all(a.isint for a in m) and (c.denominator == 1 or not m) for m, c in self.t.items())


Poly.isint_vars = _isint_vars


def _le_atom(p, isint):
    return known(mkatom('le', (p, isint), p.key + ' %d' % isint, True, p.free, True, p.h, True))


# loop variables below the number of members of a set: the set, and what holds of its members
MEMBERS = {}


def fact(var, lo, hi):
    """a loop variable with its range"""
    FACTS[var] = lo, hi
    if lo != ZERO or len(hi.t) != 1:
        return
    (m, c), = hi.t.items()
    if c != 1 or len(m) != 1 or m[0].kind != 'sum':
        return
    bs, body = open_(m[0])
    if len(bs) != 1:
        return
    v, a, b = bs[0]
    if not isinstance(body, Poly):
        body = mono(tuple(body))
    if a is not None:
        body = body * rng(a, sym(v, True), b)
    if len(body.t) != 1:
        return
    (m, c), = body.t.items()
    if c != 1 or not all(f.ind for f in m):
        return
    MEMBERS[var] = enum(v, body, sym(var, True)), [(f, v) for f in m]


def member(q):
    """what holds of q if it is the k-th member of a set for a loop variable k below their number"""
    if len(q.t) != 1:
        return None
    (m, c), = q.t.items()
    if c != 1 or len(m) != 1 or m[0].kind != 'app' or m[0].args[0] != 'enum':
        return None
    k = m[0].args[1][1]
    if len(k.t) != 1:
        return None
    (m, c), = k.t.items()
    if c != 1 or len(m) != 1 or m[0].kind != 'sym':
        return None
    r = MEMBERS.get(m[0].args[0])
    return r[1] if r is not None and r[0] == q else None


# the ranges of the variables of the loops whose bodies are being executed
FACTS = {}
import os
NOFACTS = os.environ.get('NOFACTS')


def known(a):
    """the indicator atom as a polynomial: its value, if the range of a loop variable in it gives one"""
    if MEMBERS and a.kind == 'rng':
        S = member(a.args[1])
        if S is not None:
            for f, v in S:
                if f.kind == 'rng' and f.args[1] == sym(v, True) and v not in f.args[0].free and v not in f.args[2].free and \
                        sign(f.args[0] - a.args[0]) in (1, 2) and sign(a.args[2] - f.args[2]) in (1, 2):
                    return ONE
    if FACTS and not NOFACTS:
        for q in ((a.args[1],) if a.kind == 'rng' else a.args[:1]):
            for m in q.t:
                if len(m) == 1 and m[0].kind == 'sym' and m[0].args[0] in FACTS:
                    lo, hi = FACTS[m[0].args[0]]
                    t = implied(a, P(m[0]), lo, hi)
                    if t is not None:
                        return P(t)
    return P(a)


def sign(p):
    """-1: surely <= 0; -2: < 0; 1: surely >= 0; 2: > 0; else None (from the signs of atoms alone)"""
    if all(all(a.nonneg for a in m) for m in p.t):
        cs = list(p.t.values())
        if all(c >= 0 for c in cs):
            return 2 if p.t.get((), 0) > 0 else 1
        if all(c <= 0 for c in cs):
            return -2 if p.t.get((), 0) < 0 else -1
    return None


def eq(p):
    """[p == 0]"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    return lift([p], lambda q: _eq(q[0]))


def _eq(p):
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if sign(p) in (2, -2):
        return ZERO
    r = two_members(p)
    if r is not None and r[2] == 0:
        return eq(r[0] - r[1])
    r = counting(p, 'eq')
    if r is not None:
        return r
    p = p.scale(1 / content(p))
    if leading(p) < 0:
        p = -p
    if p.isint_vars() and lin_split(p)[1].denominator != 1:
        return ZERO
    return known(mkatom('eq', (p,), p.key, True, p.free, True, p.h, True))


def rng(lo, x, hi):
    lo, x, hi = P(lo), P(x), P(hi)
    a, b = (x - lo).const(), (hi - 1 - x).const()
    if (a is not None and a < 0) or (b is not None and b < 0):
        return ZERO
    if a is not None and b is not None:
        return ONE
    if a is not None:
        return le0(x - hi + 1)
    if b is not None:
        return le0(lo - x)

    def build(q):
        lo, x, hi = q
        w = (hi - lo).const()
        if w is not None and w <= 0:
            return ZERO
        if w is not None and w <= 3:
            r = ZERO
            for j in range(int(w)):
                r = r + eq(x - lo - j)
            return r
        return known(mkatom('rng', (lo, x, hi), '%s<%s<%s' % (lo.key, x.key, hi.key), True, lo.free | x.free | hi.free, True,
                        max(lo.h, x.h, hi.h), True))
    return lift([lo, x, hi], build)


def And(*a):
    r = ONE
    for q in a:
        r = r * q
    return r


def Or(*a):
    r = ONE
    for q in a:
        r = r * (ONE - q)
    return ONE - r


def Not(a):
    return ONE - a


def ite(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if a == b:
        return a
    d = a - b
    if len(c.t) <= 2:
        # [q <= 0] j q = j min(q, 0): the same whichever side the equality is on
        ats = c.atoms()
        if len(ats) == 1:
            (x,) = ats
            if x.kind == 'le' and not x.args[1] and len(x.args[0].t) <= 3:
                q = x.args[0]
                j = quotient(d, q)
                if j is not None:
                    m = j * (q - app('pos', [q]))
                    return b + m if c == P(x) else a - m
    return b + c * d


def quotient(d, q):
    """j with d == j*q, if it is easy to see"""
    common = None
    for m in d.t:
        common = set(m) if common is None else common & set(m)
    common = tuple(sorted(a for a in common or () if a.ind))
    if common:
        j = mono(common)
        z = j * q
        if z == d:
            return j
        if z == -d:
            return -j
    m0 = min((m for m in q.t if m), key=lambda m: (len(m), [a.key for a in m]))
    t = {}
    for m, c in d.t.items():
        r = list(m)
        try:
            for a in m0:
                r.remove(a)
        except ValueError:
            continue
        t[tuple(r)] = c / q.t[m0]
    j = Poly(t)
    if not t or len(t) > 6:
        return None
    return j if j * q == d else None


def inv(p):
    p = P(p)
    c = p.const()
    if c is not None and c != 0:
        return P(1 / c)

    def build(q):
        p = q[0]
        c = p.const()
        if c is not None and c != 0:
            return P(1 / c)
        if c == 0:
            return ZERO
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and c == 1 and m[0].kind == 'inv':
                return m[0].args[0]
            if len(m) > 1 or c != 1:
                r = P(1 / c)
                for a in m:
                    r = r * inv(P(a))
                return r
        g = content(p)
        if leading(p) < 0:
            g = -g
        p = p.scale(1 / g)
        return P(mkatom('inv', (p,), p.key, False, p.free, False, p.h, sign(p) in (1, 2))).scale(1 / g)
    return lift([p], build)


# ---------------------------------------------------------------- binders
def cnt(lo, hi):
    """the number of integers in [lo, hi)"""
    w = hi - lo
    c = w.const()
    if c is not None:
        return P(max(c, 0))
    s = sign(w)
    if s in (1, 2):
        return w
    if s in (-1, -2):
        return ZERO
    return app('max0', [w], isint=True, nonneg=True)


def implied(a, v, lo, hi):
    """value of the indicator atom a known from lo <= v < hi, or None"""
    if a.kind == 'le':
        p = a.args[0]
        d = (p - (v - hi + 1)).const()
        if d is not None and d <= 0:
            return 1
        d = (p - (lo - v)).const()
        if d is not None and d <= 0:
            return 1
        d = (p + (v - hi + 1)).const()
        if d is not None and d > 0:
            return 0
        d = (p + (lo - v)).const()
        if d is not None and d > 0:
            return 0
        # bounds with known signs
        s = sign(p - (v - hi + 1))
        if s in (-1, -2):
            return 1
        s = sign(p - (lo - v))
        if s in (-1, -2):
            return 1
        s = sign(p + (v - hi + 1))
        if s == 2:
            return 0
        s = sign(p + (lo - v))
        if s == 2:
            return 0
    elif a.kind == 'eq':
        p = a.args[0]
        for q in (p, -p):
            d = q - (v - hi)
            s = sign(d)
            if s in (-1, -2):       # q <= v - hi < 0
                return 0
            d = q - (v - lo)
            s = sign(d)
            if s == 2:
                return 0
    elif a.kind == 'rng':
        l2, x, h2 = a.args
        e = x - v
        if sign(lo - l2 + e) in (1, 2) and sign(h2 - e - hi) in (1, 2):
            return 1
    return None


def narrowed(a, name, v, lo, hi):
    """the part [lo2, hi2) of lo <= v < hi where the comparison a holds, if it is such a part"""
    if a.kind == 'rng':
        l2, x, h2 = a.args
        if x == v and name not in l2.free and name not in h2.free:
            if sign(l2 - lo) in (1, 2) and sign(hi - h2) in (1, 2):
                return l2, h2
            if sign(lo - l2) in (1, 2) and sign(hi - h2) in (1, 2):
                return lo, h2
            if sign(l2 - lo) in (1, 2) and sign(h2 - hi) in (1, 2):
                return l2, hi
    elif a.kind == 'le' and a.args[1]:
        p = a.args[0]
        q = p - v
        if name not in q.free and q.isint():      # v <= -q
            if sign(hi + q - 1) in (1, 2):
                return lo, 1 - q
            return None
        q = p + v
        if name not in q.free and q.isint():      # v >= q
            if sign(q - lo) in (1, 2):
                return q, hi
    return None


def msum(name, lo, hi, body, isint=True):
    """sum of body over lo <= name < hi (all integers if lo is None)"""
    r = ZERO
    for m, c in body.t.items():
        r = r + _msum1(name, lo, hi, list(m)).scale(c)
    return r


_sum_memo = {}


def _msum1(name, lo, hi, atoms):
    v = sym(name, True)
    if lo is not None:
        w = (hi - lo).const()
        if w is not None and w <= 0:
            return ZERO
    dep = [a for a in atoms if name in a.free]
    ind = [a for a in atoms if name not in a.free]
    out = mono(tuple(ind)) if ind else ONE
    if not dep:
        if lo is None:
            return out * app('infinite', [])
        return out * cnt(lo, hi)
    k = (name, lo and lo.key, hi and hi.key, tuple(sorted(a.key for a in dep)))
    r = _sum_memo.get(k)
    if r is None:
        r = _sum_memo[k] = _msum2(name, v, lo, hi, dep)
    return out * r


def _msum2(name, v, lo, hi, dep):
    if lo is not None and any('enum' in a.free for a in dep):
        r = over_members(name, lo, hi, mono(tuple(dep)))
        if r is not None:
            return msum(r[0], None, None, r[1] * r[2])
    # a unique value of the variable
    for a in dep:
        if a.kind == 'eq':
            for m, c in a.args[0].t.items():
                if len(m) == 1 and m[0].kind == 'sym' and m[0].args[0] == name and abs(c) == 1:
                    e = Poly({q: -d / c for q, d in a.args[0].t.items() if q != m})
                    if name in e.free or not e.isint():
                        continue
                    r = ONE if lo is None else rng(lo, e, hi)
                    for b in dep:
                        if b is not a:
                            r = r * subst(P(b), {name: e})
                    return r
    if lo is None:
        for a in dep:
            if a.kind == 'rng' and a.args[1] == v and name not in a.args[0].free and name not in a.args[2].free:
                d2 = list(dep)
                d2.remove(a)
                return _msum1(name, a.args[0], a.args[2], d2)
    else:
        for a in dep:
            if a.kind in ('le', 'eq', 'rng'):
                t = implied(a, v, lo, hi)
                if t == 0:
                    return ZERO
                if t == 1:
                    d2 = list(dep)
                    d2.remove(a)
                    return _msum1(name, lo, hi, d2)
                nb = narrowed(a, name, v, lo, hi)
                if nb is not None:
                    d2 = list(dep)
                    d2.remove(a)
                    return _msum1(name, nb[0], nb[1], d2)
    # the range of the variable inside the arguments of methods of objects
    if lo is not None and name not in FACTS and any('.' in f and f[0] != '!' for a in dep for f in a.free):
        w = fresh()
        FACTS[w] = lo, hi
        REBUILD.append(w)
        try:
            r = subst(mono(tuple(dep)), {name: sym(w, True)})
        finally:
            del FACTS[w]
            REBUILD.pop()
        if r != subst(mono(tuple(dep)), {name: sym(w, True)}):
            return msum(w, lo, hi, r)
    # flatten
    binders = [(name, lo, hi)]
    fac = []
    for a in dep:
        if a.kind == 'sum':
            bs, body = open_(a)
            binders += bs
            fac += list(body)
        else:
            fac.append(a)
    fac = mono(tuple(fac))
    if len(fac.t) != 1 or list(fac.t.values())[0] != 1:
        # the factors interact: sum again, inside out
        r = fac
        for b in reversed(binders[1:]):
            r = msum(b[0], b[1], b[2], r)
        if len(r.t) == 1 and set(list(r.t)[0]) == set(dep):
            raise TooBig('sum')
        return msum(name, lo, hi, r)
    (fac,) = fac.t
    if len(binders) > 1:
        r = tighten(binders, fac)
        if r is not None:
            binders, fac = r
            if fac is None:
                return ZERO
    # binders of other variables may now be determined by an equation
    return close('sum', binders, fac)


def tighten(binders, fac):
    """comparisons among the factors of a sum taken into the ranges; None if there is nothing to do"""
    fac = list(fac)
    binders = list(binders)
    done = False
    again = True
    while again:
        again = False
        for j, (n, lo, hi) in enumerate(binders):
            if lo is None:
                continue
            v = sym(n, True)
            for a in fac:
                if a.kind not in ('le', 'eq', 'rng') or n not in a.free:
                    continue
                t = implied(a, v, lo, hi)
                if t == 0:
                    return binders, None
                if t == 1:
                    fac.remove(a)
                    again = done = True
                    break
                nb = narrowed(a, n, v, lo, hi)
                if nb is not None:
                    new = binders[:j] + [(n, nb[0], nb[1])] + binders[j + 1:]
                    if next(orders(new), None) is None:
                        continue
                    binders = new
                    fac.remove(a)
                    again = done = True
                    break
            if again:
                break
    return (binders, tuple(fac)) if done else None


def open_(a):
    """binders with fresh names and the body of a sum or all atom"""
    bs, body, caps, h, _, _ = a.args
    ren = {}
    if caps:
        import folds
        for j, q in enumerate(caps):
            ren[slotname(h, j, q)] = folds.Rename(q[1], q[2], q[3]) if isinstance(q, tuple) else q
    out = []
    for (n, lo, hi) in bs:
        f = fresh()
        lo2 = lo if lo is None else subst(lo, ren)
        hi2 = hi if hi is None else subst(hi, ren)
        ren[n] = sym(f, True)
        out.append((f, lo2, hi2))
    if a.kind == 'sum':
        r = mono_subst(body, ren)
        return out, r
    return out, subst(body, ren)


def mono_subst(m, ren):
    """renaming of variables in a monomial, which stays one"""
    r = []
    for a in m:
        q = subst(P(a), ren)
        if len(q.t) != 1 or list(q.t.values())[0] != 1 or len(list(q.t)[0]) != 1:
            # a renaming can only change the orientation of comparisons; keep the atom by force
            q = P(force_rename(a, ren))
        r.append(list(q.t)[0][0])
    return tuple(r)


def force_rename(a, ren):
    ps = []
    for q in a.args:
        ps.append(subst(q, ren) if isinstance(q, Poly) else q)
    if a.kind == 'le':
        p = ps[0]
        return mkatom('le', (p, a.args[1]), p.key + ' %d' % a.args[1], True, p.free, True, p.h, True)
    if a.kind == 'eq':
        p = ps[0]
        return mkatom('eq', (p,), p.key, True, p.free, True, p.h, True)
    if a.kind == 'inv':
        p = ps[0]
        return mkatom('inv', (p,), p.key, False, p.free, False, p.h, a.nonneg)
    raise TooBig('rename %s' % a.kind)


def capped(kind, bs, body, caps, h, sk, fr0, ind, isint, nn):
    """the binder atom with the given captured names"""
    fr = set(fr0)
    ck = []
    for q in caps:
        if isinstance(q, tuple):
            fr.add(q[1])
            ck.append('%s' % (q,))
        else:
            fr |= q.free
            ck.append(q.key)
    return mkatom(kind, (bs, body, caps, h, sk, fr0), sk + '[' + ','.join(ck) + ']', ind, frozenset(fr), isint, h, nn)


def orders(binders):
    """permutations of the binders compatible with the dependency of their bounds"""
    n = len(binders)
    names = [b[0] for b in binders]
    deps = []
    for b in binders:
        fr = (b[1].free | b[2].free) if b[1] is not None else frozenset()
        deps.append([k for k in range(n) if names[k] in fr])
    for p in itertools.permutations(range(n)):
        pos = {k: j for j, k in enumerate(p)}
        if all(pos[d] < pos[k] for k in range(n) for d in deps[k]):
            yield p


def signature(binders, fac_polys):
    """an invariant of each binder, to cut the permutations"""
    names = [b[0] for b in binders]
    sg = []
    for k, b in enumerate(binders):
        ren = {n: '?' if j != k else '*' for j, n in enumerate(names)}
        s = sorted(rough(p, ren) for p in fac_polys if b[0] in p.free)
        s2 = '' if b[1] is None else rough(b[1], ren) + ';' + rough(b[2], ren)
        sg.append(digest(s2 + '#' + ','.join(s)))
    return sg


def rough(p, ren):
    """a string invariant under the order of the bound variables (no normalisation)"""
    return '+'.join(sorted('%s*%s' % (abs(c), ','.join(sorted(rough_atom(a, ren) for a in m))) for m, c in p.t.items()))


_rough_memo = {}


def rough_atom(a, ren):
    hit = [n for n in ren if n in a.free]
    if not hit:
        return a.key
    if a.kind == 'sym':
        return str(ren[a.args[0]])
    k = (a.key, tuple(sorted((n, str(ren[n])) for n in hit)))
    r = _rough_memo.get(k)
    if r is not None:
        return r
    if a.kind == 'fold':
        import folds
        r = _rough_memo[k] = folds.rough_fa(a, ren, {})
        return r
    if a.kind in ('sum', 'all', 'lam'):
        sk, fr0 = a.args[4], a.args[5]
        hit0 = sorted((n, str(ren[n])) for n in hit if n in fr0)
        r = digest('%s%s%s[%s]' % (a.kind, sk, hit0, ','.join(
            str(ren.get(q[1], q[1])) if isinstance(q, tuple) else rough(q, ren) for q in a.args[2])))
        _rough_memo[k] = r
        return r
    if a.kind == 'app':
        r = digest('%s(%s)' % (ren.get(a.args[0], a.args[0]), ';'.join(rough(q, ren) for q in a.args[1])))
        _rough_memo[k] = r
        return r
    if a.kind == 'eq':  # either sign
        sub = [min(rough(q, ren), rough(-q, ren)) for q in a.args]
    else:
        sub = [rough(q, ren) if isinstance(q, Poly) else str(q) for q in a.args]
    r = digest(a.kind + '(' + (';'.join(sorted(sub)) if a.kind == 'eq' else ';'.join(sub)) + ')')
    _rough_memo[k] = r
    return r


def close(kind, binders, body):
    """The atom of a sum (body: monomial) or all (body: polynomial) with canonical bound names; names bound further out are
    captured: the atom is a closed term applied to them."""
    isum = kind == 'sum'
    islam = kind == 'lam'
    polys = [P(a) for a in body] if isum else [body]
    bounds = [q for b in binders for q in b[1:] if q is not None]
    h = 1 + max([p.h for p in polys] + [q.h for q in bounds] + [0])
    own = set(b[0] for b in binders)
    fr = set()
    for p in polys + bounds:
        fr |= p.free
    fr -= own
    capn = set(n for n in fr if n[0] in '!~')
    caps = ()
    cren = {}
    if capn:
        import folds
        info = {}
        for p in polys + bounds:
            folds.collect(p, capn, info)
        capn = sorted(info)
        if len(capn) > 1:
            cr = {}
            for n in capn:
                ren = {q: '*' for q in capn}
                for q in own:
                    ren[q] = '?'
                ren[n] = '@'
                cr[n] = (digest('|'.join(sorted(rough(p, ren) for p in polys if n in p.free)) + '#' +
                                '|'.join(sorted(rough(q, ren) for q in bounds if n in q.free))), n)
            capn.sort(key=lambda n: cr[n])
        caps = tuple(info[n] for n in capn)
        cren = {n: folds.slot(slotname(h, j, info[n]), info[n]) for j, n in enumerate(capn)}
        polys = [subst(p, cren) for p in polys]
        if isum:
            body = mono_subst(body, cren)
            polys = [P(a) for a in body]
        else:
            (body,) = polys
        binders = [(n, lo and subst(lo, cren), hi and subst(hi, cren)) for n, lo, hi in binders]
    sg = signature(binders, polys)
    best = None
    n = 0
    for p in ([tuple(range(len(binders)))] if islam else orders(binders)):
        s = [sg[k] for k in p]
        if best is not None and s > best[0]:
            continue
        n += 1
        if n > 130:
            break
        ren = {binders[k][0]: sym('~%d.%d' % (h, j), True) for j, k in enumerate(p)}
        b2 = []
        for j, k in enumerate(p):
            nm, lo, hi = binders[k]
            b2.append(('~%d.%d' % (h, j), lo and subst(lo, ren), hi and subst(hi, ren)))
        if isum:
            m2 = tuple(sorted(mono_subst(body, ren), key=lambda a: a.key))
            bk = ','.join(a.key for a in m2)
        else:
            m2 = subst(body, ren)
            bk = m2.key
        k2 = ';'.join('%s:%s..%s' % (q[0], q[1] and q[1].key, q[2] and q[2].key) for q in b2) + '|' + bk
        if best is None or (s, k2) < (best[0], best[1]):
            best = (s, k2, b2, m2)
    if best is None:
        raise TooBig('cyclic bounds')
    _, k2, b2, m2 = best
    names = set(q[0] for q in b2) | set(slotname(h, j, q) for j, q in enumerate(caps))
    fr = set()
    for q in b2:
        if q[1] is not None:
            fr |= q[1].free | q[2].free
    if isum:
        for a in m2:
            fr |= a.free
        isint = all(a.isint for a in m2)
        nn = all(a.nonneg for a in m2)
    else:
        fr |= m2.free
        isint = nn = not islam
    return P(capped(kind, tuple(b2), m2, caps, h, k2, frozenset(fr - names), kind == 'all', isint, nn))


def mklam(params, body):
    """an array or a function of index variables, as an argument of an uninterpreted function"""
    return close('lam', [(q, None, None) for q in params], body)


def enum(k, g, i):
    """the i-th member (in increasing order) of {k: g}; below 0 and from the number of members on, it goes on increasing by 1 from
    the first and last member; i itself if there is none"""
    if len(g.t) == 1:
        ((m, c),) = g.t.items()
        if c == 1 and len(m) == 1 and m[0].kind == 'rng' and m[0].args[0] == ZERO and m[0].args[1] == sym(k, True) and \
                k not in m[0].args[2].free:
            return i
    return app('enum', [mklam([k], g), i], isint=True)


def enums_of(p, v, out):
    """the sets whose v-th member occurs in p"""
    import loops
    for m in p.t:
        for a in m:
            if 'enum' in a.free:
                oc = []
                loops.occ_atom(a, 'enum', oc)
                for q in oc:
                    if len(q) == 2 and q[1] == v and q[0].key not in out:
                        out[q[0].key] = q[0]
    return out


def over_members(name, lo, hi, p):
    """p over 0 <= name < n, where name only occurs as "the name-th member of S" and S has n members: (variable, S(variable), p of
    a member), or None"""
    if lo is None or lo != ZERO or 'enum' not in p.free:
        return None
    v = sym(name, True)
    for S in enums_of(p, v, {}).values():
        if name in S.free:
            continue
        (a,) = list(S.t)[0]
        bs, body = open_(a)
        z = fresh()
        if msum(z, None, None, subst(body, {bs[0][0]: sym(z, True)})) != hi:
            continue
        w = fresh()

        def put(args, S=S, w=w):
            if args[1] == v and args[0] == S:
                return sym(w, True)
            return app('enum', args, isint=True)
        q = subst(p, {'enum': put})
        if name not in q.free:
            return w, subst(body, {bs[0][0]: sym(w, True)}), q
    return None


def two_members(p):
    """(a, b, c) if p is the a-th minus the b-th member of one set plus a constant c"""
    if 'enum' not in p.free or not 2 <= len(p.t) <= 3:
        return None
    pos = neg = None
    c = 0
    for m, k in p.t.items():
        if not m:
            c = k
        elif len(m) == 1 and m[0].kind == 'app' and m[0].args[0] == 'enum' and k == 1 and pos is None:
            pos = m[0].args[1]
        elif len(m) == 1 and m[0].kind == 'app' and m[0].args[0] == 'enum' and k == -1 and neg is None:
            neg = m[0].args[1]
        else:
            return None
    if pos is None or neg is None or pos[0] != neg[0]:
        return None
    return pos[1], neg[1], c


def mall(name, lo, hi, p):
    """1 if p (an indicator) is 1 for all lo <= name < hi"""
    v = sym(name, True)
    if p == ONE:
        return ONE
    if lo is not None:
        w = (hi - lo).const()
        if w is not None and w <= 0:
            return ONE
    if name not in p.free:
        if lo is None:
            return p
        return Or(p, Not(le0(lo + 1 - hi)))
    r = over_members(name, lo, hi, p)
    if r is not None:
        return mall(r[0], None, None, ONE - r[1] * (ONE - r[2]))
    # common factors: a conjunction
    ms = list(p.t)
    common = set(ms[0])
    for m in ms[1:]:
        common &= set(m)
    if len(p.t) == 1 and p.t[ms[0]] != 1:
        raise TooBig('not an indicator')
    if common and (len(p.t) > 1 or len(ms[0]) > 1):
        r = ONE
        for a in common:
            r = r * mall(name, lo, hi, P(a))
        rest = Poly({tuple(a for a in m if a not in common): c for m, c in p.t.items()})
        return r * mall(name, lo, hi, rest)
    q = ONE - p
    # 1 - p with a common equation: a unique value of the variable
    qs = list(q.t)
    common = set(qs[0]) if qs else set()
    for m in qs[1:]:
        common &= set(m)
    for a in sorted(common):
        if a.kind == 'eq':
            for m, c in a.args[0].t.items():
                if len(m) == 1 and m[0].kind == 'sym' and m[0].args[0] == name and abs(c) == 1:
                    e = Poly({z: -d / c for z, d in a.args[0].t.items() if z != m})
                    if name in e.free or not e.isint():
                        continue
                    r = ONE if lo is None else rng(lo, e, hi)
                    return ONE - r * subst(q, {name: e})
    if lo is None:
        for a in sorted(common):
            if a.kind == 'rng' and a.args[1] == v and name not in a.args[0].free and name not in a.args[2].free:
                return mall(name, a.args[0], a.args[2], ONE - at_partial(q, {a: 1}))
    # a factor of 1 - p without the variable: p = f or rest
    for a in sorted(common):
        if name not in a.free:
            return Or(ONE - P(a), mall(name, lo, hi, ONE - at_partial(q, {a: 1})))
    if lo is not None:
        val = {}
        for a in p.atoms():
            if a.kind in ('le', 'eq', 'rng') and name in a.free:
                t = implied(a, v, lo, hi)
                if t is not None:
                    val[a] = t
        if val:
            return mall(name, lo, hi, at_partial(p, val))
        for a in sorted(common):
            nb = narrowed(a, name, v, lo, hi)
            if nb is not None:
                return mall(name, nb[0], nb[1], ONE - at_partial(q, {a: 1}))
    binders = [(name, lo, hi)]
    body = p
    if len(p.t) == 1:
        (a,) = ms[0]
        if a.kind == 'all':
            bs, body = open_(a)
            binders += bs
    return close('all', binders, body)


def mex(name, lo, hi, p):
    return ONE - mall(name, lo, hi, ONE - p)


def counting(p, rel):
    """[p == 0] or [p <= 0] where p is a sum over one range of something of known sign: a statement for all"""
    sums = {}
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0].kind == 'sum' and all(a.ind for a in m[0].args[1]):
            bs, body = open_(m[0])
            k = tuple((b[1] and b[1].key, b[2] and b[2].key) for b in bs)
            sums.setdefault(k if len(bs) == 1 else ('multi', m[0].key), []).append((m[0], c, bs, body))
        else:
            rest[m] = c
    if len(sums) != 1:
        return None
    (k, lst), = sums.items()
    bs = lst[0][2]
    rest = Poly(rest)
    v = fresh()
    if len(bs) == 1:
        _, lo, hi = bs[0]
        q = ZERO
        for a, c, bs1, body in lst:
            n0 = bs1[0][0]
            q = q + mono_poly(body, {n0: sym(v, True)}).scale(c)
        kk = None
        if rest.t:
            if lo is None:
                total = None
            else:
                total = cnt(lo, hi)
                kk = ratio(rest, total)
            if kk is None:
                # sum compared with a constant 1: [1 - sum <= 0] is "some"
                if rel == 'le' and rest.const() == 1 and all(z[1] == -1 for z in lst):
                    one = -q
                    if one.isind():
                        return mex(v, lo, hi, one)
                if rel == 'le' and rest.const() == -1 and False:
                    return None
                return None
            q = q + kk
        vals = values(q)
        if vals is None:
            return None
        if all(x >= 0 for x in vals):
            return mall(v, lo, hi, zero_of(q))
        if all(x <= 0 for x in vals):
            if rel == 'le':
                return ONE
            return mall(v, lo, hi, zero_of(q))
        return None
    # several bound variables: only "none" and "some"
    if len(lst) != 1:
        return None
    a, c = lst[0][:2]
    r = rest.const()
    if r == 0 and c > 0 or (r == 0 and rel == 'eq'):
        return none_of(a)
    if r == 0 and rel == 'le':
        return ONE
    if rel == 'le' and c == -1 and r == 1:
        return ONE - none_of(a)
    return None


def none_of(a):
    bs, body = open_(a)
    r = ONE - mono(tuple(body))
    for b in reversed(bs):
        r = mall(b[0], b[1], b[2], r)
    return r


def mono_poly(m, ren):
    r = ONE
    for a in m:
        r = r * subst(P(a), ren)
    return r


def ratio(p, q):
    """k with p == k*q, or None"""
    if not q.t:
        return None
    m = list(q.t)[0]
    if m not in p.t:
        return None
    k = p.t[m] / q.t[m]
    return k if p == q.scale(k) else None


def values(q):
    ats = sorted(q.atoms())
    if any(not a.ind for a in ats) or len(ats) > 9:
        return None
    return set(q.at(dict(zip(ats, b))) for b in itertools.product((0, 1), repeat=len(ats)))


def zero_of(q):
    """the indicator of q == 0 for a polynomial in indicators"""
    return lift([q], lambda z: ONE if not z[0].t else ZERO)


# ---------------------------------------------------------------- substitution
def subst(p, ren, memo=None):
    """ren: variable name -> polynomial, or function name -> callable(list of polynomials) -> polynomial"""
    if not ren or not (p.free & ren.keys()):
        return p
    if memo is None:
        memo = {}
    r = ZERO
    for m, c in p.t.items():
        if not any(a.free & ren.keys() for a in m):
            r = r + Poly({m: c})
            continue
        q = P(c)
        for a in m:
            q = q * subst_atom(a, ren, memo)
        r = r + q
    return r


def subst_atom(a, ren, memo):
    if not (a.free & ren.keys()):
        return P(a)
    r = memo.get(a.key)
    if r is not None:
        return r
    k = a.kind
    if k == 'sym':
        r = ren[a.args[0]]
    elif k == 'app':
        args = [subst(q, ren, memo) for q in a.args[1]]
        f = ren.get(a.args[0])
        if f is None:
            r = app(a.args[0], args, a.isint and not a.ind, a.ind, a.nonneg and not a.ind)
        else:
            r = f(args)
    elif k == 'le':
        r = le0(subst(a.args[0], ren, memo))
    elif k == 'eq':
        r = eq(subst(a.args[0], ren, memo))
    elif k == 'rng':
        r = rng(*[subst(q, ren, memo) for q in a.args])
    elif k == 'inv':
        r = inv(subst(a.args[0], ren, memo))
    elif k in ('sum', 'all', 'lam') and captured(a, ren) is not None:
        bs, body, caps, h, sk, fr0 = a.args
        r = P(capped(k, bs, body, captured(a, ren), h, sk, fr0, a.ind, a.isint, a.nonneg))
    elif k == 'sum':
        bs, body = open_(a)
        r = mono_poly_m(body, ren, memo)
        for n, lo, hi in reversed(bs):
            r = msum(n, lo and subst(lo, ren, memo), hi and subst(hi, ren, memo), r)
    elif k == 'all':
        bs, body = open_(a)
        r = subst(body, ren, memo)
        for n, lo, hi in reversed(bs):
            r = mall(n, lo and subst(lo, ren, memo), hi and subst(hi, ren, memo), r)
    elif k == 'lam':
        bs, body = open_(a)
        r = mklam([b[0] for b in bs], subst(body, ren, memo))
    elif k == 'fold':
        import folds
        r = folds.subst_fold(a, ren, memo)
    else:
        raise TooBig(k)
    memo[a.key] = r
    return r


REBUILD = []


def captured(a, ren):
    """the captured names after a substitution that only renames them, else None"""
    import folds
    if REBUILD:
        return None
    caps, fr0 = a.args[2], a.args[5]
    if not fr0.isdisjoint(ren):
        return None
    c2 = tuple(folds.plain(q, ren) for q in caps)
    if None in c2 or len(set(q[1] if isinstance(q, tuple) else q.key for q in c2)) < len(c2):
        return None
    return c2


def mono_poly_m(m, ren, memo):
    r = ONE
    for a in m:
        r = r * subst_atom(a, ren, memo)
    return r


# ---------------------------------------------------------------- printing
def show(p, depth=0):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda q: (len(q[0]), [a.key for a in q[0]])):
        s = '*'.join(show_atom(a, depth) for a in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(a, depth=0):
    if depth > 12:
        return '...'
    k = a.kind
    d = depth + 1
    if k == 'sym':
        return a.args[0]
    if k == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(show(q, d) for q in a.args[1]))
    if k == 'le':
        return '[%s <= 0]' % show(a.args[0], d)
    if k == 'eq':
        return '[%s == 0]' % show(a.args[0], d)
    if k == 'rng':
        return '[%s <= %s < %s]' % tuple(show(q, d) for q in a.args)
    if k == 'inv':
        return '1/(%s)' % show(a.args[0], d)
    if k in ('sum', 'all', 'lam'):
        bs0, body = open_(a)
        bs = ', '.join('%s' % b[0] if b[1] is None else '%s in %s..%s' % (b[0], show(b[1], d), show(b[2], d)) for b in bs0)
        body = '*'.join(show_atom(q, d) for q in body) if k == 'sum' else show(body, d)
        return '%s{%s: %s}' % (k.upper(), bs, body)
    if k == 'fold':
        import folds
        return folds.show_fold(a, d)
    return k
