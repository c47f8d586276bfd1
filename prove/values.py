"""Values of the symbolic executor."""
from terms import *
import terms as T


class Unsupported(Exception):
    pass


class Num(object):
    """ty: i int, r real, b truth value; py: Python number (true division)"""
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty):
        self.p, self.ty = P(p), ty

    def __repr__(self):
        return 'Num(%s:%s)' % (self.p, self.ty)


class Arr(object):
    """an array: dims, and the element as a polynomial over the parameter names"""
    __slots__ = ('dims', 'params', 'body', 'ty')

    def __init__(self, dims, params, body, ty):
        self.dims, self.params, self.body, self.ty = list(dims), list(params), body, ty

    def at(self, idx):
        return T.subst(self.body, dict(zip(self.params, idx)))

    def __repr__(self):
        return 'Arr(%s; %s)' % (', '.join(map(str, self.dims)), self.body)


class Ref(object):
    """a (view of a) heap array: fixed index polynomials and free positions (None)"""
    __slots__ = ('obj', 'idx')

    def __init__(self, obj, idx):
        self.obj, self.idx = obj, tuple(idx)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.obj == o.obj and self.idx == o.idx

    def __hash__(self):
        return hash((self.obj, self.idx))


class SetV(object):
    __slots__ = ('param', 'pred')

    def __init__(self, param, pred):
        self.param, self.pred = param, pred

    def has(self, x):
        return T.subst(self.pred, {self.param: x})


class VecV(object):
    """a C++ vector nested `depth` deep: lens[k] is (params, length) of the vectors at depth k, (params, body) the elements"""
    __slots__ = ('depth', 'lens', 'params', 'body', 'ty')

    def __init__(self, depth, lens, params, body, ty):
        self.depth, self.lens, self.params, self.body, self.ty = depth, list(lens), list(params), body, ty

    def len(self, idx=()):
        ps, b = self.lens[len(idx)]
        return T.subst(b, dict(zip(ps, idx)))

    def at(self, idx):
        """element or subvector"""
        n = len(idx)
        if n == self.depth:
            return Num(T.subst(self.body, dict(zip(self.params, idx))), self.ty)
        lens = [(ps[n:], T.subst(b, dict(zip(ps[:n], idx)))) for ps, b in self.lens[n:]]
        return VecV(self.depth - n, lens, self.params[n:], T.subst(self.body, dict(zip(self.params[:n], idx))), self.ty)


class EnumV(VecV):
    """the members of a set of integers, in increasing order; pend: the value std::remove has moved out of it, before the pop_back;
    pushed: it has been appended to in this iteration"""
    __slots__ = ('param', 'pred', 'pend', 'pushed')

    def __init__(self, param, pred, pend=None, pushed=False):
        self.param, self.pred, self.pend, self.pushed = param, pred, pend, pushed

    depth = 1
    ty = 'i'

    def ready(self):
        if self.pend is not None or self.pushed:
            raise Unsupported('use of a list that is being changed')

    def has(self, x):
        return T.subst(self.pred, {self.param: x})

    @property
    def lens(self):
        self.ready()
        k = fresh('k')
        return [([], msum(k, None, None, self.has(sym(k, True))))]

    @property
    def params(self):
        return [self.param]

    @property
    def body(self):
        self.ready()
        k = fresh('k')
        return T.enum(k, self.has(sym(k, True)), sym(self.param, True))


def enumerated(v):
    """the list 0, 1, ..., n-1 as the enumeration of a set"""
    if isinstance(v, VecV) and not isinstance(v, EnumV) and v.depth == 1:
        p = fresh('p')
        s = sym(p, True)
        r = rng(ZERO, s, v.len())
        if v.at([s]).p * r == s * r:
            return EnumV(p, r)
    return v


class IterV(object):
    """an iterator over a set: begin, at (an element), end"""
    __slots__ = ('set', 'pos', 'elem', 'steps')

    def __init__(self, s, pos, elem=None, steps=0):
        self.set, self.pos, self.elem, self.steps = s, pos, elem, steps


class TupV(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class BagV(object):
    """a sequence of which only the membership of values is known"""
    __slots__ = ('param', 'pred')

    def __init__(self, param, pred):
        self.param, self.pred = param, pred

    def has(self, x):
        return T.subst(self.pred, {self.param: x})


class CombV(object):
    """itertools.combinations(v, n): args determine it"""
    __slots__ = ('args',)

    def __init__(self, args):
        self.args = list(args)


class NoneV(object):
    pass


class ObjV(object):
    """an object of which only the attributes and methods are known that the contract declares"""

    def __init__(self, name, attrs, methods):
        self.name, self.attrs, self.methods = name, attrs, methods


class StrV(object):
    def __init__(self, s):
        self.s = s


class Undef(object):
    """no value yet; ty is the declared type"""
    def __init__(self, ty=None, name='?'):
        self.ty, self.name = ty, name


NONE = NoneV()


class Lazy(object):
    """a value computed when it is used; shape is a value of the same type, sort and dimensions"""
    __slots__ = ('shape', 'thunk', 'val')

    def __init__(self, shape, thunk):
        self.shape, self.thunk, self.val = shape, thunk, None

    def force(self):
        if self.thunk is not None:
            t = self.thunk
            v = t()
            while isinstance(v, Lazy):
                v = v.force()
            self.val = v
            self.thunk = None
        return self.val


def shape(v):
    return v.shape if isinstance(v, Lazy) else v


def force(v):
    return v.force() if isinstance(v, Lazy) else v


class Env(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if isinstance(v, Lazy):
            v = v.force()
            dict.__setitem__(self, k, v)
        return v

    def get(self, k, d=None):
        if k in self:
            return self[k]
        return d

    def raw(self, k):
        return dict.get(self, k)


def common_shape(a, b):
    """the shape of merge(c, a, b), or None if it has to be computed to know"""
    a, b = shape(a), shape(b)
    if type(a) is not type(b):
        return None
    if isinstance(a, Num):
        return Num(ZERO, join_ty(a.ty, b.ty))
    if isinstance(a, Arr):
        if len(a.dims) == len(b.dims) and all(x == y for x, y in zip(a.dims, b.dims)):
            return Arr(a.dims, a.params, ZERO, join_ty(a.ty, b.ty))
        return None
    if isinstance(a, SetV):
        return a
    if isinstance(a, EnumV):
        return None
    if isinstance(a, VecV) and a.depth == b.depth:
        return VecV(a.depth, a.lens, a.params, a.body, join_ty(a.ty, b.ty))
    return None


def tovec(v):
    """a literal list, or list of lists, of numbers as a vector"""
    if isinstance(v, VecV):
        return v
    if isinstance(v, Arr) and len(v.dims) == 1:
        return VecV(1, [([], v.dims[0])], v.params, v.body, v.ty)
    if not isinstance(v, TupV) or not v.items:
        return None
    its = [q if isinstance(q, Num) else tovec(q) for q in v.items]
    n = P(len(its))
    p = fresh('p')
    if all(isinstance(q, Num) for q in its):
        b, ty = ZERO, 'i'
        for k, q in enumerate(its):
            b = b + eq(sym(p, True) - k) * q.p
            ty = join_ty(ty, q.ty)
        return VecV(1, [([], n)], [p], b, ty)
    if not all(isinstance(q, VecV) and q.depth == its[0].depth for q in its):
        return None
    d = its[0].depth
    lens = [([], n)]
    for j in range(d):
        ps = [fresh('p') for _ in range(j)]
        b = ZERO
        for k, q in enumerate(its):
            b = b + eq(sym(p, True) - k) * q.len([sym(z, True) for z in ps])
        lens.append(([p] + ps, b))
    ps = [fresh('p') for _ in range(d)]
    b, ty = ZERO, 'i'
    for k, q in enumerate(its):
        b = b + eq(sym(p, True) - k) * T.subst(q.body, dict(zip(q.params, [sym(z, True) for z in ps])))
        ty = join_ty(ty, q.ty)
    return VecV(d + 1, lens, [p] + ps, b, ty)


def emptied(v):
    """an empty list that can hold what v holds"""
    return VecV(v.depth, [([fresh('p') for _ in range(k)], ZERO) for k in range(v.depth)], [fresh('p') for _ in range(v.depth)], ZERO, v.ty)


def concat(a, b):
    """a + b"""
    n = a.len()
    lens = [([], n + b.len())]

    def part(ps, f):
        i = sym(ps[0], True)
        r = [sym(q, True) for q in ps[1:]]
        return ite(le0(i - n + 1), f(a, [i] + r), f(b, [i - n] + r))
    for j in range(1, a.depth):
        ps = [fresh('p') for _ in range(j)]
        lens.append((ps, part(ps, lambda v, ix: v.len(ix))))
    ps = [fresh('p') for _ in range(a.depth)]
    return VecV(a.depth, lens, ps, part(ps, lambda v, ix: T.subst(v.body, dict(zip(v.params, ix)))), join_ty(a.ty, b.ty))


def zeros(dims, ty='r', val=0):
    return Arr(dims, [fresh('p') for _ in dims], P(val), ty)


def join_ty(a, b):
    if 'r' in (a, b):
        return 'r'
    if 'i' in (a, b):
        return 'i'
    return 'b'


def merge(c, a, b):
    """the value that is a where c holds, else b"""
    if a is b or c == ONE:
        return a
    if c == ZERO:
        return b
    if isinstance(a, Undef) or isinstance(b, Undef):
        if isinstance(a, Undef) and isinstance(b, Undef):
            return a
        u, v = (a, b) if isinstance(a, Undef) else (b, a)
        g = c if u is a else Not(c)
        # undefined on one side: the other side's value mixed with an unknown
        if isinstance(v, Num):
            k = app('undef:' + u.name, [], v.ty == 'i', v.ty == 'b')
            return Num(ite(g, k, v.p), v.ty)
        return Undef(u.ty, u.name)
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(ite(c, a.p, b.p), join_ty(a.ty, b.ty))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
        ps = [sym(q, True) for q in a.params]
        if a.body == b.at(ps) and all(x == y for x, y in zip(a.dims, b.dims)):
            return a
        return Arr([ite(c, x, y) for x, y in zip(a.dims, b.dims)], a.params, ite(c, a.body, b.at(ps)), join_ty(a.ty, b.ty))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(a.param, ite(c, a.pred, b.has(sym(a.param, True))))
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        if a.pend is not None or b.pend is not None:
            raise Unsupported('use of a list that is being changed')
        return EnumV(a.param, ite(c, a.pred, b.has(sym(a.param, True))), None, a.pushed or b.pushed)
    if isinstance(a, VecV) and isinstance(b, VecV) and a.depth == b.depth:
        lens = []
        for (p1, b1), (p2, b2) in zip(a.lens, b.lens):
            lens.append((p1, ite(c, b1, T.subst(b2, dict(zip(p2, [sym(q, True) for q in p1]))))))
        return VecV(a.depth, lens, a.params,
                    ite(c, a.body, T.subst(b.body, dict(zip(b.params, [sym(q, True) for q in a.params])))), join_ty(a.ty, b.ty))
    if isinstance(a, IterV) and isinstance(b, IterV):
        if a.pos == b.pos and a.steps == b.steps and a.elem == b.elem:
            return a
        raise Unsupported('iterators out of step')
    if isinstance(a, Ref) and a == b:
        return a
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
        return TupV([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, TupV) != isinstance(b, TupV) or isinstance(a, TupV) and len(a.items) != len(b.items):
        # lists of different lengths
        u, v = (None if isinstance(q, TupV) and not q.items else tovec(q) for q in (a, b))
        if u is None and isinstance(v, VecV):
            u = emptied(v)
        if v is None and isinstance(u, VecV):
            v = emptied(u)
        if isinstance(u, VecV) and isinstance(v, VecV):
            return merge(c, u, v)
    if isinstance(a, StrV) and isinstance(b, StrV) and a.s == b.s:
        return a
    if isinstance(a, NoneV) and isinstance(b, NoneV):
        return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def same(a, b):
    """surely the same value"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Num):
        return a.p == b.p
    if isinstance(a, Arr):
        return len(a.dims) == len(b.dims) and a.dims == b.dims and a.body == b.at([sym(q, True) for q in a.params])
    if isinstance(a, SetV):
        return a.pred == b.has(sym(a.param, True))
    if isinstance(a, EnumV):
        return a.pend is None and b.pend is None and a.pushed == b.pushed and a.pred == b.has(sym(a.param, True))
    if isinstance(a, VecV):
        return a.depth == b.depth and all(b1 == T.subst(b2, dict(zip(p2, [sym(q, True) for q in p1])))
                                          for (p1, b1), (p2, b2) in zip(a.lens, b.lens)) and \
            a.body == T.subst(b.body, dict(zip(b.params, [sym(q, True) for q in a.params])))
    if isinstance(a, Ref):
        return a == b
    return False


# ------------------------------------------------------------ components of a value, for loops
def comps_of(v):
    """[(params, body, isint, ind)]"""
    if isinstance(v, Num):
        return [((), v.p, v.ty != 'r', v.ty == 'b')]
    if isinstance(v, Arr):
        return [(tuple(v.params), v.body, v.ty != 'r', v.ty == 'b')]
    if isinstance(v, EnumV) and v.pend is not None:
        raise Unsupported('use of a list that is being changed')
    if isinstance(v, (SetV, EnumV)):
        return [((v.param,), v.pred, True, True)]
    if isinstance(v, VecV):
        return [(tuple(ps), b, 2, False) for ps, b in v.lens] + [(tuple(v.params), v.body, v.ty != 'r', v.ty == 'b')]
    raise Unsupported('loop-carried ' + type(v).__name__)


def rebuild(v, parts):
    """the value of v's shape with components [(params, body)]"""
    if isinstance(v, Num):
        return Num(parts[0][1], v.ty)
    if isinstance(v, Arr):
        return Arr(v.dims, parts[0][0], parts[0][1], v.ty)
    if isinstance(v, (SetV, EnumV)):
        return type(v)(parts[0][0][0], parts[0][1])
    if isinstance(v, VecV):
        return VecV(v.depth, parts[:-1], parts[-1][0], parts[-1][1], v.ty)
    raise Unsupported('loop-carried ' + type(v).__name__)
