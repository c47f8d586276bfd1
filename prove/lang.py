"""Python source (contracts, and the .py files of the library) to the intermediate form of dump_pyx.py."""
import ast

BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|',
       'BitXor': '^', 'LShift': '<<', 'RShift': '>>', 'MatMult': '@'}
CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'In': 'in', 'NotIn': 'not_in', 'Is': 'is', 'IsNot': 'is_not'}


class Un(Exception):
    pass


def ex(e):
    n = type(e).__name__
    if n == 'Constant':
        v = e.value
        if v is None:
            return ['none']
        if v is True or v is False:
            return ['true' if v else 'false']
        if isinstance(v, int):
            return ['int', v]
        if isinstance(v, float):
            return ['float', repr(v)]
        if isinstance(v, str):
            return ['str', v]
        raise Un('constant')
    if n == 'Name':
        return ['name', e.id]
    if n == 'Attribute':
        return ['attr', ex(e.value), e.attr]
    if n == 'Subscript':
        s = e.slice
        if type(s).__name__ == 'Index':
            s = s.value
        if type(s).__name__ == 'Tuple':
            return ['index', ex(e.value), [ex(q) for q in s.elts]]
        return ['index', ex(e.value), [ex(s)]]
    if n == 'Slice':
        return ['slice'] + [None if q is None else ex(q) for q in (e.lower, e.upper, e.step)]
    if n == 'Call':
        if any(type(q).__name__ == 'Starred' for q in e.args) or any(k.arg is None for k in e.keywords):
            raise Un('starred call')
        return ['call', ex(e.func), [ex(q) for q in e.args], [[k.arg, ex(k.value)] for k in e.keywords]]
    if n in ('Tuple', 'List', 'Set'):
        return [n.lower(), [ex(q) for q in e.elts]]
    if n == 'Dict':
        return ['dict', [[ex(k), ex(v)] for k, v in zip(e.keys, e.values)]]
    if n == 'Compare':
        left, parts = e.left, []
        for o, r in zip(e.ops, e.comparators):
            parts.append(['cmp', CMP[type(o).__name__], ex(left), ex(r)])
            left = r
        r = parts[0]
        for q in parts[1:]:
            r = ['and', r, q]
        return r
    if n == 'BoolOp':
        op = 'and' if type(e.op).__name__ == 'And' else 'or'
        r = ex(e.values[0])
        for q in e.values[1:]:
            r = [op, r, ex(q)]
        return r
    if n == 'UnaryOp':
        o = type(e.op).__name__
        return [{'Not': 'not', 'USub': 'neg', 'UAdd': 'pos', 'Invert': 'inv'}[o], ex(e.operand)]
    if n == 'BinOp':
        return ['bin', BIN[type(e.op).__name__], ex(e.left), ex(e.right)]
    if n == 'IfExp':
        return ['cond', ex(e.test), ex(e.body), ex(e.orelse)]
    if n in ('GeneratorExp', 'ListComp', 'SetComp'):
        return ['gen', {'G': 'gen', 'L': 'list', 'S': 'set'}[n[0]], ex(e.elt),
                [[ex(g.target), ex(g.iter), [ex(c) for c in g.ifs]] for g in e.generators]]
    raise Un(n)


def block(ss):
    out = []
    for s in ss:
        st(s, out)
    return out


def st(s, out):
    n = type(s).__name__
    L = s.lineno
    if n == 'Assign':
        out.append(['assign', L, [ex(t) for t in s.targets], ex(s.value)])
    elif n == 'AnnAssign':
        if s.value is not None:
            out.append(['assign', L, [ex(s.target)], ex(s.value)])
    elif n == 'AugAssign':
        out.append(['aug', L, BIN[type(s.op).__name__], ex(s.target), ex(s.value)])
    elif n == 'Expr':
        out.append(['expr', L, ex(s.value)])
    elif n == 'If':
        out.append(['if', L, ex(s.test), block(s.body), block(s.orelse)])
    elif n == 'For':
        if s.orelse:
            raise Un('for-else')
        out.append(['for', L, ex(s.target), ex(s.iter), block(s.body)])
    elif n == 'While':
        out.append(['while', L, ex(s.test), block(s.body)])
    elif n == 'Return':
        out.append(['return', L, None if s.value is None else ex(s.value)])
    elif n == 'Break':
        out.append(['break', L])
    elif n == 'Continue':
        out.append(['continue', L])
    elif n == 'Raise':
        out.append(['raise', L])
    elif n == 'Try':
        # ordinary executions: the handlers only raise
        if s.finalbody or not all(type(h.body[-1]).__name__ == 'Raise' for h in s.handlers):
            raise Un('try')
        out += block(s.body) + block(s.orelse)
    elif n in ('Pass', 'Import', 'ImportFrom', 'Assert', 'Global', 'Nonlocal'):
        pass
    else:
        raise Un(n)


def func(f, cls=None):
    r = dict(name=f.name, ret='object', line=f.lineno, kind='py', types={}, mode='py', cls=cls)
    try:
        a = f.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Un('variadic')
        ds = [None] * (len(a.args) - len(a.defaults)) + [ex(d) for d in a.defaults]
        r['args'] = [[q.arg, 'object', d] for q, d in zip(a.args, ds)]
        r['body'] = block(f.body)
    except Un as e:
        r['unsupported'] = str(e)
        r.setdefault('args', [])
    return r


def parse(path):
    with open(path, encoding='utf-8') as f:
        t = ast.parse(f.read())
    out = []
    for s in t.body:
        if isinstance(s, ast.FunctionDef):
            out.append(func(s))
        elif isinstance(s, ast.ClassDef):
            for q in s.body:
                if isinstance(q, ast.FunctionDef):
                    out.append(func(q, s.name))
    return out
