"""Run by the Python the library is built with: parses .pyx files with the Cython it is built with and prints the
functions as JSON.  usage: dump_pyx.py OUT FILE...   What is dropped: decorators and directives (bounds checks, cdivision),
nogil/gil blocks' headers, prange's scheduling arguments, type casts of the C++ algorithm calls' template arguments."""
import json
import sys

from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Nodes, ExprNodes


class Un(Exception):
    pass


def typ(b):
    n = type(b).__name__
    if n == 'CSimpleBaseTypeNode':
        s = b.name
        if b.signed == 0:
            s = 'unsigned ' + (s or 'int')
        if b.longness:
            s = 'long ' * b.longness + (s or 'int')
        if s is None:
            s = 'object'
        if b.module_path:
            s = '.'.join(b.module_path) + '.' + s
        return s
    if n == 'MemoryViewSliceTypeNode':
        return ['mem', typ(b.base_type_node), len(b.axes)]
    if n == 'TemplatedTypeNode':
        base = typ(b.base_type_node)
        return [base] + [typ(q) for q in b.positional_args]
    if n == 'CConstTypeNode':
        return typ(b.base_type)
    if n == 'CNestedBaseTypeNode':
        return [typ(b.base_type), b.name]
    if n == 'CComplexBaseTypeNode':
        return typ(b.base_type)
    if n == 'NameNode':
        return b.name
    if n in ('CythonArrayNode', 'IndexNode'):
        return 'object'
    return n


def decl(d, base):
    """name, type, default of a declarator"""
    n = type(d).__name__
    if n == 'CNameDeclaratorNode':
        return d.name, base, d.default
    if n in ('CReferenceDeclaratorNode', 'CPtrDeclaratorNode', 'CConstDeclaratorNode'):
        return decl(d.base, base if n != 'CPtrDeclaratorNode' else ['ptr', base])
    if n == 'CArrayDeclaratorNode':
        return decl(d.base, ['carr', base])
    if n == 'CFuncDeclaratorNode':
        return decl(d.base, base)
    raise Un(n)


OPS = {'+', '-', '*', '/', '//', '%', '**', '&', '|', '^', '<<', '>>', '@'}


def ex(e):
    n = type(e).__name__
    if n == 'IntNode':
        return ['int', int(str(e.value).rstrip('UuLl'), 0)]
    if n == 'FloatNode':
        return ['float', str(e.value)]
    if n in ('NameNode',):
        return ['name', str(e.name)]
    if n == 'NoneNode':
        return ['none']
    if n == 'BoolNode':
        return ['true' if e.value else 'false']
    if n in ('UnicodeNode', 'StringNode', 'BytesNode', 'IdentifierStringNode'):
        return ['str', str(e.value)]
    if n == 'AttributeNode':
        return ['attr', ex(e.obj), str(e.attribute)]
    if n == 'IndexNode':
        i = e.index
        if type(i).__name__ == 'TupleNode':
            return ['index', ex(e.base), [ex(q) for q in i.args]]
        return ['index', ex(e.base), [ex(i)]]
    if n == 'SliceIndexNode':
        return ['index', ex(e.base), [['slice', e.start and ex(e.start), e.stop and ex(e.stop), None]]]
    if n == 'SliceNode':
        return ['slice'] + [None if type(q).__name__ == 'NoneNode' else ex(q) for q in (e.start, e.stop, e.step)]
    if n == 'SimpleCallNode':
        return ['call', ex(e.function), [ex(q) for q in e.args], []]
    if n == 'GeneralCallNode':
        kw = []
        if e.keyword_args is not None:
            if type(e.keyword_args).__name__ != 'DictNode':
                raise Un('keywords')
            kw = [[str(q.key.value), ex(q.value)] for q in e.keyword_args.key_value_pairs]
        if type(e.positional_args).__name__ != 'TupleNode':
            raise Un('starred call')
        return ['call', ex(e.function), [ex(q) for q in e.positional_args.args], kw]
    if n in ('TupleNode', 'ListNode'):
        return [n[:-4].lower(), [ex(q) for q in e.args]]
    if n == 'DictNode':
        return ['dict', [[ex(q.key), ex(q.value)] for q in e.key_value_pairs]]
    if n in ('PrimaryCmpNode', 'CascadedCmpNode'):
        parts = []
        left = e.operand1
        c = e
        while c is not None:
            parts.append(['cmp', str(c.operator), ex(left), ex(c.operand2)])
            left = c.operand2
            c = c.cascade
        r = parts[0]
        for q in parts[1:]:
            r = ['and', r, q]
        return r
    if n in ('BoolBinopNode',):
        return [str(e.operator), ex(e.operand1), ex(e.operand2)]
    if n == 'NotNode':
        return ['not', ex(e.operand)]
    if n in ('UnaryMinusNode', 'UnaryPlusNode', 'TildeNode'):
        return [{'UnaryMinusNode': 'neg', 'UnaryPlusNode': 'pos', 'TildeNode': 'inv'}[n], ex(e.operand)]
    if n == 'CondExprNode':
        return ['cond', ex(e.test), ex(e.true_val), ex(e.false_val)]
    if n == 'TypecastNode':
        try:
            _, t, _ = decl(e.declarator, typ(e.base_type))
        except Un:
            t = 'object'
        return ['cast', t, ex(e.operand)]
    if n in ('ComprehensionNode', 'GeneratorExpressionNode'):
        return comp(e)
    if hasattr(e, 'operator') and hasattr(e, 'operand1') and str(e.operator) in OPS:
        return ['bin', str(e.operator), ex(e.operand1), ex(e.operand2)]
    raise Un(n)


def comp(e):
    gens, q = [], e.loop
    while True:
        n = type(q).__name__
        if n == 'ForInStatNode':
            gens.append([ex(q.target), ex(q.iterator.sequence), []])
            q = q.body
        elif n == 'IfStatNode':
            gens[-1][2].append(ex(q.if_clauses[0].condition))
            q = q.if_clauses[0].body
        elif n == 'ExprStatNode':
            q = q.expr
        elif n == 'ComprehensionAppendNode':
            kind = {'list': 'list', 'set': 'set'}.get(str(getattr(e.type, 'name', '')))
            if kind is None:
                raise Un(n)
            return ['gen', kind, ex(q.expr), gens]
        elif n == 'YieldExprNode':
            return ['gen', 'gen', ex(q.arg), gens]
        elif n == 'StatListNode' and len(q.stats) == 1:
            q = q.stats[0]
        else:
            raise Un(n)


def st(s, out, types):
    if s is None:
        return
    n = type(s).__name__
    L = s.pos[1] if s.pos else 0
    if n == 'StatListNode':
        for q in s.stats:
            st(q, out, types)
    elif n == 'CVarDefNode':
        b = typ(s.base_type)
        for d in s.declarators:
            nm, t, df = decl(d, b)
            types[nm] = t
            out.append(['decl', L, nm, t, ex(df) if df is not None else None])
    elif n == 'SingleAssignmentNode':
        out.append(['assign', L, [ex(s.lhs)], ex(s.rhs)])
    elif n == 'CascadedAssignmentNode':
        out.append(['assign', L, [ex(q) for q in s.lhs_list], ex(s.rhs)])
    elif n == 'InPlaceAssignmentNode':
        out.append(['aug', L, str(s.operator), ex(s.lhs), ex(s.rhs)])
    elif n == 'ExprStatNode':
        out.append(['expr', L, ex(s.expr)])
    elif n == 'IfStatNode':
        cl = [[ex(c.condition), blk(c.body, types)] for c in s.if_clauses]
        r = blk(s.else_clause, types)
        for c, b in reversed(cl):
            r = [['if', L, c, b, r]]
        out.extend(r)
    elif n == 'ForInStatNode':
        out.append(['for', L, ex(s.target), ex(s.iterator.sequence), blk(s.body, types)])
        if s.else_clause is not None:
            raise Un('for-else')
    elif n == 'ForFromStatNode':
        raise Un(n)
    elif n == 'WhileStatNode':
        out.append(['while', L, ex(s.condition), blk(s.body, types)])
    elif n == 'ReturnStatNode':
        out.append(['return', L, ex(s.value) if s.value is not None else None])
    elif n == 'BreakStatNode':
        out.append(['break', L])
    elif n == 'ContinueStatNode':
        out.append(['continue', L])
    elif n == 'PassStatNode':
        pass
    elif n in ('GILStatNode', 'WithStatNode', 'NogilTryFinallyStatNode'):
        st(s.body, out, types)
    elif n == 'AssertStatNode':
        pass
    elif n == 'RaiseStatNode':
        out.append(['raise', L])
    elif n in ('FromCImportStatNode', 'CImportStatNode', 'FromImportStatNode', 'CTypeDefNode', 'GlobalNode'):
        pass
    else:
        raise Un(n)


def blk(s, types):
    out = []
    st(s, out, types)
    return out


def func(f):
    n = type(f).__name__
    types = {}
    args = []
    if n == 'CFuncDefNode':
        d = f.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        name = d.base.name
        ret = typ(f.base_type)
        al = d.args
    else:
        name = str(f.name)
        ret = 'object'
        al = f.args
    r = dict(name=str(name), ret=ret, line=f.pos[1], kind=n)
    try:
        for a in al:
            try:
                nm, t, df = decl(a.declarator, typ(a.base_type))
            except Un:
                nm, t, df = '?', 'object', None
            if not nm:       # an untyped argument: its name was parsed as its type
                nm, t = t, 'object'
            args.append([nm, t, ex(a.default) if a.default is not None else None])
        r['args'] = args
        body = blk(f.body, types)
        r['body'] = body
        r['types'] = types
    except Un as e:
        r['unsupported'] = str(e)
    return r


def find(n, out):
    if type(n).__name__ in ('CFuncDefNode', 'DefNode'):
        out.append(func(n))
        return
    for a in n.child_attrs or []:
        v = getattr(n, a)
        for q in (v if isinstance(v, list) else [v]):
            if q is not None and hasattr(q, 'child_attrs'):
                find(q, out)


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    res = {}
    for p in sys.argv[2:]:
        with open(p, encoding='utf-8') as f:
            src = f.read()
        fs = []
        find(parse_from_strings('m', src), fs)
        res[p] = fs
    with open(sys.argv[1], 'w') as f:
        json.dump(res, f)
