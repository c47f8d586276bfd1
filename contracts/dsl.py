"""contract(...) on a specification function: the library function computes what it computes.  The specification is a Python
function over the same parameters; it is run by the verifier on arbitrary arguments, and by the replay on concrete ones."""
REGISTRY = []


class Entry(object):
    def __init__(self, spec, file, fn, props, requires, sorts, ret, writes, module, split=()):
        self.spec, self.file, self.fn, self.props, self.requires, self.sorts = spec, file, fn, props, requires, sorts
        self.ret, self.writes, self.module, self.split = ret, writes, module, split
        self.wrapper = False

    def __repr__(self):
        return '%s:%s' % (self.file, self.fn)


PYX, NOPA, CACHE = 'cyext_acv.pyx', 'cyext_acv_nopa.pyx', 'cyext_acv_cache.pyx'


def contract(*where, **kw):
    """where: (file, function, properties)...; requires: preconditions; sorts: of untyped parameters; ret, writes: sort of the
    result and positions of the array arguments written, for functions whose calls are checked against the contract; split: lengths for which
    the cases 0 and positive are proved separately"""
    def deco(f):
        for file, fn, props in where:
            REGISTRY.append(Entry(f.__name__, file, fn, props.split(), list(kw.get('requires', ())), dict(kw.get('sorts', {})),
                                  kw.get('ret'), list(kw.get('writes', ())), f.__module__, list(kw.get('split', ()))))
        return f
    return deco


def wrapper(file, fn, props):
    """a contract of a method of the Python layer, decided by prove/wrap.py: which kernel it calls with which arguments, what it
    returns of it and when it raises"""
    def deco(f):
        e = Entry(f.__name__, file, fn, props.split(), [], {}, None, [], f.__module__)
        e.wrapper = True
        REGISTRY.append(e)
        return f
    return deco


def cut(v):
    """in a specification: a value the code is expected to assign; the verifier gives it a name (prove/cuts.py)"""
    return v
