import math


class Fail(Exception):
    def __init__(self, msg, inputs):
        Exception.__init__(self, msg)
        self.msg, self.inputs = msg, inputs


class Rec(object):
    """Counts what was compared; raises Fail at the first difference."""

    def __init__(self):
        self.n = 0
        self.nontrivial = 0
        self.samples = []
        self.keys = set()
        self.compared = 0
        self.skipped = 0
        self.cur = None

    def case(self, inp, nontrivial=True):
        self.n += 1
        self.cur = inp
        if nontrivial:
            k = hash(repr(inp))
            if k not in self.keys:
                self.keys.add(k)
                self.nontrivial += 1
                if len(self.samples) < 2:
                    self.samples.append(inp)

    def eq(self, what, got, want, inp, tol=1e-9):
        self.compared += 1
        try:
            g = float(got)
        except (TypeError, ValueError):
            raise Fail('%s = %r, expected %r' % (what, got, float(want)), inp)
        w = float(want)
        if g == w:
            return
        if math.isnan(g) or not abs(g - w) <= tol * max(1.0, abs(w)):
            raise Fail('%s = %r, expected %r' % (what, g, w), inp)

    def ok(self, cond, msg, inp):
        self.compared += 1
        if not cond:
            raise Fail(msg, inp)
