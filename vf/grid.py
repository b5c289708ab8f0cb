"""Truth tables of events over a grid of joint assignments.

Every literal reads one variable, so it is evaluated once per value of that
variable; the tables are combined with numpy over the product grid."""
from fractions import Fraction as F

import numpy as np
import sympy

from . import exact, terms


def to_sys(v):
    """Value handed to the system under test."""
    if isinstance(v, F):
        return int(v) if v.denominator == 1 else sympy.Rational(v.numerator, v.denominator)
    return v


def has_float(t):
    if isinstance(t, tuple):
        return any(has_float(s) for s in t)
    return isinstance(t, float) and t not in (float('inf'), float('-inf'))


class Grid:
    def __init__(self, values):
        """values: {name: [values]} (Fractions/floats for numbers, str for strings)"""
        self.names = sorted(values)
        self.values = values
        self.shape = tuple(len(values[n]) for n in self.names)
        self.ok = np.ones(self.shape, dtype=bool)
        self.cache = {}
        self.probes = 0

    def lift(self, name, vec):
        i = self.names.index(name)
        sh = [1] * len(self.names)
        sh[i] = len(vec)
        return np.broadcast_to(np.asarray(vec, dtype=bool).reshape(sh), self.shape)

    # Reference ---------------------------------------------------------------
    def atom(self, t, neg, defined):
        key = (t, neg, defined)
        if key in self.cache:
            return self.cache[key]
        (name,) = terms.event_vars(t)
        out, bad = [], []
        for v in self.values[name]:
            r, b = False, False
            try:
                if isinstance(v, float) or (t[0] not in ('nom', 'nnom') and t[1][0] != 'var' and has_float(t)):
                    r, b = self.float_truth(t, name, float(v), neg)
                else:
                    r = exact.truth(t, {name: v}, neg)
                    if defined and t[0] not in ('nom', 'nnom'):
                        try:
                            exact.value(t[1], {name: v})
                        except exact.Undef:
                            b = True
            except exact.Unknown:
                r, b = self.float_truth(t, name, float(v), neg)
            out.append(r)
            bad.append(b)
        if any(bad):
            self.ok &= ~self.lift(name, bad)
        self.cache[key] = self.lift(name, out)
        return self.cache[key]

    def float_truth(self, t, name, v, neg):
        from .props.c04 import stable_truth
        u = ('not', t) if neg else t
        ok, base = stable_truth(u, np.array([v]), name)
        return bool(base[0]), not bool(ok[0])

    def ref(self, t, neg=False, defined=False):
        """Truth table; with defined=True, assignments at which some expression is
        undefined are taken off the grid."""
        k = t[0]
        if k == 'not':
            return self.ref(t[1], not neg, defined)
        if k in ('and', 'or'):
            parts = [self.ref(s, neg, defined) for s in t[1:]]
            f = np.logical_and if (k == 'and') != neg else np.logical_or
            return f.reduce(parts)
        if k == 'xor':
            a, b = t[1], t[2]
            return self.ref(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), neg, defined)
        return self.atom(t, neg, defined)

    # System ------------------------------------------------------------------
    def sys(self, E, by='solve'):
        from sppl.transforms import EventAnd, EventOr, EventBasic
        if isinstance(E, EventAnd):
            return np.logical_and.reduce([self.sys(e, by) for e in E.subexprs])
        if isinstance(E, EventOr):
            return np.logical_or.reduce([self.sys(e, by) for e in E.subexprs])
        assert isinstance(E, EventBasic), E
        key = (by, repr(E))
        if key in self.cache:
            return self.cache[key]
        (sym,) = E.get_symbols()
        S = E.solve() if by == 'solve' else None
        out, bad = [], []
        for v in self.values[sym.token]:
            x = to_sys(v)
            self.probes += 1
            try:
                out.append(bool(x in S) if by == 'solve' else bool(E.evaluate({sym: x})))
                bad.append(False)
            except TypeError as e:
                if 'truth value of Relational' not in str(e):
                    raise
                # Equal numbers whose equality symbolic algebra cannot decide.
                out.append(False)
                bad.append(True)
            except AssertionError:
                if by == 'solve':
                    raise
                # Undefined expression.
                out.append(False)
                bad.append(True)
        if any(bad):
            self.ok &= ~self.lift(sym.token, bad)
        self.cache[key] = self.lift(sym.token, out)
        return self.cache[key]

    def first(self, mask):
        """An assignment where mask holds (and the grid is valid), or None."""
        m = np.argwhere(mask & self.ok)
        if not len(m):
            return None
        return {n: to_sys(self.values[n][i]) for n, i in zip(self.names, m[0])}


NUMS = [F(n) for n in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5)] + [F(a, b) for a, b in (
    (-7, 2), (-5, 2), (-3, 2), (-1, 2), (1, 2), (3, 2), (5, 2), (7, 2), (1, 3), (-2, 3), (1, 4), (9, 4))]
FLTS = [-9.37, -2.713, -1.237, -0.613, 0.137, 0.731, 1.417, 2.377, 3.713, 11.9]
STRS = ['a', 'b', 'c', 'd', 'zz', '', 'A b']


def make(rng, nums, noms, size=14):
    values = {}
    for n in nums:
        vs = rng.sample(NUMS, min(len(NUMS), size - 3)) + rng.sample(FLTS, 3)
        values[n] = vs
    for n in noms:
        values[n] = list(STRS)
    return Grid(values)
