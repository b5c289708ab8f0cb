"""C04: solving an event on a transformed variable gives exactly its preimage.

The set returned by solve() is probed: at exact rational points with exact
rational evaluation (this decides open/closed ends and isolated points), and
at floating-point points away from truth changes with numpy evaluation."""
import math
from fractions import Fraction as F

import numpy as np
import sympy

from .. import exact, terms
from ..gen_terms import Gen

X = ('var', 'X')
RATS = sorted(set([F(i) for i in range(-8, 9)] + [F(i, 2) for i in range(-15, 16)]
                  + [F(i, 3) for i in range(-8, 9)] + [F(i, 4) for i in range(-9, 10)]
                  + [F(1, 8), F(1, 9), F(16), F(-16), F(1, 10), F(10), F(100), F(9), F(27), F(64)]))
FLTS = np.array([-977.3, -83.7, -31.4, -12.77, -6.531, -5.173, -4.337, -3.619, -3.1415, -2.719, -2.203,
                 -1.8713, -1.4137, -1.1234, -0.9171, -0.7331, -0.5517, -0.3691, -0.2113, -0.0917, -0.0123,
                 0.0117, 0.0873, 0.2237, 0.3541, 0.5413, 0.7129, 0.8933, 1.1371, 1.3777, 1.6113, 1.8217,
                 2.1919, 2.4441, 2.7613, 3.1733, 3.6661, 4.2137, 5.0937, 6.8811, 9.117, 13.61, 29.73, 81.9, 961.7])


def has_float(t):
    if isinstance(t, tuple):
        return any(has_float(s) for s in t)
    return isinstance(t, float) and not math.isinf(t)


def stable_truth(t, xs, var='X'):
    """(mask of points whose truth is stable, truth)"""
    terms.TAINT[0] = np.zeros(len(xs), dtype=bool)
    base = terms.truth(t, {var: xs})
    ok = ~terms.TAINT[0]
    terms.TAINT[0] = None
    for d in (1e-6, -1e-6, 1e-9, -1e-9, 3e-5, -3e-5):
        ok &= terms.truth(t, {var: xs + d * np.maximum(1.0, np.abs(xs))}) == base
    # Every atom's comparison must also be away from its boundary.
    for a in deep_atoms(t):
        v = terms.truth(a, {var: xs})
        w = terms.truth(a, {var: xs}, True)
        for d in (1e-6, -1e-6):
            p = {var: xs + d * np.maximum(1.0, np.abs(xs))}
            ok &= (terms.truth(a, p) == v) & (terms.truth(a, p, True) == w)
        if a[0] not in ('nom', 'nnom'):
            y = terms.ev(a[1], {var: xs})
            big = np.abs(y) > 1e12
            ok &= ~big
            for c in terms.literals(a[2:]):
                if not math.isinf(c):
                    ok &= ~(np.abs(y - c) < 1e-7 * max(1, abs(c)))
    return ok, base


def deep_atoms(t, out=None):
    if out is None:
        out = []
    if t[0] in ('not', 'and', 'or', 'xor'):
        for s in t[1:]:
            deep_atoms(s, out)
    elif t[0] in ('nom', 'nnom'):
        out.append(t)
    else:
        out.append(t)
        in_expr(t[1], out)
    return out


def in_expr(e, out):
    if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
        return
    if e[0] == 'piece':
        for s, v in e[1]:
            in_expr(s, out)
            deep_atoms(v, out)
    elif e[0] == 'ind':
        deep_atoms(e[1], out)
    else:
        for s in e[1:]:
            if isinstance(s, tuple):
                in_expr(s, out)


def probe(ctx, t, S, var='X', mech='solve', show=None):
    """Compare a solution set with the truth of event t."""
    desc = show or terms.flatten_str(t)
    fl = has_float(t)
    ok, base = stable_truth(t, FLTS, var)
    n = 0
    for x, good, want in zip(FLTS, ok, base):
        if not good:
            continue
        n += 1
        got = bool(float(x) in S)
        if got != bool(want):
            ctx.violation('%s:%s' % (mech, 'missing' if want else 'extra'),
                          'event %s\nsolved as %s\nx = %r should be %s' % (desc, S, x, 'in' if want else 'out'))
    if not fl:
        rok, rbase = None, None
        for q in RATS:
            try:
                want = exact.truth(t, {var: q})
            except exact.Unknown:
                if rok is None:
                    rok, rbase = stable_truth(t, np.array([float(q) for q in RATS]), var)
                i = RATS.index(q)
                if not rok[i]:
                    continue
                want = bool(rbase[i])
            n += 1
            xq = int(q) if q.denominator == 1 else sympy.Rational(q.numerator, q.denominator)
            got = bool(xq in S)
            if got != want:
                ctx.violation('%s:%s-exact' % (mech, 'missing' if want else 'extra'),
                              'event %s\nsolved as %s\nx = %s should be %s' % (desc, S, q, 'in' if want else 'out'))
    ctx.evaluations += n
    ctx.count('probes', n)
    return n


def ops_of(t, out):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.append(t[0])
        for s in t:
            ops_of(s, out)
    return out


def case(ctx, rng, idx):
    style = rng.choice(['int', 'int', 'int', 'rat', 'float'])
    g = Gen(rng, style, transcendental=rng.random() < 0.6, maxdeg=3 if rng.random() < 0.15 else 2,
            piece=rng.random() < 0.4, ind=rng.random() < 0.3)
    r = rng.random()
    depth = rng.choice([1, 1, 2, 2, 3, 3, 4])
    width = 1 if r < 0.6 else rng.choice([2, 2, 3])
    if width > 1:
        depth = min(depth, 2)
    t = g.event(X, depth, width)
    if not supported(t):
        ctx.skip('unsupported')
    ctx.desc(terms.flatten_str(t))
    b = terms.Build()
    E = ctx.call('build', b.event, t)
    S = ctx.call('solve', lambda: E.solve())
    n = probe(ctx, t, S)
    if n > 20:
        ctx.seen((terms.flatten_str(t),))
        for o in set(ops_of(t, [])):
            ctx.count('op:' + o)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append('%s  solved as %s' % (ctx.case_desc[:200], str(S)[:200]))


def supported(t):
    """Shapes the documentation does not offer: polynomials of mixed subexpressions
    cannot arise here; constants only."""
    return True
