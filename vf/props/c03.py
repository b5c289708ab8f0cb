"""C03: arithmetic on variables denotes real arithmetic.

Expressions are built through the public operators and evaluated at many
inputs; the values are compared with exact rational arithmetic and with numpy.
Substitution (one step and chained) is compared with the substituted term, and
pairs of expressions whose combination may be unsupported must either raise or
denote the right function."""
import math
from fractions import Fraction as F

import numpy as np
import sympy

from .. import exact, terms
from ..gen_terms import Gen, const

X, Y, Z = ('var', 'X'), ('var', 'Y'), ('var', 'Z')
RATS = [F(a, b) for a, b in ((0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (3, 1), (-3, 1), (4, 1), (-5, 1), (7, 1), (9, 1),
                             (16, 1), (1, 2), (-1, 2), (1, 4), (3, 2), (-3, 2), (1, 3), (-2, 3), (5, 4), (27, 1), (8, 1))]
FLTS = [-7.31, -3.417, -2.23, -1.119, -0.871, -0.337, -0.091, 0.083, 0.291, 0.777, 1.213, 1.919, 2.483, 3.377, 5.81, 11.3]


def exact_value(t, env):
    """Fraction, None (undefined) or raises exact.Unknown"""
    try:
        return exact.value(t, env)
    except exact.Undef:
        return None


def num_value(t, env):
    """(value, trusted) by numpy"""
    e = {k: np.array([float(v)]) for k, v in env.items()}
    terms.TAINT[0] = np.zeros(1, dtype=bool)
    v = terms.ev(t, e)[0]
    bad = bool(terms.TAINT[0][0])
    terms.TAINT[0] = None
    if bad or abs(v) > 1e12:
        return v, False
    for d in (1e-9, -1e-9, 1e-7, -1e-7):
        e2 = {k: x + d * np.maximum(1.0, np.abs(x)) for k, x in e.items()}
        w = terms.ev(t, e2)[0]
        if np.isnan(w) != np.isnan(v) or (not np.isnan(v) and abs(w - v) > 1e-3 * max(1, abs(v))):
            return v, False
    return v, True


def as_float(r):
    if isinstance(r, (bool, int, float)):
        return float(r)
    if isinstance(r, (set, frozenset)):
        raise TypeError('not a number: %r' % (r,))
    if r in (sympy.true, sympy.false):
        return float(bool(r))
    r = sympy.sympify(r)
    if r.is_Rational:
        return float(r)
    return float(r.evalf(20))


def syms(b, names):
    return frozenset(b.id(n) for n in names)


def compare(ctx, b, E, t, names, mech, rng, npts=None):
    """E denotes t at the sample points."""
    fl = has_float(t)
    n = 0
    pts = []
    for q in RATS:
        pts.append({nm: q if i == 0 else rng.choice(RATS) for i, nm in enumerate(names)})
    for x in FLTS:
        pts.append({nm: x if i == 0 else rng.choice(FLTS) for i, nm in enumerate(names)})
    if npts:
        pts = rng.sample(pts, npts)
    for env in pts:
        rational = isinstance(env[names[0]], F)
        want, ex = None, False
        if rational and not fl:
            try:
                want = exact_value(t, env)
                ex = True
            except exact.Unknown:
                pass
        if not ex:
            v, ok = num_value(t, env)
            if not ok:
                continue
            want = None if math.isnan(v) else v
        assign = {}
        for nm, v in env.items():
            if isinstance(v, F):
                v = int(v) if v.denominator == 1 else (sympy.Rational(v.numerator, v.denominator)
                                                       if F(float(v)) != v or rng.random() < 0.5 else float(v))
            assign[b.id(nm)] = v
        if want is None:
            # The property speaks of points where the expression is defined.
            ctx.count('undefined')
            continue
        r = ctx.call('evaluate', E.evaluate, assign)
        try:
            got = as_float(r)
        except Exception as e:
            ctx.violation('%s:not-a-number' % mech, '%s at %s gave %r (%s)' % (terms.flatten_str(t), assign, r, e))
        n += 1
        w = float(want)
        tol = 1e-6 * max(1, abs(w))
        ctx.check(abs(got - w) <= tol, '%s:value' % mech, lambda: '%s built as %s\nat %s gave %r, expected %r'
                  % (terms.flatten_str(t), E, assign, r, want))
    ctx.evaluations += n
    ctx.count('points', n)
    return n


def has_float(t):
    if isinstance(t, tuple):
        return any(has_float(s) for s in t)
    return isinstance(t, float) and not math.isinf(t)


def ops(t, out):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.add(t[0])
        for s in t:
            ops(s, out)
    return out


def case(ctx, rng, idx):
    r = rng.random()
    style = rng.choice(['int', 'int', 'rat', 'float'])
    g = Gen(rng, style, transcendental=rng.random() < 0.7, maxdeg=3, piece=rng.random() < 0.4, ind=rng.random() < 0.25)
    if r < 0.55:
        evaluation(ctx, rng, g)
    elif r < 0.8:
        substitution(ctx, rng, g)
    elif r < 0.93:
        combination(ctx, rng, g)
    else:
        rejection(ctx, rng, g)


def evaluation(ctx, rng, g):
    t = g.expr(X, rng.choice([1, 2, 3, 4, 5]))
    ctx.desc(terms.flatten_str(t))
    b = terms.Build()
    E = ctx.call('build', b.expr, t)
    ctx.check(E.get_symbols() == syms(b, ['X']), 'symbols', lambda: '%s has symbols %s' % (E, E.get_symbols()))
    n = compare(ctx, b, E, t, ['X'], 'evaluate', rng)
    if n > 5:
        ctx.seen(('e', ctx.case_desc))
        for o in ops(t, set()):
            ctx.count('op:' + o)
    # A second build of the same term denotes the same function and is equal.
    if rng.random() < 0.2:
        E2 = b.expr(t)
        ctx.check(E2 == E and hash(E2) == hash(E), 'rebuild:equal', lambda: '%s vs %s' % (E, E2))


def substitution(ctx, rng, g):
    t = g.expr(X, rng.choice([1, 2, 3]))
    u = g.expr(Y, rng.choice([1, 1, 2]))
    b = terms.Build()
    ctx.desc('%s with X := %s' % (terms.flatten_str(t), terms.flatten_str(u)))
    E = ctx.call('build', b.expr, t)
    U = ctx.call('build', b.expr, u)
    if subst_unsupported(t, u):
        try:
            E2 = E.subs({b.id('X'): U})
        except Exception:
            ctx.count('subst_rejected')
            return
    else:
        E2 = ctx.call('subs', E.subs, {b.id('X'): U})
    t2 = terms.subst(t, {'X': u})
    n = compare(ctx, b, E2, t2, ['Y'], 'subs', rng)
    if n > 5:
        ctx.seen(('s', ctx.case_desc))
        ctx.count('substitutions')
    ctx.check(E2.get_symbols() == syms(b, ['Y']), 'subs:symbols', lambda: '%s has symbols %s' % (E2, E2.get_symbols()))
    # The original is unchanged and an unrelated substitution does nothing.
    compare(ctx, b, E, t, ['X'], 'subs-original', rng, 5)
    E3 = ctx.call('subs', E.subs, {b.id('W'): U})
    ctx.check(E3 == E, 'subs:unrelated', lambda: '%s became %s' % (E, E3))
    if rng.random() < 0.5:
        w = g.expr(Z, 1)
        if not (subst_unsupported(t, u) or subst_unsupported(u, w)):
            W = ctx.call('build', b.expr, w)
            E4 = ctx.call('substitute', E.substitute, {b.id('X'): U, b.id('Y'): W})
            compare(ctx, b, E4, terms.subst(t2, {'Y': w}), ['Z'], 'substitute', rng, 12)
            ctx.count('chained_substitutions')


def subst_unsupported(t, u):
    """Substitution into pieces is allowed to be rejected only when the guards may overlap
    (never, since guards are disjoint): everything is supported."""
    return False


def combination(ctx, rng, g):
    """Sums, differences and products of two arbitrary expressions: right or rejected."""
    a, c = g.expr(X, rng.choice([0, 1, 1, 2])), g.expr(X, rng.choice([0, 1, 1, 2]))
    k = rng.choice(['padd', 'psub', 'pmul'])
    t = (k, a, c)
    ctx.desc(terms.flatten_str(t))
    b = terms.Build()
    A, C = ctx.call('build', b.expr, a), ctx.call('build', b.expr, c)
    try:
        E = {'padd': lambda: A + C, 'psub': lambda: A - C, 'pmul': lambda: A * C}[k]()
    except Exception:
        ctx.count('combination_rejected')
        return
    ctx.count('combination_accepted')
    if ind_product(t):
        # Indicator times expression denotes a piece: undefined off the event.
        t = None
    if t is None or has_piece(a) or has_piece(c):
        ctx.count('combination_piece')
        return
    n = compare(ctx, b, E, t, ['X'], 'combine', rng)
    if n > 5:
        ctx.seen(('c', ctx.case_desc))


def has_piece(t):
    return 'piece' in ops(t, set()) or 'ind' in ops(t, set())


def ind_product(t):
    return t[0] == 'pmul' and ('ind' in (t[1][0], t[2][0]))


def rejection(ctx, rng, g):
    b = terms.Build()
    t = g.expr(X, rng.choice([0, 1, 2]))
    u = g.expr(Y, rng.choice([0, 1, 2]))
    A, B = ctx.call('build', b.expr, t), ctx.call('build', b.expr, u)
    neg = -abs(const(rng, nz=True))
    # Products with an indicator legitimately build a (checked) piece.
    forms = [
        ('X + Y', lambda: A + B), ('X - Y', lambda: A - B), ('X * Y', lambda: A * B), ('X / Y', lambda: A / B),
        ('X ** Y', lambda: A ** B),
        ('X ** 1.5', lambda: A ** 1.5), ('X ** 0.3', lambda: A ** rng.choice([0.3, 2.7, -0.4])),
        ('X ** (2,3)', lambda: A ** (rng.choice([2, 3, -2]), 5)),
        ('X ** sqrt2', lambda: A ** sympy.sqrt(2)), ('X ** pi', lambda: A ** sympy.pi),
        ('neg ** X', lambda: neg ** A), ('0 ** X', lambda: 0 ** A),
        ('X + str', lambda: A + 'a'), ('X * str', lambda: A * 'a'), ('str - X', lambda: 'a' - A),
        ('X + None', lambda: A + None), ('X * list', lambda: A * [1]), ('X / 0', lambda: A / 0),
        ('X / 0.0', lambda: A / 0.0), ('X / str', lambda: A / 'b'),
        ('X < str', lambda: A < 'a'), ('str <= X', lambda: 'a' <= A), ('X < Y', lambda: A < B),
        ('X >= Y', lambda: A >= B), ('X > None', lambda: A > None), ('X << 3', lambda: A << 3),
        ('X % 2', lambda: A % 2), ('X // 2', lambda: A // 2),
        ('log base 1', lambda: b.T.Logarithm(A, base=1)), ('log base 0', lambda: b.T.Logarithm(A, base=0)),
        ('log base -2', lambda: b.T.Logarithm(A, base=-2)),
        ('exp base -2', lambda: b.T.Exponential(A, base=-2)),
        ('overlapping pieces', lambda: (b.id('X') > 0) * A + (b.id('X') > -1) * (A + 1)),
        ('two-variable pieces', lambda: (b.id('X') > 0) * A + (b.id('Y') > 0) * B),
        ('piece over other variable', lambda: (b.id('Y') > 0) * A),
        ('unbound', lambda: A.evaluate({b.id('Y'): 1})),
    ]
    if t[0] == 'ind' or u[0] == 'ind':
        ctx.skip('indicator operands')
    name, f = rng.choice(forms)
    ctx.desc('rejection of %s with X = %s, Y = %s' % (name, terms.flatten_str(t), terms.flatten_str(u)))
    try:
        r = f()
    except (Exception,):
        ctx.count('rejected:' + name)
        ctx.evaluations += 1
        ctx.seen(('r', name, ctx.case_desc))
        return
    ctx.violation('accepted:' + name, '%s gave %r' % (ctx.case_desc, r))
