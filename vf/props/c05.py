"""C05: polynomial constraints solved symbolically, numerically, or after a timeout.

Real roots are isolated by an independent exact method (Sturm sequences over
rationals); each solver configuration's solution is compared with the sign
pattern of the polynomial.  Timeouts are injected at the OS timer: the alarm
the solver arms is shortened to a few milliseconds, so that it goes off in the
middle of symbolic solving."""
import math
import os
import signal
from fractions import Fraction as F

import sympy

from .. import core

REL = ['<', '<=', '>', '>=']


# Exact polynomial arithmetic (coefficients low to high) --------------------

def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def pmul(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def pdiv(a, b):
    a = list(a)
    q = [F(0)] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b) and trim(a):
        a = trim(a)
        if len(a) < len(b):
            break
        k = a[-1] / b[-1]
        d = len(a) - len(b)
        q[d] = k
        for i, y in enumerate(b):
            a[d + i] -= k * y
        a.pop()
    return trim(q), trim(a)


def pgcd(a, b):
    a, b = trim(a), trim(b)
    while b:
        a, b = b, pdiv(a, b)[1]
    return [c / a[-1] for c in a]


def pev(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def deriv(p):
    return trim([i * c for i, c in enumerate(p)][1:])


def real_roots(p):
    """Distinct real roots as (lo, hi) rational isolating intervals of width < 1e-13 (or exact)."""
    p = trim(p)
    if len(p) <= 1:
        return []
    g = pgcd(p, deriv(p)) if len(p) > 2 else [F(1)]
    s = pdiv(p, g)[0] if len(g) > 1 else p
    chain = [s, deriv(s)]
    while len(chain[-1]) > 1:
        r = pdiv(chain[-2], chain[-1])[1]
        if not r:
            break
        chain.append([-c for c in r])

    def var(x):
        n, last = 0, 0
        for q in chain:
            v = pev(q, x)
            sg = (v > 0) - (v < 0)
            if sg:
                if last and sg != last:
                    n += 1
                last = sg
        return n
    bound = 1 + max(abs(c / s[-1]) for c in s)
    bound = F(math.ceil(bound)) + F(1, 7)
    out = []
    stack = [(-bound, bound)]
    while stack:
        a, b = stack.pop()
        k = var(a) - var(b)       # roots in (a, b]
        if k == 0:
            continue
        if k == 1 and b - a < F(1, 10 ** 13):
            out.append((a + b) / 2)
            continue
        m = (a + b) / 2
        if k == 1 and pev(s, m) == 0:
            out.append(m)
            continue
        stack += [(a, m), (m, b)]
    return sorted(out)


# Random polynomials ---------------------------------------------------------

def rat(rng, kind):
    if kind == 'int':
        return F(rng.randint(-4, 4))
    return F(rng.randint(-9, 9), rng.choice([1, 2, 3, 4]))


def gen(rng):
    """(coeffs Fractions low->high, kind, level, planned multiplicities)"""
    kind = rng.choice(['int', 'int', 'rat', 'float'])
    r = rng.random()
    if r < 0.55:
        # Chosen rational roots with multiplicities, and rootless factors.
        p = [rat(rng, 'int') or F(1)]
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            p = pmul(p, [-rat(rng, kind), F(1)])
        if rng.random() < 0.5 and len(p) <= 3:
            x0 = [-c for c in [rat(rng, kind)]][0]
            p = pmul(p, [x0, F(1)]) if rng.random() < 0.3 else pmul(p, p[:2] if len(p) == 2 else [x0, F(1)])
        if rng.random() < 0.25 and len(p) <= 3:
            a = rat(rng, kind)
            p = pmul(p, [a * a + 1, 2 * a, F(1)])
        level = rng.choice([F(0), F(0), rat(rng, kind)])
        p[0] += level
    elif r < 0.7:
        # Squares, possibly lifted: no real roots or a single double root.
        a, b = rat(rng, kind), rat(rng, kind) or F(1)
        p = [x * rng.choice([1, -1]) for x in pmul([a, b], [a, b])]
        level = rat(rng, kind)
        p[0] += level + rng.choice([0, 0, 1, -1])
    elif r < 0.9:
        n = rng.choice([1, 2, 2, 2, 2, 3])
        p = [rat(rng, kind) for _ in range(n)] + [rat(rng, kind) or F(1)]
        level = rat(rng, kind)
    elif r < 0.95:
        # Degenerate: leading coefficients vanish.
        p = [rat(rng, kind), rng.choice([F(0), rat(rng, kind)]), F(0)]
        level = rng.choice([p[0], rat(rng, kind)])
    else:
        n = rng.choice([3, 4, 5])
        p = [rat(rng, 'int') for _ in range(n)] + [rng.choice([F(1), F(-1), F(2)])]
        level = rat(rng, 'int')
    return p, kind, level


def lit(v, kind):
    if kind == 'float':
        return float(v)
    return int(v) if v.denominator == 1 else sympy.Rational(v.numerator, v.denominator)


def as_given(v, kind):
    """The exact value of the literal that is handed over."""
    return F(float(v)) if kind == 'float' else v


def build(X, p, kind):
    e = None
    for i, c in enumerate(p):
        if i == 0:
            continue
        if c == 0 and any(x != 0 for x in p[i + 1:]):
            continue
        m = lit(c, kind) * (X if i == 1 else X ** i)
        e = m if e is None else e + m
    return e + lit(p[0], kind)


# Injected timeouts ----------------------------------------------------------

class FastAlarm:
    """Every armed alarm goes off after `delay` seconds (a fault of the timer, not of the code)."""

    def __init__(self, delay):
        self.delay = delay
        self.armed = self.fired = 0

    def __enter__(self):
        self.alarm, self.setitimer, self.signal = signal.alarm, signal.setitimer, signal.signal
        me = self

        def alarm(n):
            if n > 0:
                me.armed += 1
                me.setitimer(signal.ITIMER_REAL, me.delay)
                return 0
            return me.alarm(0)

        def wrap(sig, h):
            if sig == signal.SIGALRM and callable(h):
                def g(*a):
                    me.fired += 1
                    return h(*a)
                g.__wrapped__ = h
                return me.signal(sig, g)
            return me.signal(sig, h)

        def setitimer(which, s, *rest):
            if which == signal.ITIMER_REAL and s > 0:
                me.armed += 1
                return me.setitimer(which, me.delay, *rest)
            return me.setitimer(which, s, *rest)
        signal.alarm, signal.setitimer, signal.signal = alarm, setitimer, wrap
        return self

    def __exit__(self, *a):
        signal.alarm, signal.setitimer, signal.signal = self.alarm, self.setitimer, self.signal


def pending():
    left, _ = signal.getitimer(signal.ITIMER_REAL)
    return left > 0


def stop():
    signal.setitimer(signal.ITIMER_REAL, 0)


def solve(ctx, E, config, rng):
    from sppl.sets import EmptySet  # noqa: F401 (import check)
    before = signal.getsignal(signal.SIGALRM)
    os.environ.pop('SPPL_NO_SYMBOLIC', None)
    fired = armed = 0
    try:
        if config == 'numeric':
            os.environ['SPPL_NO_SYMBOLIC'] = '1'
            S = ctx.call('solve-numeric', E.solve)
        elif config == 'timeout':
            sympy.core.cache.clear_cache()
            with FastAlarm(rng.choice([0.0005, 0.001, 0.002, 0.005, 0.01])) as fa:
                S = ctx.call('solve-timeout', E.solve)
            fired, armed = fa.fired, fa.armed
        else:
            S = ctx.call('solve-symbolic', E.solve)
    finally:
        os.environ.pop('SPPL_NO_SYMBOLIC', None)
        left = pending()
        stop()
        signal.signal(signal.SIGALRM, before)
    ctx.check(not left, 'alarm-pending:' + config, lambda: 'an alarm is pending after solving %s' % E)
    ctx.count('timeouts_fired', fired)
    ctx.count('alarms_armed', armed)
    return S, fired


def num(x):
    if isinstance(x, (int, float)):
        return float(x)
    return float(sympy.sympify(x).evalf(20)) if not isinstance(x, F) else float(x)


def inside(S, x):
    return bool(x in S)


def judge(ctx, S, p, sat, bounds, desc, config):
    """sat(value) is the truth of the relation for an exact value of the polynomial;
    bounds: the levels at which the relation may change."""
    roots = set()
    for b in bounds:
        q = list(p)
        q[0] -= b
        roots.update(real_roots(q))
    roots = sorted(roots)
    # Two nearly equal roots cannot be told apart by a numerical solver.
    for a, b in zip(roots, roots[1:]):
        if b - a < F(1, 10 ** 4) * (1 + abs(a)):
            ctx.skip('close roots')
    pts = []
    if roots:
        pts += [roots[0] - 1, roots[0] - F(1, 10), roots[-1] + 1, roots[-1] + F(1, 10), roots[0] - 10 ** 6, roots[-1] + 10 ** 6]
        for a, b in zip(roots, roots[1:]):
            pts += [(a + b) / 2, a + (b - a) / 50, b - (b - a) / 50]
        pts += [r + s * F(1, 10 ** 5) * (1 + abs(r)) for r in roots for s in (1, -1)]
    pts += [F(0), F(1), F(-1), F(7, 3), F(-11, 2), F(100), F(-100), F(10 ** 7), -F(10 ** 7)]
    n = 0
    for x in pts:
        if any(abs(x - r) < F(1, 10 ** 6) * (1 + abs(r)) for r in roots):
            continue
        v = pev(p, x)
        if any(abs(v - b) < F(1, 10 ** 14) * (1 + abs(b)) for b in bounds):
            continue
        want = sat(v)
        got = inside(S, float(x))
        n += 1
        ctx.check(got == want, '%s:%s' % (config, 'missing' if want else 'extra'), lambda:
                  '%s\nsolved as %s (%s)\nx = %s: polynomial is %s, should be %s the solution'
                  % (desc, S, config, float(x), float(v), 'in' if want else 'outside'))
    # At every root: the solution has (or lacks) a point there.
    for r in roots:
        # Rounded coefficients move double roots; the relation is then not decided there.
        want = sat(min(bounds, key=lambda b: abs(pev(p, r) - b)))
        near = [e for e in ends(S) if abs(num(e) - float(r)) <= 1e-6 * (1 + abs(float(r)))]
        left = sat_side(p, sat, r, -1)
        right = sat_side(p, sat, r, 1)
        n += 1
        if want:
            ok = any(inside(S, e) for e in near) if near else (left and right and inside(S, float(r)))
            ctx.check(ok, config + ':root-missing', lambda:
                      '%s\nsolved as %s (%s)\nthe root %s should be in the solution' % (desc, S, config, float(r)))
        else:
            bad = [e for e in near if inside(S, e)]
            ctx.check(not bad and (near or not inside(S, float(r))), config + ':root-extra', lambda:
                      '%s\nsolved as %s (%s)\nthe root %s should be outside' % (desc, S, config, float(r)))
    # No other isolated points.
    for e in ends(S):
        if math.isinf(num(e)):
            continue
        ctx.check(any(abs(num(e) - float(r)) <= 1e-5 * (1 + abs(float(r))) for r in roots), config + ':spurious',
                  lambda: '%s\nsolved as %s (%s)\nend point %s is not a root' % (desc, S, config, e))
    ctx.evaluations += n
    return len(roots)


def sat_side(p, sat, r, s):
    return sat(pev(p, r + s * F(1, 10 ** 7) * (1 + abs(r))))


def ends(S):
    from sppl.sets import EmptySet, FiniteReal, Interval, Union
    if S is EmptySet:
        return []
    if isinstance(S, FiniteReal):
        return list(S)
    if isinstance(S, Interval):
        return [S.left, S.right]
    out = []
    for a in S.args:
        out += ends(a)
    return [e for e in out if not (isinstance(e, float) and math.isinf(e))]


OPS = {'<': lambda v, b: v < b, '<=': lambda v, b: v <= b, '>': lambda v, b: v > b, '>=': lambda v, b: v >= b}


def case(ctx, rng, idx):
    from sppl.transforms import Id
    X = Id('X')
    p, kind, level = gen(rng)
    if all(c == 0 for c in p[1:]) and len(p) < 3:
        p.append(F(0))
    e = ctx.call('build', build, X, p, kind)
    pg = [as_given(c, kind) for c in p]
    lv = as_given(level, kind)
    if kind == 'float':
        # Rounded coefficients: repeated roots may split or vanish by rounding, so
        # only the decimal values as written are meaningful.
        pg = [F(repr(float(c))) for c in p]
        lv = F(repr(float(level)))
    r = rng.random()
    L = lit(level, kind)
    if r < 0.55:
        op = rng.choice(REL)
        E = {'<': lambda: e < L, '<=': lambda: e <= L, '>': lambda: e > L, '>=': lambda: e >= L}[op]()
        sat, bounds = (lambda v: OPS[op](v, lv)), [lv]
        rel = '%s %s' % (op, L)
    elif r < 0.8:
        E = e << {L}
        sat, bounds = (lambda v: v == lv), [lv]
        rel = '= %s' % (L,)
    else:
        w = rng.choice([F(1), F(2), F(1, 2)])
        hi = lit(level + w, kind)
        h = F(repr(float(level + w))) if kind == 'float' else level + w
        lo_s, hi_s = rng.random() < 0.5, rng.random() < 0.5
        E = (L < e) if lo_s else (L <= e)
        E = (E < hi) if hi_s else (E <= hi)
        sat = lambda v: (lv < v if lo_s else lv <= v) and (v < h if hi_s else v <= h)
        bounds = [lv, h]
        rel = 'in %s%s, %s%s' % ('(' if lo_s else '[', L, hi, ')' if hi_s else ']')
    if rng.random() < 0.2:
        E = ~E
        pos = sat
        sat = lambda v: not pos(v)
        rel = 'not ' + rel
    desc = 'polynomial %s %s' % (' + '.join('%s*x^%d' % (lit(c, kind), i) for i, c in enumerate(p)), rel)
    ctx.desc(desc)
    deg = len(trim(pg)) - 1
    nr = len(trim(real_roots(pg)))
    configs = ['numeric', 'timeout', 'symbolic']
    if deg >= 3 and rng.random() < 0.85:
        configs = ['numeric', 'timeout']
    rng.shuffle(configs)
    # Nearly repeated roots of rounded coefficients are not decided.
    if kind == 'float':
        for c in real_roots(deriv(pg)):
            for b in bounds:
                v = pev(pg, c) - b
                if abs(v) < F(1, 10 ** 6) and (v != 0 or any(F(float(k)) != k for k in pg + bounds)):
                    ctx.skip('repeated root of inexact floats')
    fired = 0
    for config in configs:
        S, f = solve(ctx, E, config, rng)
        fired += f
        k = judge(ctx, S, pg, sat, bounds, desc, config)
        ctx.count('solved:' + config)
    ctx.count('roots:%d' % k)
    ctx.seen((desc,))
    if any(len(q) > 2 and len(pgcd(q, deriv(q))) > 1 for q in (trim([pg[0] - b] + pg[1:]) for b in bounds)):
        ctx.count('repeated_roots')
    if fired:
        ctx.count('cases_with_timeout')
    if rng.random() < 0.05 and len(ctx.samples) < 6:
        ctx.samples.append('%s: %s' % (desc, S))
