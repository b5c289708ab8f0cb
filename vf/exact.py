"""Exact evaluation of terms at rational points.

Values are Fractions; UNDEF where the expression is undefined; Unknown is
raised where the exact value is not available."""
from fractions import Fraction as F
import math

from .terms import INF


class Unknown(Exception):
    pass


class Undef(Exception):
    pass


def fnum(v):
    if isinstance(v, tuple):
        if v[0] == 'rat':
            return F(v[1], v[2])
        raise Unknown
    if isinstance(v, float):
        if math.isinf(v):
            return v
        return F(v)
    return F(v)


def iroot(x, n):
    if x < 0:
        raise Undef
    p = round(x.numerator ** (1.0 / n))
    q = round(x.denominator ** (1.0 / n))
    for a in (p - 1, p, p + 1):
        for b in (q - 1, q, q + 1):
            if b > 0 and a >= 0 and a ** n == x.numerator and b ** n == x.denominator:
                return F(a, b)
    raise Unknown


def ilog(x, b):
    if x <= 0:
        raise Undef
    if x == 1:
        return F(0)
    y, k = F(1), 0
    if x > 1:
        while y < x and k < 60:
            y *= b
            k += 1
    else:
        while y > x and k < 60:
            y /= b
            k -= 1
    if y == x:
        return F(k)
    raise Unknown


def value(t, env):
    k = t[0]
    if k == 'var':
        return env[t[1]]
    if k == 'add':
        return value(t[1], env) + fnum(t[2])
    if k == 'radd':
        return fnum(t[1]) + value(t[2], env)
    if k == 'sub':
        return value(t[1], env) - fnum(t[2])
    if k == 'rsub':
        return fnum(t[1]) - value(t[2], env)
    if k == 'mul':
        return value(t[1], env) * fnum(t[2])
    if k == 'rmul':
        return fnum(t[1]) * value(t[2], env)
    if k == 'div':
        return value(t[1], env) / fnum(t[2])
    if k == 'rdiv':
        x = value(t[2], env)
        if x == 0:
            raise Undef
        return fnum(t[1]) / x
    if k == 'neg':
        return -value(t[1], env)
    if k == 'abs':
        return abs(value(t[1], env))
    if k == 'ipow':
        x = value(t[1], env)
        if t[2] < 0 and x == 0:
            raise Undef
        return x ** t[2]
    if k in ('root', 'sqrt'):
        n = 2 if k == 'sqrt' else t[2]
        r = iroot(value(t[1], env), abs(n))
        if n < 0:
            if r == 0:
                raise Undef
            return 1 / r
        return r
    if k == 'exp':
        x = value(t[1], env)
        if x == 0:
            return F(1)
        raise Unknown
    if k == 'log':
        x = value(t[1], env)
        if x <= 0:
            raise Undef
        if x == 1:
            return F(0)
        raise Unknown
    if k == 'bexp':
        x = value(t[2], env)
        if x.denominator == 1 and abs(x) < 60:
            return fnum(t[1]) ** int(x)
        raise Unknown
    if k == 'blog':
        return ilog(value(t[1], env), fnum(t[2]))
    if k in ('padd', 'psub', 'pmul'):
        a, b = value(t[1], env), value(t[2], env)
        return a + b if k == 'padd' else a - b if k == 'psub' else a * b
    if k == 'piece':
        for e, evt in t[1]:
            if truth(evt, env):
                return value(e, env)
        raise Undef
    if k == 'ind':
        if truth(t[1], env):
            return F(1)
        if truth(('not', t[1]), env):
            return F(0)
        raise Undef
    raise AssertionError(t)


def truth(t, env, neg=False):
    k = t[0]
    if k == 'not':
        return truth(t[1], env, not neg)
    if k in ('and', 'or'):
        vs = [truth(s, env, neg) for s in t[1:]]
        return all(vs) if (k == 'and') != neg else any(vs)
    if k == 'xor':
        a, b = t[1], t[2]
        return truth(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), env, neg)
    if k in ('nom', 'nnom'):
        r = (env[t[1]] in t[2]) != (k == 'nnom')
        return r != neg
    try:
        x = value(t[1], env)
    except Undef:
        return False
    if k == 'cmp':
        v = fnum(t[3])
        r = {'<': x < v, '<=': x <= v, '>': x > v, '>=': x >= v}[t[2]]
    elif k == 'rng':
        lo, hi = fnum(t[2]), fnum(t[4])
        r = (lo < x if t[3] == '<' else lo <= x) and (x < hi if t[5] == '<' else x <= hi)
    elif k == 'ivl':
        a, b, lo, ro = t[2]
        a, b = fnum(a), fnum(b)
        r = (a < x if lo else a <= x) and (x < b if ro else x <= b)
    elif k in ('in', 'nin'):
        r = any(x == fnum(v) for v in t[2])
        if k == 'nin':
            r = not r
    else:
        raise AssertionError(t)
    return r != neg
