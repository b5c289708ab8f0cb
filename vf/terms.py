"""Independent expression / event terms.

A term is a nested tuple.  This module gives (1) a numpy evaluator for terms
that shares no code with the system under test, and (2) a translation of terms
into the system's own objects through its public operators.

Expressions
    ('var', name) ('num', v)
    ('add', e, v) ('radd', v, e) ('sub', e, v) ('rsub', v, e)
    ('mul', e, v) ('rmul', v, e) ('div', e, v) ('rdiv', v, e)
    ('neg', e) ('abs', e) ('ipow', e, n) ('root', e, n) ('sqrt', e)
    ('exp', e) ('log', e) ('bexp', base, e) ('blog', e, base)
    ('padd', e1, e2) ('psub', e1, e2) ('pmul', e1, e2)  polynomials, same subexpression
    ('piece', ((e, ev), ...)) ('ind', ev)
Events
    ('cmp', e, op, v)           op in < <= > >=
    ('rng', e, lo, lop, hi, hop)   lo lop e hop hi, lop/hop in < <=
    ('in', e, (v, ...))         ('nin', e, (v...))
    ('ivl', e, (a, b, lo_open, hi_open))    e << Interval
    ('nom', name, (s, ...))     name << {s, ...}
    ('not', ev) ('and', ev, ...) ('or', ev, ...) ('xor', ev, ev)
"""

import math

import numpy as np

INF = float('inf')


def num(v):
    """Float value of a literal: int, float, or ('rat', p, q) / ('sq', n) / ('pi',) / ('e',)."""
    if isinstance(v, tuple):
        if v[0] == 'rat':
            return v[1] / v[2]
        if v[0] == 'sq':
            return math.sqrt(v[1])
        if v[0] == 'pi':
            return math.pi
        if v[0] == 'e':
            return math.e
        raise AssertionError(v)
    return float(v)


def lit(v):
    """The literal as handed to the system under test."""
    if isinstance(v, tuple):
        import sympy
        if v[0] == 'rat':
            return sympy.Rational(v[1], v[2])
        if v[0] == 'sq':
            return sympy.sqrt(v[1])
        if v[0] == 'pi':
            return sympy.pi
        if v[0] == 'e':
            return sympy.E
        raise AssertionError(v)
    return v


def lit_src(v):
    if isinstance(v, tuple):
        if v[0] == 'rat':
            return '(%r/%r)' % (v[1], v[2])
        raise AssertionError(v)
    return repr(v)

# --------------------------------------------------------------------------
# Evaluation.  Undefined values are NaN; an undefined atom is neither true nor
# false (negation is pushed to the atoms).


def ev(t, env):
    """Evaluate an expression on numpy arrays env[name]; NaN where undefined."""
    with np.errstate(all='ignore'):
        return _ev(t, env)


# When set to a boolean array, points whose evaluation left the range where
# floating-point results can be trusted are marked.
TAINT = [None]


def _taint(v, lo=0.0):
    if TAINT[0] is not None:
        a = np.abs(v)
        TAINT[0] = TAINT[0] | (a > 1e12) | (a < lo)
    return v


def _ev(t, env):
    k = t[0]
    if k == 'var':
        return np.asarray(env[t[1]], dtype=float)
    if k == 'add':
        return _ev(t[1], env) + num(t[2])
    if k == 'radd':
        return num(t[1]) + _ev(t[2], env)
    if k == 'sub':
        return _ev(t[1], env) - num(t[2])
    if k == 'rsub':
        return num(t[1]) - _ev(t[2], env)
    if k == 'mul':
        return _ev(t[1], env) * num(t[2])
    if k == 'rmul':
        return num(t[1]) * _ev(t[2], env)
    if k == 'div':
        return _ev(t[1], env) / num(t[2])
    if k == 'rdiv':
        x = _ev(t[2], env)
        return np.where(x == 0, np.nan, num(t[1]) / np.where(x == 0, 1.0, x))
    if k == 'neg':
        return -_ev(t[1], env)
    if k == 'abs':
        return np.abs(_ev(t[1], env))
    if k == 'ipow':
        x = _ev(t[1], env)
        if t[2] > 0:
            return _taint(x ** float(t[2]))
        y = x ** float(-t[2])
        return np.where(y == 0, np.nan, 1.0 / np.where(y == 0, 1.0, y))
    if k in ('root', 'sqrt'):
        n = 2 if k == 'sqrt' else t[2]
        x = _ev(t[1], env)
        r = np.where(x < 0, np.nan, np.abs(x)) ** (1.0 / abs(n))
        if n < 0:
            return np.where(r == 0, np.nan, 1.0 / np.where(r == 0, 1.0, r))
        return r
    if k == 'exp':
        return _taint(np.exp(_ev(t[1], env)), 1e-12)
    if k == 'log':
        x = _ev(t[1], env)
        return np.log(np.where(x <= 0, np.nan, x))
    if k == 'bexp':
        return _taint(num(t[1]) ** _ev(t[2], env), 1e-12)
    if k == 'blog':
        x = _ev(t[1], env)
        return np.log(np.where(x <= 0, np.nan, x)) / math.log(num(t[2]))
    if k == 'padd':
        return _ev(t[1], env) + _ev(t[2], env)
    if k == 'psub':
        return _ev(t[1], env) - _ev(t[2], env)
    if k == 'pmul':
        return _ev(t[1], env) * _ev(t[2], env)
    if k == 'piece':
        out = None
        for e, evt in t[1]:
            v = _ev(e, env)
            c = truth(evt, env)
            cur = np.where(c, v, np.nan)
            out = cur if out is None else np.where(c, cur, out)
        return out
    if k == 'ind':
        a = truth(t[1], env)
        b = truth(('not', t[1]), env)
        return np.where(a, 1.0, np.where(b, 0.0, np.nan))
    raise AssertionError(t)


def _opcmp(op, x, v):
    if op == '<':
        return x < v
    if op == '<=':
        return x <= v
    if op == '>':
        return x > v
    if op == '>=':
        return x >= v
    raise AssertionError(op)


def truth(t, env, neg=False):
    """Truth of an event on numpy arrays; a nominal variable is an array of str."""
    with np.errstate(all='ignore'):
        return _truth(t, env, neg)


def _truth(t, env, neg):
    k = t[0]
    if k == 'not':
        return _truth(t[1], env, not neg)
    if k in ('and', 'or'):
        parts = [_truth(s, env, neg) for s in t[1:]]
        f = np.logical_and if ((k == 'and') != neg) else np.logical_or
        r = parts[0]
        for p in parts[1:]:
            r = f(r, p)
        return r
    if k == 'xor':
        a, b = t[1], t[2]
        return _truth(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), env, neg)
    if k in ('nom', 'nnom'):
        xs = env[t[1]]
        isin = np.array([x in t[2] for x in np.atleast_1d(np.asarray(xs, dtype=object))])
        if k == 'nnom':
            isin = ~isin
        return ~isin if neg else isin
    x = _ev(t[1], env)
    defd = ~np.isnan(x)
    if k == 'cmp':
        r = _opcmp(t[2], x, num(t[3]))
    elif k == 'rng':
        r = _opcmp({'<': '>', '<=': '>='}[t[3]], x, num(t[2])) & _opcmp(t[5], x, num(t[4]))
    elif k == 'ivl':
        a, b, lo, hi = t[2]
        r = ((x > num(a)) if lo else (x >= num(a))) & ((x < num(b)) if hi else (x <= num(b)))
    elif k in ('in', 'nin'):
        r = np.zeros(x.shape, dtype=bool)
        for v in t[2]:
            r = r | (x == num(v))
        if k == 'nin':
            r = ~r
    else:
        raise AssertionError(t)
    return (~r & defd) if neg else (r & defd)


def expr_vars(t):
    if t[0] == 'var':
        return {t[1]}
    out = set()
    for s in t[1:]:
        if t[0] == 'piece' and isinstance(s, tuple) and s and isinstance(s[0], tuple):
            for e, v in s:
                out |= expr_vars(e) | event_vars(v)
        elif t[0] == 'ind':
            out |= event_vars(s)
        elif isinstance(s, tuple) and s and isinstance(s[0], str) and s[0] not in ('rat', 'sq', 'pi', 'e'):
            out |= expr_vars(s)
    return out


def event_vars(t):
    k = t[0]
    if k in ('not', 'and', 'or', 'xor'):
        out = set()
        for s in t[1:]:
            out |= event_vars(s)
        return out
    if k in ('nom', 'nnom'):
        return {t[1]}
    return expr_vars(t[1])


def atoms(t):
    """Atomic predicates of an event (with multiplicity)."""
    if t[0] in ('not', 'and', 'or', 'xor'):
        out = []
        for s in t[1:]:
            out.extend(atoms(s))
        return out
    return [t]


def subst(t, sub):
    """Replace variables of an expression/event by expressions."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'var':
        return sub.get(t[1], t)
    if t[0] in ('nom', 'nnom', 'rat', 'sq', 'pi', 'e'):
        return t
    return tuple(subst(s, sub) if isinstance(s, tuple) else s for s in t)


def literals(t, out=None):
    """All numeric constants appearing in a term."""
    if out is None:
        out = []
    if isinstance(t, tuple):
        if t and t[0] in ('rat', 'sq', 'pi', 'e'):
            out.append(num(t))
        elif t and t[0] in ('nom', 'nnom'):
            pass
        else:
            for s in t:
                literals(s, out)
    elif isinstance(t, (int, float)) and not isinstance(t, bool):
        out.append(float(t))
    return out

# --------------------------------------------------------------------------
# Translation to the system under test through its public operators.


class Build:
    def __init__(self, T=None, S=None):
        import sppl.transforms
        import sppl.sets
        self.T = T or sppl.transforms
        self.S = S or sppl.sets
        self.ids = {}

    def id(self, name):
        if name not in self.ids:
            self.ids[name] = self.T.Id(name)
        return self.ids[name]

    def expr(self, t):
        T = self.T
        k = t[0]
        if k == 'var':
            return self.id(t[1])
        if k == 'add':
            return self.expr(t[1]) + lit(t[2])
        if k == 'radd':
            return lit(t[1]) + self.expr(t[2])
        if k == 'sub':
            return self.expr(t[1]) - lit(t[2])
        if k == 'rsub':
            return lit(t[1]) - self.expr(t[2])
        if k == 'mul':
            return self.expr(t[1]) * lit(t[2])
        if k == 'rmul':
            return lit(t[1]) * self.expr(t[2])
        if k == 'div':
            return self.expr(t[1]) / lit(t[2])
        if k == 'rdiv':
            return lit(t[1]) / self.expr(t[2])
        if k == 'neg':
            return -self.expr(t[1])
        if k == 'abs':
            return abs(self.expr(t[1]))
        if k == 'ipow':
            return self.expr(t[1]) ** t[2]
        if k == 'root':
            if t[2] > 0:
                return self.expr(t[1]) ** (1, t[2])
            return self.expr(t[1]) ** (-1, -t[2])
        if k == 'sqrt':
            return T.Sqrt(self.expr(t[1]))
        if k == 'exp':
            return T.Exp(self.expr(t[1]))
        if k == 'log':
            return T.Log(self.expr(t[1]))
        if k == 'bexp':
            return lit(t[1]) ** self.expr(t[2])
        if k == 'blog':
            return T.Logarithm(self.expr(t[1]), base=lit(t[2]))
        if k == 'padd':
            return self.expr(t[1]) + self.expr(t[2])
        if k == 'psub':
            return self.expr(t[1]) - self.expr(t[2])
        if k == 'pmul':
            return self.expr(t[1]) * self.expr(t[2])
        if k == 'piece':
            out = None
            for i, (e, evt) in enumerate(t[1]):
                a, b = self.expr(e), self.event(evt)
                # Both spellings are public: expr * event, event * expr.
                # Between two events, the left one is the guard.
                p = a * b if i % 2 == 0 and e[0] != 'ind' else b * a
                out = p if out is None else out + p
            return out
        if k == 'ind':
            return self.event(t[1])
        raise AssertionError(t)

    def event(self, t):
        k = t[0]
        if k == 'not':
            return ~self.event(t[1])
        if k in ('and', 'or'):
            out = self.event(t[1])
            for s in t[2:]:
                e = self.event(s)
                out = (out & e) if k == 'and' else (out | e)
            return out
        if k == 'xor':
            return self.event(t[1]) ^ self.event(t[2])
        if k == 'nom':
            return self.id(t[1]) << set(t[2])
        if k == 'nnom':
            return ~(self.id(t[1]) << set(t[2]))
        e = self.expr(t[1])
        if k == 'cmp':
            v = lit(t[3])
            return {'<': lambda: e < v, '<=': lambda: e <= v,
                    '>': lambda: e > v, '>=': lambda: e >= v}[t[2]]()
        if k == 'rng':
            lo, hi = lit(t[2]), lit(t[4])
            left = (lo < e) if t[3] == '<' else (lo <= e)
            return (left < hi) if t[5] == '<' else (left <= hi)
        if k == 'ivl':
            a, b, lo, hi = t[2]
            return e << self.S.Interval(lit(a), lit(b), left_open=lo, right_open=hi)
        if k == 'in':
            return e << {lit(v) for v in t[2]}
        if k == 'nin':
            return ~(e << {lit(v) for v in t[2]})
        raise AssertionError(t)


def flatten_str(t):
    """Human readable form of a term."""
    k = t[0]
    f = flatten_str
    L = lambda v: lit_src(v) if not (isinstance(v, tuple) and v[0] != 'rat') else '%s' % (v,)
    if k == 'var':
        return t[1]
    if k in ('add', 'sub', 'mul', 'div'):
        return '(%s %s %s)' % (f(t[1]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[k], L(t[2]))
    if k in ('radd', 'rsub', 'rmul', 'rdiv'):
        return '(%s %s %s)' % (L(t[1]), {'radd': '+', 'rsub': '-', 'rmul': '*', 'rdiv': '/'}[k], f(t[2]))
    if k == 'neg':
        return '-(%s)' % f(t[1])
    if k == 'abs':
        return 'abs(%s)' % f(t[1])
    if k == 'ipow':
        return '(%s)**%d' % (f(t[1]), t[2])
    if k == 'root':
        return '(%s)**(1,%d)' % (f(t[1]), t[2])
    if k in ('sqrt', 'exp', 'log'):
        return '%s(%s)' % (k, f(t[1]))
    if k == 'bexp':
        return '%s**(%s)' % (L(t[1]), f(t[2]))
    if k == 'blog':
        return 'log(%s; %s)' % (f(t[1]), L(t[2]))
    if k in ('padd', 'psub', 'pmul'):
        return '(%s %s %s)' % (f(t[1]), {'padd': '+', 'psub': '-', 'pmul': '*'}[k], f(t[2]))
    if k == 'piece':
        return ' + '.join('(%s)*[%s]' % (f(e), f(v)) for e, v in t[1])
    if k == 'ind':
        return '1[%s]' % f(t[1])
    if k == 'not':
        return '~(%s)' % f(t[1])
    if k in ('and', 'or', 'xor'):
        return '(' + {'and': ' & ', 'or': ' | ', 'xor': ' ^ '}[k].join(f(s) for s in t[1:]) + ')'
    if k == 'nom':
        return '(%s << {%s})' % (t[1], ', '.join(map(repr, t[2])))
    if k == 'nnom':
        return '~(%s << {%s})' % (t[1], ', '.join(map(repr, t[2])))
    if k == 'cmp':
        return '(%s %s %s)' % (f(t[1]), t[2], L(t[3]))
    if k == 'rng':
        return '(%s %s %s %s %s)' % (L(t[2]), t[3], f(t[1]), t[5], L(t[4]))
    if k == 'ivl':
        a, b, lo, hi = t[2]
        return '(%s << %s%s, %s%s)' % (f(t[1]), '(' if lo else '[', L(a), L(b), ')' if hi else ']')
    if k in ('in', 'nin'):
        return '%s(%s << {%s})' % ('~' if k == 'nin' else '', f(t[1]), ', '.join(map(L, t[2])))
    return repr(t)
