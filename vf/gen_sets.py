"""Random sets as operation trees, with a reference membership predicate.

tree: ('fr', values) ('iv', a, b, lo, ro) ('fn', strings, b) ('empty',)
      ('or', t, t) ('and', t, t) ('not', t)
Literals are as in terms (ints, floats, ('rat', p, q), inf)."""
import math

from .terms import INF, lit, num

STR = ['a', 'b', 'c', 'd', '']


def gen_lit(rng, typed=True, wide=False):
    r = rng.random()
    if r < 0.55 or not typed:
        return rng.randint(-3, 3)
    if r < 0.75:
        return rng.randint(-6, 6) / 2
    if r < 0.9:
        q = rng.choice([2, 3, 4, 7])
        return ('rat', rng.randint(-8, 8), q)
    if r < 0.95:
        return float(rng.randint(-3, 3))
    if wide:
        return rng.choice([1e-12, -1e-12, 1e9, -1e9, 0.1, 0.30000000000000004, ('sq', 2), ('pi',)])
    return rng.choice([0.1, 0.25, -0.1, 1.7])


def gen_atom(rng, kinds, inf=True):
    k = rng.choice(kinds)
    if k == 'real':
        if rng.random() < 0.4:
            vs = [gen_lit(rng) for _ in range(rng.randint(1, 4))]
            if inf and rng.random() < 0.12:
                vs.append(rng.choice([INF, -INF]))
            return ('fr', tuple(vs))
        while True:
            a, b = gen_lit(rng), gen_lit(rng)
            r = rng.random()
            if r < 0.15:
                a = -INF
            elif r < 0.3:
                b = INF
            elif r < 0.33:
                a, b = -INF, INF
            if num(a) < num(b):
                break
        return ('iv', a, b, rng.random() < 0.5, rng.random() < 0.5)
    if k == 'nom':
        n = rng.randint(0, 3)
        b = rng.random() < 0.35
        vs = tuple(sorted(set(rng.choice(STR) for _ in range(n))))
        if not vs and not b:
            vs = ('a',)
        return ('fn', vs, b)
    return ('empty',)


def gen_tree(rng, depth, kinds, inf=True):
    """kinds: list drawn from 'real', 'nom' ('empty' rarely added)."""
    if depth <= 0 or rng.random() < 0.12:
        if rng.random() < 0.03:
            return ('empty',)
        return gen_atom(rng, kinds, inf)
    r = rng.random()
    if r < 0.4:
        return ('or', gen_tree(rng, depth - 1, kinds, inf), gen_tree(rng, depth - 1, kinds, inf))
    if r < 0.75:
        return ('and', gen_tree(rng, depth - 1, kinds, inf), gen_tree(rng, depth - 1, kinds, inf))
    return ('not', gen_tree(rng, depth - 1, kinds, inf))


def member(t, x):
    """Reference membership; x is a float or a str.  Returns True/False."""
    k = t[0]
    if k == 'empty':
        return False
    if k == 'fr':
        return not isinstance(x, str) and any(num(v) == x for v in t[1])
    if k == 'iv':
        if isinstance(x, str) or math.isinf(x):
            return False
        _, a, b, lo, ro = t
        a, b = num(a), num(b)
        return (a < x if lo else a <= x) and (x < b if ro else x <= b)
    if k == 'fn':
        if not isinstance(x, str):
            return False
        return (x not in t[1]) if t[2] else (x in t[1])
    if k == 'or':
        return member(t[1], x) or member(t[2], x)
    if k == 'and':
        return member(t[1], x) and member(t[2], x)
    raise AssertionError(t)


def kind_of(S):
    """Which of real / string parts a system set has, by public structure."""
    import sppl.sets as s
    if S is s.EmptySet:
        return 'empty'
    if isinstance(S, s.FiniteNominal):
        return 'nom'
    if isinstance(S, (s.FiniteReal, s.Interval)):
        return 'real'
    ks = {kind_of(p) for p in S}
    return ks.pop() if len(ks) == 1 else 'mixed'


def build_atom(t):
    import sppl.sets as s
    k = t[0]
    if k == 'empty':
        return s.EmptySet
    if k == 'fr':
        return s.FiniteReal(*[lit(v) for v in t[1]])
    if k == 'iv':
        return s.Interval(lit(t[1]), lit(t[2]), left_open=t[3], right_open=t[4])
    if k == 'fn':
        return s.FiniteNominal(*t[1], b=t[2])
    raise AssertionError(t)


def tree_lits(t, out):
    if t[0] == 'fr':
        out.extend(t[1])
    elif t[0] == 'iv':
        out.extend(t[1:3])
    elif t[0] in ('or', 'and', 'not'):
        for s in t[1:]:
            tree_lits(s, out)
    return out


def show(t):
    k = t[0]
    L = lambda v: '%d/%d' % v[1:] if isinstance(v, tuple) and v[0] == 'rat' else repr(v)
    if k == 'empty':
        return 'EmptySet'
    if k == 'fr':
        return '{%s}' % ', '.join(map(L, t[1]))
    if k == 'iv':
        return '%s%s,%s%s' % ('(' if t[3] else '[', L(t[1]), L(t[2]), ')' if t[4] else ']')
    if k == 'fn':
        return '%s{%s}' % ('~' if t[2] else '', ', '.join(map(repr, t[1])))
    if k == 'not':
        return '~(%s)' % show(t[1])
    return '(%s %s %s)' % (show(t[1]), '|' if k == 'or' else '&', show(t[2]))
