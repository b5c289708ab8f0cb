"""C01: set operations are pointwise exact and total.

Every operation of a random operation tree is monitored: the truth vector of
its result over probe points is compared with the Boolean combination of the
operands' reference truth vectors."""
import math

import sympy

from .. import gen_sets as G
from ..terms import INF, lit, num

STRS = G.STR + ['zz']


def real_probes(t):
    """(numeric value, object handed to the system)"""
    ls = G.tree_lits(t, [])
    pts = {}
    for v in ls:
        pts[num(v)] = lit(v)
    fin = sorted(x for x in pts if not math.isinf(x))
    out = dict(pts)
    for x, y in zip(fin, fin[1:]):
        m = (x + y) / 2
        out.setdefault(m, m)
    for x in fin:
        for d in (-1e-3, 1e-3):
            out.setdefault(x + d, x + d)
    lo, hi = (fin[0], fin[-1]) if fin else (0.0, 0.0)
    for x in (lo - 1.0, hi + 1.0, 0.0, -1e15, 1e15):
        out.setdefault(x, x)
    out.setdefault(INF, INF)
    out.setdefault(-INF, -INF)
    return sorted(out.items())


def walk(ctx, t, R):
    """Build t bottom-up; returns (system set, truth over R, truth over STRS, kind)."""
    k = t[0]
    if k in ('fr', 'iv', 'fn', 'empty'):
        S = ctx.call('construct', G.build_atom, t)
        rt = [G.member(t, x) for x, _ in R]
        st = [G.member(t, s) for s in STRS]
        monitor(ctx, S, rt, st, R, t)
        return S, rt, st
    if k == 'not':
        A, ra, sa = walk(ctx, t[1], R)
        kind = 'mixed' if any(ra) and any(sa) else 'real' if any(ra) else 'nom' if any(sa) else 'empty'
        if kind == 'empty':
            # By convention the complement of the empty set is the real line.
            if A is not ctx.sets.EmptySet:
                ctx.violation('empty-not-EmptySet', '%s denotes the empty set but is %r' % (G.show(t[1]), A))
        if kind == 'mixed':
            return A, ra, sa
        S = ctx.call('~', lambda: ~A)
        if kind in ('real', 'empty'):
            rt = [(not v) and not math.isinf(x) for v, (x, _) in zip(ra, R)]
            st = [False] * len(STRS)
        else:
            rt = [False] * len(R)
            st = [not v for v in sa]
        ctx.count('complement')
    else:
        A, ra, sa = walk(ctx, t[1], R)
        B, rb, sb = walk(ctx, t[2], R)
        if k == 'or':
            S = ctx.call('|', lambda: A | B)
            f = lambda x, y: x or y
        else:
            S = ctx.call('&', lambda: A & B)
            f = lambda x, y: x and y
        rt = [f(x, y) for x, y in zip(ra, rb)]
        st = [f(x, y) for x, y in zip(sa, sb)]
        ctx.count('union' if k == 'or' else 'intersection')
    monitor(ctx, S, rt, st, R, t)
    return S, rt, st


def monitor(ctx, S, rt, st, R, t):
    ctx.check(isinstance(S, ctx.sets.Set), 'not-a-set', lambda: '%s gave %r' % (G.show(t), S))
    for (x, obj), want in zip(R, rt):
        got = bool(ctx.call('in', lambda: obj in S))
        if got != want:
            ctx.violation('membership:%s' % t[0], '%r in %s is %s, should be %s\nset built as %s'
                          % (obj, S, got, want, G.show(t)))
    for s, want in zip(STRS, st):
        # A string is only ever compared with string parts.
        got = str_in(ctx, s, S)
        if got != want:
            ctx.violation('membership-str:%s' % t[0], '%r in %s is %s, should be %s\nset built as %s'
                          % (s, S, got, want, G.show(t)))
    ctx.evaluations += len(R) + len(STRS)
    if any(rt) or any(st):
        ctx.seen((str(S),))


def str_in(ctx, s, S):
    sets = ctx.sets
    if isinstance(S, sets.Union):
        return any(str_in(ctx, s, p) for p in S)
    if isinstance(S, sets.Interval):
        return False
    return bool(ctx.call('in', lambda: s in S))


def setup(ctx):
    import sppl.sets
    ctx.sets = sppl.sets


def case(ctx, rng, idx):
    kinds = rng.choice([['real'], ['real'], ['real'], ['nom'], ['real', 'nom']])
    t = G.gen_tree(rng, rng.choice([1, 1, 2, 2, 3, 3, 4]), kinds)
    ctx.desc(G.show(t))
    walk(ctx, t, real_probes(t))
    if rng.random() < 0.01 and len(ctx.samples) < 6:
        ctx.samples.append(G.show(t)[:300])
