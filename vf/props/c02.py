"""C02: canonical form, equality and hash of sets.

Each set is reached by several histories: the original operation tree, a
rewritten tree (commuted, reassociated, De Morgan, distributed, literals in
other numeric types), and a union of shuffled, split pieces of its reference
normal form.  All routes must be == with equal hashes, and the parts of the
result must be exactly the reference normal form."""
import math

import sympy

from .. import gen_sets as G
from ..terms import INF, lit, num


def retype(rng, v):
    """The same number in another numeric type (exactly representable only)."""
    if isinstance(v, tuple):
        if v[0] != 'rat':
            return v
        p, q = v[1], v[2]
        g = math.gcd(p, q)
        p, q = p // g, q // g
        if q == 1:
            return rng.choice([p, float(p), ('rat', p, 1)])
        if q & (q - 1) == 0:
            return rng.choice([p / q, ('rat', p, q)])
        return rng.choice([('rat', p, q), ('rat', 2 * p, 2 * q)])
    if isinstance(v, float) and math.isinf(v):
        return v
    f = float(v)
    if f * 4 == int(f * 4):
        out = [f, ('rat', int(f * 4), 4)]
        if f == int(f):
            out += [int(f), ('rat', int(f), 1)]
        return rng.choice(out)
    return v


def rewrite(rng, t, pure):
    k = t[0]
    if k == 'fr':
        vs = [retype(rng, v) for v in t[1]]
        rng.shuffle(vs)
        if len(vs) > 1 and rng.random() < 0.4:
            i = rng.randint(1, len(vs) - 1)
            return ('or', ('fr', tuple(vs[:i])), ('fr', tuple(vs[i:])))
        return ('fr', tuple(vs))
    if k == 'iv':
        a, b = retype(rng, t[1]), retype(rng, t[2])
        lo, ro = t[3] or num(a) == -INF, t[4] or num(b) == INF
        t2 = ('iv', a, b, lo, ro)
        r = rng.random()
        na, nb = num(a), num(b)
        if r < 0.25 and na != -INF and nb != INF:
            return ('and', ('iv', -INF, b, True, ro), ('iv', a, INF, lo, True))
        if r < 0.45 and na != -INF and nb != INF and na + 0.5 < nb:
            m = na + 0.25
            return ('or', ('iv', m, b, rng.random() < 0.5, ro), ('iv', a, m, lo, False))
        return t2
    if k in ('fn', 'empty'):
        return t
    if k == 'not':
        s = t[1]
        if s[0] in ('or', 'and') and pure and rng.random() < 0.5 \
                and not kind_empty(s[1]) and not kind_empty(s[2]):
            return (('and' if s[0] == 'or' else 'or'), rewrite(rng, ('not', s[1]), pure),
                    rewrite(rng, ('not', s[2]), pure))
        return ('not', rewrite(rng, s, pure))
    a, b = rewrite(rng, t[1], pure), rewrite(rng, t[2], pure)
    if rng.random() < 0.5:
        a, b = b, a
    r = rng.random()
    if r < 0.25 and b[0] == k:
        return (k, (k, a, b[1]), b[2])
    if r < 0.4 and a[0] == k:
        return (k, a[1], (k, b, a[2]))
    other = 'and' if k == 'or' else 'or'
    if r < 0.6 and b[0] == other:
        return (other, (k, a, b[1]), (k, a, b[2]))
    if r < 0.7:
        return (k, (k, a, b), a)
    return (k, a, b)


def build(ctx, t):
    k = t[0]
    if k == 'not':
        A = build(ctx, t[1])
        return ctx.call('~', lambda: ~A)
    if k in ('or', 'and'):
        A, B = build(ctx, t[1]), build(ctx, t[2])
        return ctx.call(k, (lambda: A | B) if k == 'or' else (lambda: A & B))
    return ctx.call('construct', G.build_atom, t)


def member(t, x):
    """Reference membership for trees whose complements are of one kind."""
    k = t[0]
    if k == 'not':
        inner = member(t[1], x)
        if isinstance(x, str):
            return (not inner) and t[0] == 'not' and G_kind(t[1]) == 'nom'
        return (not inner) and not math.isinf(x) and G_kind(t[1]) == 'real'
    if k == 'or':
        return member(t[1], x) or member(t[2], x)
    if k == 'and':
        return member(t[1], x) and member(t[2], x)
    return G.member(t, x)


def G_kind(t):
    if t[0] in ('fr', 'iv'):
        return 'real'
    if t[0] == 'fn':
        return 'nom'
    if t[0] == 'not':
        return G_kind(t[1])
    return G_kind(t[1])


def norm(t):
    """Reference normal form: (points, intervals, string values, complemented)."""
    ls = G.tree_lits(t, [])
    obj = {num(v): v for v in ls}
    fin = sorted(x for x in obj if not math.isinf(x))
    ext = [x for x in (-INF, INF) if member(t, x)]
    cuts = fin
    mids = []
    if not cuts:
        mids = [member(t, 0.5)]
    else:
        mids = [member(t, cuts[0] - 1)] + [member(t, (a + b) / 2) for a, b in zip(cuts, cuts[1:])] \
            + [member(t, cuts[-1] + 1)]
    inpt = [member(t, c) for c in cuts]
    points, ivals = [], []
    n = len(cuts)
    i = 0
    # Scan alternating open cells and points.
    cur = None
    for j in range(2 * n + 1):
        if j % 2 == 0:
            isin = mids[j // 2]
            if isin:
                if cur is None:
                    left = -INF if j == 0 else cuts[j // 2 - 1]
                    cur = (left, True)
                elif cur[1] == 'pt':
                    cur = (cur[0], False)
            else:
                if cur is not None:
                    c = cuts[j // 2 - 1]
                    if cur[1] == 'pt':
                        points.append(c)
                    else:
                        ivals.append((cur[0], c, cur[1], False))
                    cur = None
        else:
            c = cuts[j // 2]
            if inpt[j // 2]:
                if cur is None:
                    cur = (c, 'pt')
            else:
                if cur is not None:
                    ivals.append((cur[0], c, cur[1], True))
                    cur = None
    if cur is not None:
        ivals.append((cur[0], INF, cur[1], True))
    co = member(t, 'zz')
    strs = tuple(s for s in G.STR if member(t, s) != co)
    return ext + points, ivals, strs, co, obj


def pieces_tree(rng, nf):
    points, ivals, strs, co, obj = nf
    ts = []
    pts = [obj.get(p, p) for p in points]
    rng.shuffle(pts)
    while pts:
        i = rng.randint(1, len(pts))
        ts.append(('fr', tuple(retype(rng, v) for v in pts[:i])))
        pts = pts[i:]
    for a, b, lo, ro in ivals:
        va, vb = retype(rng, obj.get(a, a)), retype(rng, obj.get(b, b))
        if rng.random() < 0.5:
            ts.append(('iv', va, vb, lo, ro))
        else:
            m = 0.0 if a == -INF and b == INF else a + 1 / 8 if a != -INF else b - 1 / 8
            if a != -INF and b != INF:
                m = (a + b) / 2
            r = rng.random()
            if r < 0.4:
                ts += [('iv', va, m, lo, True), ('iv', m, vb, True, ro), ('fr', (m,))]
            elif r < 0.7:
                ts += [('iv', va, m, lo, False), ('iv', m, vb, True, ro)]
            else:
                ts += [('iv', va, m, lo, True), ('iv', m, vb, False, ro)]
            if not lo and rng.random() < 0.5:
                ts.append(('fr', (va,)))
    if strs or co:
        if co or rng.random() < 0.5:
            ts.append(('fn', strs, co))
        else:
            ts += [('fn', (s,), False) for s in strs]
    rng.shuffle(ts)
    if not ts:
        return ('empty',)
    while len(ts) > 1:
        i = rng.randrange(len(ts) - 1)
        ts[i:i + 2] = [('or', ts[i], ts[i + 1])]
    return ts[0]


def check_parts(ctx, S, nf, desc):
    s = ctx.sets
    points, ivals, strs, co, _ = nf
    parts = list(S) if isinstance(S, s.Union) else [] if S is s.EmptySet else [S]
    want_n = (1 if points else 0) + len(ivals) + (1 if strs or co else 0)
    ctx.check(len(parts) == want_n, 'parts-count',
              lambda: '%s has parts %s; expected %d parts\n%s' % (S, [str(p) for p in parts], want_n, desc))
    seen = set()
    for p in parts:
        if isinstance(p, s.FiniteReal):
            vs = sorted(float(v) for v in p)
            ctx.check(vs == sorted(points) and 'fr' not in seen, 'parts-points',
                      lambda: '%s: points %s, expected %s\n%s' % (S, vs, sorted(points), desc))
            seen.add('fr')
        elif isinstance(p, s.Interval):
            key = (float(p.left), float(p.right), bool(p.left_open), bool(p.right_open))
            ctx.check(key in ivals and key not in seen, 'parts-interval',
                      lambda: '%s: interval %s, expected %s\n%s' % (S, key, ivals, desc))
            seen.add(key)
        elif isinstance(p, s.FiniteNominal):
            ctx.check('fn' not in seen and sorted(p) == sorted(strs) and ('zz' in p) == co, 'parts-strings',
                      lambda: '%s: strings %s, expected %s %s\n%s' % (S, p, strs, co, desc))
            seen.add('fn')
        else:
            ctx.violation('parts-type', '%r' % (p,))


def setup(ctx):
    import sppl.sets
    ctx.sets = sppl.sets


def case(ctx, rng, idx):
    kinds = rng.choice([['real'], ['real'], ['real'], ['nom'], ['real', 'nom']])
    t = G.gen_tree(rng, rng.choice([1, 2, 2, 3, 3]), kinds)
    if len(kinds) == 2:
        t = strip_not(t)
    t = drop_empty(rng, t, kinds == ['nom'])
    ctx.desc(G.show(t))
    nf = norm(t)
    S = build(ctx, t)
    check_parts(ctx, S, nf, G.show(t))
    routes = [rewrite(rng, t, len(kinds) == 1) for _ in range(2)] + [pieces_tree(rng, nf) for _ in range(2)]
    table = {S: 'first'}
    for r in routes:
        if r[0] == 'empty' and S is ctx.sets.EmptySet:
            continue
        # Rewriting must not have changed the reference set.
        if norm(r)[:4] != nf[:4]:
            raise AssertionError('rewrite changed the set: %s vs %s' % (G.show(t), G.show(r)))
        U = build(ctx, r)
        d = lambda: '%s  [%s]\n%s  [%s]' % (S, G.show(t), U, G.show(r))
        ctx.check(S == U and U == S and not (S != U), 'unequal', d)
        ctx.check(hash(S) == hash(U), 'hash', d)
        ctx.check(table.get(U) == 'first', 'lookup', d)
        check_parts(ctx, U, nf, G.show(r))
        ctx.evaluations += 1
        ctx.count('routes')
    # A different set must not compare equal.
    t2 = mutate(rng, t, kinds)
    nf2 = norm(t2)
    if nf2[:4] != nf[:4]:
        U = build(ctx, t2)
        ctx.check(not (S == U) and S != U, 'equal-different',
                  lambda: '%s == %s\n%s\n%s' % (S, U, G.show(t), G.show(t2)))
        ctx.count('different')
    # Subtraction of the set from itself is the empty set object.
    if len(kinds) == 1 and S is not ctx.sets.EmptySet:
        D = ctx.call('difference', lambda: S & ~S)
        has_inf = any(math.isinf(p) for p in nf[0])
        ctx.check(D is ctx.sets.EmptySet, 'self-difference', lambda: '%s & ~itself = %s' % (S, D))
    if nf[0] or nf[1] or nf[2] or nf[3]:
        ctx.seen(nf[:4])
    if rng.random() < 0.01 and len(ctx.samples) < 6:
        ctx.samples.append('%s -> %s; routes %s' % (G.show(t)[:200], S, [G.show(r)[:150] for r in routes]))


def strip_not(t):
    if t[0] == 'not':
        return strip_not(t[1])
    if t[0] in ('or', 'and'):
        return (t[0], strip_not(t[1]), strip_not(t[2]))
    return t


def drop_empty(rng, t, nom=False):
    if t[0] == 'empty':
        return ('fn', ('a',), False) if nom else ('fr', (0,))
    if t[0] in ('not', 'or', 'and'):
        t = (t[0],) + tuple(drop_empty(rng, s, nom) for s in t[1:])
        if t[0] == 'not' and kind_empty(t[1]):
            return t[1]
    return t


def kind_empty(t):
    n = norm(t)
    return not (n[0] or n[1] or n[2] or n[3])


def mutate(rng, t, kinds):
    if t[0] in ('or', 'and') and rng.random() < 0.8:
        if rng.random() < 0.5:
            return (t[0], mutate(rng, t[1], kinds), t[2])
        return (t[0], t[1], mutate(rng, t[2], kinds))
    if t[0] == 'not':
        m = mutate(rng, t[1], kinds)
        return t if kind_empty(m) else ('not', m)
    if t[0] == 'iv' and rng.random() < 0.6:
        return rng.choice([t[:3] + (not t[3], t[4]), t[:4] + (not t[4],)])
    return G.gen_atom(rng, [G_kind(t)])
