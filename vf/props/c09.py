"""C09: probability laws and mutual information hold across queries.

Answers to related queries on one model are compared with each other (laws
need no reference), and mutual information with its definition evaluated on
the reference joint probabilities."""
import math

from .. import mquery, terms
from ..mquery import S, lp_query


def xlogy(p, q):
    return p * math.log(q) if p > 0 else 0.0


def mi_def(p11, p10, p01, p00):
    a1, a0, b1, b0 = p11 + p10, p01 + p00, p11 + p01, p10 + p00
    out = 0.0
    for p, x, y in ((p11, a1, b1), (p10, a1, b0), (p01, a0, b1), (p00, a0, b0)):
        if p > 1e-300:
            out += p * math.log(p / (x * y))
    return out


def entropy(p):
    return -sum(x * math.log(x) for x in (p, 1 - p) if x > 0)


T = 1e-8


def case(ctx, rng, idx):
    M = mquery.M(ctx, rng, total=True, mixed=False)
    (ta, tb), (A, B) = M.events(2, widths=(1, 1, 2, 2, 3), maxdnf=4)
    spe, evid = M.spe, []
    if rng.random() < 0.3:
        tc = M.eg.sized(widths=(1, 1, 2), maxdnf=3)
        o = M.oracle([tc])
        if o.prob(lambda k: k[0]) > 1e-3:
            spe = ctx.call('condition', spe.condition, M.ev(tc))
            evid = [tc]
            ctx.desc('%s | %s' % (ctx.case_desc, S(tc)))
            ctx.count('conditioned')
    if rng.random() < 0.15:
        # Certain and impossible events.
        v = rng.choice(M.mg.nums + M.mg.noms)
        if v in M.mg.noms:
            tb = rng.choice([('nom', v, ('a', 'b', 'c', 'd', 'zz', '', 'A b')), ('nom', v, ('q',))])
        else:
            tb = rng.choice([('nin', ('var', v), (1000.5,)), ('cmp', ('var', v), '<', -10000),
                             ('or', ta, ('not', ta)), ('and', ta, ('not', ta))])
        B = M.ev(tb)
        ctx.count('extreme')
    P = lambda E: lp_query(ctx, rng, spe, E)
    desc = lambda: 'A = %s, B = %s' % (S(ta), S(tb))

    def law(name, lhs, rhs, tol=T):
        ctx.evaluations += 1
        ctx.count('law:' + name)
        ctx.check(abs(lhs - rhs) <= tol, 'law:' + name, lambda: '%s: %.12g, should be %.12g; %s' % (name, lhs, rhs, desc()))
    pa, pb = P(A), P(B)
    pab = P(A & B)
    law('complement', P(~A), 1 - pa)
    law('complement', P(~B), 1 - pb)
    law('inclusion-exclusion', P(A | B), pa + pb - pab)
    p10, p01 = P(A & ~B), P(~A & B)
    law('additivity', pab + p10, pa)
    law('additivity', pab + p01, pb)
    law('neither', P(~(A | B)), 1 - pa - pb + pab)
    law('xor', P(A ^ B), p10 + p01)
    law('idempotent', P(A & A), pa)
    law('idempotent', P(B | B), pb)
    ctx.check(pab <= min(pa, pb) + T, 'law:monotone', desc)
    # A partition of one variable.
    v = rng.choice(M.mg.nums + M.mg.noms)
    if v in M.mg.noms:
        vs = ['a', 'b', 'c', 'd', 'zz', '', 'A b']
        rng.shuffle(vs)
        k = rng.randint(1, 5)
        cells = [('nom', v, tuple(vs[:k])), ('nom', v, tuple(vs[k:])), ('nnom', v, tuple(vs))]
    else:
        cuts = sorted(set(rng.choice([-2, -1, 0, 1, 2, 3, 0.5]) for _ in range(rng.randint(1, 3))))
        x = ('var', v)
        cells = [('cmp', x, '<', cuts[0])]
        for a, b in zip(cuts, cuts[1:] + [None]):
            if b is None:
                cells.append(('cmp', x, '>=', a))
            elif rng.random() < 0.5:
                cells.append(('rng', x, a, '<=', b, '<'))
            else:
                cells += [('in', x, (a,)), ('rng', x, a, '<', b, '<')]
    sc = [M.ev(c) for c in cells]
    law('partition', sum(P(A & c) for c in sc), pa)
    law('partition', sum(P(c) for c in sc), 1)
    # Mutual information.
    MI = lambda X, Y: float(ctx.call('mutual_information', spe.mutual_information, X, Y))
    o = M.oracle([ta, tb], evid)

    def want_mi():
        q = [o.prob(lambda k: k[0] and k[1]), o.prob(lambda k: k[0] and not k[1]),
             o.prob(lambda k: not k[0] and k[1]), o.prob(lambda k: not k[0] and not k[1])]
        return mi_def(*q)
    mi = MI(A, B)
    w = want_mi()
    tol = 1e-7 if not evid else 1e-6
    if abs(mi - w) > tol:
        o.n = mquery.DENSE
        o._load()
        w = want_mi()
    ctx.check(abs(mi - w) <= tol, 'mi:value', lambda: 'mutual information %r, should be %r; %s' % (mi, w, desc()))
    ctx.check(mi >= -1e-9, 'mi:negative', lambda: 'mutual information %r; %s' % (mi, desc()))
    k = rng.randrange(4)
    if k == 0:
        law('mi-symmetric', MI(B, A), mi)
    elif k == 1:
        law('mi-complement', MI(~A, B), mi)
    elif k == 2:
        law('mi-complement', MI(A, ~B), mi)
    law('mi-entropy', MI(A, A), entropy(min(1.0, max(0.0, pa))), 1e-7)
    law('mi-entropy', MI(B, ~B), entropy(min(1.0, max(0.0, pb))), 1e-7)
    if M.spec[0] == 'prod' and not evid:
        # Events on different factors are independent.
        p0 = set(vars_of(M.spec[1][0]))
        ea, eb = None, None
        for _ in range(10):
            t = M.eg.sized(widths=(1, 1, 2), maxdnf=3)
            vs = terms.event_vars(t)
            if vs <= p0:
                ea = t
            elif not vs & p0:
                eb = t
        if ea and eb:
            law('mi-independent', MI(M.ev(ea), M.ev(eb)), 0)
            law('independent', P(M.ev(('and', ea, eb))), P(M.ev(ea)) * P(M.ev(eb)))
    if 1e-9 < pa < 1 - 1e-9:
        ctx.seen((ctx.case_desc,))
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append('%s: MI %.6g' % (ctx.case_desc[:300], mi))


def vars_of(spec):
    if spec[0] == 'sum':
        return vars_of(spec[1][0][1])
    if spec[0] == 'prod':
        return [v for s in spec[1] for v in vars_of(s)]
    der = spec[4] if spec[0] == 'leaf' else spec[3] if spec[0] == 'atom' else ()
    return [spec[1]] + [z for z, _ in der]
