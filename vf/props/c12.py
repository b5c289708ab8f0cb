"""C12: densities of assignments are exact, discrete atoms dominating.

Densities reported for assignments to subsets of the base variables, of plain
and of conditioned models, against the reference mixture of components."""
import math
from fractions import Fraction as F

from .. import mquery, ref, terms
from ..mquery import S


def value(rng, M, v, comp, wild):
    """A value for base variable v, usually inside the support of the component."""
    b = comp.bases[v]
    if wild and rng.random() < 0.25:
        return rng.choice(['a', 'b', 'q', '', 0, 1, -3, 0.5, 77, -1e6, 2.5, math.inf, -math.inf])
    if b.kind == 'nom':
        return rng.choice(list(b.data) + (['q'] if wild else []))
    if b.kind == 'disc':
        x = rng.choice(sorted(x for x, p in b.data.items() if p > 1e-6))
        if wild and rng.random() < 0.3:
            x += rng.choice([-1, 1, 0.5])
        return rng.choice([int(x), float(x)]) if x == int(x) else x
    q = rng.uniform(0.02, 0.98)
    x = round(float(b.data.ppf(q)), 5)
    if wild and rng.random() < 0.3:
        x = round(x + rng.choice([-5, 5, 3.3]), 5)
    return x


def assignment(rng, M, wild=False, among=None):
    comp = rng.choice(M.ref.comps)
    vs = [v for v in (among or M.mg.bases)]
    k = rng.randint(1, len(vs))
    return {v: value(rng, M, v, comp, wild) for v in rng.sample(vs, k)}


def sysasg(M, asg):
    return {M.mb.b.id(v): x for v, x in asg.items()}


def show_asg(asg):
    return '{%s}' % ', '.join('%s: %r' % kv for kv in asg.items())


def case(ctx, rng, idx):
    from sppl.spe import Memo
    M = mquery.M(ctx, rng, dtotal=True, mixed=rng.random() < 0.5)
    spe, evid = M.spe, []
    mixed = any(len({b.bases[v].kind == 'nom' for b in M.ref.comps}) > 1 for v in M.mg.bases)
    if rng.random() < 0.4 and not mixed:
        t0 = M.eg.sized(widths=(1, 1, 2), maxdnf=4)
        o = M.oracle([t0])
        if o.prob(lambda k: k[0]) > 1e-3:
            spe = ctx.call('condition', spe.condition, M.ev(t0))
            evid = [t0]
            ctx.desc('%s | %s' % (ctx.case_desc, S(t0)))
            ctx.count('conditioned')
    desc = ctx.case_desc
    memo = Memo()
    if rng.random() < 0.2:
        asg = assignment(rng, M)
        a = sysasg(M, asg) if rng.random() < 0.5 else {}
        a[rng.choice([M.mb.b.id('Unknown'), M.mg.bases[0]])] = rng.choice([1, 0.5, 'a'])
        ctx.rejects('unknown-variable', lambda: spe.logpdf(a), lambda: '%s @ %s' % (desc, a))
        ctx.count('unknown-variable')
    for _ in range(4):
        asg = assignment(rng, M, wild=rng.random() < 0.4)
        ctx.desc('%s @ %s' % (desc, show_asg(asg)))
        a = sysasg(M, asg)
        if rng.random() < 0.3:
            items = list(a.items())
            rng.shuffle(items)
            a = dict(items)
        k = rng.randrange(4)
        if k == 0:
            p = float(ctx.call('pdf', spe.pdf, a))
            lp = math.log(p) if p > 0 else -ref.INF
        else:
            lp = float(ctx.call('logpdf', spe.logpdf, a, *([], [memo], [memo], [False])[k]))
        ctx.evaluations += 1
        try:
            want = M.ref.density(asg, evid)[0][1]
            if not same(lp, want) and evid:
                want = M.ref.density(asg, evid, mquery.DENSE)[0][1]
        except (ref.Ambiguous, ref.TooBig):
            ctx.skip('ambiguous atom')
        if evid and not same(lp, want) and max(lp, want) < -25:
            # The reference resolves the ends of events to about 1e-14 only.
            ctx.count('unresolved')
            continue
        ctx.check(same(lp, want), 'density', lambda: '%s: log-density %r, should be %r' % (ctx.case_desc, lp, want))
        if want == -ref.INF:
            ctx.count('zero')
        else:
            ctx.seen((desc, show_asg(asg)))
            ctx.count('coordinates:%d' % len(asg))


def same(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        # Beyond the range of floating-point numbers.
        return (a if b == -ref.INF else b) < -700
    return abs(a - b) < 1e-7 * max(1, abs(b))
