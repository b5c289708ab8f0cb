"""C26: primitive distributions agree with their definition.

Every distribution offered, with random valid parameters, locations and
scales: probabilities of unions of intervals and points, conditioned
probabilities and densities, total mass, and samples, against the functions of
the SciPy distribution (and against the given weights for tables)."""
import math
from fractions import Fraction as F

from .. import mquery

INF = math.inf


def shapes(rng):
    u = lambda a, b: round(rng.uniform(a, b), rng.choice([1, 2, 4]))
    i = rng.randint
    ab = sorted([u(-2.5, 2.5), u(-2.5, 2.5)])
    if ab[1] - ab[0] < 0.2:
        ab[1] += 1
    cd = sorted([u(0.05, 0.9), u(0.05, 0.9)])
    return {
        'alpha': lambda: dict(a=u(0.5, 5)), 'anglit': dict, 'arcsine': dict, 'argus': lambda: dict(chi=u(0.3, 3)),
        'beta': lambda: dict(a=u(0.5, 4), b=u(0.5, 4)), 'betaprime': lambda: dict(a=u(1, 4), b=u(1, 4)),
        'bradford': lambda: dict(c=u(0.2, 5)), 'burr': lambda: dict(c=u(1, 5), d=u(1, 4)),
        'burr12': lambda: dict(c=u(1, 5), d=u(1, 4)), 'cauchy': dict, 'chi': lambda: dict(df=u(1, 6)), 'chi2': lambda: dict(df=u(1, 6)),
        'cosine': dict, 'crystalball': lambda: dict(beta=u(0.5, 3), m=u(1.5, 4)), 'dgamma': lambda: dict(a=u(1, 4)),
        'dweibull': lambda: dict(c=u(1, 4)), 'erlang': lambda: dict(a=i(1, 5)), 'expon': dict, 'exponnorm': lambda: dict(K=u(0.5, 3)),
        'exponweib': lambda: dict(a=u(1, 4), c=u(1, 4)), 'exponpow': lambda: dict(b=u(1, 4)), 'f': lambda: dict(dfn=u(2, 9), dfd=u(2, 9)),
        'fatiguelife': lambda: dict(c=u(0.5, 3)), 'fisk': lambda: dict(c=u(1, 4)), 'foldcauchy': lambda: dict(c=u(0.2, 4)),
        'foldnorm': lambda: dict(c=u(0.2, 3)), 'genlogistic': lambda: dict(c=u(0.3, 3)), 'gennorm': lambda: dict(beta=u(0.6, 3)),
        'genpareto': lambda: dict(c=u(-0.5, 1)), 'genexpon': lambda: dict(a=u(1, 5), b=u(1, 5), c=u(1, 4)),
        'genextreme': lambda: dict(c=u(-0.8, 0.8)), 'gausshyper': lambda: dict(a=u(1, 4), b=u(1, 4), c=u(0.5, 2), z=u(0.5, 3)),
        'gamma': lambda: dict(a=u(0.5, 5)), 'gengamma': lambda: dict(a=u(1, 4), c=u(0.5, 3)), 'genhalflogistic': lambda: dict(c=u(0.2, 2)),
        'geninvgauss': lambda: dict(p=u(-2, 3), b=u(0.5, 3)), 'gilbrat': dict, 'gompertz': lambda: dict(c=u(0.3, 3)), 'gumbel_r': dict,
        'gumbel_l': dict, 'halfcauchy': dict, 'halflogistic': dict, 'halfnorm': dict, 'halfgennorm': lambda: dict(beta=u(0.6, 3)),
        'hypsecant': dict, 'invgamma': lambda: dict(a=u(1, 5)), 'invgauss': lambda: dict(mu=u(0.2, 3)), 'invweibull': lambda: dict(c=u(1, 5)),
        'johnsonsb': lambda: dict(a=u(0.2, 4), b=u(0.5, 3)), 'johnsonsu': lambda: dict(a=u(0.2, 3), b=u(0.5, 3)),
        'kappa4': lambda: dict(h=u(0.1, 1), k=u(0.1, 1)), 'kappa3': lambda: dict(a=u(0.5, 3)), 'ksone': lambda: dict(n=i(2, 40)),
        'kstwobign': dict, 'laplace': dict, 'levy': dict, 'levy_l': dict, 'levy_stable': lambda: dict(alpha=u(1.2, 1.9), beta=u(-0.6, 0.6)),
        'logistic': dict, 'loggamma': lambda: dict(c=u(0.3, 3)), 'loglaplace': lambda: dict(c=u(1, 4)), 'lognorm': lambda: dict(s=u(0.3, 2)),
        'loguniform': lambda: dict(a=u(0.1, 0.8), b=u(1, 5)), 'lomax': lambda: dict(c=u(1, 4)), 'maxwell': dict,
        'mielke': lambda: dict(k=u(1, 6), s=u(1, 6)), 'moyal': dict, 'nakagami': lambda: dict(nu=u(0.6, 5)),
        'ncx2': lambda: dict(df=u(2, 9), nc=u(0.3, 3)), 'ncf': lambda: dict(dfn=u(3, 9), dfd=u(3, 9), nc=u(0.3, 2)),
        'nct': lambda: dict(df=u(3, 9), nc=u(0.2, 1)), 'norm': dict, 'normal': dict,
        'norminvgauss': lambda: dict(a=u(1, 3), b=u(-0.8, 0.8)), 'pareto': lambda: dict(b=u(1, 4)),
        'powerlaw': lambda: dict(a=u(0.5, 3)), 'powerlognorm': lambda: dict(c=u(0.5, 3), s=u(0.3, 1)), 'powernorm': lambda: dict(c=u(0.5, 4)),
        'rdist': lambda: dict(c=u(1, 4)), 'rayleigh': dict, 'rice': lambda: dict(b=u(0.3, 2)), 'recipinvgauss': lambda: dict(mu=u(0.3, 2)),
        'semicircular': dict, 'skewnorm': lambda: dict(a=u(-3, 4)), 't': lambda: dict(df=u(1, 6)),
        'trapz': lambda: dict(c=cd[0], d=cd[1]), 'triang': lambda: dict(c=u(0.05, 0.95)), 'truncexpon': lambda: dict(b=u(0.5, 5)),
        'truncnorm': lambda: dict(a=ab[0], b=ab[1]), 'tukeylambda': lambda: dict(lam=u(0.1, 2)), 'uniform': dict,
        'vonmises': lambda: dict(kappa=u(0.3, 4)), 'vonmises_line': lambda: dict(kappa=u(0.3, 4)), 'wald': dict,
        'weibull_min': lambda: dict(c=u(0.7, 3)), 'weibull_max': lambda: dict(c=u(0.7, 3)), 'wrapcauchy': lambda: dict(c=u(0.1, 0.8)),
    }


def dshapes(rng):
    u = lambda a, b: round(rng.uniform(a, b), rng.choice([1, 2, 4]))
    i = rng.randint
    M = i(5, 25)
    lo = i(-5, 5)
    return {
        'bernoulli': lambda: dict(p=u(0.1, 0.9)), 'betabinom': lambda: dict(n=i(1, 9), a=u(0.3, 3), b=u(0.3, 3)),
        'binom': lambda: dict(n=i(1, 12), p=u(0.1, 0.9)), 'boltzmann': lambda: dict(lambda_=u(0.2, 2), N=i(2, 20)),
        'dlaplace': lambda: dict(a=u(0.3, 2)), 'geom': lambda: dict(p=u(0.1, 0.9)), 'hypergeom': lambda: dict(M=M, n=i(1, M), N=i(1, M)),
        'logser': lambda: dict(p=u(0.1, 0.9)), 'nbinom': lambda: dict(n=i(1, 6), p=u(0.2, 0.9)), 'planck': lambda: dict(lambda_=u(0.2, 2)),
        'poisson': lambda: dict(mu=u(0.2, 9)), 'randint': lambda: dict(low=lo, high=lo + i(1, 9)),
        'skellam': lambda: dict(mu1=u(0.5, 6), mu2=u(0.5, 6)), 'zipf': lambda: dict(a=u(1.5, 5)), 'yulesimon': lambda: dict(alpha=u(0.8, 6)),
    }


# The distribution function of pearson3 in the installed SciPy is undefined (not
# a number) below the support and decreasing for negative skew: there is no
# definition to agree with.
UNDEFINED = {'pearson3'}
SLOW = {'levy_stable', 'gausshyper', 'geninvgauss', 'norminvgauss', 'kappa4', 'ksone', 'ncf', 'nct', 'vonmises_line', 'skewnorm',
        'recipinvgauss', 'genexpon', 'argus', 'crystalball', 'tukeylambda', 'kstwobign', 'betabinom', 'rdist', 'genhalflogistic'}


class Cont:
    """Reference of a continuous distribution."""
    discrete = False

    def __init__(self, name, kw):
        import scipy.stats
        self.d = getattr(scipy.stats, {'normal': 'norm'}.get(name, name))(**kw)
        if name == 'vonmises':
            loc, sc = kw.get('loc', 0), kw.get('scale', 1)
            self.lo, self.hi = loc - sc * math.pi, loc + sc * math.pi
        else:
            self.lo, self.hi = map(float, self.d.support())

    def open(self, a, b):
        a, b = max(a, self.lo), min(b, self.hi)
        if not a < b:
            return 0.0
        return float(self.d.cdf(b)) - float(self.d.cdf(a))

    def point(self, x):
        return 0.0

    def logpdf(self, x):
        if not self.lo <= x <= self.hi:
            return -INF
        return float(self.d.logpdf(x))


class Disc:
    discrete = True

    def __init__(self, name, kw):
        import scipy.stats
        self.d = getattr(scipy.stats, name)(**kw)
        self.lo, self.hi = map(float, self.d.support())

    def open(self, a, b):
        """P(a < X < b)"""
        lo = -INF if a == -INF else math.floor(a)
        hi = INF if b == INF else math.ceil(b) - 1
        if hi <= lo:
            return 0.0
        return (1.0 if hi == INF else float(self.d.cdf(hi))) - (0.0 if lo == -INF else float(self.d.cdf(lo)))

    def point(self, x):
        return float(self.d.pmf(x)) if x == math.floor(x) else 0.0

    def logpdf(self, x):
        p = self.point(x)
        return math.log(p) if p > 0 else -INF


class Table:
    discrete = True

    def __init__(self, items):
        self.t = {}
        for x, w in items:
            self.t[x] = self.t.get(x, 0) + w
        self.lo, self.hi = min(self.t), max(self.t)

    def open(self, a, b):
        return float(sum(w for x, w in self.t.items() if a < x < b))

    def point(self, x):
        return float(self.t.get(x, 0))

    def logpdf(self, x):
        p = self.point(x)
        return math.log(p) if p > 0 else -INF


def prob(R, truth, cuts):
    """Probability of the set with the given membership function, constant between cuts."""
    cuts = sorted(set(cuts))
    ends = [-INF] + cuts + [INF]
    p = 0.0
    for a, b in zip(ends, ends[1:]):
        m = (a + b) / 2 if math.isfinite(a) and math.isfinite(b) else b - 1 if math.isfinite(b) else a + 1 if math.isfinite(a) else 0
        if a < m < b and truth(m):
            p += R.open(a, b)
        elif not a < m < b and truth(a) and truth(b):
            pass
    return p + sum(R.point(c) for c in cuts if truth(c))


class EG:
    """Random events over one number: (description, event of X, membership, cuts)."""

    def __init__(self, rng, thresholds):
        self.rng, self.ts = rng, thresholds

    def lit(self):
        rng = self.rng
        a = rng.choice(self.ts)
        b = rng.choice(self.ts)
        k = rng.randrange(9)
        if k < 4:
            op = rng.choice(['<', '<=', '>', '>='])
            f = {'<': lambda X: X < a, '<=': lambda X: X <= a, '>': lambda X: X > a, '>=': lambda X: X >= a}[op]
            return 'x %s %r' % (op, a), f, f, [a]
        if k < 6 and a != b:
            a, b = min(a, b), max(a, b)
            o1, o2 = rng.random() < 0.5, rng.random() < 0.5
            f = {(0, 0): lambda X: (a <= X) <= b, (0, 1): lambda X: (a <= X) < b, (1, 0): lambda X: (a < X) <= b, (1, 1): lambda X: (a < X) < b}[o1, o2]
            g = lambda x: (a < x if o1 else a <= x) and (x < b if o2 else x <= b)
            return '%r %s x %s %r' % (a, '<' if o1 else '<=', '<' if o2 else '<=', b), f, g, [a, b]
        if k == 6:
            vs = sorted({a, b})
            return 'x in %r' % vs, lambda X: X << set(vs), lambda x: x in vs, vs
        if k == 7:
            # Linear, exactly representable.
            m, c = rng.choice([2, -2, 4, -1]), rng.choice([0, 1, -3])
            t = m * F(a) + c
            return '%d*x %+d < %s' % (m, c, t), lambda X: m * X + c < t, lambda x: m * F(x) + c < t if math.isfinite(x) else m * x < 0, [a]
        c = abs(a)
        return 'abs(x) < %r' % c, lambda X: abs(X) < c, lambda x: abs(x) < c, [c, -c]

    def event(self):
        rng = self.rng
        d, f, g, c = self.lit()
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            d2, f2, g2, c2 = self.lit()
            if rng.random() < 0.5:
                d, f, g, c = ('(%s or %s)' % (d, d2), lambda X, f=f, f2=f2: f(X) | f2(X), lambda x, g=g, g2=g2: g(x) or g2(x), c + c2)
            else:
                d, f, g, c = ('(%s and %s)' % (d, d2), lambda X, f=f, f2=f2: f(X) & f2(X), lambda x, g=g, g2=g2: g(x) and g2(x), c + c2)
        if rng.random() < 0.2:
            d, f, g, c = 'not ' + d, lambda X, f=f: ~f(X), lambda x, g=g: not g(x), c
        return d, f, g, c


def close(a, b, tol):
    return abs(a - b) <= tol


def check(ctx, rng, leaf, X, R, desc, slow, tol):
    # Thresholds: round numbers, quantiles, ends of the support.
    ts = []
    if R.discrete:
        lo = R.lo if math.isfinite(R.lo) else -8
        hi = R.hi if math.isfinite(R.hi) else lo + 12
        for _ in range(6):
            x = rng.randint(int(math.floor(lo)) - 1, int(math.ceil(hi)) + 1)
            ts.append(rng.choice([x, x, x, x + 0.5, float(x)]))
        if isinstance(R, Table):
            ts += [rng.choice(list(R.t)), rng.choice(list(R.t))]
    else:
        for _ in range(5):
            if not slow or not ts or rng.random() < 0.3:
                x = float(R.d.ppf(rng.uniform(0.01, 0.99)))
            else:
                x = ts[0] + rng.uniform(-2, 2)
            if not math.isfinite(x) or abs(x) > 1e6:
                continue
            ts.append(rng.choice([round(x, 3), round(x, 1), int(round(x)), round(x, 6)]))
        for e in (R.lo, R.hi):
            if math.isfinite(e) and rng.random() < 0.4:
                ts.append(e if rng.random() < 0.5 else e + rng.choice([-1, 1]))
    if not ts:
        ctx.skip('no quantiles')
    ts = [int(t) if not isinstance(t, int) and rng.random() < 0.5 and t == int(t) else t for t in ts]
    eg = EG(rng, ts)
    # Total mass.
    for d, E in (('everything', (X < 0) | (X >= 0)), ('finite', (-INF < X) < INF)):
        p = float(ctx.call('prob', leaf.prob, E))
        ctx.check(close(p, 1, 5e-6 if slow else 1e-7), 'mass', lambda: '%s\nP(%s) = %r' % (desc, d, p))
    good = []
    n = 3 if slow else 6
    for _ in range(n):
        d, f, g, c = eg.event()
        E = ctx.call('event', f, X)
        p = float(ctx.call('prob', leaf.prob, E))
        want = prob(R, g, c)
        if math.isnan(want):
            ctx.count('undefined by scipy')
            continue
        ctx.evaluations += 1
        ctx.check(close(p, want, tol), 'probability', lambda: '%s\nP(%s) = %.12g, should be %.12g' % (desc, d, p, want))
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, d))
        if want > 1e-2:
            good.append((d, f, g, c, want))
    # Densities.
    for _ in range(2 if slow else 4):
        x = rng.choice(ts)
        if R.discrete is False and (x <= R.lo or x >= R.hi):
            continue
        got = float(ctx.call('logpdf', leaf.logpdf, {X: x}))
        want = R.logpdf(x)
        if math.isnan(want):
            continue
        ctx.check(got == want or abs(got - want) < 1e-9 * max(1, abs(want)), 'density',
                  lambda: '%s\nlogpdf(%r) = %r, should be %r' % (desc, x, got, want))
        ctx.evaluations += 1
    # Samples.
    import numpy
    prng = numpy.random.RandomState(rng.randrange(2 ** 32))
    N = 2 if slow else 20
    xs = [s[X] for s in ctx.call('sample', leaf.sample, N, prng)]
    ctx.check(len(xs) == N, 'sample-count', lambda: desc)
    for x in xs:
        ok = (R.lo <= x <= R.hi) and (not R.discrete or (R.point(x) > 0))
        ctx.check(ok, 'sample-outside', lambda: '%s\nsample %r' % (desc, x))
    # Conditioned.
    if not good or (slow and rng.random() < 0.5):
        return
    d, f, g, c, pB = rng.choice(good)
    post = ctx.call('condition', leaf.condition, ctx.call('event', f, X))
    for _ in range(2 if slow else 4):
        d2, f2, g2, c2 = eg.event()
        p = float(ctx.call('prob', post.prob, ctx.call('event', f2, X)))
        want = prob(R, lambda x: g(x) and g2(x), c + c2) / pB
        if math.isnan(want):
            continue
        ctx.check(close(p, want, 3 * tol / pB), 'conditioned', lambda: '%s\nP(%s | %s) = %.12g, should be %.12g' % (desc, d2, d, p, want))
        ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, d, d2))
    for _ in range(2):
        x = rng.choice(ts)
        if R.discrete is False and (x <= R.lo or x >= R.hi or x in c):
            continue
        got = float(ctx.call('logpdf', post.logpdf, {X: x}))
        want = R.logpdf(x) - math.log(pB) if g(x) else -INF
        if math.isnan(want):
            continue
        ctx.check(got == want or abs(got - want) < 10 * tol / pB + 1e-9 * abs(want), 'conditioned-density',
                  lambda: '%s\nlogpdf(%r | %s) = %r, should be %r' % (desc, x, d, got, want))
    M = 1 if slow else 8
    for s in ctx.call('sample-conditioned', post.sample, M, prng):
        x = s[X]
        near = any(abs(x - e) <= 1e-6 * max(1, abs(e)) for e in c)
        ctx.check(g(x) or (near and not R.discrete), 'conditioned-sample', lambda: '%s | %s\nsample %r' % (desc, d, x))
    ctx.count('conditioned')


def table(rng):
    vs = rng.sample(range(-9, 12), rng.randint(1, 6))
    ws = [rng.choice([1, 1, 2, 3, 5]) for _ in vs]
    if rng.random() < 0.2 and len(ws) > 1:
        ws[0] = 0
    t = sum(ws)
    return [(v, F(w, t)) for v, w in zip(vs, ws)]


_names = []


def case(ctx, rng, idx):
    import sppl.distributions as D
    from sppl.transforms import Id
    mquery.config(ctx, rng, 0.95)
    cs, ds = shapes(rng), dshapes(rng)
    names = sorted(cs) + sorted(ds) + ['discrete', 'uniformd', 'atomic', 'rv_discrete', 'choice', 'discrete', 'choice', 'atomic']
    if not _names:
        # Every distribution that is offered is covered.
        offered = {n for n, v in vars(D).items() if isinstance(v, type) and issubclass(v, (D.RealDistribution, D.NominalDistribution))
                   and n[0].islower()}
        ctx.count('offered', len(offered))
        missing = offered - set(names) - UNDEFINED
        if missing:
            ctx.count('not covered: ' + ' '.join(sorted(missing)))
        _names.append(1)
    name = names[idx % len(names)]
    X = Id('X')
    if name == 'choice':
        return nominal(ctx, rng, D, X)
    if name in ('discrete', 'uniformd', 'rv_discrete'):
        t = table(rng)
        if name == 'uniformd':
            vs = [v for v, _ in t]
            if rng.random() < 0.2:
                vs = vs + [rng.choice(vs)]      # repeated: twice the weight
            t = [(v, F(1, len(vs))) for v in vs]
            make = lambda: D.uniformd(values=rng.choice([list, tuple])(vs))
            desc = 'uniformd(%r)' % vs
        elif name == 'discrete':
            make = lambda: D.discrete({v: float(w) for v, w in t})
            desc = 'discrete(%r)' % {v: str(w) for v, w in t}
        else:
            make = lambda: D.rv_discrete(values=([v for v, _ in t], [float(w) for _, w in t]))
            desc = 'rv_discrete(%r)' % {v: str(w) for v, w in t}
        ctx.desc(desc)
        leaf = ctx.call('assign', lambda: X >> make())
        ctx.count('dist:' + name)
        return check(ctx, rng, leaf, X, Table(t), desc, False, 1e-9)
    if name == 'atomic':
        v = rng.choice([0, 1, -1, 3, -20, 0.5, -1.25, 2.0, 1000003, 1e-3])
        desc = 'atomic(%r)' % v
        ctx.desc(desc)
        leaf = ctx.call('assign', lambda: X >> D.atomic(loc=v))
        ctx.count('dist:' + name)
        return check(ctx, rng, leaf, X, Table([(v, F(1))]), desc, False, 1e-12)
    cont = name in cs
    kw = (cs if cont else ds)[name]()
    if rng.random() < 0.5:
        kw['loc'] = rng.choice([-2, 1, 3, 0.5, -1.25, 10]) if cont else rng.choice([-3, -1, 1, 2, 7])
    if cont and rng.random() < 0.5:
        kw['scale'] = rng.choice([0.5, 2, 3, 0.1, 1.7])
    desc = '%s(%s)' % (name, ', '.join('%s=%r' % i for i in kw.items()))
    ctx.desc(desc)
    R = (Cont if cont else Disc)(name, kw)
    leaf = ctx.call('assign', lambda: X >> getattr(D, name)(**kw))
    slow = name in SLOW
    if slow and rng.random() < 0.4:
        slow = slow and rng.random() < 0.9
    ctx.count('dist:' + name)
    check(ctx, rng, leaf, X, R, desc, slow, 1e-6 if slow else 1e-8)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(desc)


def nominal(ctx, rng, D, X):
    import numpy
    vs = rng.sample(['a', 'b', 'c', '', 'A b', "it's", 'é', '0', 'zz'], rng.randint(1, 6))
    ws = [rng.choice([1, 1, 2, 3, 5]) for _ in vs]
    if rng.random() < 0.2 and len(ws) > 1:
        ws[0] = 0
    t = dict(zip(vs, [F(w, sum(ws)) for w in ws]))
    kind = rng.choice([float, float, lambda w: w])
    desc = 'choice(%r)' % {v: str(w) for v, w in t.items()}
    ctx.desc(desc)
    leaf = ctx.call('assign', lambda: X >> D.choice({v: kind(w) for v, w in t.items()}))
    ctx.count('dist:choice')
    sets = []
    for _ in range(6):
        S = set(rng.sample(vs + ['other', 'q'], rng.randint(1, len(vs) + 1)))
        neg = rng.random() < 0.3
        inside = lambda v, S=S, neg=neg: (v in S) != neg
        E = ctx.call('event', lambda: ~(X << S) if neg else X << S)
        p = float(ctx.call('prob', leaf.prob, E))
        want = float(sum(w for v, w in t.items() if inside(v)))
        ctx.check(close(p, want, 1e-12), 'probability', lambda: '%s\nP(%s in %r) = %r, should be %r' % (desc, 'not' if neg else '', S, p, want))
        ctx.evaluations += 1
        ctx.seen((desc, str(sorted(S)), neg))
        sets.append((S, neg, inside, want, E))
    for v in vs + ['other', 3]:
        got = float(ctx.call('logpdf', leaf.logpdf, {X: v}))
        w = float(t.get(v, 0))
        ctx.check(math.isclose(got, math.log(w), rel_tol=1e-9, abs_tol=1e-12) if w else got == -INF, 'density',
                  lambda: '%s\nlogpdf(%r) = %r' % (desc, v, got))
    S, neg, inside, pB, E = rng.choice(sets)
    if pB == 0:
        ctx.rejects('impossible', lambda: leaf.condition(E), lambda: desc)
        return
    post = ctx.call('condition', leaf.condition, E)
    for S2, neg2, inside2, _, E2 in sets:
        p = float(ctx.call('prob', post.prob, E2))
        want = float(sum(w for v, w in t.items() if inside(v) and inside2(v))) / pB
        ctx.check(close(p, want, 1e-12), 'conditioned', lambda: '%s\nP(%r | %r) = %r, should be %r' % (desc, S2, S, p, want))
    prng = numpy.random.RandomState(rng.randrange(2 ** 32))
    for s in ctx.call('sample', post.sample, 20, prng):
        ctx.check(inside(s[X]) and t.get(s[X], 0) > 0, 'sample-outside', lambda: '%s\nsample %r' % (desc, s))
