"""C20: only well-formed models can be built.

Random well-formed parts are combined in random orders and groupings (all must
be accepted, agree with the reference, and leave the parts as they were) and in
ill-formed ways (all must be rejected, and leave the parts as they were)."""
import math
from fractions import Fraction as F

from .. import models, mquery, ref
from ..mquery import S, Oracle, MEventGen, lp_query
from .c11 import repr_tree


def grouped(rng, items, op):
    """op over the items in a random grouping, keeping their order."""
    if len(items) == 1:
        return items[0]
    k = rng.randint(1, len(items) - 1)
    return op(grouped(rng, items[:k], op), grouped(rng, items[k:], op))


def number(rng, w):
    """The same weight as another kind of number."""
    import numpy as np
    import sympy
    k = rng.randrange(6)
    if k == 0 and F(w).denominator < 4096:
        return sympy.Rational(F(w).numerator, F(w).denominator)
    if k == 1:
        return np.float64(w)
    if k == 2:
        return F(w)
    return w


class Watch:
    """Parts, and what they answered before they were used."""

    def __init__(self, ctx, rng, parts, events):
        self.ctx, self.rng = ctx, rng
        self.items = [(s, repr_tree(s), hash(s), s.size(), frozenset(s.get_symbols()), E,
                       None if E is None else float(ctx.call('logprob', s.logprob, E)))
                      for s, E in zip(parts, events)]

    def check(self, what):
        for s, t, h, n, syms, E, p in self.items:
            self.ctx.check(repr_tree(s) == t and hash(s) == h and s.size() == n and frozenset(s.get_symbols()) == syms,
                           'part-changed', lambda: '%s\n%s changed a part:\n%s\n%s' % (self.ctx.case_desc, what, t, repr_tree(s)))
            if E is not None and self.rng.random() < 0.3:
                q = float(self.ctx.call('logprob', s.logprob, E))
                self.ctx.check(q == p or abs(q - p) < 1e-12, 'part-changed', lambda: '%s\n%s: logprob %r, then %r'
                               % (self.ctx.case_desc, what, p, q))


def same_answers(ctx, rng, mb, eg, spec, spe, desc, k=2):
    ts = [eg.sized(widths=(1, 1, 2), maxdnf=4) for _ in range(k)]
    o = Oracle(ctx, ref.Model(spec), ts)
    for i, t in enumerate(ts):
        p = lp_query(ctx, rng, spe, ctx.call('build-event', mb.b.event, t))
        ok, want = o.agree(p, lambda key: key[i])
        ctx.check(ok, 'combination', lambda: '%s\nP(%s) = %.12g, should be %.12g' % (desc, S(t), p, want))
        ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, S(t)))


def some_weights(rng, n):
    r = rng.random()
    if r < 0.4:
        return [1 / n] * n
    if r < 0.6:
        cuts = sorted(rng.sample(range(1, 20), n - 1))
        return [(b - a) / 20 for a, b in zip([0] + cuts, cuts + [20])]
    if r < 0.75:
        return [float(w) / 1000 for w in _ints(rng, n, 1000)]
    return list(models.weights(rng, n))


def _ints(rng, n, total):
    cuts = sorted(rng.sample(range(1, total), n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


def case_accept(ctx, rng):
    from sppl.spe import ProductSPE, SumSPE
    mquery.config(ctx, rng, 0.95)
    mg = models.ModelGen(rng, nvars=rng.choice([1, 2, 3]), dtotal=True, mixed=False, depth=rng.choice([0, 0, 1]))
    mb = models.ModelBuild(rng)
    eg = MEventGen(rng, mg)
    if rng.random() < 0.4 or len(mg.schema) == 1:
        # Mixture
        n = rng.choice([2, 2, 3, 3, 4, 5, 7, 10])
        ws = some_weights(rng, n)
        kids = [mg.node(mg.schema, mg.depth) for _ in range(min(n, 4))]
        kids += [rng.choice(kids) for _ in range(n - len(kids))]
        order = list(range(n))
        rng.shuffle(order)
        spec = ('sum', tuple(zip(ws, kids)))
        desc = models.show(spec)
        ctx.desc(desc)
        parts = [ctx.call('build-model', mb.build, k) for k in kids]
        watch = Watch(ctx, rng, parts, [mb.b.event(eg.sized(widths=(1,), maxdnf=2)) for _ in parts])
        out = []
        for style in rng.sample(['op', 'right', 'group', 'ctor', 'shuffle', 'twice'], 3):
            nums = [number(rng, w) for w in ws]
            if style == 'ctor':
                spe = ctx.call('mixture-ctor', SumSPE, parts, [math.log(w) for w in ws])
            else:
                def scaled(i):
                    left = rng.random() < 0.7
                    return ctx.call('weight', lambda: nums[i] * parts[i] if left or not isinstance(nums[i], float) else parts[i] * nums[i])
                items = [scaled(i) for i in range(n)]
                if style == 'right':
                    f = lambda: grouped(rng, items[:1], None) if n == 1 else items[0] | grouped(rng, items[1:], lambda a, b: a | b)
                elif style == 'group':
                    f = lambda: grouped(rng, items, lambda a, b: a | b)
                elif style == 'shuffle':
                    f = lambda: grouped(rng, [items[i] for i in order], lambda a, b: a | b)
                elif style == 'twice':
                    # The same partial mixture completed twice.
                    def f():
                        base = grouped(rng, items[:-1], lambda a, b: a | b)
                        first = base | items[-1]
                        second = base | items[-1]
                        ctx.check(repr_tree(first) == repr_tree(second), 'partial-changed', lambda: desc)
                        return second
                else:
                    f = lambda: grouped(rng, items[:2], lambda a, b: a | b) if n == 2 else _left(items)
                spe = ctx.call('mixture-' + style, f)
            ctx.check(isinstance(spe, SumSPE), 'not-a-model', lambda: '%s\n%s: %r' % (desc, style, spe))
            ctx.count('mixture:' + style)
            watch.check(style)
            out.append(spe)
        for spe in out[:2]:
            same_answers(ctx, rng, mb, eg, spec, spe, desc)
    else:
        specs = []
        sch = list(mg.schema)
        rng.shuffle(sch)
        while sch:
            k = rng.choice([1, 1, 2])
            specs.append(mg.node(sch[:k], mg.depth))
            sch = sch[k:]
        if len(specs) == 1:
            ctx.skip('single part')
        spec = ('prod', tuple(specs))
        desc = models.show(spec)
        ctx.desc(desc)
        parts = [ctx.call('build-model', mb.build, s) for s in specs]
        watch = Watch(ctx, rng, parts, [None for _ in parts])
        out = []
        for style in ('ctor', 'group', 'shuffle'):
            items = list(parts)
            if style == 'shuffle':
                rng.shuffle(items)
            if style == 'ctor':
                spe = ctx.call('product-ctor', ProductSPE, items)
            else:
                spe = ctx.call('product-' + style, lambda: grouped(rng, items, lambda a, b: a & b))
            ctx.check(isinstance(spe, ProductSPE), 'not-a-model', lambda: '%s\n%s: %r' % (desc, style, spe))
            ctx.count('product:' + style)
            watch.check(style)
            out.append(spe)
        for spe in out[1:]:
            same_answers(ctx, rng, mb, eg, spec, spe, desc)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(desc[:600])


def _left(items):
    out = items[0]
    for x in items[1:]:
        out = out | x
    return out


def case_dist(ctx, rng):
    """Mixtures of distributions for one variable."""
    from sppl.spe import SPE
    mquery.config(ctx, rng, 0.95)
    mg = models.ModelGen(rng, nvars=1, derived=False, kinds=['num'], depth=0, atoms=True)
    v = mg.schema[0][0]
    mb = models.ModelBuild(rng)
    eg = MEventGen(rng, mg)
    n = rng.choice([2, 2, 3, 4, 5])
    ws = some_weights(rng, n)
    kids = []
    while len(kids) < n:
        k = mg.leaf(mg.schema[0])
        if k[0] == 'leaf':
            kids.append(k)
    spec = ('sum', tuple(zip(ws, kids)))
    desc = models.show(spec)
    ctx.desc(desc)
    X = mb.b.id(v)
    items = [ctx.call('weight', lambda i=i: number(rng, ws[i]) * mb.dist(kids[i][2], kids[i][3])) for i in range(n)]
    mix = ctx.call('mixture', lambda: grouped(rng, items, lambda a, b: a | b))
    spe = ctx.call('assign', lambda: X >> mix)
    ctx.check(isinstance(spe, SPE), 'not-a-model', lambda: desc)
    spe2 = ctx.call('assign', lambda: mb.b.id('X2') >> mix)
    again = ctx.call('assign', lambda: X >> mix)
    ctx.check(repr_tree(again) == repr_tree(spe), 'distribution-changed', lambda: desc)
    ctx.check({s.token for s in spe2.get_symbols()} == {'X2'}, 'wrong-variable', lambda: desc)
    same_answers(ctx, rng, mb, eg, spec, spe, desc)
    ctx.count('distribution-mixture')
    # Not summing to one.
    part = grouped(rng, items[:-1], lambda a, b: a | b)
    ctx.rejects('partial-distribution', lambda: X >> part, lambda: '%s without the last component' % desc)
    ctx.rejects('excess-distribution', lambda: X >> (mix | items[0]), lambda: '%s with the first component twice' % desc)
    for w in bad_weights(rng, 2):
        ctx.rejects('weight', lambda: w * mb.dist(kids[0][2], kids[0][3]), lambda: '%r * distribution' % (w,))
    ctx.count('rejected', 4)


def bad_weights(rng, k):
    import sympy
    return rng.sample([0, 1, 0.0, 1.0, -0.5, 1.5, 2, -1, float('inf'), float('nan'), -0.0, F(3, 2), sympy.Rational(-1, 2),
                       sympy.Integer(1), None, 1 + 1e-9, -1e-300, True, False, [0.5], 1j], k)


def usable(f):
    """A partial mixture may be built, but it is not a model."""
    from sppl.spe import PartialSumSPE
    r = f()
    if isinstance(r, PartialSumSPE):
        raise TypeError('not a model yet')
    return r


def case_reject(ctx, rng):
    from sppl.spe import NominalLeaf, PartialSumSPE, ProductSPE, SumSPE
    import sppl.distributions as D
    mquery.config(ctx, rng, 0.95)
    mg = models.ModelGen(rng, nvars=rng.choice([2, 2, 3]), dtotal=True, mixed=False, depth=rng.choice([0, 0, 1]))
    mb = models.ModelBuild(rng)
    sch = list(mg.schema)
    rng.shuffle(sch)
    n = rng.randint(1, len(sch) - 1)
    build = lambda spec: ctx.call('build-model', mb.build, spec)
    A, A2, A3 = (mg.node(sch[:n], mg.depth) for _ in range(3))     # over the first variables
    B = mg.node(sch[n:], mg.depth)                                 # over the others
    AB = mg.node(sch, mg.depth)                                    # over all
    desc = 'A=%s; B=%s; AB=%s; A2=%s' % tuple(map(models.show, (A, B, AB, A2)))
    ctx.desc(desc)
    a, a2, a3, b, ab = map(build, (A, A2, A3, B, AB))
    watch = Watch(ctx, rng, [a, a2, b, ab], [None] * 4)
    w = rng.choice([0.5, 0.25, 0.1, 0.7])
    L = math.log
    names = [('different-variables-op', lambda: w * a | (1 - w) * b),
             ('different-variables-op', lambda: (1 - w) * ab | w * a2),
             ('different-variables-ctor', lambda: SumSPE([a, b], [L(w), L(1 - w)])),
             ('different-variables-ctor', lambda: SumSPE([a, ab], [L(w), L(1 - w)])),
             ('different-variables-later', lambda: 0.5 * a | (0.25 * a2 | 0.25 * ab)),
             ('different-variables-later', lambda: (0.5 * a | 0.25 * a2) | 0.25 * b),
             ('different-variables-ctor3', lambda: SumSPE([a, a2, b], [L(0.5), L(0.25), L(0.25)])),
             ('shared-variable-op', lambda: a & a2),
             ('shared-variable-op', lambda: a & a),
             ('shared-variable-op', lambda: ab & a),
             ('shared-variable-op', lambda: b & ab),
             ('shared-variable-op', lambda: (a & b) & a2),
             ('shared-variable-op', lambda: a & (b & a2)),
             ('shared-variable-ctor', lambda: ProductSPE([a, b, a2])),
             ('shared-variable-ctor', lambda: ProductSPE([b, ab])),
             ('shared-variable-sum', lambda: (0.5 * a | 0.5 * a2) & a3),
             ('weights-low', lambda: SumSPE([a, a2], [L(w), L((1 - w) * rng.choice([0.5, 0.9, 0.99]))])),
             ('weights-high', lambda: SumSPE([a, a2], [L(w), L((1 - w) * rng.choice([1.5, 1.1, 1.01]))])),
             ('weights-single', lambda: SumSPE([a], [L(w)])),
             ('weights-count', lambda: SumSPE([a, a2], [0.0])),
             ('weights-count', lambda: SumSPE([a], [L(w), L(1 - w)])),
             ('empty-mixture', lambda: SumSPE([], [])),
             ('weights-high-op', lambda: usable(lambda: w * a | (1 - w + rng.choice([0.1, 0.01])) * a2)),
             ('weights-high-op', lambda: (0.5 * a | 0.5 * a2) | 0.25 * a3),
             ('weights-high-op', lambda: usable(lambda: (0.5 * a | 0.4 * a2) | (0.05 * a3 | 0.1 * a))),
             ('partial-as-factor', lambda: (w * a | (1 - w) * 0.5 * a2) & b),
             ('partial-as-factor', lambda: b & (w * a | (1 - w) * 0.5 * a2)),
             ('partial-as-factor', lambda: (w * a) & b),
             ('partial-scaled', lambda: 0.5 * (w * a)),
             ('partial-scaled', lambda: (w * a | (1 - w) * 0.5 * a2) * 0.5),
             ('partial-with-model', lambda: w * a | a2),
             ('partial-with-model', lambda: a | a2),
             ('partial-queried', lambda: (w * a).prob(mb.b.event(('or', ('nom', 'N', ('a',)), ('cmp', ('var', 'X'), '<', 0))))),
             ('partial-in-mixture', lambda: SumSPE([w * a, a2], [L(0.5), L(0.5)])),
             ('partial-in-product', lambda: ProductSPE([w * a, b])),
             ]
    for x in bad_weights(rng, 3):
        part = rng.choice([a, ab])
        names.append(('weight:%r' % (x,), lambda x=x, part=part: x * part))
        names.append(('weight-right:%r' % (x,), lambda x=x, part=part: part * x))
        if not isinstance(x, (str, list, type(None))):
            names.append(('weight-in-mixture:%r' % (x,), lambda x=x: usable(lambda: x * a | w * a2)))
    strs = rng.sample(models.NOMV, rng.choice([1, 2, 3]))
    ws = list(models.weights(rng, len(strs)))
    X = mb.b.id('T')
    low = dict(zip(strs, ws))
    low[strs[0]] = low[strs[0]] * rng.choice([0.5, 0.9, 1.5, 1.01, 0, 3])
    if low[strs[0]] != ws[0]:
        names.append(('string-weights', lambda: X >> D.choice(low)))
        names.append(('string-weights', lambda: NominalLeaf(X, low)))
    neg = dict(zip(strs, ws))
    neg['neg'] = -rng.choice([0.5, 0.1, 1])
    neg[strs[0]] -= neg['neg']
    names.append(('string-negative', lambda: X >> D.choice(neg)))
    names.append(('string-empty', lambda: X >> D.choice({})))
    names.append(('string-keys', lambda: X >> D.choice({1: 0.5, 'a': 0.5})))
    names.append(('table-weights', lambda: X >> D.discrete({1: 0.5, 2: 0.6})))
    names.append(('table-negative', lambda: X >> D.discrete({1: 0.5, 2: -0.5, 3: 1})))
    # A derived variable that exists already, or of an unknown variable.
    for s, syms in ((ab, sch), (a, sch[:n])):
        nums = [v for v, k, _ in syms if k == 'num']
        if nums:
            x = mb.b.id(rng.choice(nums))
            other = mb.b.id(rng.choice([v for v, _, _ in syms]))
            names.append(('derived-exists', lambda s=s, x=x, other=other: s.transform(other, x * 2 + 1)))
            names.append(('derived-unknown', lambda s=s: s.transform(mb.b.id('New'), mb.b.id('Unknown') * 2)))
    for what, f in rng.sample(names, 14):
        ctx.rejects(what, f, lambda: desc)
        ctx.evaluations += 1
        ctx.count('rejected')
        ctx.count('rejected:' + what.split(':')[0])
        ctx.seen((desc, what))
    watch.check('a rejected combination')
    # The same parts still combine in the right way.
    spe = ctx.call('product', lambda: a & b)
    mix = ctx.call('mixture', lambda: 0.5 * spe | 0.5 * ab)
    eg = MEventGen(rng, mg)
    same_answers(ctx, rng, mb, eg, ('sum', ((0.5, ('prod', (A, B))), (0.5, AB))), mix, desc, 1)


def case(ctx, rng, idx):
    k = idx % 10
    if k < 4:
        case_accept(ctx, rng)
    elif k < 6:
        case_dist(ctx, rng)
    else:
        case_reject(ctx, rng)
