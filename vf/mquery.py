"""Shared machinery of the model monitors: generating queries on a model and
comparing the system's answers with the reference."""
import math
import os

from . import models, ref, terms
from .gen_events import EventGen, dnf_size

DENSE = 40000


class MEventGen(EventGen):
    """Events over the variables of a model."""

    def __init__(self, rng, mg, total=True, **kw):
        kw.setdefault('transcendental', rng.random() < 0.25)
        kw.setdefault('piece', rng.random() < 0.15)
        kw.setdefault('ind', rng.random() < 0.1)
        style = rng.choice(['int', 'int', 'rat', 'float'])
        super().__init__(rng, mg.nums, mg.noms, style, depth=rng.choice([0, 0, 0, 1, 1, 2]), **kw)
        self.mg = mg
        self.reuse = 0.08
        self.total = mg.total

    def literal(self):
        while True:
            t = super().literal()
            if not self.total or models.total_lit(t):
                return t

    def pair(self):
        while True:
            t = super().pair()
            if not self.total or all(models.total_lit(l) for l in (t[1:] if t[0] in ('and', 'or') else [t])):
                return t

    def sized(self, widths=(1, 1, 2, 2, 3, 4), maxdnf=6):
        while True:
            t = self.event(self.rng.choice(widths))
            if dnf_size(t) <= maxdnf:
                return t


def joint(model, events, n=1500):
    return ref.Query(model, events, n).joint()


def pr(j, f):
    return sum(p for k, p in j.items() if f(k))


class Oracle:
    """Reference probabilities of a list of events under a model, given evidence;
    a disagreement is confirmed against a denser decomposition before it counts."""

    def __init__(self, ctx, model, events, evidence=()):
        self.ctx, self.model = ctx, model
        self.events, self.evidence = list(events), list(evidence)
        self.n = 1500
        self._load()

    def _load(self):
        try:
            self.j = joint(self.model, self.events + self.evidence, self.n)
        except ref.Ambiguous:
            self.ctx.skip('ambiguous atom')
        except ref.TooBig:
            self.ctx.skip('too many cells')
        ne = len(self.events)
        self.pe = pr(self.j, lambda k: all(k[ne:]))

    def prob(self, f):
        ne = len(self.events)
        p = pr(self.j, lambda k: all(k[ne:]) and f(k[:ne]))
        return p / self.pe if self.evidence else p

    def tol(self):
        # A double root is located to about the square root of the rounding error.
        return 1e-7 + (1e-8 / self.pe if self.evidence and self.pe > 0 else 0)

    def agree(self, got, f, tol=None):
        """(agree, reference value)"""
        want = self.prob(f)
        t = self.tol() if tol is None else tol
        if abs(got - want) <= t:
            return True, want
        if self.n < DENSE:
            self.n = DENSE
            self.ctx.count('dense_recheck')
            self._load()
            want = self.prob(f)
        return abs(got - want) <= t, want


def config(ctx, rng, numeric=0.85):
    """Solver configuration of a case (C05 checks that it makes no difference)."""
    if rng.random() < numeric:
        os.environ['SPPL_NO_SYMBOLIC'] = '1'
    else:
        os.environ.pop('SPPL_NO_SYMBOLIC', None)
        ctx.count('symbolic')


class M:
    """A random model: specification, system object, reference."""

    def __init__(self, ctx, rng, numeric=0.85, **kw):
        config(ctx, rng, numeric)
        self.ctx, self.rng = ctx, rng
        self.mg = models.ModelGen(rng, **kw)
        self.spec = self.mg.spec()
        self.eg = MEventGen(rng, self.mg)
        self.mb = models.ModelBuild(rng)
        self.show = models.show(self.spec)
        ctx.desc(self.show)
        self.spe = ctx.call('build-model', self.mb.build, self.spec)
        self.ref = ref.Model(self.spec)
        ctx.maxi('components', len(self.ref.comps))
        ctx.count('size:%d' % min(20, models.size(self.spec)))

    def ev(self, t):
        return self.ctx.call('build-event', self.mb.b.event, t)

    def events(self, n, **kw):
        ts = [self.eg.sized(**kw) for _ in range(n)]
        self.ctx.desc(self.show + ' :: ' + ' ; '.join(map(terms.flatten_str, ts)))
        return ts, [self.ev(t) for t in ts]

    def oracle(self, events, evidence=()):
        return Oracle(self.ctx, self.ref, events, evidence)


S = terms.flatten_str


def lp_query(ctx, rng, spe, E, what='logprob', memos=(None, None, False)):
    """Probability through one of the query forms."""
    k = rng.choice(['prob', 'logprob', 'logprob', 'memo'])
    if k == 'prob':
        return float(ctx.call(what, spe.prob, E))
    if k == 'logprob':
        lp = float(ctx.call(what, spe.logprob, E))
    else:
        from sppl.spe import Memo
        m = rng.choice([Memo(), False])
        lp = float(ctx.call(what, spe.logprob, E, m))
    ctx.check(not math.isnan(lp) and lp <= 1e-9, 'range', lambda: 'logprob %r of %s' % (lp, E))
    return math.exp(lp)
