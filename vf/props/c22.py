"""C22: rendered SPPL source recompiles to the same distribution.

Random models (conditioned, with derived variables, arrays, awkward names and
strings) are rendered, the text is compiled again, and both models answer the
same random queries; the original is also compared with the reference."""
import io

from .. import models, mquery, progs
from ..mquery import S, lp_query
from .c11 import repr_tree

NAMES = [['X', 'Y', 'W'], ['A[0]', 'A[1]', 'Y'], ['A[1]', 'X', 'A[0]'], ['B[2]', 'A[0]', 'B[0]'], ['branch_var_0', 'X', 'branch_var_1'],
         ['x_1', 'branch_var', '_y'], ['A[10]', 'A[9]', 'AA[0]'], ['poly', 'Xi', 'inf_']]
STRS = ["it's", 'a"b', 'back\\slash', 'new\nline', 'tab\t', 'a: b, c', "'", '"', '{x}', '#no', 'é', '%d', '']


def awkward(rng, spec, sub):
    k = spec[0]
    if k == 'nom':
        return ('nom', spec[1], tuple((sub.get(v, v), w) for v, w in spec[2]))
    if k == 'sum':
        return ('sum', tuple((w, awkward(rng, s, sub)) for w, s in spec[1]))
    if k == 'prod':
        return ('prod', tuple(awkward(rng, s, sub) for s in spec[1]))
    return spec


class AM(mquery.M):
    """A random model with the given names and strings."""

    def __init__(self, ctx, rng, sub=None, numeric=0.95, **kw):
        from .. import ref
        mquery.config(ctx, rng, numeric)
        self.ctx, self.rng = ctx, rng
        self.mg = models.ModelGen(rng, **kw)
        self.spec = self.mg.spec()
        if sub:
            self.spec = awkward(rng, self.spec, sub)
        self.eg = mquery.MEventGen(rng, self.mg)
        if sub:
            lit = self.eg.literal

            def literal():
                t = lit()
                return (t[0], t[1], tuple(sub.get(v, v) for v in t[2])) if t[0] in ('nom', 'nnom') else t
            self.eg.literal = literal
        self.mb = models.ModelBuild(rng)
        self.show = models.show(self.spec)
        ctx.desc(self.show)
        self.spe = ctx.call('build-model', self.mb.build, self.spec)
        self.ref = ref.Model(self.spec)


def random_model(ctx, rng, **kw):
    names = rng.choice(NAMES) if rng.random() < 0.5 else None
    sub = None
    if rng.random() < 0.4:
        ss = rng.sample(STRS, 5)
        sub = dict(zip(models.NOMV[:5], ss))
        sub[''], sub['A b'] = 'other', 'another'
    kinds = rng.choice([None, None, ['num', 'nom']])
    nvars = rng.choice([1, 2, 2, 3])
    kw.setdefault('mixed', False)
    return AM(ctx, rng, sub, names=names, nvars=nvars, kinds=kinds, dtotal=True, **kw)


def alter(ctx, rng, M, desc):
    """The model conditioned on a possible event (or as it is)."""
    spe, evid = M.spe, []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        t = M.eg.sized(widths=(1, 1, 2), maxdnf=4)
        o = M.oracle([t], evid)
        if o.pe * o.prob(lambda k: k[0]) < 1e-3:
            continue
        spe = ctx.call('condition', spe.condition, M.ev(t))
        evid.append(t)
        desc = '%s | %s' % (desc, S(t))
        ctx.desc(desc)
        ctx.count('conditioned')
    return spe, evid, desc


def case(ctx, rng, idx):
    from sppl.compilers.spe_to_sppl import render_sppl
    M = random_model(ctx, rng)
    spe, evid, desc = alter(ctx, rng, M, M.show)
    tree = repr_tree(spe)
    if rng.random() < 0.3:
        stream = io.StringIO()
        r = ctx.call('render', render_sppl, spe, stream)
        ctx.check(r is stream, 'stream', lambda: desc)
        src = stream.getvalue()
    else:
        src = ctx.call('render', render_sppl, spe).getvalue()
    ctx.check(repr_tree(spe) == tree, 'model-changed', lambda: desc)
    again = ctx.call('render', render_sppl, spe).getvalue()
    ctx.check(again == src, 'repeatable', lambda: '%s\n%s\n%s' % (desc, src, again))
    ctx.desc('%s\n%s' % (desc, src))
    new = ctx.call('compile', progs.compile, src).model
    want = {s.token for s in spe.get_symbols()}
    got = {s.token for s in new.get_symbols()}
    ctx.check(want <= got and all('branch_var_' in v for v in got - want), 'variables', lambda:
              '%s\nvariables %s, should be %s' % (ctx.case_desc, sorted(got), sorted(want)))
    if got - want:
        ctx.count('with branches')
    ts, es = [], []
    for _ in range(4):
        t = M.eg.sized(widths=(1, 1, 2, 2, 3), maxdnf=5)
        ts.append(t)
        es.append(M.ev(t))
    o = M.oracle(ts, evid)      # also leaves out events that rounding decides
    for t, E in zip(ts, es):
        p, q = lp_query(ctx, rng, spe, E), lp_query(ctx, rng, new, E)
        ctx.evaluations += 1
        ctx.check(abs(p - q) < 1e-8, 'different', lambda:
                  '%s\nP(%s) = %.12g, after rendering %.12g' % (ctx.case_desc, S(t), p, q))
        if 1e-9 < p < 1 - 1e-9:
            ctx.seen((ctx.case_desc, S(t)))
    # The original is what the reference says (so that the comparison means something).
    p = lp_query(ctx, rng, new, es[0])
    ok, w = o.agree(p, lambda k: k[0], 1e-7)
    ctx.check(ok, 'reference', lambda: '%s\nP(%s) = %.12g after rendering, should be %.12g' % (ctx.case_desc, S(ts[0]), p, w))
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(ctx.case_desc[:900])
