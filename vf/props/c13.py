"""C13: constraining to an assignment gives the exact posterior.

Constrained models (possibly conditioned before or after) answer queries,
densities and further constraints; the answers are compared with the
reweighted reference components."""
import math

from .. import mquery, ref, terms
from ..mquery import S, lp_query
from .c12 import assignment, same, show_asg, sysasg


def case(ctx, rng, idx):
    from sppl.spe import Memo
    M = mquery.M(ctx, rng, dtotal=True, mixed=False)
    spe, evid = M.spe, []
    if rng.random() < 0.3:
        t0 = M.eg.sized(widths=(1, 1, 2), maxdnf=4)
        o = M.oracle([t0])
        if o.prob(lambda k: k[0]) > 1e-3:
            spe = ctx.call('condition', spe.condition, M.ev(t0))
            evid = [t0]
            ctx.desc('%s | %s' % (ctx.case_desc, S(t0)))
    asg = assignment(rng, M)
    ctx.desc('%s @ %s' % (ctx.case_desc, show_asg(asg)))
    try:
        (d, l), _ = M.ref.density(asg, evid)
        if l < -200:
            ctx.skip('density too small')
        if any(-60 < x - l < -30 for _, x in M.ref.density(asg, evid)[1]):
            ctx.skip('component too small')
        R = M.ref.constrained(asg, evid)
    except (ref.Ambiguous, ref.TooBig):
        ctx.skip('ambiguous atom')
    memo = rng.choice([None, None, Memo(), False])
    post = ctx.call('constrain', spe.constrain, sysasg(M, asg), *(() if memo is None else (memo,)))
    ctx.check(post.get_symbols() == spe.get_symbols(), 'symbols', lambda: '%s\nhas %s instead of %s'
              % (ctx.case_desc, sorted(map(str, post.get_symbols())), sorted(map(str, spe.get_symbols()))))
    desc = ctx.case_desc
    # Assigned variables have their values.
    for v, x in asg.items():
        t = ('nom', v, (x,)) if isinstance(x, str) else ('in', ('var', v), (x,))
        p = lp_query(ctx, rng, post, M.ev(t))
        ctx.check(abs(p - 1) < 1e-9, 'fixed', lambda: '%s\nP(%s) = %r' % (desc, S(t), p))
    qs = [M.eg.sized(widths=(1, 1, 2, 3), maxdnf=4) for _ in range(3)]

    def agree(model, sp, events, given, mech):
        o = mquery.Oracle(ctx, model, events, given)
        for i, t in enumerate(events):
            p = lp_query(ctx, rng, sp, M.ev(t))
            ctx.evaluations += 1
            ok, want = o.agree(p, lambda k: k[i])
            ctx.check(ok, mech, lambda: '%s\nP(%s) = %.12g, should be %.12g' % (ctx.case_desc, S(t), p, want))
            if 1e-9 < want < 1 - 1e-9:
                ctx.seen((ctx.case_desc, S(t)))
    agree(R, post, qs, evid, 'posterior')
    # Density of the remaining variables.
    rest = [v for v in M.mg.bases if v not in asg]
    if rest and rng.random() < 0.7:
        a2 = assignment(rng, M, among=rest)
        both = dict(a2, **{v: asg[v] for v in rng.sample(sorted(asg), rng.randint(0, len(asg)))})
        try:
            want = R.density(both, evid)[0][1]
            if not same(float(post.logpdf(sysasg(M, both))), want) and evid:
                want = R.density(both, evid, mquery.DENSE)[0][1]
        except (ref.Ambiguous, ref.TooBig):
            ctx.skip('ambiguous atom')
        lp = float(ctx.call('logpdf', post.logpdf, sysasg(M, both)))
        ctx.check(same(lp, want), 'posterior-density', lambda: '%s\ndensity of %s: %r, should be %r'
                  % (desc, show_asg(both), lp, want))
        ctx.count('density')
        if want > -200 and not any(-60 < x - want < -30 for _, x in R.density(a2, evid)[1]) and rng.random() < 0.7:
            R2 = R.constrained(a2, evid)
            post2 = ctx.call('constrain-again', post.constrain, sysasg(M, a2))
            ctx.desc('%s @ %s' % (desc, show_asg(a2)))
            agree(R2, post2, qs[:2], evid, 'posterior-again')
            ctx.count('again')
            ctx.desc(desc)
    # Condition the constrained model.
    t = qs[0]
    o = mquery.Oracle(ctx, R, [t], evid)
    if o.prob(lambda k: k[0]) > 1e-3 and rng.random() < 0.6:
        cond = ctx.call('condition-constrained', post.condition, M.ev(t))
        ctx.desc('%s | %s' % (desc, S(t)))
        agree(R, cond, qs[1:], evid + [t], 'posterior-conditioned')
        ctx.count('conditioned')
    if rng.random() < 0.3:
        from sppl.transforms import Id
        for s in ctx.call('sample', post.sample, 3):
            ctx.check(set(s) == set(post.get_symbols()) and all(s[Id(v)] == x for v, x in asg.items()), 'sample',
                      lambda: '%s\nsampled %s' % (desc, s))
        ctx.count('sampled')
