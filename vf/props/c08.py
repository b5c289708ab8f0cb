"""C08: event probabilities are exact.

Random models (mixtures, products, derived variables, mixed kinds) are built
through public operations; the probabilities of random events are compared
with an independent decomposition of each mixture component."""
import math

from .. import mquery, terms
from ..core import close


def case(ctx, rng, idx):
    M = mquery.M(ctx, rng)
    spec, spe, m = M.spec, M.spe, M.ref
    events, sys_events = M.events(3)
    from sppl.spe import Memo
    shared = Memo()
    for i, (t, E) in enumerate(zip(events, sys_events)):
        o = mquery.Oracle(ctx, m, [t])
        memo = rng.choice([None, None, shared, shared, False])
        lp = ctx.call('logprob', (lambda: spe.logprob(E)) if memo is None else (lambda: spe.logprob(E, memo)))
        p = ctx.call('prob', spe.prob, E)
        lp, p = float(lp), float(p)
        ctx.evaluations += 1
        ctx.check(not math.isnan(lp) and lp <= 1e-9, 'range', lambda: 'logprob(%s) = %r' % (terms.flatten_str(t), lp))
        ctx.check(0 <= p <= 1 + 1e-9, 'range', lambda: 'prob(%s) = %r' % (terms.flatten_str(t), p))
        ctx.check(close(math.exp(lp) if lp > -1e300 else 0.0, p, 1e-12), 'log', lambda: 'prob %r, logprob %r of %s'
                  % (p, lp, terms.flatten_str(t)))
        ok, want = o.agree(p, lambda k: k[0])
        ctx.check(ok, 'prob', lambda: 'P(%s) = %.12g, should be %.12g' % (terms.flatten_str(t), p, want))
        if want == 0:
            ctx.check(p < 1e-12, 'zero', lambda: 'P(%s) = %r of an impossible event' % (terms.flatten_str(t), p))
            ctx.count('zero')
        elif want > 1 - 1e-12:
            ctx.count('one')
        else:
            ctx.seen((ctx.case_desc, i))
        ctx.count('memo:%s' % ('shared' if memo is shared else memo))
    if rng.random() < 0.01 and len(ctx.samples) < 6:
        ctx.samples.append(ctx.case_desc[:400])
