"""C10: conditioning on an event is exactly Bayes rule.

Conditioned models (conditioned once, repeatedly, and on conjunctions) answer
queries; the answers are compared with ratios of reference probabilities of
the original model."""
from .. import mquery, terms
from ..mquery import S, lp_query


def case(ctx, rng, idx):
    from sppl.spe import Memo
    M = mquery.M(ctx, rng, dtotal=True, mixed=False)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    conds, queries = [], []
    ts, Es = M.events(n, widths=(1, 1, 2, 2, 3), maxdnf=5)
    spe, memo = M.spe, None
    # Only evidence of clearly positive probability (C11 covers the rest).
    kept, keptE = [], []
    for t, E in zip(ts, Es):
        o = M.oracle([t], kept)
        if o.pe * o.prob(lambda k: k[0]) > 1e-4:
            kept.append(t)
            keptE.append(E)
    if not kept:
        ctx.skip('improbable evidence')
    ctx.desc('%s | %s' % (M.show, ' | '.join(map(S, kept))))
    mode = rng.choice(['seq', 'seq', 'and', 'prefix', 'memo'])
    posts = []
    if mode in ('seq', 'prefix', 'memo'):
        memo = Memo()
        for E in keptE:
            spe = ctx.call('condition', spe.condition, E, *((memo,) if mode == 'memo' else ()))
        posts.append(('sequence', spe))
    if mode in ('and', 'prefix') or (len(kept) > 1 and rng.random() < 0.5):
        E = keptE[0]
        for F in keptE[1:]:
            E = E & F
        if dnf(('and',) + tuple(kept)) <= 12:
            posts.append(('conjunction', ctx.call('condition', M.spe.condition, E)))
    if not posts:
        ctx.skip('conjunction too large')
    ctx.count('evidence:%d' % len(kept))
    qs = [M.eg.sized(widths=(1, 1, 2, 3), maxdnf=4) for _ in range(3)]
    o = M.oracle(qs, kept)
    for name, post in posts:
        ctx.count('post:' + name)
        ctx.check(post.get_symbols() == M.spe.get_symbols(), 'symbols', lambda: '%s instead of %s' %
                  (post.get_symbols(), M.spe.get_symbols()))
        for t, E in zip(kept, keptE):
            p = lp_query(ctx, rng, post, E)
            ctx.check(abs(p - 1) < 1e-8, 'evidence-not-certain', lambda: '%s: P(%s) = %r after conditioning on it (%s)'
                      % (ctx.case_desc, S(t), p, name))
        for i, t in enumerate(qs):
            p = lp_query(ctx, rng, post, M.ev(t))
            ctx.evaluations += 1
            ok, want = o.agree(p, lambda k: k[i])
            ctx.check(ok, 'bayes', lambda: '%s (%s)\nP(%s) = %.12g, should be %.12g; evidence has probability %.6g'
                      % (ctx.case_desc, name, S(t), p, want, o.pe))
            if 1e-9 < want < 1 - 1e-9:
                ctx.seen((ctx.case_desc, S(t), name))
        if rng.random() < 0.4:
            # Condition the conditioned model again.
            t = qs[0]
            pq = o.prob(lambda k: k[0])
            if pq * o.pe > 1e-4:
                again = ctx.call('condition-again', post.condition, M.ev(t))
                o2 = M.oracle(qs[1:], kept + [t])
                for i, u in enumerate(qs[1:]):
                    p = lp_query(ctx, rng, again, M.ev(u))
                    ok, want = o2.agree(p, lambda k: k[i])
                    ctx.check(ok, 'bayes-again', lambda: '%s | %s (%s)\nP(%s) = %.12g, should be %.12g'
                              % (ctx.case_desc, S(t), name, S(u), p, want))
                ctx.count('again')
    # The original is unchanged.
    if rng.random() < 0.2:
        p = lp_query(ctx, rng, M.spe, M.ev(qs[0]))
        ok, want = M.oracle(qs[:1]).agree(p, lambda k: k[0])
        ctx.check(ok, 'original-changed', lambda: 'P(%s) = %r, should be %r' % (S(qs[0]), p, want))


def dnf(t):
    from ..gen_events import dnf_size
    return dnf_size(t)
