"""C17: derived variables are deterministic functions of their base.

Variables are derived from whole models (at the root, before and after
conditioning, from other derived variables); queries on them are compared with
queries on their expressions and with the reference."""
import copy

import numpy as np

from .. import models, mquery, ref, terms
from ..gen_terms import Gen
from ..mquery import S, lp_query
from .c11 import repr_tree
from .c14 import columns, producible


def extend(comps, z, e):
    out = []
    for c in comps:
        d = dict(c.derived)
        d[z] = terms.subst(e, c.derived)
        out.append(ref.Comp(c.w, c.bases, d, c.keys))
    return out


def definable(M, R, e):
    for c in R.comps:
        ee = terms.subst(e, c.derived)
        v = next(iter(terms.event_vars(('cmp', ee, '<', 0))))
        k = c.keys[v]
        if k[0] == 'atom':
            d = ('atom', (('value', k[2]),))
        elif k[0] == 'leaf':
            d = (k[2], k[3])
        else:
            return False
        if not models.defined_on(d, v, ee):
            return False
    return True


def case(ctx, rng, idx):
    kinds = rng.choice([None, ['num']])
    M = mquery.M(ctx, rng, dtotal=True, mixed=False, kinds=kinds, numeric=0.95)
    spe, R, evid = M.spe, M.ref, []
    numbases = [v for v, k, _ in M.mg.schema if k == 'num']
    noms = M.mg.noms
    b = M.mb.b
    if noms and rng.random() < 0.1 or not numbases:
        v = rng.choice(noms)
        ctx.rejects('transform-of-string', lambda: spe.transform(b.id('T1'), b.id(v) ** 2), lambda: ctx.case_desc)
        ctx.count('rejected')
        return
    desc = M.show
    owner = {v: v for v in numbases}
    for v, _, zs in M.mg.schema:
        for z in zs:
            owner[z] = v
    for step in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.25 and step:
            t = M.eg.sized(widths=(1, 1, 2), maxdnf=3)
            o = mquery.Oracle(ctx, R, [t], evid)
            if o.pe * o.prob(lambda k: k[0]) > 1e-3:
                spe = ctx.call('condition', spe.condition, M.ev(t))
                evid = evid + [t]
                desc += ' | ' + S(t)
            continue
        g = Gen(rng, rng.choice(['int', 'rat', 'float']), transcendental=rng.random() < 0.4, maxdeg=3)
        for _ in range(30):
            base = rng.choice(sorted(owner))
            e = g.expr(('var', base), rng.choice([1, 1, 2]))
            if definable(M, R, e):
                break
        else:
            ctx.skip('no total expression')
        z = 'T%d' % (step + 1)
        ctx.desc('%s; %s=%s' % (desc, z, S(e)))
        before = repr_tree(spe)
        old = spe
        if e[0] == 'ind':       # comparing an event is notation for a range
            e = ('mul', e, 1)
        X = b.expr(e)
        spe = ctx.call('transform', spe.transform, b.id(z), X)
        ctx.check(repr_tree(old) == before and hash(old) is not None, 'original-changed', lambda: ctx.case_desc)
        ctx.check(spe.get_symbols() == old.get_symbols() | {b.id(z)}, 'symbols', lambda: '%s\nhas %s' % (ctx.case_desc, spe.get_symbols()))
        ctx.check(b.id(z) not in old.get_symbols(), 'original-changed', lambda: ctx.case_desc)
        Rold, R = R, R.like(extend(R.comps, z, e))
        owner[z] = owner[base]
        M.eg.nums = list(M.eg.nums) + [z] if z not in M.eg.nums else M.eg.nums
        desc = ctx.case_desc
        # The name is taken now.
        if rng.random() < 0.15:
            ctx.rejects('redefined', lambda: spe.transform(b.id(z), b.id(base) + 1), lambda: desc)
            ctx.rejects('undeclared', lambda: spe.transform(b.id('U7'), b.id('U8') + 1), lambda: desc)
        # Events on the new variable are events on the expression.
        lit = g.literal(('var', z))
        l2 = terms.subst(lit, {z: e})
        try:
            p = lp_query(ctx, rng, spe, M.ev(lit))
            q = lp_query(ctx, rng, old, M.ev(l2))
        except terms_skip:
            continue
        o = mquery.Oracle(ctx, R, [lit], evid)
        ok, want = o.agree(p, lambda k: k[0])
        ctx.check(ok, 'derived', lambda: '%s\nP(%s) = %.12g, should be %.12g' % (desc, S(lit), p, want))
        ctx.check(abs(p - q) < 1e-9, 'expression', lambda: '%s\nP(%s) = %.12g but P(%s) = %.12g' % (desc, S(lit), p, S(l2), q))
        ctx.evaluations += 2
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, S(lit)))
        if want * o.pe > 1e-3 and rng.random() < 0.5:
            c1 = ctx.call('condition-derived', spe.condition, M.ev(lit))
            qs = [M.eg.sized(widths=(1, 1, 2), maxdnf=3) for _ in range(2)]
            o2 = mquery.Oracle(ctx, R, qs, evid + [lit])
            for i, t in enumerate(qs):
                p = lp_query(ctx, rng, c1, M.ev(t))
                ok, want = o2.agree(p, lambda k: k[i])
                ctx.check(ok, 'conditioned', lambda: '%s | %s\nP(%s) = %.12g, should be %.12g' % (desc, S(lit), S(t), p, want))
                ctx.evaluations += 1
            ctx.count('conditioned')
    # Joint events over everything, and the old variables as before.
    qs = [M.eg.sized(widths=(1, 2, 2, 3), maxdnf=4) for _ in range(2)]
    o = mquery.Oracle(ctx, R, qs, evid)
    for i, t in enumerate(qs):
        p = lp_query(ctx, rng, spe, M.ev(t))
        ok, want = o.agree(p, lambda k: k[i])
        ctx.check(ok, 'joint', lambda: '%s\nP(%s) = %.12g, should be %.12g' % (desc, S(t), p, want))
        ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, S(t)))
    if rng.random() < 0.3:
        out = ctx.call('sample', spe.sample, 20, np.random.RandomState(rng.randrange(2 ** 31)))
        out = [{str(k): v for k, v in s.items()} for s in out]
        cols = columns(out, sorted(out[0]))
        ok = producible(R, evid, cols, 20)
        bad = np.nonzero(~ok)[0]
        ctx.check(not len(bad), 'sample', lambda: '%s\nsampled %s' % (desc, out[bad[0]]))
        ctx.count('sampled')


class terms_skip(Exception):
    pass
