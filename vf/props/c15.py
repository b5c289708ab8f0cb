"""C15: samples follow the model distribution jointly.

Joint truth tables of events on batches of samples, within single draws and
across neighbouring draws of a batch, are compared with reference
probabilities by a likelihood-ratio test; a rejection is confirmed on larger
fresh batches before it counts."""
import math

import numpy as np

from .. import mquery, ref, terms
from ..mquery import S
from .c14 import prepare

ALPHA = 1e-6
CONFIRM = 1e-12


def table(t, env, n):
    """Truth of an event at samples; None where it cannot be decided in floating point."""
    for a in terms.atoms(t):
        if a[0] in ('nom', 'nnom'):
            continue
        v = terms.ev(a[1], env)
        for l in terms.literals(a):
            d = np.abs(v - l)
            if ((d > 0) & (d < 1e-9 * max(1, abs(l)))).any():
                return None
        if (np.abs(v) > 1e12).any():
            return None
    return np.asarray(terms.truth(t, env), bool)


def surprise(counts, probs, n):
    """log10 of an upper bound on the p-value of the counts."""
    g, k = 0.0, 0
    for key in set(counts) | set(probs):
        c, p = counts.get(key, 0), probs.get(key, 0.0)
        if c == 0:
            k += p > 0
            continue
        if p < 1e-9:
            if c > 3:
                return -99.0
            continue
        k += 1
        g += c * math.log(c / (n * p))
    # P(G >= g) <= (n+1)^k exp(-g)  (method of types)
    return (k * math.log(n + 1) - g) / math.log(10)


def case(ctx, rng, idx):
    M = mquery.M(ctx, rng, dtotal=True, mixed=False)
    M.eg.transcendental = False
    spe, evid, R = prepare(ctx, rng, M, 1e-3)
    ts = [M.eg.sized(widths=(1, 1, 2), maxdnf=3) for _ in range(rng.choice([2, 3, 3]))]
    o = mquery.Oracle(ctx, R, ts, evid)
    m = len(ts)
    probs = {}
    for k, p in o.j.items():
        if all(k[m:]) and p > 0:
            probs[k[:m]] = probs.get(k[:m], 0.0) + p / o.pe
    probs = {k: p for k, p in probs.items() if p > 1e-12}
    if max(probs.values()) > 0.999:
        ctx.skip('events determined')
    desc = '%s :: %s' % (ctx.case_desc, ' ; '.join(map(S, ts)))
    ctx.desc(desc)
    names = sorted(set().union(*[terms.event_vars(t) for t in ts]))
    allnames = sorted(str(s) for s in spe.get_symbols())
    kind = rng.choice(['sample', 'sample', 'subset', 'func'])
    sub = names + [v for v in allnames if v not in names and rng.random() < 0.3]
    b = M.mb.b
    npseed = rng.randrange(2 ** 31)
    prng = np.random.RandomState(npseed) if rng.random() < 0.7 else None
    np.random.seed(npseed)
    rng.shuffle(sub)
    f = eval('lambda %s: (%s,)' % (', '.join(sub), ', '.join(sub)))
    noms = {v for v, k, _ in M.mg.schema if k == 'nom'}

    def draw(n):
        if kind == 'sample':
            out = ctx.call('sample', spe.sample, n, prng)
            rows = [[s[b.id(v)] for v in sub] for s in out]
        elif kind == 'subset':
            out = ctx.call('sample_subset', spe.sample_subset, [b.id(v) for v in sub], n, prng)
            rows = [[s[b.id(v)] for v in sub] for s in out]
        else:
            rows = ctx.call('sample_func', spe.sample_func, f, n, prng)
        env = {}
        for i, v in enumerate(sub):
            xs = [r[i] for r in rows]
            env[v] = np.array([str(x) for x in xs], dtype=object) if v in noms else np.array([float(x) for x in xs])
        cols = [table(t, env, n) for t in ts]
        if any(c is None for c in cols):
            ctx.skip('undecidable at samples')
        return list(zip(*[c.tolist() for c in cols]))

    pairs = {}
    for a, p in probs.items():
        for c, q in probs.items():
            pairs[(a, c)] = p * q

    def tests(rows):
        n = len(rows)
        cnt = {}
        for k in rows:
            cnt[k] = cnt.get(k, 0) + 1
        yield 'joint', surprise(cnt, probs, n), cnt
        if len(pairs) > 40:
            return
        for name, it in (('neighbours', zip(rows[0::2], rows[1::2])), ('halves', zip(rows[:n // 2], rows[n // 2:])),
                         ('ends', zip(rows[:n // 2], reversed(rows)))):
            cnt = {}
            for k in it:
                cnt[k] = cnt.get(k, 0) + 1
            yield name, surprise(cnt, pairs, sum(cnt.values())), cnt

    n = rng.choice([200, 500, 1500])
    ctx.count('draws', n)
    rows = draw(n)
    ctx.evaluations += n
    for name, s, cnt in tests(rows):
        ctx.count('test:' + name)
        if s < math.log10(ALPHA):
            # Confirm on fresh, larger batches.
            ctx.count('confirmations')
            again = [dict((a, (b_, c)) for a, b_, c in tests(draw(k * n)))[name] for k in (3, 6)]
            if all(a < math.log10(CONFIRM) for a, _ in again):
                c = again[-1][1]
                tot = sum(c.values())
                p = probs if name == 'joint' else pairs
                ctx.violation('frequencies:' + name, '%s\n%s of %d: %s' % (desc, kind, tot, [
                    (k, c.get(k, 0) / tot, p.get(k, 0.0)) for k in sorted(set(c) | set(p))][:12]))
    ctx.seen(desc)
