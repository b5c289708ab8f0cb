"""C14: samples are complete, consistent and inside the support.

Every assignment drawn from plain, conditioned, constrained and derived models
is matched against the reference components: some component must be able to
produce it, with the derived values and the evidence holding."""
import math

import numpy as np

from .. import mquery, ref, terms
from ..mquery import S
from .c12 import assignment, show_asg, sysasg


def prepare(ctx, rng, M, pmin=1e-4):
    """A model obtained by zero or more conditions / constraints: (spe, evidence, components)."""
    spe, evid, R = M.spe, [], M.ref
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        if rng.random() < 0.2:
            asg = assignment(rng, M)
            try:
                (d, l), ts = R.density(asg, evid)
            except (ref.Ambiguous, ref.TooBig):
                ctx.skip('ambiguous atom')
            if l < -100 or any(-60 < x - l < -25 for _, x in ts):
                continue
            R = R.constrained(asg, evid)
            spe = ctx.call('constrain', spe.constrain, sysasg(M, asg))
            ctx.desc('%s @ %s' % (ctx.case_desc, show_asg(asg)))
            ctx.count('constrained')
        else:
            t = M.eg.sized(widths=(1, 1, 2), maxdnf=4)
            o = mquery.Oracle(ctx, R, [t], evid)
            if o.pe * o.prob(lambda k: k[0]) < pmin:
                continue
            spe = ctx.call('condition', spe.condition, M.ev(t))
            evid = evid + [t]
            ctx.desc('%s | %s' % (ctx.case_desc, S(t)))
            ctx.count('conditioned')
    return spe, evid, R


def columns(samples, names):
    out = {}
    for v in names:
        xs = [s[v] for s in samples]
        out[v] = np.array(xs, dtype=object)
    return out


def in_support(b, xs):
    if b.kind == 'nom':
        return np.array([isinstance(x, str) and b.data.get(str(x), 0) > 0 for x in xs], bool)
    num = np.array([not isinstance(x, str) and not isinstance(x, bool) for x in xs], bool)
    if b.kind == 'disc':
        if b.pmf is None:
            return np.array([bool(n) and b.data.get(float(x), 0) > 0 for n, x in zip(num, xs)], bool)
        return np.array([bool(n) and float(x) == int(x) and float(b.pmf.logpmf(float(x))) > -np.inf
                         for n, x in zip(num, xs)], bool)
    lo, hi = b.data.support()
    return np.array([bool(n) and bool(np.isfinite(float(x)) and lo <= float(x) <= hi) for n, x in zip(num, xs)], bool)


def truth(t, env):
    """Truth of an event at sampled values, with slack at its boundaries."""
    k = t[0]
    if k in ('nom', 'nnom'):
        xs = env[t[1]]
        n = len(xs)
        r = np.array([isinstance(x, str) and (str(x) in t[2]) == (k == 'nom') for x in xs], bool)
        return r
    return terms.truth(t, env)


def holds(ev, comp, cols, mask):
    """Where (under mask) does the event hold, up to rounding of the sampled values?"""
    e = terms.subst(ev, comp.derived)
    idx = np.nonzero(mask)[0]
    res = np.zeros(len(mask), bool)
    if not len(idx):
        return res
    env, cont = {}, []
    for v in terms.event_vars(e):
        b = comp.bases[v]
        xs = cols[v][idx]
        if b.kind == 'nom':
            env[v] = xs
        else:
            env[v] = np.array([float(x) for x in xs])
            cont.append(v)
    noms = {v for v in env if v not in cont}

    def go(t, neg, shift):
        k = t[0]
        if k == 'not':
            return go(t[1], not neg, shift)
        if k in ('and', 'or'):
            rs = [go(s, neg, shift) for s in t[1:]]
            f = np.logical_and if (k == 'and') != neg else np.logical_or
            return f.reduce(rs)
        if k == 'xor':
            a, b = t[1], t[2]
            return go(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), neg, shift)
        vs = terms.event_vars(t)
        if k in ('nom', 'nnom'):
            if t[1] not in noms:
                return np.zeros(len(idx), bool)
            return np.asarray(terms.truth(t, {t[1]: env[t[1]]}, neg), bool)
        if vs & noms:
            return np.zeros(len(idx), bool)
        r = np.zeros(len(idx), bool)
        for s in (0.0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-7, -1e-7):
            env2 = {v: env[v] + s * np.maximum(1, abs(env[v])) for v in vs}
            r = r | np.asarray(terms.truth(t, env2, neg), bool)
        return r
    res[idx] = go(e, False, 0)
    return res


def producible(R, evid, cols, n, derived=True):
    """Which samples can some component produce (values of the given columns)?"""
    ok = np.zeros(n, bool)
    for c in R.comps:
        m = np.ones(n, bool)
        for v, b in c.bases.items():
            if v in cols:
                m &= in_support(b, cols[v])
        for z, e in c.derived.items():
            vs = terms.event_vars(('cmp', e, '<', 0))
            if z not in cols or not vs <= set(cols):
                continue
            idx = np.nonzero(m)[0]
            if not len(idx):
                continue
            v = next(iter(vs))
            xs = np.array([float(x) for x in cols[v][idx]])
            want = terms.ev(e, {v: xs})
            got = np.array([float(x) if not isinstance(x, str) else np.nan for x in cols[z][idx]])
            good = np.abs(want - got) <= 1e-7 * np.maximum(1, np.abs(want))
            for s in (1e-9, -1e-9):      # ends of pieces
                w = terms.ev(e, {v: xs + s * np.maximum(1, abs(xs))})
                good |= np.abs(w - got) <= 1e-6 * np.maximum(1, np.abs(w))
            good |= ~np.isfinite(want) | (np.abs(want) > 1e12)
            m[idx[~good]] = False
        for t in evid:
            e = terms.subst(t, c.derived)
            if terms.event_vars(e) <= set(cols):
                m &= holds(t, c, cols, m)
        ok |= m
    return ok


def case(ctx, rng, idx):
    M = mquery.M(ctx, rng, dtotal=True, mixed=False)
    spe, evid, R = prepare(ctx, rng, M)
    names = sorted(str(s) for s in spe.get_symbols())
    want = sorted([v for v, _, _ in M.mg.schema] + [z for _, _, zs in M.mg.schema for z in zs])
    ctx.check(names == want, 'symbols', lambda: '%s instead of %s' % (names, want))
    N = rng.choice([0, 1, 2, 5, 20, 60])
    prng = rng.choice([None, np.random.RandomState(rng.randrange(2 ** 31))])
    np.random.seed(rng.randrange(2 ** 31))
    kind = rng.choice(['sample', 'subset', 'func'])
    b = M.mb.b
    if kind == 'sample':
        sub = names
        out = ctx.call('sample', spe.sample, N, prng) if prng is not None else ctx.call('sample', spe.sample, N)
    else:
        sub = rng.sample(names, rng.randint(0 if rng.random() < 0.05 else 1, len(names)))
        if kind == 'subset':
            syms = [b.id(v) for v in sub]
            if rng.random() < 0.5:
                syms = set(syms)
            out = ctx.call('sample_subset', spe.sample_subset, syms, N, prng)
        else:
            calls = []
            f = eval('lambda %s: (calls.append(0), (%s))[1]' % (', '.join(sub), ''.join(v + ', ' for v in sub)),
                     {'calls': calls})
            out = ctx.call('sample_func', spe.sample_func, f, N, prng)
            ctx.check(len(calls) == N, 'function-calls', lambda: '%d calls for %d samples' % (len(calls), N))
            out = [{b.id(v): x for v, x in zip(sub, o)} for o in out]
    ctx.count(kind)
    desc = '%s: %s of %s x %d' % (ctx.case_desc, kind, sub, N)
    ctx.check(len(out) == N, 'number', lambda: '%s\n%d samples' % (desc, len(out)))
    for s in out:
        ctx.check(sorted(map(str, s)) == sorted(sub) and all(b.id(v) in s for v in sub), 'keys',
                  lambda: '%s\nsample %s' % (desc, s))
    out = [{str(k): v for k, v in s.items()} for s in out]
    cols = columns(out, sub)
    for v in sub:
        k = next((k for w, k, _ in M.mg.schema if w == v), 'num')
        for x in cols[v]:
            ctx.check(isinstance(x, str) == (k == 'nom'), 'type', lambda: '%s\n%s = %r' % (desc, v, x))
            if k == 'num':
                ctx.check(not math.isnan(float(x)), 'type', lambda: '%s\n%s = %r' % (desc, v, x))
    ok = producible(R, evid, cols, N)
    bad = np.nonzero(~ok)[0]
    ctx.check(not len(bad), 'impossible-sample', lambda: '%s\ncannot produce %s' % (desc, out[bad[0]]))
    ctx.evaluations += N
    ctx.count('samples', N)
    for s in out:
        ctx.seen((ctx.case_desc, sorted(s.items())))
