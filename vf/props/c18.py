"""C18: queries are pure and independent of history.

The answers to a list of queries on a freshly built model with fresh memo
tables are the baseline; the same queries are then asked in random order of
one model with shared, fresh and disabled memo tables, interleaved with
queries on other (short-lived) models and with renderings, and must agree.
The structure of the model is fingerprinted around every query."""
import copy
import gc
import json
import math

import numpy as np

from .. import models, mquery
from ..mquery import S
from .c11 import repr_tree
from .c12 import assignment, show_asg, sysasg


def run(fn):
    try:
        return fn()
    except Exception as e:
        return ('error', type(e).__name__)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('error',):
        return True     # the symbolic library fails in ways that depend on its caches
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return min(a, b) < -34       # rounding in differences of probabilities
    ea, eb = math.exp(min(a, 700)), math.exp(min(b, 700))
    return abs(ea - eb) <= 1e-10 * max(1, abs(ea))


def queries(rng, M):
    """[(description, function of (model, memo), uses the memo)]"""
    qs = []
    ev = lambda: M.eg.sized(widths=(1, 1, 2, 2), maxdnf=4)
    for _ in range(3):
        t = ev()
        qs.append(('logprob %s' % S(t), lambda m, memo, E=M.ev(t): float(m.logprob(E, memo))))
    t = ev()
    qs.append(('prob %s' % S(t), lambda m, memo, E=M.ev(t): math.log(max(float(m.prob(E)), 1e-300))))
    for _ in range(2):
        t, u, w = ev(), ev(), ev()
        qs.append(('condition %s then %s, %s' % (S(t), S(u), S(w)),
                   lambda m, memo, E=M.ev(t), F=M.ev(u), G=M.ev(w): (
                       lambda c: [float(c.logprob(F, memo)), float(c.logprob(G, memo))])(m.condition(E, memo))))
    for _ in range(2):
        a = assignment(rng, M)
        qs.append(('logpdf %s' % show_asg(a), lambda m, memo, a=sysasg(M, a): float(m.logpdf(dict(a), memo))))
    a, t = assignment(rng, M), ev()
    qs.append(('constrain %s then %s' % (show_asg(a), S(t)),
               lambda m, memo, a=sysasg(M, a), E=M.ev(t): float(m.constrain(dict(a), memo).logprob(E, memo))))
    t, u = ev(), ev()
    qs.append(('mutual information %s, %s' % (S(t), S(u)),
               lambda m, memo, E=M.ev(t), F=M.ev(u): float(m.mutual_information(E, F, memo))))
    seed = rng.randrange(2 ** 31)
    qs.append(('sample', lambda m, memo: tuple(sorted((str(k), str(v)) for s in m.sample(3, np.random.RandomState(seed))
                                                      for k, v in s.items()))))
    nums = [v for v, k, _ in M.mg.schema if k == 'num']
    if nums:
        v = rng.choice(nums)
        T, X = M.mb.b.id('T5'), M.mb.b.id(v)
        qs.append(('transform T5=%s**2+1 then T5>2' % v,
                   lambda m, memo: float(m.transform(T, X ** 2 + 1).logprob(T > 2, memo))))

    def render(m, memo):
        from sppl.compilers.spe_to_dict import spe_to_dict
        from sppl.compilers.spe_to_sppl import render_sppl
        from sppl.render import render_nested_lists
        out = [str(run(lambda: json.dumps(spe_to_dict(m), sort_keys=True, default=str)))]
        out.append(str(run(lambda: render_sppl(m).getvalue())))
        out.append(str(len(str(run(lambda: render_nested_lists(m))))))
        return tuple(out)
    qs.append(('render', render))
    return qs


def churn(ctx, rng):
    """Many short-lived models sharing one memo table."""
    from sppl.spe import Memo
    M = mquery.M(ctx, rng, dtotal=True, mixed=False, numeric=0.95, nvars=rng.choice([1, 2]), depth=rng.choice([0, 0, 1]))
    variants = []
    for _ in range(6):
        mg = copy.copy(M.mg)
        mg.pool = {}
        variants.append(mg.spec())
    # Distinct objects with the same meaning hit the same entries.
    ts = [M.eg.sized(widths=(1, 1, 2), maxdnf=3) for _ in range(3)]
    Es = [M.ev(t) for t in ts]
    asg = assignment(rng, M)
    A = sysasg(M, asg)
    qs = [(S(t), lambda m, memo, E=E: float(m.logprob(E, memo))) for t, E in zip(ts, Es)]
    qs.append((show_asg(asg), lambda m, memo: float(m.logpdf(A, memo))))
    qs.append(('%s given %s' % (S(ts[1]), S(ts[0])), lambda m, memo: float(m.condition(Es[0], memo).logprob(Es[1], memo))))
    qs.append(('%s given %s' % (S(ts[0]), show_asg(asg)), lambda m, memo: float(m.constrain(A, memo).logprob(Es[0], memo))))
    models_ = [M.mb.build(s) for s in variants]
    want = [[run(lambda: q(m, None)) for _, q in qs] for m in models_]
    memo = Memo()
    for k in range(60):
        i = rng.randrange(len(variants))
        m = M.mb.build(variants[i])
        for j in rng.sample(range(len(qs)), 2):
            got = run(lambda: qs[j][1](m, memo))
            ctx.evaluations += 1
            ctx.check(type(got) == type(want[i][j]) and same(got, want[i][j]), 'short-lived', lambda:
                      '%s\n%s\nanswered %s, alone it answers %s' % (models.show(variants[i]), qs[j][0], got, want[i][j]))
        del m
        if k % 40 == 20:
            gc.collect()
    ctx.count('churn')
    ctx.seen(('churn', M.show, tuple(map(S, ts))))


def case(ctx, rng, idx):
    from sppl.spe import Memo
    if idx % 6 == 5:
        return churn(ctx, rng)
    M = mquery.M(ctx, rng, dtotal=True, mixed=False, numeric=0.95)
    qs = queries(rng, M)
    qs = rng.sample(qs, min(len(qs), 8))
    mb = M.mb
    style = rng.choice(['ctor', 'op'])
    mb.style = style
    base = []
    for name, q in qs:
        m = mb.build(M.spec)
        base.append(run(lambda: q(m, None)))
    spe = mb.build(M.spec)
    other = mb.build(M.spec)
    shared = Memo()
    tree, h = repr_tree(spe), hash(spe)
    log = []
    order = [i for i in range(len(qs)) for _ in range(3)]
    rng.shuffle(order)
    for i in order:
        name, q = qs[i]
        mode = rng.choice(['shared', 'shared', 'shared', 'fresh', 'disabled', 'none', 'other', 'rebuilt'])
        m, memo = spe, shared
        if mode == 'fresh':
            memo = Memo()
        elif mode == 'disabled':
            memo = False
        elif mode == 'none':
            memo = None
        elif mode == 'other':
            m = other
        elif mode == 'rebuilt':        # a short-lived equal model with the long-lived memo
            m = mb.build(M.spec)
        log.append('%s [%s]' % (name, mode))
        ctx.desc('%s :: %s' % (M.show, ' ; '.join(log[-12:])))
        got = run(lambda: q(m, memo))
        ctx.count('mode:' + mode)
        ctx.evaluations += 1
        ctx.check(same(got, base[i]) if type(got) == type(base[i]) else False, 'history',
                  lambda: '%s\nfinally answered %s, a fresh model answers %s' % (ctx.case_desc, got, base[i]))
        ctx.check(repr_tree(spe) == tree and hash(spe) == h, 'model-changed', lambda: ctx.case_desc)
        if rng.random() < 0.02:
            gc.collect()
        ctx.seen((M.show, name, mode))
    ctx.check(spe == other and spe == mb.build(M.spec), 'model-changed', lambda: ctx.case_desc)
