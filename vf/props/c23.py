"""C23: translated programs denote their sequential probabilistic semantics.

Random well-formed programs are compiled and executed by the system; events on
the resulting model are compared with an interpreter that executes the program
statement by statement (progs.py)."""
import os

from .. import mquery, progs, ref
from ..mquery import S, lp_query
from ..terms import Build


def generate(ctx, rng, **kw):
    """(generator, statements, state) or a skip"""
    for _ in range(4):
        g = progs.ProgGen(rng, **kw)
        try:
            stmts, state = g.program()
        except (progs.TooMany, progs.Impossible):
            continue
        except ref.Ambiguous:
            continue
        except ref.TooBig:
            continue
        if sum(len(p.ev) for p in state) > 200:
            continue
        return g, stmts, state
    ctx.skip('no small program')


def compare(ctx, rng, g, model, state, k=3, mech='probability', show=lambda: ''):
    b = Build()
    ts = [g.query() for _ in range(k)]
    o = progs.Oracle(ctx, state, ts)
    for i, t in enumerate(ts):
        E = ctx.call('build-event', b.event, t)
        p = lp_query(ctx, rng, model, E)
        ok, want = o.agree(p, lambda key: key[i])
        ctx.check(ok, mech, lambda: '%s\nP(%s) = %.12g, should be %.12g' % (show(), S(t), p, want))
        ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((show(), S(t)))


def case(ctx, rng, idx):
    mquery.config(ctx, rng, 0.9)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    if rng.random() < 0.3:
        os.environ['SPPL_NO_SIMPLIFY'] = '1'
        ctx.count('unsimplified')
    g, stmts, state = generate(ctx, rng)
    src = progs.Src(rng).program(stmts)
    ctx.desc(src)
    ctx.maxi('paths', len(state))
    for f in g.features:
        ctx.count('has:' + f)
    ns = ctx.call('compile', progs.compile, src)
    model = ns.model
    names = {s.token for s in model.get_symbols()}
    ctx.check(names == set(g.kind), 'variables', lambda: '%s\nhas variables %s, should be %s' % (src, sorted(names), sorted(g.kind)))
    compare(ctx, rng, g, model, state, show=lambda: src)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(src[:600])
