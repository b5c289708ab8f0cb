"""C07: events split into disjoint clauses cover exactly the original event.

Truth tables over grids of joint assignments for the normalized event, its
factoring by variable, and the disjoint rewriting; clauses are also intersected
pairwise through their solution sets."""
import itertools

import numpy as np

from .. import grid, terms
from ..gen_events import EventGen, dnf_size
from .c06 import is_dnf, NOMS, NUMS


def case(ctx, rng, idx):
    from sppl import dnf
    from sppl.sets import EmptySet
    from sppl.transforms import EventAnd, EventBasic, EventOr, Identity
    nums = NUMS[:rng.choice([1, 1, 2, 2, 3])]
    noms = NOMS[:rng.choice([0, 0, 1, 1, 2])]
    if rng.random() < 0.1:
        nums, noms = [], NOMS[:rng.choice([1, 2])]
    style = rng.choice(['int', 'int', 'int', 'rat', 'float'])
    g = EventGen(rng, nums, noms, style, depth=rng.choice([0, 0, 1, 1, 2]), transcendental=rng.random() < 0.3,
                 piece=rng.random() < 0.2, ind=rng.random() < 0.2)
    w = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    t = g.event(w)
    if rng.random() < 0.5:
        # Overlapping clauses.
        t = ('or', t, g.event(rng.choice([1, 2, 3])))
        if rng.random() < 0.4:
            t = ('or', t, ('and', g.event(1), g.event(1)))
    if rng.random() < 0.08:
        t = ('and', t, ('not', t))
    while dnf_size(t) > (10 if idx % 8 == 0 else 6):
        t = g.event(rng.choice([1, 2, 3, 4]))
    ctx.desc(terms.flatten_str(t))
    b = terms.Build()
    E = ctx.call('build', b.event, t)
    vs = terms.event_vars(t)
    gr = grid.make(rng, [n for n in nums if n in vs], [n for n in noms if n in vs])
    want = gr.ref(t)
    if not len(vs):
        ctx.skip('no variable')

    def cmp(got, what, shown):
        a = gr.first(got != want)
        if a is not None:
            ctx.violation(what, 'event %s\nrewritten as %s\nat %s: should be %s'
                          % (terms.flatten_str(t), shown, a, bool(want[(got != want) & gr.ok][0])))
    N = ctx.call('normalize', dnf.dnf_normalize, E)
    ctx.evaluations += int(gr.ok.sum())
    if N is None:
        a = gr.first(want)
        ctx.check(a is None, 'impossible:wrong', lambda: '%s reported impossible but holds at %s' % (ctx.case_desc, a))
        ctx.count('impossible')
        ctx.seen(('imp', ctx.case_desc))
        return
    # Possible: every clause has a solution.
    lits = literals(N)
    for lit in lits:
        ctx.check(isinstance(lit.subexpr, Identity), 'normalize:literal', lambda: '%s has literal %s' % (N, lit))
    ctx.check(is_dnf(N), 'normalize:form', lambda: '%s is not in normal form' % N)
    cmp(gr.sys(N), 'normalize', N)
    F = ctx.call('factor', dnf.dnf_factor, N)
    ctx.check(any(all(ev.solve() is not EmptySet for ev in cl.values()) for cl in F), 'impossible:missed',
              lambda: '%s normalized to %s, which nothing satisfies' % (ctx.case_desc, N))
    cmp(np.logical_or.reduce([np.logical_and.reduce([gr.sys(ev) for ev in cl.values()]) for cl in F]), 'factor', F)
    for cl in F:
        for sym, ev in cl.items():
            ctx.check(ev.get_symbols() == frozenset([sym]), 'factor:key', lambda: '%s under %s' % (ev, sym))
    # Grouped factoring.
    if len(vs) > 1:
        syms = sorted(N.get_symbols(), key=str)
        lookup = {s: rng.randrange(2) for s in syms}
        G = ctx.call('factor', dnf.dnf_factor, N, lookup)
        for cl in G:
            for k, ev in cl.items():
                ctx.check(all(lookup[s] == k for s in ev.get_symbols()), 'factor:group', lambda: '%s under %s' % (ev, k))
        cmp(np.logical_or.reduce([np.logical_and.reduce([gr.sys(ev) for ev in cl.values()]) for cl in G]),
            'factor-grouped', G)
    U = ctx.call('disjoint', dnf.dnf_to_disjoint_union, N)
    disjoint(ctx, gr, U, 'disjoint', cmp)
    if rng.random() < 0.3:
        # Also from the normal form that is not normalized (total expressions).
        D = E.to_dnf()
        V = ctx.call('disjoint-raw', dnf.dnf_to_disjoint_union, D)
        disjoint(ctx, gr, V, 'disjoint-raw', cmp)
        ctx.count('raw')
    if isinstance(N, EventOr):
        ctx.count('multi_clause')
        if dnf.dnf_non_disjoint_clauses(N):
            ctx.count('overlapping')
    n = int(gr.ok.sum())
    ctx.count('assignments', n)
    ctx.count('vars:%d' % len(vs))
    if 0 < want[gr.ok].sum() < n:
        ctx.seen((ctx.case_desc,))
    if rng.random() < 0.01 and len(ctx.samples) < 6:
        ctx.samples.append('%s -> %s' % (ctx.case_desc[:200], str(U)[:200]))


def literals(N):
    from sppl.transforms import EventBasic
    if isinstance(N, EventBasic):
        return [N]
    return [x for e in N.subexprs for x in literals(e)]


def disjoint(ctx, gr, U, mech, cmp):
    from sppl.sets import EmptySet
    from sppl.transforms import EventOr
    cmp(gr.sys(U), mech + ':cover', U)
    clauses = list(U.subexprs) if isinstance(U, EventOr) else [U]
    tables = [gr.sys(c) for c in clauses]
    for (i, a), (j, c) in itertools.combinations(list(enumerate(tables)), 2):
        x = gr.first(a & c)
        if x is not None:
            ctx.violation(mech + ':overlap', '%s\nrewritten as %s\nclauses %s and %s both hold at %s'
                          % (ctx.case_desc, U, clauses[i], clauses[j], x))
    # Disjoint also off the grid: some variable's solutions do not meet.
    sols = []
    for c in clauses:
        s = {}
        for lit in literals(c):
            (sym,) = lit.get_symbols()
            v = lit.solve()
            s[sym] = v if sym not in s else s[sym] & v
        sols.append(s)
    for s1, s2 in itertools.combinations(sols, 2):
        if any(v is EmptySet for v in list(s1.values()) + list(s2.values())):
            continue
        meet = [s1[k] & s2[k] for k in s1 if k in s2]
        if not any(m is EmptySet for m in meet):
            ctx.violation(mech + ':overlap-sets', '%s\nrewritten as %s\nclauses %s and %s meet' % (ctx.case_desc, U, s1, s2))
