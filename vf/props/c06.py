"""C06: event connectives and normal forms preserve meaning.

Truth tables over grids of joint assignments: the reference combines the truth
of literals computed exactly; the system evaluates the built event, its
disjunctive normal form, and (for one variable) its solution set."""
import numpy as np

from .. import grid, terms
from ..gen_events import EventGen, dnf_size, xors

NUMS, NOMS = ['X', 'Y', 'Z'], ['N', 'M']


def case(ctx, rng, idx):
    nn = rng.choice([1, 1, 2, 2, 3])
    nums = NUMS[:nn]
    noms = NOMS[:rng.choice([0, 0, 1, 1, 2])]
    if rng.random() < 0.1:
        nums, noms = [], NOMS[:rng.choice([1, 2])]
    style = rng.choice(['int', 'int', 'rat', 'float'])
    g = EventGen(rng, nums, noms, style, depth=rng.choice([0, 1, 1, 2]), transcendental=rng.random() < 0.4,
                 piece=rng.random() < 0.2, ind=rng.random() < 0.2)
    t = g.event(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]))
    while dnf_size(t) > 60 or dnf_size(t, True) > 60:
        t = g.event(rng.choice([1, 2, 3, 4]))
    if not terms.event_vars(t) >= set() or terms.event_vars(t) == set():
        ctx.skip('no variable')
    ctx.desc(terms.flatten_str(t))
    b = terms.Build()
    E = ctx.call('build', b.event, t)
    vs = terms.event_vars(t)
    ctx.check({s.token for s in E.get_symbols()} <= vs, 'symbols', lambda: '%s has symbols %s' % (E, E.get_symbols()))
    gr = grid.make(rng, [n for n in nums if n in vs], [n for n in noms if n in vs])
    want = gr.ref(t, defined=True)

    def cmp(got, what, shown, want=want):
        a = gr.first(got != want)
        if a is not None:
            ctx.violation(what, 'event %s\nbuilt as %s\nat %s: %s says %s, should be %s'
                          % (terms.flatten_str(t), E, a, shown, bool(got[(got != want) & gr.ok][0]),
                             bool(want[(got != want) & gr.ok][0])))
    cmp(gr.sys(E, 'evaluate'), 'evaluate', 'the event')
    # A few joint assignments through evaluate of the whole event.
    idxs = np.argwhere(gr.ok)
    for i in [tuple(idxs[rng.randrange(len(idxs))]) for _ in range(6)] if len(idxs) else []:
        a = {b.id(n): grid.to_sys(gr.values[n][k]) for n, k in zip(gr.names, i)}
        r = ctx.call('evaluate', E.evaluate, a)
        ctx.check(bool(r) == bool(want[i]), 'evaluate-joint', lambda: '%s at %s is %r, should be %s' % (E, a, r, want[i]))
    D = ctx.call('to_dnf', E.to_dnf)
    ctx.check(is_dnf(D), 'to_dnf:form', lambda: '%s became %s' % (E, D))
    cmp(gr.sys(D, 'evaluate'), 'to_dnf', 'the normal form %s' % D)
    NE = ctx.call('complement', lambda: ~E)
    cmp(gr.sys(NE, 'evaluate'), 'complement', 'the complement %s' % NE, ~want)
    if rng.random() < 0.5:
        ND = ctx.call('complement-dnf', lambda: (~D).to_dnf()) if blowup(D) < 200 else None
        if ND is not None:
            cmp(gr.sys(ND, 'evaluate'), 'complement-of-dnf', 'the complement %s' % ND, ~want)
    # Connectives of two built events.
    if xors(t) == 0 and rng.random() < 0.5:
        u = g.event(rng.choice([1, 2]))
        if terms.event_vars(u) <= vs and dnf_size(t) * dnf_size(u) < 60:
            U = ctx.call('build', b.event, u)
            wu = gr.ref(u, defined=True)
            for nm, f, w in (('and', lambda: E & U, want & wu), ('or', lambda: U | E, want | wu),
                             ('xor', lambda: E ^ U, want ^ wu)):
                C = ctx.call(nm, f)
                cmp(gr.sys(C, 'evaluate'), nm, '%s with %s: %s' % (nm, terms.flatten_str(u), C), w)
            # The operands are not modified.
            cmp(gr.sys(E, 'evaluate'), 'operand-changed', 'the event after combination')
    n = int(gr.ok.sum())
    ctx.evaluations += n
    ctx.count('assignments', n)
    ctx.count('vars:%d' % len(vs))
    if 0 < want[gr.ok].sum() < n:
        ctx.seen((ctx.case_desc,))
        ctx.count('both_truth_values')
    if rng.random() < 0.01 and len(ctx.samples) < 6:
        ctx.samples.append('%s -> %s' % (ctx.case_desc[:200], str(D)[:200]))


def blowup(D):
    """Clauses of the normal form of the complement."""
    from sppl.transforms import EventAnd, EventOr
    n = 1
    for c in (D.subexprs if isinstance(D, EventOr) else [D]):
        n *= 2 * (len(c.subexprs) if isinstance(c, EventAnd) else 1)
    return n


def is_dnf(D):
    from sppl.transforms import EventAnd, EventBasic, EventOr
    if isinstance(D, EventBasic):
        return True
    if isinstance(D, EventAnd):
        return all(isinstance(e, EventBasic) for e in D.subexprs)
    if isinstance(D, EventOr):
        return all(isinstance(e, EventBasic) or (isinstance(e, EventAnd) and is_dnf(e)) for e in D.subexprs)
    return False
