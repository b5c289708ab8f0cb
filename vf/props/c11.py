"""C11: impossible evidence is rejected and possible evidence accepted.

The reference decides whether evidence (an event, or an assignment) is
possible; every spelling of it must be treated the same, and the model must
answer as before afterwards."""
from .. import mquery, ref, terms
from ..gen_events import dnf_size
from ..mquery import S, lp_query
from .c12 import assignment, sysasg, show_asg


def spellings(rng, eg, t):
    """Events with the same meaning (the expressions in t being defined)."""
    out = [('not', ('not', t)), ('and', t, t), ('or', t, t)]
    if t[0] in ('and', 'or'):
        out.append((t[0],) + tuple(reversed(t[1:])))
        out.append(('not', ({'and': 'or', 'or': 'and'}[t[0]],) + tuple(('not', s) for s in t[1:])))
        out.append(('or', t, ('and', t, t[1])))
    l = eg.literal()
    from ..models import total_lit
    if total_lit(l):
        out.append(('or', ('and', t, l), ('and', t, ('not', l))))
        out.append(('or', t, ('and', t, l)))
        out.append(('and', t, ('or', l, ('not', l))))
        out.append(('or', t, ('and', l, ('not', l))))
    for k in range(len(out)):
        if t[0] == 'rng':
            out.append(('and', ('cmp', t[1], {'<': '>', '<=': '>='}[t[3]], t[2]), ('cmp', t[1], t[5], t[4])))
            break
        if t[0] == 'in' and len(t[2]) > 1:
            out.append(('or',) + tuple(('in', t[1], (v,)) for v in t[2]))
            break
        if t[0] == 'nom' and len(t[2]) > 1:
            out.append(('or',) + tuple(('nom', t[1], (v,)) for v in t[2]))
            break
    return [s for s in out if dnf_size(s) <= 9]


def zero_event(rng, M):
    """An event that is likely impossible."""
    eg = M.eg
    k = rng.randrange(5)
    if k == 0:
        t = eg.sized(widths=(1, 1, 2), maxdnf=3)
        return ('and', t, ('not', t))
    v = rng.choice(M.mg.nums + M.mg.noms)
    if v in M.mg.noms:
        z = rng.choice([('nom', v, ('q',)), ('nom', v, ('q', 'r')), ('and', ('nom', v, ('a',)), ('nom', v, ('b',)))])
    else:
        x = ('var', v)
        z = rng.choice([('in', x, (0.3137,)), ('in', x, (0.3137, -77.125)),
                        ('and', ('cmp', x, '>', 1), ('cmp', x, '<', 0)), ('rng', x, 1, '<', 1, '<='),
                        ('cmp', ('ipow', x, 2), '<', 0),
                        ('cmp', ('abs', x), '<', -1), ('in', ('abs', x), (0.3137,))])
    if k == 1:
        return z
    if k == 2:
        return ('and', eg.sized(widths=(1, 2), maxdnf=3), z)
    if k == 3:
        return ('or', z, zero_event(rng, M))
    return ('and', z, eg.literal())


def case(ctx, rng, idx):
    from sppl.spe import Memo
    M = mquery.M(ctx, rng, dtotal=True, mixed=False)
    spe, evid = M.spe, []
    if rng.random() < 0.25:
        t0 = M.eg.sized(widths=(1, 1, 2), maxdnf=3)
        if M.oracle([t0]).prob(lambda k: k[0]) > 1e-3:
            spe = ctx.call('condition', spe.condition, M.ev(t0))
            evid = [t0]
            ctx.desc('%s | %s' % (ctx.case_desc, S(t0)))
    base_desc = ctx.case_desc
    probe = M.eg.sized(widths=(1, 2), maxdnf=3)
    PE = M.ev(probe)
    before = (lp_query(ctx, rng, spe, PE), hash(spe), repr_tree(spe))
    for rnd in range(2):
        t = zero_event(rng, M) if rng.random() < 0.5 else M.eg.sized(widths=(1, 1, 2, 3), maxdnf=4)
        if dnf_size(t) > 6:
            continue
        ctx.desc('%s :: %s' % (base_desc, S(t)))
        o = M.oracle([t], evid)
        p = o.prob(lambda k: k[0])
        if p * o.pe <= 1e-7 and (p > 0 or M.ref.possible([t] + evid) > 0):
            # Zero only up to the reference's resolution.
            ctx.count('unresolved')
            continue
        forms = [t] + [s for s in rng.sample(spellings(rng, M.eg, t), 2)]
        for f in forms:
            E = M.ev(f)
            memo = rng.choice([None, None, Memo(), False])
            args = () if memo is None else (memo,)
            if p == 0:
                ctx.rejects('zero-probability', lambda: spe.condition(E, *args), lambda: '%s\nconditioned on %s' % (base_desc, S(f)))
                q = lp_query(ctx, rng, spe, E)
                ctx.check(q < 1e-12, 'zero-probability', lambda: 'P(%s) = %r' % (S(f), q))
                ctx.count('rejected')
            else:
                post = ctx.call('condition-possible', spe.condition, E, *args)
                q = lp_query(ctx, rng, post, M.ev(t))
                ctx.check(abs(q - 1) < 1e-7, 'accepted-wrong', lambda: '%s\nconditioned on %s, P(%s) = %r'
                          % (base_desc, S(f), S(t), q))
                ctx.count('accepted')
            ctx.evaluations += 1
            ctx.seen((base_desc, S(f)))
    # Assignments.
    if not evid:
        for rnd in range(2):
            asg = assignment(rng, M, wild=rng.random() < 0.5)
            ctx.desc('%s @ %s' % (base_desc, show_asg(asg)))
            (d, l), _ = M.ref.density(asg)
            if l == -ref.INF:
                ctx.rejects('zero-density', lambda: spe.constrain(sysasg(M, asg)), lambda: ctx.case_desc)
                ctx.count('rejected-assignment')
            elif l > -500:
                ctx.call('constrain-possible', spe.constrain, sysasg(M, asg))
                ctx.count('accepted-assignment')
            ctx.evaluations += 1
            ctx.seen((ctx.case_desc,))
    after = (lp_query(ctx, rng, spe, PE), hash(spe), repr_tree(spe))
    ctx.check(abs(before[0] - after[0]) < 1e-12 and before[1:] == after[1:], 'model-changed',
              lambda: '%s\nP(%s): %r, then %r\n%s\n%s' % (base_desc, S(probe), before[0], after[0], before[2], after[2]))


def repr_tree(s):
    """Structural dump of a model."""
    name = type(s).__name__
    if hasattr(s, 'children'):
        return (name, tuple(getattr(s, 'weights', ())), tuple(repr_tree(c) for c in s.children))
    env = tuple((str(k), str(v)) for k, v in s.env.items())
    if name == 'NominalLeaf':
        return (name, str(s.symbol), tuple(sorted(s.dist.items())), tuple(s.outcomes), tuple(s.weights), env)
    if name == 'AtomicLeaf':
        return (name, str(s.symbol), repr(s.value), env)
    return (name, str(s.symbol), s.dist.dist.name, tuple(s.dist.args), tuple(sorted(s.dist.kwds.items(), key=str)),
            str(s.support), s.conditioned, env)
