"""C27: equality and hashing of models, expressions and events are sound.

Pools of objects built independently from the same description, from the same
description with other number types, and from descriptions with one small
difference are compared pairwise: equality must be an equivalence relation,
agree with the hash, hold for equal descriptions, and never hold for objects
that the reference (values, truth tables, parameters, answers) tells apart."""
import math
import random
from fractions import Fraction as F

import numpy as np

from .. import grid, models, mquery, ref, terms
from ..gen_events import EventGen, dnf_size
from ..gen_terms import sibling
from ..mquery import S

PTS = [0.3719, -0.6131, 1.4137, -2.1371, 2.7193, -3.3571, 4.1931, 0.0513, -0.0937, 7.713, -8.317, 23.19, -31.77]


# Differences ------------------------------------------------------------------

def numbers(t, path=()):
    """Paths of the numeric constants of a term."""
    out = []
    if isinstance(t, tuple):
        if t and t[0] in ('rat', 'sq', 'pi', 'e'):
            return [path]
        if t and t[0] in ('nom', 'nnom'):
            return []
        for i, s in enumerate(t):
            if i == 2 and t[0] in ('ipow', 'root'):
                continue
            out += numbers(s, path + (i,))
    elif isinstance(t, (int, float)) and not isinstance(t, bool):
        out.append(path)
    return out


def put(t, path, v):
    if not path:
        return v
    i = path[0]
    return t[:i] + (put(t[i], path[1:], v),) + t[i + 1:]


def get(t, path):
    for i in path:
        t = t[i]
    return t


def retype(rng, t):
    """The same constants as other types of numbers."""
    for p in numbers(t):
        v = get(t, p)
        if isinstance(v, int) and rng.random() < 0.6:
            t = put(t, p, float(v))
        elif isinstance(v, float) and v.is_integer() and rng.random() < 0.6:
            t = put(t, p, int(v))
        elif isinstance(v, float) and math.isfinite(v) and F(v).denominator in (2, 4) and rng.random() < 0.7:
            t = put(t, p, ('rat', F(v).numerator, F(v).denominator))
        elif isinstance(v, tuple) and v[0] == 'rat' and F(v[1], v[2]).denominator in (1, 2, 4) and rng.random() < 0.7:
            t = put(t, p, v[1] / v[2])
    return t


def nudge(rng, v):
    if isinstance(v, tuple):
        return v if v[0] != 'rat' else ('rat', v[1] + v[2], v[2])
    if v in (math.inf, -math.inf):
        return v
    return {-1: -2, -2: -1}.get(v, v) if rng.random() < 0.4 and v in (-1, -2) else v + rng.choice([1, -1, 2])


def nodes(t, path=()):
    """Paths of the operators of a term."""
    out = []
    if isinstance(t, tuple) and t and isinstance(t[0], str) and t[0] not in ('rat', 'sq', 'pi', 'e'):
        out.append(path)
    if isinstance(t, tuple) and not (t and t[0] in ('nom', 'nnom', 'rat', 'sq', 'pi', 'e')):
        for i, s in enumerate(t):
            if isinstance(s, tuple):
                out += nodes(s, path + (i,))
    return out


FLIP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>'}


def edit(rng, t, names):
    """The term with one difference (it may mean the same)."""
    for _ in range(20):
        r = rng.random()
        if r < 0.4:
            ps = numbers(t)
            if not ps:
                continue
            p = rng.choice(ps)
            # Not the bases of exponentials and logarithms.
            if p and get(t, p[:-1])[0] in ('bexp', 'blog'):
                continue
            u = put(t, p, nudge(rng, get(t, p)))
            bad = False
            for q in nodes(u):
                n = get(u, q)
                if n[0] in ('mul', 'div') and terms.num(n[2]) == 0 or n[0] in ('rmul', 'rdiv') and terms.num(n[1]) == 0:
                    bad = True
                if n[0] == 'rng' and not terms.num(n[2]) < terms.num(n[4]) or n[0] == 'ivl' and not terms.num(n[2][0]) < terms.num(n[2][1]):
                    bad = True
                if n[0] in ('in', 'nin') and len(set(map(terms.num, n[2]))) < len(n[2]):
                    bad = True
            if bad:
                continue
            return u
        p = rng.choice(nodes(t))
        n = get(t, p)
        if n[0] == 'var':
            if r < 0.5 and len(names) > 1:
                return put(t, p, ('var', rng.choice([m for m in names if m != n[1]])))
            continue
        if n[0] == 'cmp':
            return put(t, p, (n[0], n[1], FLIP[n[2]] if rng.random() < 0.7 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[n[2]], n[3]))
        if n[0] == 'rng':
            return put(t, p, n[:3] + (FLIP[n[3]],) + n[4:] if rng.random() < 0.5 else n[:5] + (FLIP[n[5]],))
        if n[0] == 'ivl':
            a, b, lo, hi = n[2]
            if math.isinf(terms.num(a)) or math.isinf(terms.num(b)):
                continue
            return put(t, p, (n[0], n[1], (a, b, not lo, hi) if rng.random() < 0.5 else (a, b, lo, not hi)))
        if n[0] in ('nom', 'nnom'):
            if rng.random() < 0.4:
                return put(t, p, ('nnom' if n[0] == 'nom' else 'nom',) + n[1:])
            new = rng.choice([s for s in grid.STRS[:5] if s not in n[2]] or [None])
            if new is None:
                continue
            return put(t, p, (n[0], n[1], n[2][1:] + (new,)))
        if n[0] in ('in', 'nin'):
            if rng.random() < 0.5:
                return put(t, p, ('nin' if n[0] == 'in' else 'in',) + n[1:])
            if len(n[2]) > 1:
                return put(t, p, (n[0], n[1], n[2][1:]))
            continue
        if n[0] in ('and', 'or'):
            return put(t, p, ('or' if n[0] == 'and' else 'and',) + n[1:])
        if n[0] == 'piece':
            ps = list(n[1])
            if len(ps) > 1 and rng.random() < 0.5:
                (a, e), (b, f) = ps[0], ps[1]
                ps[:2] = [(b, e), (a, f)]
                return put(t, p, ('piece', tuple(ps)))
            continue
        if n[0] in ('not', 'xor', 'ind'):
            continue
        u = sibling(rng, n)
        if u != n:
            return put(t, p, u)
    return t


# Comparing ----------------------------------------------------------------------

def relation(ctx, items):
    """items: (description, object, class that must be equal or None); equality is
    an equivalence relation that agrees with the hash.  Returns the matrix."""
    n = len(items)
    eq = [[None] * n for _ in range(n)]
    hs = [ctx.call('hash', hash, x) for _, x, _ in items]
    for i in range(n):
        for j in range(n):
            a, b = items[i][1], items[j][1]
            r = ctx.call('eq', lambda: a == b)
            ne = ctx.call('ne', lambda: a != b) if (i + j) % 3 == 0 else not r
            ctx.check(isinstance(r, bool) and isinstance(ne, bool), 'not-boolean', lambda: '%s == %s is %r' % (items[i][0], items[j][0], r))
            ctx.check(r != ne, 'eq-and-ne', lambda: '%s == %s is %r and != is %r' % (items[i][0], items[j][0], r, ne))
            eq[i][j] = r
            ctx.evaluations += 1
    for i in range(n):
        ctx.check(eq[i][i], 'not-reflexive', lambda: items[i][0])
        ctx.check(hash(items[i][1]) == hs[i], 'hash-changes', lambda: items[i][0])
        for j in range(n):
            both = lambda: '%s\n%s\nbuilt as %r\n%r' % (items[i][0], items[j][0], items[i][1], items[j][1])
            ctx.check(eq[i][j] == eq[j][i], 'not-symmetric', both)
            if eq[i][j]:
                ctx.check(hs[i] == hs[j], 'equal-with-different-hash', both)
                if i < j:
                    ctx.count('equal pairs')
                for k in range(n):
                    ctx.check(eq[j][k] == eq[i][k], 'not-transitive', lambda: both() + '\n%s' % items[k][0])
            if items[i][2] is not None and items[i][2] == items[j][2]:
                ctx.check(eq[i][j], 'same-but-unequal', both)
            if i < j and not eq[i][j]:
                ctx.count('unequal pairs')
    classes = {}
    for i in range(n):
        classes.setdefault(items[i][1], []).append(i)
    ctx.check(sorted(map(sorted, classes.values())) == sorted({tuple(j for j in range(n) if eq[i][j]) for i in range(n)}
                                                              and [list(t) for t in sorted({tuple(j for j in range(n) if eq[i][j]) for i in range(n)})]),
              'as-keys', lambda: '\n'.join(d for d, _, _ in items))
    return eq


def told_apart(ctx, items, sigs, eq, differ):
    for i in range(len(items)):
        for j in range(i):
            d = differ(sigs[i], sigs[j])
            if d is not None and eq[i][j]:
                ctx.violation('different-but-equal', '%s\n%s\nbuilt as %r\n%r\ndiffer: %s'
                              % (items[i][0], items[j][0], items[i][1], items[j][1], d))
            if d is not None:
                ctx.count('told apart')
                ctx.seen((items[i][0], items[j][0]))


def pool(ctx, rng, t, make, names, n):
    """Build t several times, retyped, and with differences."""
    items = []

    def add(u, cls):
        # What the system does not represent is not compared.
        try:
            x = make(terms.Build(), u)
        except Exception:
            ctx.count('not built')
            return
        items.append((S(u), x, cls, u))
    add(t, 0)
    add(t, 0)
    add(retype(rng, t), None)
    k = 0
    for _ in range(n):
        base = rng.choice(items)[3] if items else t
        u = edit(rng, base, names)
        if u == base:
            continue
        k += 1
        add(u, k)
        if rng.random() < 0.3:
            add(u, k)
        if rng.random() < 0.3:
            add(retype(rng, u), None)
    # Equal descriptions may come up twice.
    return [(d, x, repr(u)) for d, x, _, u in items], [u for _, _, _, u in items]


def expressions(ctx, rng):
    g = EventGen(rng, ['X'], [], rng.choice(['int', 'int', 'rat', 'float']), depth=1, transcendental=rng.random() < 0.6,
                 piece=rng.random() < 0.4, ind=rng.random() < 0.2).g
    t = g.expr(('var', 'X'), rng.choice([1, 1, 2, 2, 3]))
    ctx.desc(S(t))
    items, ts = pool(ctx, rng, t, lambda b, u: b.expr(u), ['X', 'Y'], 7)
    if len(items) < 2:
        ctx.skip('not built')
    eq = relation(ctx, items)
    env = {'X': np.array(PTS), 'Y': np.array(PTS[3:] + PTS[:3])}
    sigs = []
    for u in ts:
        sigs.append((terms.ev(u, env), terms.expr_vars(u)))

    def differ(a, b):
        if a[1] != b[1]:
            return 'variables %s %s' % (a[1], b[1])
        for x, u, v in zip(PTS, a[0], b[0]):
            if math.isnan(u) and math.isnan(v) or max(abs(u), abs(v)) > 1e8:
                continue
            if math.isnan(u) or math.isnan(v):
                # At the edge of the domain?
                continue
            if abs(u - v) > 1e-6 * (1 + abs(u)):
                return 'at %r: %r %r' % (x, u, v)
        na, nb = np.isnan(a[0]), np.isnan(b[0])
        return 'undefined at %d points' % (na != nb).sum() if (na != nb).sum() >= 3 else None
    told_apart(ctx, items, sigs, eq, differ)
    ctx.count('expressions')


def events(ctx, rng):
    nums, noms = ['X', 'Y'][:rng.choice([1, 1, 2])], ['N', 'M'][:rng.choice([0, 0, 1, 2])]
    g = EventGen(rng, nums, noms, rng.choice(['int', 'int', 'rat', 'float']), depth=rng.choice([0, 0, 1, 1, 2]),
                 transcendental=rng.random() < 0.4, piece=rng.random() < 0.3, ind=rng.random() < 0.15)
    t = g.event(rng.choice([1, 1, 2, 2, 3]))
    while dnf_size(t) > 12:
        t = g.event(rng.choice([1, 2]))
    ctx.desc(S(t))
    items, ts = pool(ctx, rng, t, lambda b, u: b.event(u), nums if len(nums) > 1 else nums + ['W'], 7)
    if len(items) < 2:
        ctx.skip('not built')
    eq = relation(ctx, items)
    vs = set().union(*map(terms.event_vars, ts))
    gr = grid.make(rng, sorted(vs - set(noms)), sorted(vs & set(noms)), size=10 if len(vs) < 3 else 7)
    sigs = [(gr.ref(u, defined=True), {s.token for s in x.get_symbols()}) for u, (_, x, _) in zip(ts, items)]

    def differ(a, b):
        if a[1] != b[1]:
            return 'variables %s %s' % (a[1], b[1])
        at = gr.first(a[0] != b[0])
        return None if at is None else 'at %s' % at
    told_apart(ctx, items, sigs, eq, differ)
    # Equal events have equal solutions.
    for i, (_, x, _) in enumerate(items):
        for j in range(i):
            if eq[i][j] and len(x.get_symbols()) == 1 and rng.random() < 0.3:
                a, b = ctx.call('solve', x.solve), ctx.call('solve', items[j][1].solve)
                ctx.check(all((p in a) == (p in b) for p in (['a', 'b', 'zz'] if str(next(iter(x.get_symbols()))) in noms else PTS)), 'solutions', lambda: '%s\n%s\nsolutions %s and %s' % (items[i][0], items[j][0], a, b))
    ctx.count('events')


# Models ---------------------------------------------------------------------------

def rename(spec, sub):
    k = spec[0]
    v = sub.get(spec[1], spec[1]) if k in ('leaf', 'atom', 'nom') else None
    ders = lambda ds: tuple((sub.get(z, z), terms.subst(e, {a: ('var', b) for a, b in sub.items()})) for z, e in ds)
    if k == 'nom':
        return (k, v, spec[2])
    if k == 'atom':
        return (k, v, spec[2], ders(spec[3]))
    if k == 'leaf':
        return (k, v, spec[2], spec[3], ders(spec[4]))
    if k == 'sum':
        return (k, tuple((w, rename(s, sub)) for w, s in spec[1]))
    return (k, tuple(rename(s, sub) for s in spec[1]))


def leaves(spec, path=()):
    k = spec[0]
    if k == 'sum':
        return [p for i, (_, s) in enumerate(spec[1]) for p in leaves(s, path + (1, i, 1))]
    if k == 'prod':
        return [p for i, s in enumerate(spec[1]) for p in leaves(s, path + (1, i))]
    return [path]


def sums(spec, path=()):
    k = spec[0]
    if k == 'sum':
        return [path] + [p for i, (_, s) in enumerate(spec[1]) for p in sums(s, path + (1, i, 1))]
    if k == 'prod':
        return [p for i, s in enumerate(spec[1]) for p in sums(s, path + (1, i))]
    return []


def change(rng, mg, spec):
    """(new specification, what differs); None: nothing that matters."""
    r = rng.random()
    if r < 0.12:
        v = rng.choice(mg.nums + mg.noms)
        return rename(spec, {v: 'Q%d' % rng.randrange(10, 10 ** 9)}), 'variable'
    if r < 0.3:
        ps = sums(spec)
        if not ps:
            return None
        p = rng.choice(ps)
        items = list(get(spec, p)[1])
        if rng.random() < 0.5:
            items = list(zip([w for w, _ in items[1:] + items[:1]], [s for _, s in items]))
        else:
            d = rng.choice([0.5, 0.25, 1e-3, 1e-6]) * min(items[0][0], items[1][0])
            items[0] = (items[0][0] + d, items[0][1])
            items[1] = (items[1][0] - d, items[1][1])
        return put(spec, p, ('sum', tuple(items))), 'weights'
    p = rng.choice(leaves(spec))
    leaf = get(spec, p)
    k = leaf[0]
    if k == 'nom':
        items = list(leaf[2])
        q = rng.random()
        if q < 0.35:
            rng.shuffle(items)
            return put(spec, p, ('nom', leaf[1], tuple(items))), None
        if q < 0.7 and len(items) > 1:
            d = rng.choice([0.5, 1e-3]) * items[0][1]
            items[0], items[1] = (items[0][0], items[0][1] - d), (items[1][0], items[1][1] + d)
            return put(spec, p, ('nom', leaf[1], tuple(items))), 'weights'
        new = rng.choice([v for v in models.NOMV if v not in dict(items)])
        items[0] = (new, items[0][1])
        return put(spec, p, ('nom', leaf[1], tuple(items))), 'values'
    i = 3 if k == 'atom' else 4
    if leaf[i] and rng.random() < 0.5:
        z, e = leaf[i][-1]
        e2 = rng.choice([('add', e, 1), ('sub', e, 1), ('neg', e), ('mul', e, 2)])
        if e[0] in ('ind', 'piece'):
            return None
        return put(spec, p, leaf[:i] + (leaf[i][:-1] + ((z, e2),),)), 'derived'
    if k == 'atom':
        x = leaf[2]
        return put(spec, p, ('atom', leaf[1], {-1: -2, -2: -1}.get(x, x + rng.choice([1, 0.5, -1])), leaf[3])), 'value'
    kw = dict(leaf[3])
    if leaf[2] == 'discrete':
        t = list(kw['table'])
        if len(t) > 1 and rng.random() < 0.5:
            d = rng.choice([0.5, 1e-3]) * t[0][1]
            t[0], t[1] = (t[0][0], t[0][1] - d), (t[1][0], t[1][1] + d)
        else:
            t[-1] = (max(x for x, _ in t) + 1, t[-1][1])
        kw['table'] = tuple(t)
        return put(spec, p, leaf[:3] + (tuple(kw.items()),) + leaf[4:]), 'table'
    if leaf[2] == 'uniformd':
        t = list(kw['values'])
        kw['values'] = tuple(t[:-1] + [max(t) + 1])
        return put(spec, p, leaf[:3] + (tuple(kw.items()),) + leaf[4:]), 'table'
    num = [n for n, x in kw.items() if isinstance(x, (int, float))]
    n = rng.choice(num + ['loc'])
    x = kw.get(n, 0)
    if isinstance(x, float) and not x.is_integer():
        x2 = x * rng.choice([0.9, 0.999, 1 - 1e-7])
    elif n in ('loc',):
        x2 = {-1: -2, -2: -1}.get(x, x + rng.choice([1, -1, 2]))
    else:
        if leaf[2] in ('randint', 'hypergeom', 'truncnorm', 'triang', 'trapz', 'loguniform'):
            return None
        x2 = x + 1
    kw[n] = x2
    return put(spec, p, leaf[:3] + (tuple(kw.items()),) + leaf[4:]), 'parameter'


def retype_spec(rng, spec):
    k = spec[0]
    if k == 'nom':
        return spec
    if k == 'atom':
        v = spec[2]
        return (k, spec[1], float(v) if isinstance(v, int) else v, tuple((z, retype(rng, e)) for z, e in spec[3]))
    if k == 'leaf':
        kw = tuple((n, float(x) if isinstance(x, int) and not isinstance(x, bool) else x) for n, x in spec[3])
        return (k, spec[1], spec[2], kw, tuple((z, retype(rng, e)) for z, e in spec[4]))
    if k == 'sum':
        return (k, tuple((w, retype_spec(rng, s)) for w, s in spec[1]))
    return (k, tuple(retype_spec(rng, s) for s in spec[1]))


def answers(ctx, rng, spe, es, names):
    """Answers to queries; variables that it does not have are left out."""
    out = []
    for E in es:
        if not {s.token for s in E.get_symbols()} <= names:
            out.append(None)
            continue
        out.append(float(ctx.call('prob', spe.prob, E)))
    return out


def same_spec(a, b):
    return a == b


def models_(ctx, rng):
    mquery.config(ctx, rng, 0.95)
    mg = models.ModelGen(rng, nvars=rng.choice([1, 1, 2, 2, 3]), mixed=False, dtotal=True, maxsize=12)
    spec = mg.spec()
    ctx.desc(models.show(spec))
    eg = mquery.MEventGen(rng, mg)
    # What is done to every model before it is compared.
    steps = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        t = eg.sized(widths=(1, 1, 2), maxdnf=4)
        steps.append(t)
    items = []

    def build(sp, style, tz=()):
        mb = models.ModelBuild(random.Random(style))
        x = ctx.call('build-model', mb.build, sp)
        desc = models.show(sp)
        for t in steps:
            E = ctx.call('build-event', mb.b.event, t)
            if not E.get_symbols() <= x.get_symbols() or x.prob(E) < 1e-4:
                continue
            x = ctx.call('condition', x.condition, E)
            desc += ' | ' + S(t)
        return desc, x

    def add(sp, cls, style):
        d, x = build(sp, style)
        items.append((d, x, cls, sp))
    style = rng.randrange(10 ** 6)
    add(spec, 0, style)
    add(spec, 0, style)
    add(retype_spec(rng, spec), None, style)
    if rng.random() < 0.5:
        add(spec, None, style + 1)
    k = 0
    kinds = {}
    for _ in range(4):
        base = rng.choice(items)
        c = change(rng, mg, base[3])
        if c is None:
            continue
        k += 1
        sp, what = c
        add(sp, None if what is None else k, style)
        if what is not None and not steps and sp != base[3] and base[3] is spec:
            # Unconditioned, these differ whatever the queries say.
            kinds[len(items) - 1] = what
        if what is None and not steps:
            n = len(items) - 1
            b = [i for i, it in enumerate(items) if it[3] is base[3]][0]
            if base[2] is not None:
                ctx.check(items[n][1] == items[b][1], 'same-but-unequal', lambda: '%s\n%s' % (items[n][0], items[b][0]))
        if rng.random() < 0.3:
            add(sp, None if what is None else k, style)
    ctx.desc('\n'.join(d for d, _, _, _ in items))
    its = [(d, x, c) for d, x, c, _ in items]
    eq = relation(ctx, its)
    # Differences that no query need show.
    for n, what in kinds.items():
        if what == 'weights' and ref_same(spec, items[n][3]):
            continue
        ctx.check(not eq[0][n], 'different-%s-but-equal' % what, lambda: '%s\n%s' % (items[0][0], items[n][0]))
        ctx.count('differ in ' + what)
    # Equal models answer alike.
    b = terms.Build()
    names = [({s.token for s in x.get_symbols()}) for _, x, _ in its]
    if any(eq[i][j] for i in range(len(its)) for j in range(i)):
        es = [ctx.call('build-event', b.event, eg.sized(widths=(1, 1, 2), maxdnf=4)) for _ in range(3)]
        ans = [answers(ctx, rng, x, es, ns) for (_, x, _), ns in zip(its, names)]
        for i in range(len(its)):
            for j in range(i):
                if not eq[i][j]:
                    continue
                both = lambda: '%s\n%s\n%r\n%r' % (its[i][0], its[j][0], ans[i], ans[j])
                ctx.check(names[i] == names[j], 'different-but-equal', both)
                ctx.check(all(p == q or abs(p - q) < 1e-9 for p, q in zip(ans[i], ans[j])), 'different-but-equal', both)
                ctx.seen((its[i][0], its[j][0]))
    ctx.count('models')
    if steps:
        ctx.count('conditioned')


def ref_same(a, b):
    """Equal up to the (equal) weights of a mixture."""
    if a[0] != b[0]:
        return False
    if a[0] == 'sum':
        return len(a[1]) == len(b[1]) and all(abs(w - v) < 1e-12 and ref_same(s, t) for (w, s), (v, t) in zip(a[1], b[1]))
    if a[0] == 'prod':
        return len(a[1]) == len(b[1]) and all(map(ref_same, a[1], b[1]))
    return a == b


def posteriors(ctx, rng):
    """Posteriors of one model under several events and assignments, made twice."""
    mquery.config(ctx, rng, 0.95)
    mg = models.ModelGen(rng, nvars=rng.choice([1, 1, 2]), mixed=False, dtotal=True, maxsize=8)
    spec = mg.spec()
    ctx.desc(models.show(spec))
    eg = mquery.MEventGen(rng, mg)
    t = eg.sized(widths=(1, 1, 2), maxdnf=4)
    ts = [t]
    for _ in range(5):
        u = edit(rng, rng.choice(ts), mg.nums or ['X'])
        if all(models.total_lit(a) for a in terms.atoms(u) if a[0] not in ('nom', 'nnom')) or not mg.total:
            ts.append(u)
    items, us = [], []
    style = rng.randrange(10 ** 6)
    for u in ts:
        for _ in range(2):
            mb = models.ModelBuild(random.Random(style))
            x = ctx.call('build-model', mb.build, spec)
            try:
                E = mb.b.event(u)
                if x.prob(E) < 1e-4:
                    break
            except Exception:
                ctx.count('not built')
                break
            y = ctx.call('condition', x.condition, E)
            items.append((models.show(spec) + ' | ' + S(u), y, S(u)))
            us.append(u)
    if len(items) < 3:
        ctx.skip('impossible')
    ctx.desc('\n'.join(d for d, _, _ in items))
    eq = relation(ctx, items)
    b = terms.Build()
    es = [ctx.call('build-event', b.event, u) for u in ts[:3]]
    ans = [answers(ctx, rng, x, es, {s.token for s in x.get_symbols()}) for _, x, _ in items]
    for i in range(len(items)):
        for j in range(i):
            d = any(abs(p - q) > 1e-7 for p, q in zip(ans[i], ans[j]))
            if d:
                ctx.check(not eq[i][j], 'different-but-equal', lambda: '%s\n%s\n%r\n%r' % (items[i][0], items[j][0], ans[i], ans[j]))
                ctx.seen((items[i][0], items[j][0]))
                ctx.count('posteriors told apart')
    ctx.count('posteriors')


def case(ctx, rng, idx):
    k = rng.random()
    if k < 0.25:
        expressions(ctx, rng)
    elif k < 0.5:
        events(ctx, rng)
    elif k < 0.82:
        models_(ctx, rng)
    else:
        posteriors(ctx, rng)
    if rng.random() < 0.01 and len(ctx.samples) < 6:
        ctx.samples.append(str(ctx.case_desc)[:300])
