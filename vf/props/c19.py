"""C19: simplification and sharing preserve the distribution.

Mixtures of products drawn from small pools of leaves (with near-equal ones)
are simplified, flattened, shared, and written as nested or flat; programs are
translated with and without simplification.  Every version answers the same
queries, which the reference answers too."""
import math
import os

from .. import models, mquery, progs, ref, terms
from ..mquery import S, Oracle, MEventGen, lp_query
from . import c23
from .c11 import repr_tree as full_tree
from .c12 import assignment, sysasg, show_asg, same


def variant(rng, mg, leaf, var):
    """A leaf that differs a little (or not at all) from the given one."""
    k = leaf[0]
    r = rng.random()
    if k == 'nom':
        items = list(leaf[2])
        if r < 0.4:
            rng.shuffle(items)          # equal
        elif r < 0.7 and len(items) > 1:
            ws = [w for _, w in items]
            items = list(zip([v for v, _ in items], ws[1:] + ws[:1]))
        else:
            new = rng.choice([v for v in models.NOMV if v not in dict(items)])
            items[0] = (new, items[0][1])
        return ('nom', leaf[1], tuple(items))
    if k == 'atom':
        return ('atom', leaf[1], {-1: -2, -2: -1}.get(leaf[2], leaf[2] + rng.choice([0, 1])), leaf[3])
    _, v, n, kw, ders = leaf
    kw = dict(kw)
    if ders and r < 0.3:
        return ('leaf', v, n, tuple(sorted(kw.items())), ders[:-1] + ((ders[-1][0], ('add', ders[-1][1], 1)),))
    for p in ('loc', 'scale', 'mu', 'a'):
        if p in kw and r < 0.8:
            x = kw[p]
            kw[p] = {-1: -2, -2: -1}.get(x, x + 1)
            if n == 'atomic' or (p == 'a' and n != 'gamma'):
                kw[p] = x
            break
    return ('leaf', v, n, tuple(sorted(kw.items())), ders)


def group(rng, parts):
    """The parts as a product, nested and ordered at random."""
    parts = list(parts)
    rng.shuffle(parts)
    if len(parts) == 1:
        return parts[0]
    if len(parts) > 2 and rng.random() < 0.5:
        k = rng.randint(1, len(parts) - 2)
        return ('prod', tuple(parts[:k]) + (group(rng, parts[k:]),))
    return ('prod', tuple(parts))


def mixture(rng, ws, parts):
    """The parts as a mixture, nested at random."""
    items = list(zip(ws, parts))
    if len(items) > 2 and rng.random() < 0.4:
        k = rng.randint(1, len(items) - 2)
        t = sum(w for w, _ in items[k:])
        return ('sum', tuple(items[:k]) + ((t, mixture(rng, [w / t for w, _ in items[k:]], [p for _, p in items[k:]])),))
    return ('sum', tuple(items))


def repr_tree(s):
    """Structure up to the order of tables (which equality ignores)."""
    def norm(t):
        if t[0] == 'NominalLeaf':
            return t[:3]
        if t[0] in ('SumSPE', 'ProductSPE', 'ExposedSumSPE'):
            return t[:2] + (tuple(map(norm, t[2])),)
        return t[:-1] + (tuple(sorted(t[-1])),)
    return norm(full_tree(s))


class Pool:
    def __init__(self, rng, mg):
        self.rng, self.mg = rng, mg
        self.leaves, self.joint = {}, {}
        for var in mg.schema:
            a = mg.leaf(var)
            out = [a, variant(rng, mg, a, var)]
            if rng.random() < 0.6:
                out.append(mg.leaf(var))
            self.leaves[var] = out

    def leaf(self, var):
        return self.rng.choice(self.leaves[var])

    def product(self, schema):
        """Leaves, sometimes with a mixture over two of the variables, or a
        mixture over one."""
        rng = self.rng
        rest, parts = list(schema), []
        rng.shuffle(rest)
        while rest:
            k = 2 if len(rest) > 1 and len(schema) > 2 and rng.random() < 0.3 else 1
            sub, rest = rest[:k], rest[k:]
            if k == 1 and rng.random() < 0.85:
                parts.append(self.leaf(sub[0]))
            else:
                key = tuple(sorted(sub))
                if key not in self.joint:
                    n = rng.choice([2, 2, 3])
                    self.joint[key] = [
                        mixture(rng, models.weights(rng, n), [group(rng, [self.leaf(v) for v in sub]) for _ in range(n)])
                        for _ in range(2)]
                parts.append(rng.choice(self.joint[key]))
        return group(rng, parts)

    def sum(self):
        rng = self.rng
        n = rng.choice([2, 2, 3, 3, 4, 5])
        return mixture(rng, models.weights(rng, n), [self.product(self.mg.schema) for _ in range(n)])


def generator(rng):
    nvars = rng.choice([1, 1, 2, 2, 3, 3, 4])
    mg = models.ModelGen(rng, nvars=nvars, dtotal=True, mixed=False)
    return mg


def derived_or_base(rng, mg, spec):
    """Replace a component: the derived variables become independent ones."""
    if spec[0] == 'leaf' and spec[4] and rng.random() < 0.3:
        return ('prod', (('leaf',) + spec[1:4] + ((),),) + tuple(mg.leaf((z, 'num', ())) for z, _ in spec[4]))
    return spec


def queries(ctx, rng, mg, spec, spes, desc, mb):
    """All the models answer the same queries, as the reference says."""
    eg = MEventGen(rng, mg)
    rm = ref.Model(spec)
    ts = [eg.sized(widths=(1, 1, 2, 2, 3), maxdnf=5) for _ in range(3)]
    o = Oracle(ctx, rm, ts)
    best = None
    for i, t in enumerate(ts):
        E = ctx.call('build-event', mb.b.event, t)
        want = None
        for name, s in spes:
            p = lp_query(ctx, rng, s, E)
            ok, want = o.agree(p, lambda k: k[i])
            ctx.check(ok, name, lambda: '%s\n%s: P(%s) = %.12g, should be %.12g' % (desc, name, S(t), p, want))
            ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, S(t)))
        if want > 1e-3 and best is None:
            best = t
    if best is not None and rng.random() < 0.5:
        E = ctx.call('build-event', mb.b.event, best)
        o = Oracle(ctx, rm, ts, [best])
        es = [ctx.call('build-event', mb.b.event, t) for t in ts]
        for name, s in spes:
            c = ctx.call('condition', s.condition, E)
            for i, t in enumerate(ts):
                p = lp_query(ctx, rng, c, es[i])
                ok, want = o.agree(p, lambda k: k[i])
                ctx.check(ok, name + '-conditioned', lambda: '%s\n%s: P(%s | %s) = %.12g, should be %.12g'
                          % (desc, name, S(t), S(best), p, want))
                ctx.evaluations += 1
        ctx.count('conditioned')


def densities(ctx, rng, mg, rm, spes, desc, mb):
    class Shim:
        pass
    M = Shim()
    M.mg, M.ref, M.mb, M.rng, M.ctx = mg, rm, mb, rng, ctx
    M.spec = rm.spec
    asg = assignment(rng, M)
    a = sysasg(M, asg)
    (d, l), _ = rm.density(asg)
    for name, s in spes:
        got = float(ctx.call('logpdf', s.logpdf, a))
        ctx.check(same(got, l), name + '-density', lambda: '%s\n%s: logpdf(%s) = %r, should be %r'
                  % (desc, name, show_asg(asg), got, l))
        ctx.evaluations += 1
    ctx.count('density')


def nodes(s, out=None):
    out = [] if out is None else out
    out.append(s)
    for c in getattr(s, 'children', ()):
        nodes(c, out)
    return out


def sharing(ctx, rng, models_, desc):
    """Share duplicate subtrees of the models (with one table)."""
    from sppl.spe import spe_cache_duplicate_subtrees
    trees = [repr_tree(s) for s in models_]
    memo = {}
    out = [ctx.call('share', spe_cache_duplicate_subtrees, s, memo) for s in models_]
    for s, t in zip(out, trees):
        ctx.check(repr_tree(s) == t, 'share-changed', lambda: '%s\nbefore %s\nafter %s' % (desc, t, repr_tree(s)))
    by = {}
    for s in out:
        for x in nodes(s):
            by.setdefault(repr_tree(x), {})[id(x)] = x
    dup = [(k, len(v)) for k, v in by.items() if len(v) > 1]
    ctx.check(not dup, 'share-missed', lambda: '%s\nequal subtrees that are not one object: %s' % (desc, dup[:2]))
    ctx.count('shared', sum(len(nodes(s)) for s in out) - len(by))
    return out


def case_mixture(ctx, rng):
    from sppl.spe import SumSPE, spe_simplify_sum
    mquery.config(ctx, rng, 0.95)
    mg = generator(rng)
    pool = Pool(rng, mg)
    for _ in range(20):
        spec = pool.sum()
        if models.size(spec) <= 30:
            break
    else:
        ctx.skip('too big')
    if len(mg.schema) == 1:
        spec = ('sum', tuple((w, derived_or_base(rng, mg, s)) for w, s in spec[1]))
    desc = models.show(spec)
    ctx.desc(desc)
    mb = models.ModelBuild(rng)
    spe = ctx.call('build-model', mb.build, spec)
    spes = [('original', spe)]
    tree = repr_tree(spe)
    if isinstance(spe, SumSPE):
        simp = ctx.call('simplify', spe_simplify_sum, spe)
        ctx.check(repr_tree(spe) == tree, 'simplify-changed-input', lambda: desc)
        spes.append(('simplified', simp))
        ctx.count('simplified-to:' + ('same' if simp is spe else type(simp).__name__))
        if isinstance(simp, SumSPE) and rng.random() < 0.2:
            spes.append(('simplified twice', ctx.call('simplify', spe_simplify_sum, simp)))
    if rng.random() < 0.5:
        again = ctx.call('build-model', models.ModelBuild(rng, build=mb.b).build, spec)
        shared = sharing(ctx, rng, [again, spes[-1][1]] if rng.random() < 0.5 else [again], desc)
        spes.append(('shared', shared[0]))
        if len(shared) > 1:
            spes[-2] = ('simplified, shared', shared[1])
    ctx.count('mixture')
    queries(ctx, rng, mg, spec, spes, desc, mb)
    if rng.random() < 0.5 and not any(z for _, _, z in mg.schema):
        densities(ctx, rng, mg, ref.Model(spec), spes, desc, mb)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(desc[:600])


def case_exposed(ctx, rng):
    """A mixture with its choice exposed as a variable."""
    from sppl.spe import ExposedSumSPE
    mquery.config(ctx, rng, 0.95)
    mg = models.ModelGen(rng, nvars=rng.choice([1, 2]), dtotal=True, mixed=False, depth=rng.choice([0, 0, 1]))
    n = rng.choice([1, 2, 2, 3])
    names = rng.sample(['0', '1', '2', 'left', 'a b'], n)
    ws = models.weights(rng, n)
    kids = [mg.spec() for _ in names]
    spec = ('sum', tuple((w, ('prod', (('nom', 'B0', ((s, 1.0),)), k))) for s, w, k in zip(names, ws, kids)))
    desc = 'exposed ' + models.show(spec)
    ctx.desc(desc)
    mb = models.ModelBuild(rng)
    sel = mb.leaf(('nom', 'B0', tuple(zip(names, ws))))
    children = {s: ctx.call('build-model', mb.build, k) for s, k in zip(names, kids)}
    spe = ctx.call('exposed', ExposedSumSPE, children, sel)
    mg.schema = mg.schema + [('B0', 'nom', ())]
    eg = MEventGen(rng, mg)
    lit = eg.literal

    def literal():
        t = lit()
        if t[0] in ('nom', 'nnom') and t[1] == 'B0':
            return (t[0], 'B0', tuple(rng.sample(names + ['zz'], rng.randint(1, n))))
        return t
    eg.literal = literal
    o_ts = [eg.sized(widths=(1, 2, 2), maxdnf=5) for _ in range(3)] + [('nom', 'B0', (names[0],))]
    o = Oracle(ctx, ref.Model(spec), o_ts)
    for i, t in enumerate(o_ts):
        p = lp_query(ctx, rng, spe, ctx.call('build-event', mb.b.event, t))
        ok, want = o.agree(p, lambda k: k[i])
        ctx.check(ok, 'exposed', lambda: '%s\nP(%s) = %.12g, should be %.12g' % (desc, S(t), p, want))
        ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((desc, S(t)))
    ctx.count('exposed')


def alike(rng, stmts):
    """Make branches of conditionals sample some variables in the same way."""
    def stmt(s):
        if s[0] == 'if':
            bodies = [[stmt(x) for x in b] for _, b in s[1]]
            keep = {x[1]: x[2] for x in bodies[0] if x[0] == 'sample'}
            keep = {v: d for v, d in keep.items() if rng.random() < 0.7}
            out = []
            for b in bodies:
                out.append(tuple(('sample', x[1], keep[x[1]]) if x[0] == 'sample' and x[1] in keep and rng.random() < 0.8 else x
                                 for x in b))
            return ('if', tuple((e, b) for (e, _), b in zip(s[1], out)))
        if s[0] == 'ifexp':
            r = s[2][0][1]
            if r[0] == 'd' and rng.random() < 0.5:
                return ('ifexp', s[1], s[2][:-1] + ((s[2][-1][0], r),))
            return s
        if s[0] == 'for':
            return s[:4] + (tuple(map(stmt, s[4])),)
        if s[0] == 'switch':
            return s[:5] + (tuple(map(stmt, s[5])),)
        return s
    return tuple(map(stmt, stmts))


def transforms(stmts):
    for s in stmts:
        if s[0] == 'transform':
            yield s[2]
        elif s[0] == 'if':
            for _, b in s[1]:
                yield from transforms(b)
        elif s[0] == 'ifexp':
            for _, r in s[2]:
                if r[0] == 'x':
                    yield r[1]
        elif s[0] in ('for', 'switch'):
            yield from transforms(s[-1])


def case_program(ctx, rng):
    mquery.config(ctx, rng, 0.95)
    g, stmts, state = c23.generate(ctx, rng)
    if all(models.total_expr(e) for e in transforms(stmts)):
        new = alike(rng, stmts)
        if new != stmts:
            try:
                st = progs.interp(new, progs.START())
                stmts, state = new, st
                ctx.count('alike')
            except (progs.Impossible, progs.TooMany, ref.Ambiguous, ref.TooBig):
                pass
    src = progs.Src(rng).program(stmts)
    ctx.desc(src)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    try:
        a = ctx.call('compile', progs.compile, src).model
        os.environ['SPPL_NO_SIMPLIFY'] = '1'
        b = ctx.call('compile', progs.compile, src).model
    finally:
        os.environ.pop('SPPL_NO_SIMPLIFY', None)
    same_tree = repr_tree(a) == repr_tree(b)
    ctx.count('program-same' if same_tree else 'program-simplified')
    c23.compare(ctx, rng, g, b, state, mech='unsimplified', show=lambda: src)
    c23.compare(ctx, rng, g, a, state, mech='simplified', show=lambda: src)
    if rng.random() < 0.4:
        a, b = sharing(ctx, rng, [a, b], src)
        c23.compare(ctx, rng, g, a, state, mech='shared', show=lambda: src)


def case(ctx, rng, idx):
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    k = idx % 8
    if k < 4:
        case_mixture(ctx, rng)
    elif k < 5:
        case_exposed(ctx, rng)
    else:
        case_program(ctx, rng)
