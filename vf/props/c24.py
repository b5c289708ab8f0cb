"""C24: equivalent ways of writing a program give the same model.

A random program is rewritten (unrolled loops, expanded switches and
conditional expressions, elif as nested if, arrays as plain variables,
respelled tests, reordered independent statements, and back); queries on the
two compiled models are compared."""
import os

from .. import mquery, progs
from ..mquery import S
from ..progs import conc, switch_values, value_event, variables
from ..terms import Build
from .c23 import generate


def rename(t, names):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'var' and t[1] in names:
            return ('var', names[t[1]])
        if len(t) == 3 and t[0] in ('nom', 'nnom') and t[1] in names:
            return (t[0], names[t[1]], t[2])
        return tuple(rename(s, names) for s in t)
    return t


def rename_stmt(s, names):
    n = lambda v: names.get(v, v)
    k = s[0]
    if k in ('sample', 'transform'):
        return (k, n(s[1]), rename(s[2], names) if k == 'transform' else s[2])
    if k == 'if':
        return (k, tuple((rename(e, names), tuple(rename_stmt(x, names) for x in b)) for e, b in s[1]))
    if k == 'ifexp':
        return (k, n(s[1]), tuple((rename(e, names), (c, rename(r, names) if c == 'x' else r)) for e, (c, r) in s[2]))
    if k == 'switch':
        return (k, n(s[1])) + s[2:5] + (tuple(rename_stmt(x, names) for x in s[5]),)
    if k == 'for':
        return s[:4] + (tuple(rename_stmt(x, names) for x in s[4]),)
    if k == 'condition':
        return (k, rename(s[1], names))
    if k == 'constrain':
        return (k, tuple((n(v), x) for v, x in s[1]))
    return s


class Rewriter:
    def __init__(self, rng, what):
        self.rng, self.what, self.used = rng, what, set()

    def on(self, kind):
        if kind in self.what and self.rng.random() < 0.8:
            self.used.add(kind)
            return True
        return False

    def block(self, stmts, env=None):
        out = []
        for s in stmts:
            out += self.stmt(s)
        if 'reorder' in self.what:
            out = self.reorder(out)
        return tuple(out)

    def stmt(self, s):
        k = s[0]
        if k == 'for':
            lo, hi = conc(s[2], {}), conc(s[3], {})
            if isinstance(lo, int) and isinstance(hi, int) and self.on('unroll'):
                return [x for i in range(lo, hi) for x in self.block(conc_stmts(s[4], {s[1]: i}))]
            if isinstance(lo, int) and isinstance(hi, int) and hi - lo >= 2 and self.on('split'):
                m = self.rng.randint(lo + 1, hi - 1)
                return [s[:2] + (lo, m, self.block(s[4])), s[:2] + (m, hi, self.block(s[4]))]
            return [s[:4] + (self.block(s[4]),)]
        if k == 'switch':
            # Indices of enclosing loops may be in the values.
            if self.on('switch') and closed(s[4]):
                vals = switch_values(s, {})
                parts = []
                for j, v in enumerate(vals):
                    env = {s[3][0]: j, s[3][1]: v} if s[2] == 'enum' else {s[3][0]: v}
                    body = conc_stmts(s[5], env)
                    parts.append((value_event(s[1], v), self.block(body)))
                if len(parts) >= 2:
                    return self.stmt(('if', tuple(parts)))
            return [s[:5] + (self.block(s[5]),)]
        if k == 'ifexp':
            if self.on('ifexp'):
                return self.stmt(('if', tuple(
                    (e, (('sample' if c == 'd' else 'transform', s[1], r),)) for e, (c, r) in s[2])))
            return [s]
        if k == 'if':
            parts = [(e, self.block(b)) for e, b in s[1]]
            if len(parts) > 2 and self.on('elif') and parts[-1][0] is None:
                m = self.rng.randint(1, len(parts) - 2)
                rest = ('if', tuple(parts[m:]))
                return [('if', tuple(parts[:m]) + ((None, (rest,)),))]
            if len(parts) == 2 and parts[1][0] is None and self.on('swap'):
                return [('if', ((('not', parts[0][0]), parts[1][1]), (None, parts[0][1])))]
            if all(len(b) == 1 and b[0][0] in ('sample', 'transform') and b[0][1] == parts[0][1][0][1] for _, b in parts) \
                    and parts[-1][0] is None and self.on('to-ifexp'):
                return [('ifexp', parts[0][1][0][1], tuple(
                    (e, ('d' if b[0][0] == 'sample' else 'x', b[0][2])) for e, b in parts))]
            return [('if', tuple(parts))]
        return [s]

    def reorder(self, out):
        """Exchange neighbours that read and write different variables."""
        out = list(out)
        for _ in range(2 * len(out)):
            if len(out) < 2:
                break
            i = self.rng.randrange(len(out) - 1)
            a, b = out[i], out[i + 1]
            if {a[0], b[0]} & {'const', 'array'} or observes(a) or observes(b):
                continue
            ra, wa, rb, wb = names(a), written(a), names(b), written(b)
            if wa & rb or wb & ra:
                continue
            out[i], out[i + 1] = b, a
            self.used.add('reorder')
        return out


def closed(t):
    if isinstance(t, tuple):
        return not (t and t[0] in progs.IX and t[0] != 'cst') and all(closed(s) for s in t)
    return True


def conc_stmts(stmts, env):
    out = []
    for s in stmts:
        if s[0] == 'switch':
            out.append(('switch', conc(s[1], env), s[2], s[3], conc(s[4], env),
                        conc_stmts(s[5], {k: v for k, v in env.items() if k not in s[3]})))
        elif s[0] == 'for':
            out.append(('for', s[1], conc(s[2], env), conc(s[3], env),
                        conc_stmts(s[4], {k: v for k, v in env.items() if k != s[1]})))
        elif s[0] == 'if':
            out.append(('if', tuple((conc(e, env) if e is not None else None, conc_stmts(b, env)) for e, b in s[1])))
        elif s[0] == 'ifexp':
            out.append(('ifexp', conc(s[1], env), tuple((conc(e, env) if e is not None else None, (c, conc(r, env)))
                                                        for e, (c, r) in s[2])))
        else:
            out.append(conc(s, env))
    return tuple(out)


def observes(s):
    if s[0] in ('condition', 'constrain'):
        return True
    if s[0] == 'if':
        return any(observes(x) for _, b in s[1] for x in b)
    if s[0] == 'switch':
        return any(observes(x) for x in s[5])
    if s[0] == 'for':
        return any(observes(x) for x in s[4])
    return False


def root(v):
    return v[1] if isinstance(v, tuple) else v.split('[')[0]


def written(s):
    k = s[0]
    if k in ('sample', 'transform', 'ifexp'):
        return {root(s[1])}
    if k == 'if':
        return {w for _, b in s[1] for x in b for w in written(x)}
    if k == 'switch':
        return {w for x in s[5] for w in written(x)}
    if k == 'for':
        return {w for x in s[4] for w in written(x)}
    return set()


def evs(t):
    return {root(v) for v in roots(t)}


def roots(t):
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] == 'var':
        return {t[1]}
    if t[0] in ('nom', 'nnom'):
        return {t[1]}
    return set().union(*[roots(s) for s in t if isinstance(s, tuple)] or [set()])


def names(s):
    """Variables (arrays as a whole) read or written."""
    k = s[0]
    w = written(s)
    if k == 'transform':
        return w | evs(s[2])
    if k == 'if':
        return w | {n for e, b in s[1] for n in (evs(e) if e is not None else set()) | {m for x in b for m in names(x)}}
    if k == 'ifexp':
        return w | {n for e, (c, r) in s[2] for n in (evs(e) if e is not None else set()) | (evs(r) if c == 'x' else set())}
    if k == 'switch':
        return w | {root(s[1])} | {n for x in s[5] for n in names(x)}
    if k == 'for':
        return w | {n for x in s[4] for n in names(x)}
    if k == 'condition':
        return evs(s[1])
    if k == 'constrain':
        return {root(v) for v, _ in s[1]}
    return w


KINDS = ['unroll', 'split', 'switch', 'ifexp', 'to-ifexp', 'elif', 'swap', 'reorder', 'array']


def unfit(stmts, arrays):
    """Plain variables can be used for the elements only outside loops."""
    return any(s[0] == 'for' for s in stmts)


def case(ctx, rng, idx):
    mquery.config(ctx, rng, 0.9)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    g, stmts, state = generate(ctx, rng)
    what = set(rng.sample(KINDS, rng.choice([1, 2, 3, len(KINDS)])))
    if 'array' in what:
        what.add('unroll')
    R = Rewriter(rng, what)
    if 'array' in what:
        R.on = lambda kind: (R.used.add(kind) or True) if kind in what and (kind == 'unroll' or rng.random() < 0.8) else False
    new = R.block(stmts)
    names_ = {}
    if 'array' in what and g.arrays and not unfit(new, g.arrays):
        for v in list(g.kind):
            if '[' in v:
                names_[v] = v.replace('[', '_').replace(']', '')
        new = tuple(rename_stmt(s, names_) for s in conc_stmts(new, {}) if s[0] != 'array')
        R.used.add('array')
    a = progs.Src(rng if rng.random() < 0.5 else None).program(stmts)
    b = progs.Src(rng).program(new)
    ctx.desc('%s\n--- and ---\n%s' % (a, b))
    for k in R.used:
        ctx.count('rewrite:' + k)
    for f in g.features:
        ctx.count('has:' + f)
    m1 = ctx.call('compile', progs.compile, a).model
    m2 = ctx.call('compile-rewritten', progs.compile, b).model
    n1 = {names_.get(s.token, s.token) for s in m1.get_symbols()}
    n2 = {s.token for s in m2.get_symbols()}
    ctx.check(n1 == n2, 'variables', lambda: '%s\nvariables %s and %s' % (ctx.case_desc, sorted(n1), sorted(n2)))
    bld = Build()
    for _ in range(4):
        t = g.query()
        u = rename(t, names_)
        p = float(ctx.call('logprob', m1.prob, bld.event(t)))
        q = float(ctx.call('logprob', m2.prob, bld.event(u)))
        ctx.check(abs(p - q) < 1e-8, 'different', lambda: '%s\nP(%s) = %.12g and %.12g' % (ctx.case_desc, S(t), p, q))
        ctx.evaluations += 1
        if 1e-9 < p < 1 - 1e-9 and R.used:
            ctx.seen((ctx.case_desc, S(t)))
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(ctx.case_desc[:900])
