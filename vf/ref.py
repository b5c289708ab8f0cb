"""Reference semantics for models: an independent evaluator of probabilities,
densities and posteriors, sharing no code with the system under test.

A model spec is
    ('leaf', var, dist, kwargs, ((name, expr), ...))      scipy-backed leaf, derived variables
    ('nom', var, ((value, weight), ...))
    ('atom', var, value, ((name, expr), ...))
    ('sum', ((weight, spec), ...))
    ('prod', (spec, ...))

It is flattened into a finite mixture of components; a component is a set of
independent base variables, plus derived variables as expressions of one base
variable.  The probability of an event is obtained per component by cutting
each base variable's range into cells on which every atomic predicate has a
constant truth value (found by sampling and bisection, never by symbolic
inversion), and summing the formula's truth table over the product of cells.
"""

import itertools
import math

import numpy as np
import scipy.stats

from fractions import Fraction

from . import grid, terms
from .terms import INF

CONT = {}
DISC = {}


def dist_table(name, kwargs):
    """Independent meaning of a primitive: ('cont', frozen) or ('disc', {x: p})."""
    kw = dict(kwargs)
    if name == 'atomic':
        return ('disc', {float(kw['loc']): 1.0})
    if name == 'discrete':
        d = dict(kw['table'])
        s = float(sum(float(v) for v in d.values()))
        return ('disc', {float(x): float(p) / s for x, p in d.items()})
    if name == 'uniformd':
        vs = list(kw['values'])
        out = {}
        for v in vs:
            out[float(v)] = out.get(float(v), 0.0) + 1.0 / len(vs)
        return ('disc', out)
    d = frozen(name, kwargs)
    if isinstance(d.dist, scipy.stats.rv_continuous):
        return ('cont', d)
    a, b = d.support()
    lo = d.ppf(1e-14) if not np.isfinite(a) else a
    hi = d.isf(1e-14) if not np.isfinite(b) else b
    lo, hi = int(lo) - 1, int(hi) + 2
    if not np.isfinite(b) or not np.isfinite(a):
        lo, hi = max(lo, -5000), min(hi, 5000)
    xs = np.arange(lo, hi + 1)
    # A few values far in the tails, so that what is unlikely is not impossible.
    far = [int(s * 10 ** k) for k in (2, 2.5, 3, 4, 5, 7, 9, 12) for s in (-1, 1)]
    xs = np.unique(np.concatenate([xs, np.arange(hi, hi + 12), np.arange(lo - 12, lo), far]))
    xs = xs[(xs >= a) & (xs <= b)]
    ps = d.pmf(xs)
    return ('disc', {float(x): float(p) for x, p in zip(xs, ps)
                     if p > 0 or not np.isfinite(b - a)})


def frozen(name, kwargs):
    base = {'normal': 'norm'}.get(name, name)
    return getattr(scipy.stats, base)(**{k: float(v) for k, v in dict(kwargs).items()})


class Base:
    """One base variable of one component."""

    def __init__(self, kind, data):
        self.kind = kind        # cont | disc | nom
        self.data = data        # frozen dist | {float: p} | {str: p}
        self.cuts = None        # for restricted continuous: list of (l, r) and total mass
        self.mass = 1.0
        self.pmf = None         # exact probabilities of an infinite table


def build_base(spec):
    if spec[0] == 'nom':
        tot = sum(float(w) for _, w in spec[2])
        return Base('nom', {v: float(w) / tot for v, w in spec[2]})
    if spec[0] == 'atom':
        return Base('disc', {float(spec[2]): 1.0})
    kind, data = dist_table(spec[2], spec[3])
    b = Base(kind, data)
    if kind == 'disc' and spec[2] not in ('atomic', 'discrete', 'uniformd'):
        b.pmf = frozen(spec[2], spec[3])
    return b


class Comp:
    __slots__ = ('w', 'bases', 'derived', 'keys')

    def __init__(self, w, bases, derived, keys):
        self.w = w
        self.bases = bases        # var -> Base
        self.derived = derived    # name -> expr over base variables
        self.keys = keys          # var -> leaf key (for caching)


def flatten(spec):
    k = spec[0]
    if k in ('leaf', 'nom', 'atom'):
        var = spec[1]
        derived = {}
        der = spec[4] if k == 'leaf' else spec[3] if k == 'atom' else ()
        for name, e in der:
            derived[name] = terms.subst(e, derived)
        return [Comp(1.0, {var: build_base(spec)}, derived, {var: spec})]
    if k == 'sum':
        out = []
        for w, s in spec[1]:
            for c in flatten(s):
                out.append(Comp(c.w * float(w), c.bases, c.derived, c.keys))
        return out
    if k == 'prod':
        outs = [Comp(1.0, {}, {}, {})]
        for s in spec[1]:
            cs = flatten(s)
            outs = [Comp(a.w * b.w, dict(a.bases, **b.bases), dict(a.derived, **b.derived),
                         dict(a.keys, **b.keys)) for a in outs for b in cs]
        return outs
    raise AssertionError(spec)

# --------------------------------------------------------------------------
# Cells.


def _mass(d, l, r):
    """P(l < X < r) for a frozen continuous distribution, accurate in both tails."""
    if r <= l:
        return 0.0
    cl, cr = float(d.cdf(l)), float(d.cdf(r))
    if cl > 0.5:
        return max(0.0, float(d.sf(l)) - float(d.sf(r)))
    return max(0.0, cr - cl)


_grid_cache = {}


def _grid(d, key, n):
    g = _grid_cache.get((key, n))
    if g is None:
        q = (np.arange(n) + 0.37) / n
        xs = d.ppf(q)
        tails = np.array([10.0 ** -k for k in list(range(3, 15)) + [20, 40, 100, 300]])
        more = np.concatenate([xs, d.ppf(tails), d.isf(tails)])
        lo, hi = d.ppf(1e-5), d.isf(1e-5)
        more = np.concatenate([more, np.linspace(lo, hi, n // 2) + (hi - lo) * 1.234e-4])
        for p, q in ((lo, d.ppf(1e-11)), (hi, d.isf(1e-11))):
            if np.isfinite(q):
                more = np.concatenate([more, np.linspace(p, q, n // 8) + (q - p) * 1.234e-4])
        far = np.array([s * 10.0 ** k for k in range(1, 7) for s in (-1, 1)])
        a, b = d.support()
        more = np.concatenate([more, far[(far > a) & (far < b)]])
        g = np.unique(more[np.isfinite(more)])
        if len(_grid_cache) > 200:
            _grid_cache.clear()
        _grid_cache[(key, n)] = g
    return g


def _sig(preds, var, xs):
    env = {var: xs}
    cols = []
    for p in preds:
        if p[0] in ('nom', 'nnom'):     # a number satisfies no string literal
            cols += [np.zeros(np.shape(xs), bool)] * 2
            continue
        cols.append(terms.truth(p, env))
        cols.append(terms.truth(p, env, True))
    if not cols:
        return np.zeros(np.shape(xs), dtype=np.int64)
    out = np.zeros(np.shape(xs), dtype=np.int64)
    for i, c in enumerate(cols):
        out = out + (np.asarray(c, dtype=np.int64) << i)
    return out


def cont_cells(d, key, preds, var, n):
    """{signature: probability} of a continuous variable, plus the list of intervals."""
    xs = _grid(d, key, n)
    lits = []
    for p in preds:
        if p[0] not in ('nom', 'nnom'):
            lits.extend(terms.literals(p))
    sup_l, sup_r = float(d.ppf(0)), float(d.ppf(1))
    special = np.array([v + s for v in lits + [0.0] for s in (-1.7e-5, 1.7e-5)])
    special = special[np.isfinite(special)]
    special = special[(special > sup_l) & (special < sup_r)]
    xs = np.unique(np.concatenate([xs, special]))
    terms.TAINT[0] = np.zeros(len(xs), dtype=bool)
    sg = _sig(preds, var, xs)
    bad = terms.TAINT[0]
    terms.TAINT[0] = None
    if bad.any():
        # Where floating point cannot be trusted (overflow, cancellation).
        ends = np.concatenate([[sup_l], xs, [sup_r]])
        bad = np.concatenate([bad[:1], bad, bad[-1:]])
        mass = sum(_mass(d, ends[i], ends[i + 1]) for i in np.nonzero(bad[1:] | bad[:-1])[0])
        if mass > 1e-10:
            raise Ambiguous(preds)
    ivals = []       # (l, r, sig)
    cur_l, cur_s = sup_l, int(sg[0])
    change = np.nonzero(sg[1:] != sg[:-1])[0]

    def split(l, sl, r, sr, out, depth=0):
        if sl == sr:
            return
        if r - l <= 1e-14 * max(1.0, abs(l), abs(r)) or depth > 120:
            out.append((0.5 * (l + r), sr))
            return
        m = 0.5 * (l + r)
        if m <= l or m >= r:
            out.append((m, sr))
            return
        sm = int(_sig(preds, var, np.array([m]))[0])
        if sm == sl:
            split(m, sm, r, sr, out, depth + 1)
        elif sm == sr:
            split(l, sl, m, sm, out, depth + 1)
        else:
            split(l, sl, m, sm, out, depth + 1)
            split(m, sm, r, sr, out, depth + 1)

    for i in change:
        out = []
        split(float(xs[i]), int(sg[i]), float(xs[i + 1]), int(sg[i + 1]), out)
        for pos, s in out:
            ivals.append((cur_l, pos, cur_s))
            cur_l, cur_s = pos, s
    ivals.append((cur_l, sup_r, cur_s))
    # Slivers inside one cell are rounding artefacts (double roots).
    out = []
    for i, (l, r, s) in enumerate(ivals):
        if 0 < i < len(ivals) - 1 and r - l < 2e-6 * max(1.0, abs(l), abs(r)) and ivals[i - 1][2] == ivals[i + 1][2]:
            s = ivals[i - 1][2]
        out.append((l, r, s))
    return out


_disc_cache = {}
_axis_cache = {}


def disc_truth(p, v, xs, ps):
    """Truth of a predicate and its negation at the atoms, by exact arithmetic."""
    if p[0] in ('nom', 'nnom'):     # a number satisfies no string literal
        return (np.zeros(len(xs), bool),) * 2
    key = (p, v, tuple(xs))
    if key not in _disc_cache:
        if len(_disc_cache) > 3000:
            _disc_cache.clear()
        g = grid.Grid({v: [Fraction(x) for x in xs]})
        a = g.atom(p, False, False)
        na = g.atom(p, True, False)
        _disc_cache[key] = (a, na, g.ok)
    a, na, ok = _disc_cache[key]
    if sum(q for q, o in zip(ps, ok) if not o) > 1e-12:
        raise Ambiguous(p)
    return a, na


class Query:
    """Joint cell decomposition of a model for a fixed list of events."""

    def __init__(self, model, events, n=1500, floor=0.0):
        self.floor = floor      # least mass of a possible cell
        self.model = model
        self.comps = model.comps
        self.events = events
        self.tables = []
        for c in self.comps:
            self.tables.append(self._component(c, n))

    def _component(self, c, n):
        evs = [terms.subst(e, {k: v for k, v in c.derived.items()}) for e in self.events]
        ats = []
        for e in evs:
            for a in terms.atoms(e):
                if a not in ats:
                    ats.append(a)
        byvar = {}
        for a in ats:
            vs = terms.event_vars(a)
            assert len(vs) == 1, a
            byvar.setdefault(next(iter(vs)), []).append(a)
        axes = []
        for v, preds in byvar.items():
            b = c.bases[v]
            axkey = (c.keys[v], v, tuple(preds), n, self.floor)
            if axkey in _axis_cache:
                axes.append((preds, _axis_cache[axkey]))
                continue
            if b.kind == 'nom':
                xs = list(b.data)
                cols = {}
                env = {v: np.array(xs, dtype=object)}
                for p in preds:
                    if p[0] in ('nom', 'nnom'):
                        cols[p] = (terms.truth(p, env), terms.truth(p, env, True))
                    else:       # a string satisfies no numeric literal
                        cols[p] = (np.zeros(len(xs), bool),) * 2
                agg = {}
                for i, x in enumerate(xs):
                    s = tuple((bool(cols[p][0][i]), bool(cols[p][1][i])) for p in preds)
                    agg[s] = agg.get(s, 0.0) + b.data[x]
            elif b.kind == 'disc':
                xs = sorted(b.data)
                ps = [b.data[x] for x in xs]
                cols = [disc_truth(p, v, xs, ps) for p in preds]
                agg = {}
                for i in range(len(xs)):
                    s = tuple((bool(a[i]), bool(na[i])) for a, na in cols)
                    agg[s] = agg.get(s, 0.0) + max(ps[i], self.floor)
            else:
                key = c.keys[v]
                if b.cuts is None:
                    iv = cont_cells(b.data, key, preds, v, n)
                    agg = {}
                    for l, r, s in iv:
                        m = max(_mass(b.data, l, r), self.floor if r > l else 0)
                        t = tuple((bool(s >> (2 * i) & 1), bool(s >> (2 * i + 1) & 1))
                                  for i in range(len(preds)))
                        agg[t] = agg.get(t, 0.0) + m
                else:
                    raise AssertionError
            cells = [(s, p) for s, p in agg.items() if p > 0]
            if len(_axis_cache) > 5000:
                _axis_cache.clear()
            _axis_cache[axkey] = cells
            axes.append((preds, cells))
        # Joint table: tuple of event truths -> probability.
        joint = {}
        size = 1
        for _, cells in axes:
            size *= max(1, len(cells))
        if size > 400000:
            raise TooBig(size)
        for combo in itertools.product(*[cells for _, cells in axes]):
            p = 1.0
            asg = {}
            for (preds, _), (s, q) in zip(axes, combo):
                p *= q
                for a, tv in zip(preds, s):
                    asg[a] = tv
            key = tuple(_formula(e, asg, False) for e in evs)
            joint[key] = joint.get(key, 0.0) + p
        return joint

    def prob(self, f):
        """P(f(truths)) for a python predicate over the tuple of event truths."""
        tot = 0.0
        for c, t in zip(self.comps, self.tables):
            tot += c.w * sum(p for k, p in t.items() if f(k))
        return tot

    def joint(self):
        out = {}
        for c, t in zip(self.comps, self.tables):
            for k, p in t.items():
                out[k] = out.get(k, 0.0) + c.w * p
        return out


class TooBig(Exception):
    pass


class Ambiguous(Exception):
    """The truth at an atom cannot be decided reliably."""


def _formula(t, asg, neg):
    k = t[0]
    if k == 'not':
        return _formula(t[1], asg, not neg)
    if k in ('and', 'or'):
        if (k == 'and') != neg:
            return all(_formula(s, asg, neg) for s in t[1:])
        return any(_formula(s, asg, neg) for s in t[1:])
    if k == 'xor':
        a, b = t[1], t[2]
        return _formula(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), asg, neg)
    return asg[t][1 if neg else 0]


class Model:
    def __init__(self, spec):
        self.spec = spec
        self.comps = flatten(spec)
        self.base_vars = sorted(self.comps[0].bases)

    def possible(self, events, n=1500):
        """Upper bound on the probability: zero only if structurally impossible."""
        return Query(self, list(events), n, 1e-60).prob(all)

    def prob(self, event, n=1500):
        return Query(self, [event], n).prob(lambda k: k[0])

    def density(self, asg, evidence=(), n=1500):
        """(d, log density) of an assignment to base variables given the evidence:
        components with the fewest continuous coordinates, weighted sum."""
        pe = Query(self, list(evidence), n).prob(all) if evidence else 1.0
        terms_ = []
        for c in self.comps:
            d, lp = 0, math.log(c.w) if c.w > 0 else -INF
            for v, x in asg.items():
                dd, l = base_density(c.bases[v], x)
                d += dd
                lp += l
            if lp != -INF and evidence:
                q = Query(self.like([fix(c, asg, 1.0)]), list(evidence), n).prob(all)
                lp = lp + math.log(q / pe) if q > 0 else -INF
            terms_.append((d, lp))
        fin = [(d, l) for d, l in terms_ if l != -INF]
        if not fin:
            return (0, -INF), terms_
        dm = min(d for d, _ in fin)
        ls = [l for d, l in fin if d == dm]
        m = max(ls)
        return (dm, m + math.log(sum(math.exp(l - m) for l in ls))), terms_

    def like(self, comps):
        m = Model.__new__(Model)
        m.spec = self.spec
        m.comps = comps
        m.base_vars = self.base_vars
        return m

    def constrained(self, asg, evidence=(), n=1500):
        """Posterior given an assignment to base variables (to be used together
        with the same evidence, under which its weights are normalized)."""
        (dm, tot), ts = self.density(asg, evidence, n)
        comps = []
        for c, (d, l) in zip(self.comps, ts):
            if l == -INF or d != dm:
                continue
            lw = math.log(c.w) + sum(base_density(c.bases[v], x)[1] for v, x in asg.items())
            comps.append(fix(c, asg, math.exp(lw - tot)))
        return self.like(comps)


def fix(c, asg, w):
    bases = dict(c.bases)
    keys = dict(c.keys)
    for v, x in asg.items():
        if isinstance(x, str):
            bases[v] = Base('nom', {x: 1.0})
        else:
            bases[v] = Base('disc', {float(x): 1.0})
        keys[v] = ('const', x)
    return Comp(w, bases, c.derived, keys)


def base_density(b, x):
    if b.kind == 'nom':
        p = b.data.get(x, 0.0) if isinstance(x, str) else 0.0
        return 0, math.log(p) if p > 0 else -INF
    if isinstance(x, str):
        return (0 if b.kind == 'disc' else 1), -INF
    if math.isinf(x):
        return (0 if b.kind == 'disc' else 1), -INF
    if b.pmf is not None and float(x) == int(x):
        return 0, float(b.pmf.logpmf(float(x)))
    if b.kind == 'disc':
        p = b.data.get(float(x), 0.0)
        return 0, math.log(p) if p > 0 else -INF
    return 1, float(b.data.logpdf(float(x)))
