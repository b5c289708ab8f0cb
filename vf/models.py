"""Random model specifications and their construction in the system under test.

Specifications are described in ref.py."""
import math
from fractions import Fraction as F

from . import terms
from .gen_terms import Gen

NOMV = ['a', 'b', 'c', 'd', 'zz', '', 'A b']
CONT = ['norm', 'norm', 'uniform', 'uniform', 'expon', 'gamma', 'beta', 'laplace', 'logistic', 'triang', 't', 'gumbel_r']
DISC = ['poisson', 'binom', 'randint', 'geom', 'bernoulli', 'nbinom', 'discrete', 'uniformd', 'atomic', 'atom', 'dlaplace']


def primitive(rng, cont=None):
    """(dist name, kwargs tuple)"""
    if cont is None:
        cont = rng.random() < 0.5
    c = rng.choice
    if cont:
        n = c(CONT)
        kw = {
            'norm': lambda: dict(loc=c([-2, -1, 0, 0, 1, 2.5]), scale=c([0.5, 1, 1, 2, 3])),
            'uniform': lambda: dict(loc=c([-4, -2, -1, 0, 0, 1]), scale=c([1, 2, 4, 5, 0.5])),
            'expon': lambda: dict(scale=c([0.5, 1, 2])) if rng.random() < 0.6 else dict(loc=c([-1, 1]), scale=c([1, 2])),
            'gamma': lambda: dict(a=c([1, 2, 3])) if rng.random() < 0.6 else dict(a=c([1, 2]), loc=c([-1, 1]), scale=c([1, 2])),
            'beta': lambda: dict(a=c([1, 2, 3]), b=c([1, 2, 4])) if rng.random() < 0.5
            else dict(a=c([1, 2, 3]), b=c([1, 2]), loc=c([-2, 0, 1]), scale=c([2, 4])),
            'laplace': lambda: dict(loc=c([-1, 0, 1]), scale=c([1, 2])),
            'logistic': lambda: dict(loc=c([-1, 0, 1]), scale=c([1, 0.5])),
            'triang': lambda: dict(c=c([0.25, 0.5]), loc=c([-2, 0]), scale=c([1, 4])),
            't': lambda: dict(df=c([3, 5])),
            'gumbel_r': lambda: dict(loc=c([-1, 0, 1])),
        }[n]()
        return n, tuple(sorted(kw.items()))
    n = c(DISC)
    if n == 'discrete':
        vs = rng.sample(range(-4, 6), rng.randint(1, 4))
        ws = weights(rng, len(vs))
        return n, (('table', tuple(zip(vs, ws))),)
    if n == 'uniformd':
        return n, (('values', tuple(rng.sample(range(-4, 6), rng.randint(1, 4)))),)
    if n == 'atom':
        return n, (('value', c([-2, -1, 0, 1, 2, 3, 0.5, -1.25])),)
    lo = c([-3, -2, -1, 0, 1])
    kw = {
        'poisson': lambda: dict(mu=c([0.5, 1, 2, 4])),
        'binom': lambda: dict(n=c([1, 2, 3, 5]), p=c([0.25, 0.5, 0.9])),
        'randint': lambda: dict(low=lo, high=lo + c([1, 2, 3, 5])),
        'geom': lambda: dict(p=c([0.25, 0.5, 0.75])),
        'bernoulli': lambda: dict(p=c([0.25, 0.5, 0.125])),
        'nbinom': lambda: dict(n=c([1, 3]), p=c([0.5, 0.75])),
        'atomic': lambda: dict(loc=c([-2, -1, 0, 1, 2, 3])),
        'dlaplace': lambda: dict(a=c([0.75, 1, 1.5])),
    }[n]()
    return n, tuple(sorted(kw.items()))


def weights(rng, n):
    ws = [rng.choice([1, 1, 2, 3, 5]) for _ in range(n)]
    t = sum(ws)
    return tuple(w / t for w in ws)


class ModelGen:
    """schema: [(name, 'num'|'nom', (derived names))]"""

    def __init__(self, rng, nvars=None, derived=True, mixed=True, depth=None, kinds=None, atoms=True, total=False,
                 dtotal=False, maxsize=40, names=None):
        self.rng = rng
        self.total, self.maxsize, self.dtotal = total, maxsize, dtotal
        if nvars is None:
            nvars = rng.choice([1, 1, 2, 2, 2, 3, 3])
        self.depth = depth if depth is not None else rng.choice([0, 1, 1, 2, 2, 3])
        self.mixed = mixed
        self.atoms = atoms
        given = names
        names = list(given[:nvars]) if given else rng.sample(['X', 'Y', 'W', 'V'], min(nvars, 4))
        self.schema = []
        nd = 0
        for v in names:
            k = rng.choice(['num', 'num', 'num', 'nom']) if kinds is None else rng.choice(kinds)
            if k == 'nom':
                if not given:
                    v = v.replace('X', 'N').replace('Y', 'M').replace('W', 'P').replace('V', 'Q')
                self.schema.append((v, 'nom', ()))
                continue
            der = []
            while derived and rng.random() < 0.3 and len(der) < 2:
                nd += 1
                der.append('Z%d' % nd)
            self.schema.append((v, 'num', tuple(der)))
        self.pool = {}

    @property
    def nums(self):
        return [v for v, k, _ in self.schema if k == 'num'] + [d for _, _, ds in self.schema for d in ds]

    @property
    def noms(self):
        return [v for v, k, _ in self.schema if k == 'nom']

    @property
    def bases(self):
        return [v for v, _, _ in self.schema]

    def spec(self):
        while True:
            s = self.node(self.schema, self.depth)
            if size(s) <= self.maxsize:
                return s

    def node(self, schema, depth):
        rng = self.rng
        key = (tuple(schema), depth)
        if self.pool.get(key) and rng.random() < 0.12:
            return rng.choice(self.pool[key])      # repeated subtree
        r = rng.random()
        if depth <= 0 or r < 0.1:
            s = self.product(schema, 0)
        elif r < 0.6 or len(schema) == 1:
            n = rng.choice([2, 2, 3])
            ws = weights(rng, n)
            s = ('sum', tuple((w, self.node(schema, depth - 1)) for w in ws))
        else:
            s = self.product(schema, depth - 1)
        self.pool.setdefault(key, []).append(s)
        return s

    def product(self, schema, depth):
        rng = self.rng
        if len(schema) == 1:
            return self.leaf(schema[0]) if depth <= 0 else self.node(schema, depth)
        sch = list(schema)
        rng.shuffle(sch)
        k = rng.randint(2, len(sch))
        cuts = sorted(rng.sample(range(1, len(sch)), k - 1))
        parts = [sch[a:b] for a, b in zip([0] + cuts, cuts + [len(sch)])]
        return ('prod', tuple(self.node(p, depth) for p in parts))

    def leaf(self, var):
        rng = self.rng
        v, kind, der = var
        if kind == 'nom' or (self.mixed and not der and rng.random() < 0.04):
            vs = rng.sample(NOMV[:5] if rng.random() < 0.9 else NOMV, rng.randint(1, 4))
            return ('nom', v, tuple(zip(vs, weights(rng, len(vs)))))
        n, kw = primitive(rng, None)
        while not self.atoms and n in ('atom', 'atomic'):
            n, kw = primitive(rng, None)
        ders = []
        syms = [v]
        for z in der:
            g = Gen(rng, 'int', transcendental=rng.random() < 0.3, maxdeg=2,
                    piece=rng.random() < 0.4, ind=rng.random() < 0.2)
            e = g.expr(('var', rng.choice(syms)), rng.choice([1, 1, 2]))
            while (self.total and not total_expr(e)) or \
                    (self.dtotal and not defined_on((n, kw), v, terms.subst(e, dict(ders_sub(ders))))):
                e = g.expr(('var', rng.choice(syms)), rng.choice([1, 1, 2]))
            ders.append((z, e))
            syms.append(z)
        if n == 'atom':
            return ('atom', v, dict(kw)['value'], tuple(ders))
        return ('leaf', v, n, kw, tuple(ders))


def total_expr(e):
    """No undefined values can arise (syntactically)."""
    k = e[0]
    if k == 'var':
        return True
    if k in ('rdiv', 'log', 'sqrt', 'root', 'blog', 'piece') or (k == 'ipow' and e[2] < 0):
        return False
    if k == 'ind':
        return all(total_lit(a) for a in terms.atoms(e[1]))
    return all(total_expr(s) for s in e[1:] if isinstance(s, tuple) and s and isinstance(s[0], str)
               and s[0] not in ('rat', 'sq', 'pi', 'e'))


def total_lit(a):
    return a[0] in ('nom', 'nnom') or total_expr(a[1])


def ders_sub(ders):
    out = {}
    for z, e in ders:
        out[z] = terms.subst(e, out)
    return out


def defined_on(dist, v, e):
    """Is the expression defined (almost) everywhere on the support?"""
    import numpy as np
    from . import exact, ref
    n, kw = dist
    if n == 'atom':
        xs = [dict(kw)['value']]
    else:
        kind, d = ref.dist_table(n, kw)
        if kind == 'disc':
            xs = sorted(d)
        else:
            q = np.concatenate([(np.arange(400) + 0.5) / 400, [1e-12, 1 - 1e-12]])
            return not np.isnan(terms.ev(e, {v: d.ppf(q)})).any()
    for x in xs:
        try:
            exact.value(e, {v: F(x)})
        except exact.Undef:
            return False
        except exact.Unknown:
            if np.isnan(terms.ev(e, {v: np.array([float(x)])})).any():
                return False
    return True


def size(spec):
    if spec[0] == 'sum':
        return 1 + sum(size(s) for _, s in spec[1])
    if spec[0] == 'prod':
        return 1 + sum(size(s) for s in spec[1])
    return 1


def show(spec):
    k = spec[0]
    f = terms.flatten_str
    if k == 'nom':
        return '%s~{%s}' % (spec[1], ', '.join('%r:%.4g' % (a, b) for a, b in spec[2]))
    if k == 'atom':
        return '%s~delta(%s)%s' % (spec[1], spec[2], ''.join('; %s=%s' % (z, f(e)) for z, e in spec[3]))
    if k == 'leaf':
        return '%s~%s(%s)%s' % (spec[1], spec[2], ', '.join('%s=%s' % kv for kv in spec[3]),
                                ''.join('; %s=%s' % (z, f(e)) for z, e in spec[4]))
    if k == 'sum':
        return '(' + ' | '.join('%.4g*%s' % (w, show(s)) for w, s in spec[1]) + ')'
    return '(' + ' & '.join(show(s) for s in spec[1]) + ')'


class ModelBuild:
    """Builds the system's object for a specification through public operations."""

    def __init__(self, rng=None, build=None, style=None):
        self.b = build or terms.Build()
        self.rng = rng
        self.style = style

    def dist(self, n, kw):
        import sppl.distributions as D
        kw = dict(kw)
        if n == 'discrete':
            return D.discrete(dict(kw['table']))
        if n == 'uniformd':
            return D.uniformd(values=list(kw['values']))
        return getattr(D, n)(**kw)

    def leaf(self, spec):
        import sppl.distributions as D
        from sppl.spe import AtomicLeaf
        X = self.b.id(spec[1])
        if spec[0] == 'nom':
            return X >> D.choice(dict(spec[2]))
        if spec[0] == 'atom':
            s, der = AtomicLeaf(X, spec[2]), spec[3]
        else:
            s, der = X >> self.dist(spec[2], spec[3]), spec[4]
        for z, e in der:
            s = s.transform(self.b.id(z), self.b.expr(e))
        return s

    def build(self, spec):
        from sppl.spe import ProductSPE, SumSPE
        k = spec[0]
        if k in ('leaf', 'atom', 'nom'):
            return self.leaf(spec)
        if k == 'sum':
            cs = [self.build(s) for _, s in spec[1]]
            ws = [w for w, _ in spec[1]]
            style = self.style or (self.rng.choice(['ctor', 'op']) if self.rng else 'ctor')
            if style == 'op':
                out = ws[0] * cs[0]
                for w, c in zip(ws[1:], cs[1:]):
                    out = out | w * c
                return out
            return SumSPE(cs, [math.log(w) for w in ws])
        cs = [self.build(s) for s in spec[1]]
        style = self.style or (self.rng.choice(['ctor', 'op']) if self.rng else 'ctor')
        if style == 'op':
            out = cs[0]
            for c in cs[1:]:
                out = out & c
            return out
        return ProductSPE(cs)
