"""Random multi-variable events."""
from . import terms
from .gen_terms import Gen, const, sibling
from .grid import STRS


class EventGen:
    def __init__(self, rng, nums, noms, style='int', depth=1, partial=True, **kw):
        self.rng, self.nums, self.noms, self.depth = rng, nums, noms, depth
        self.partial = partial
        self.g = Gen(rng, style, **kw)
        self.exprs = []     # earlier expressions, used again exactly or nearly
        self.reuse = 0.3

    def literal(self):
        rng = self.rng
        pool = self.nums + self.noms
        v = rng.choice(pool)
        if v in self.noms:
            k = rng.choice([1, 1, 1, 2, 3])
            return (rng.choice(['nom', 'nom', 'nnom']), v, tuple(rng.sample(STRS[:5], k)))
        if self.exprs and rng.random() < self.reuse:
            e = rng.choice(self.exprs)
            if rng.random() < 0.6:
                e = sibling(rng, e)
        else:
            x = ('var', v)
            d = rng.choice([0, 0, 0] + list(range(self.depth + 1)))
            e = self.g.expr(x, d)
            if d:
                self.exprs.append(e)
        if e[0] == 'ind':
            return rng.choice([('in', e, (1,)), ('in', e, (0,)), ('nin', e, (1,)), ('in', e, (0, 1))])
        return self.g.literal(e)

    def pair(self):
        """Literals on an expression and on a variant of it, next to each other."""
        rng = self.rng
        if not self.nums:
            return self.literal()
        x = ('var', rng.choice(self.nums))
        e = rng.choice(self.exprs) if self.exprs and rng.random() < 0.5 else self.g.expr(x, 1)
        top = rng.choice(['blog', 'root', 'bexp', 'ipow', 'add', 'mul', None, None])
        if top in ('blog', 'bexp') and not self.g.trans:
            top = 'root'
        if top and e[0] in ('var', 'add', 'sub', 'mul'):
            e = {'blog': ('blog', e, 2), 'root': ('root', e, 3), 'bexp': ('bexp', 2, e), 'ipow': ('ipow', e, 2),
                 'add': ('add', e, 1), 'mul': ('mul', e, 2)}[top]
        if e[0] == 'ind':
            return self.literal()
        f = sibling(rng, e)
        lits = [self.g.literal(e), self.g.literal(f)]
        rng.shuffle(lits)
        return (rng.choice(['and', 'or']),) + tuple(lits)

    def event(self, width, again=None):
        """again: literals that may be repeated (so that clauses overlap)."""
        rng = self.rng
        if again is None:
            again = []
        if width == 2 and rng.random() < self.reuse * 0.7:
            t = self.pair()
            return ('not', t) if rng.random() < 0.15 else t
        if width <= 1:
            if again and rng.random() < 0.25:
                t = rng.choice(again)
            else:
                t = self.literal()
                again.append(t)
            return ('not', t) if rng.random() < 0.15 else t
        k = rng.choice(['and', 'or', 'and', 'or', 'not', 'xor'])
        if k == 'not':
            return ('not', self.event(width - 1, again))
        if k == 'xor' or rng.random() < 0.7:
            i = rng.randint(1, width - 1)
            return (k, self.event(i, again), self.event(width - i, again))
        n = rng.randint(2, min(3, width))
        cuts = sorted(rng.sample(range(1, width), n - 1))
        sizes = [b - a for a, b in zip([0] + cuts, cuts + [width])]
        return (k,) + tuple(self.event(s, again) for s in sizes)


def xors(t):
    if t[0] in ('not', 'and', 'or', 'xor'):
        return (1 if t[0] == 'xor' else 0) + sum(xors(s) for s in t[1:])
    return 0


def dnf_size(t, neg=False):
    """Number of clauses of the naive disjunctive normal form."""
    k = t[0]
    if k == 'not':
        return dnf_size(t[1], not neg)
    if k == 'xor':
        a, b = t[1], t[2]
        return dnf_size(('or', ('and', a, ('not', b)), ('and', ('not', a), b)), neg)
    if k in ('and', 'or'):
        ns = [dnf_size(s, neg) for s in t[1:]]
        if (k == 'or') != neg:
            return sum(ns)
        out = 1
        for n in ns:
            out *= n
        return out
    # A complemented range or membership becomes a disjunction.
    if neg != (k == 'nin'):
        if k in ('in', 'nin'):
            return len(t[2]) + 1
        if k in ('rng', 'ivl'):
            return 2
    return 1
