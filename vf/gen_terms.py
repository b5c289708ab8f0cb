"""Random expressions and events over variables."""
from .terms import INF, num


def const(rng, style='int', lo=-4, hi=4, nz=False):
    while True:
        if style == 'int':
            v = rng.randint(lo, hi)
        elif style == 'rat':
            r = rng.random()
            if r < 0.6:
                v = rng.randint(lo, hi)
            else:
                v = ('rat', rng.randint(2 * lo, 2 * hi), rng.choice([2, 3, 4]))
        elif style == 'float':
            v = rng.choice([rng.randint(lo, hi), rng.randint(4 * lo, 4 * hi) / 4,
                            round(rng.uniform(lo, hi), 2)])
        else:
            raise AssertionError(style)
        if not nz or num(v) != 0:
            return v


SIBLING = {'sqrt': ['abs', 'exp', 'log'], 'abs': ['sqrt', 'neg'], 'exp': ['neg', 'log'], 'log': ['sqrt', 'exp'],
           'add': ['sub', 'mul'], 'sub': ['add', 'mul'], 'mul': ['div', 'add'], 'div': ['mul'],
           'radd': ['rsub'], 'rsub': ['radd'], 'rmul': ['rdiv'], 'rdiv': ['rmul']}


def sibling(rng, t):
    """An expression that differs from t in one constant or one operator (or t)."""
    spots = []

    def walk(u, path):
        if u[0] == 'var':
            return
        if u[0] in ('piece', 'ind', 'padd', 'psub', 'pmul'):
            return
        spots.append(path)
        for i in range(1, len(u)):
            if isinstance(u[i], tuple) and u[i][0] != 'rat':
                walk(u[i], path + (i,))
    walk(t, ())
    if not spots:
        return t
    path = rng.choice(spots)

    def at(u, path):
        if path:
            i = path[0]
            return u[:i] + (at(u[i], path[1:]),) + u[i + 1:]
        k = u[0]
        if k == 'root':
            return (k, u[1], rng.choice([n for n in (2, 3, 4, -2, -3) if n != u[2]]))
        if k == 'ipow':
            return (k, u[1], rng.choice([n for n in (2, 3, -1, -2, 1) if n != u[2]]))
        if k == 'sqrt' and rng.random() < 0.6:
            return ('root', u[1], rng.choice([3, 4]))
        if k in ('exp', 'log') and rng.random() < 0.6:
            return ('bexp', rng.choice([2, 3]), u[1]) if k == 'exp' else ('blog', u[1], rng.choice([2, 10]))
        if k == 'bexp':
            return (k, rng.choice([b for b in (2, 3, 10, ('rat', 1, 2)) if b != u[1]]), u[2])
        if k == 'blog':
            return (k, u[1], rng.choice([b for b in (2, 3, 10) if b != u[2]]))
        if k in SIBLING and (len(u) == 2 or rng.random() < 0.4):
            k2 = rng.choice(SIBLING[k])
            if k2 in ('div', 'rdiv') and num(u[2 if k2 == 'div' else 1]) == 0:
                return u
            return (k2,) + u[1:]
        if len(u) == 3:
            j = 2 if k in ('add', 'sub', 'mul', 'div') else 1
            c = const(rng, 'int', nz=True)
            return u[:j] + (c,) + u[j + 1:]
        return u
    return at(t, path)


class Gen:
    def __init__(self, rng, style='int', transcendental=True, maxdeg=2, piece=True, ind=True):
        self.rng, self.style = rng, style
        self.trans, self.maxdeg, self.piece_ok, self.ind_ok = transcendental, maxdeg, piece, ind

    def c(self, **kw):
        return const(self.rng, self.style, **kw)

    def expr(self, x, depth):
        """x: variable term; returns an expression term with ~depth operators."""
        rng = self.rng
        self.base_var = x
        if depth <= 0:
            return x
        ops = ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'neg', 'abs', 'ipow', 'poly',
               'rdiv', 'root', 'sqrt']
        w = [2, 1, 1, 2, 2, 1, 1, 1, 2, 2, 2, 2, 1, 2]
        if self.trans:
            ops += ['exp', 'log', 'bexp', 'blog']
            w += [2, 2, 1, 1]
        if self.piece_ok and depth >= 1:
            ops += ['piece']
            w += [1]
        if self.ind_ok and depth >= 1:
            ops += ['ind']
            w += [0.5]
        k = rng.choices(ops, w)[0]
        e = self.expr(x, depth - 1)
        if k in ('add', 'sub', 'mul', 'div'):
            return (k, e, self.c(nz=k in ('mul', 'div')))
        if k in ('radd', 'rsub', 'rmul', 'rdiv'):
            return (k, self.c(nz=k in ('rmul', 'rdiv')), e)
        if k in ('neg', 'abs', 'sqrt', 'exp', 'log'):
            return (k, e)
        if k == 'ipow':
            n = rng.choice([2, 2, 2, 3, 3, -1, -1, -2, 1])
            if self.maxdeg < 3 and abs(n) == 3:
                n = 2
            return (k, e, n)
        if k == 'root':
            return (k, e, rng.choice([2, 3, 3, 4, -2, -3]))
        if k == 'bexp':
            b = rng.choice([2, 2, 3, 10, ('rat', 1, 2), ('rat', 1, 3), ('rat', 3, 2)])
            return (k, b, e)
        if k == 'blog':
            return (k, e, rng.choice([2, 2, 3, 10]))
        if k == 'poly':
            return self.poly(e)
        if k == 'piece':
            return self.piece(x, depth - 1)
        if k == 'ind':
            evt = self.event(x, depth - 1, 1)
            return ('ind', evt)
        raise AssertionError(k)

    def poly(self, e):
        """c0 + c1 e + c2 e^2 (+ c3 e^3) through polynomial operators."""
        rng = self.rng
        r = rng.random()
        # Sums and products of polynomials need a common non-polynomial base.
        while e[0] not in ('var', 'abs', 'sqrt', 'root', 'exp', 'log', 'bexp', 'blog') \
                or (e[0] == 'root' and e[2] < 0):
            e = e[2] if e[0] in ('radd', 'rsub', 'rmul', 'rdiv') else e[1]
            if e[0] in ('piece', 'ind') or not isinstance(e[0], str):
                e = self.base_var
        if r < 0.3:
            a, b = self.c(), self.c()
            return ('pmul', ('sub', e, a), (rng.choice(['sub', 'add']), e, b))
        if r < 0.7:
            t = ('padd', ('rmul', self.c(nz=True), ('ipow', e, 2)), ('rmul', self.c(nz=True), e))
            return ('add', t, self.c())
        if r < 0.85 or self.maxdeg < 3:
            return ('psub', ('ipow', e, 2), ('mul', e, self.c(nz=True)))
        if rng.random() < 0.5:
            return ('pmul', ('pmul', ('sub', e, self.c()), ('sub', e, self.c())), ('sub', e, self.c()))
        return ('psub', ('ipow', e, 3), ('rmul', self.c(nz=True), e))

    def piece(self, x, depth):
        rng = self.rng
        n = rng.choice([1, 2, 2, 3])
        cuts = sorted(set(num(self.c()) for _ in range(n - 1)))
        cuts = [int(c) if c == int(c) else c for c in cuts]
        parts = []
        lo, lop = None, None
        for i in range(len(cuts) + 1):
            hi = cuts[i] if i < len(cuts) else None
            hop = rng.choice(['<', '<='])
            if lo is None and hi is None:
                ev = rng.choice([('cmp', x, '>', self.c()), ('rng', x, -2, '<', 2, '<='), ('nin', x, (0,))])
            elif lo is None:
                ev = ('cmp', x, hop, hi)
            elif hi is None:
                ev = ('cmp', x, lop, lo)
            else:
                ev = ('rng', x, lo, {'>': '<', '>=': '<='}[lop], hi, hop)
            e = self.expr(x, rng.randint(0, max(0, depth)))
            parts.append((e, ev))
            lo = hi
            lop = '>' if hop == '<=' else rng.choice(['>=', '>='])
        rng.shuffle(parts)
        return ('piece', tuple(parts))

    def literal(self, e):
        """An atomic event on expression e."""
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return ('cmp', e, rng.choice(['<', '<=', '>', '>=']), self.c())
        if r < 0.65:
            a, b = self.c(), self.c()
            if num(a) > num(b):
                a, b = b, a
            return ('rng', e, a, rng.choice(['<', '<=']), b, rng.choice(['<', '<=']))
        if r < 0.78:
            return ('in', e, tuple(self.c() for _ in range(rng.randint(1, 3))))
        if r < 0.85:
            return ('nin', e, tuple(self.c() for _ in range(rng.randint(1, 2))))
        a, b = self.c(), self.c()
        if num(a) == num(b):
            return ('cmp', e, rng.choice(['<', '<=', '>', '>=']), a)
        if num(a) > num(b):
            a, b = b, a
        return ('ivl', e, (a, b, rng.random() < 0.5, rng.random() < 0.5))

    def event(self, x, depth, width):
        """Event over one variable: width literals joined by connectives."""
        rng = self.rng
        if width <= 1:
            e = self.expr(x, depth)
            lit = self.literal(e)
            if e[0] == 'ind':
                # Events used as values support membership only.
                lit = rng.choice([('in', e, (1,)), ('in', e, (0,)), ('in', e, (0, 1)), ('in', e, (2,)),
                                  ('nin', e, (1,)), ('nin', e, (0,)), ('in', e, (1, 2))])
            return ('not', lit) if rng.random() < 0.15 else lit
        k = rng.choice(['and', 'or', 'and', 'or', 'not', 'xor'])
        if k == 'not':
            return ('not', self.event(x, depth, width - 1))
        i = rng.randint(1, width - 1)
        return (k, self.event(x, depth, i), self.event(x, depth, width - i))
