"""Random programs: abstract syntax, source text, and an independent
interpreter that executes them statement by statement.

Statements
    ('const', name, value)                 ('array', name, n)
    ('sample', target, dist)               ('transform', target, expr)
    ('if', ((event | None, body), ...))    ('ifexp', target, ((event | None, rhs), ...))
    ('for', i, lo, hi, body)               ('switch', var, kind, names, values, body)
    ('condition', event)                   ('constrain', ((target, value), ...))
rhs: ('d', dist) | ('x', expr)
dist: ('prim', name, kwargs) | ('choice', ((s, w), ...)) | ('mix', ((w, dist), ...))
target: name | ('el', array, index)
index and parameters: number | ('ix', name, mul, add) | ('ix2', name, mul, name, mul, add)
    | ('cst', name, value) | ('str', name)
    | ('side', name, 'left' | 'right')
"""
import math

from . import ref, terms
from .gen_events import EventGen
from .gen_terms import Gen
from . import models

IX = ('ix', 'ix2', 'cst', 'str', 'side')

# --------------------------------------------------------------------------
# Concrete values of loop indices.


def conc(t, env):
    """Replace indices by their values in any part of a program."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ix':
        return t[2] * env[t[1]] + t[3] if t[1] in env else t
    if t[0] == 'ix2':
        _, i, m, j, n, a = t
        if i in env and j in env:
            return m * env[i] + n * env[j] + a
        if i in env:
            return ('ix', j, n, a + m * env[i])
        return ('ix', i, m, a + n * env[j]) if j in env else t
    if t[0] == 'cst':
        return t[2]
    if t[0] == 'str':
        return str(env[t[1]]) if t[1] in env else t
    if t[0] == 'side':
        return env[t[1]][0 if t[2] == 'left' else 1] if t[1] in env else t
    if t[0] == 'el':
        i = conc(t[2], env)
        return '%s[%d]' % (t[1], i) if isinstance(i, int) else ('el', t[1], i)
    return tuple(conc(s, env) for s in t)


# --------------------------------------------------------------------------
# Interpreter.  A state is a list of paths: an (unnormalized) weight, the
# variables drawn so far, and the events known to hold.


class Path:
    __slots__ = ('w', 'comp', 'ev')

    def __init__(self, w, comp, ev):
        self.w, self.comp, self.ev = w, comp, ev


class Impossible(Exception):
    pass


class TooMany(Exception):
    pass


START = lambda: [Path(1.0, ref.Comp(1.0, {}, {}, {}), ())]
_model = ref.Model.__new__(ref.Model)
_model.spec, _model.base_vars = None, ()


def path_mass(p, events=(), n=1500):
    """Joint table {truths of events: probability} of a path, given nothing."""
    evs = list(events) + list(p.ev)
    if not evs:
        return {(): p.w}
    q = ref.Query(_model.like([p.comp]), evs, n)
    k = len(events)
    out = {}
    for key, pr in q.tables[0].items():
        if all(key[k:]):
            out[key[:k]] = out.get(key[:k], 0.0) + p.w * pr
    return out


def joint(state, events=(), n=1500):
    out = {}
    for p in state:
        for key, pr in path_mass(p, events, n).items():
            out[key] = out.get(key, 0.0) + pr
    return out


def mass(state, n=1500):
    return sum(joint(state, (), n).values())


def given(state, event, n=1500, scale=False):
    """Paths on which the event holds (those with positive probability)."""
    out = []
    for p in state:
        q = Path(p.w, p.comp, p.ev + (event,))
        if sum(path_mass(q, (), n).values()) > 0:
            out.append(q)
    return out


def rescale(state, m):
    k = mass(state)
    if k <= 0:
        raise Impossible()
    return [Path(p.w * m / k, p.comp, p.ev) for p in state]


def add_var(p, var, dist, w=1.0):
    """Paths extended with a draw of var."""
    k = dist[0]
    if k == 'mix':
        return [q for wi, d in dist[1] for q in add_var(p, var, d, w * wi)]
    if k == 'choice':
        spec = ('nom', var, dist[1])
    else:
        spec = ('leaf', var, dist[1], dist[2], ())
    c = p.comp
    bases, keys = dict(c.bases), dict(c.keys)
    bases[var] = _base(spec)
    keys[var] = spec
    return [Path(p.w * w, ref.Comp(1.0, bases, c.derived, keys), p.ev)]


_bases = {}


def _base(spec):
    if spec not in _bases:
        if len(_bases) > 500:
            _bases.clear()
        _bases[spec] = ref.build_base(spec)
    return _bases[spec]


LIMIT = 60


def interp(stmts, state, env=None):
    env = env or {}
    for s in stmts:
        state = step(s, state, env)
        if len(state) > LIMIT:
            raise TooMany()
    return state


def fresh_events(evs):
    """Events of the branches of a conditional: each excludes those before it."""
    out, before = [], []
    for e in evs:
        parts = [('not', b) for b in before]
        if e is not None:
            parts = [e] + parts
            before.append(e)
        out.append(parts[0] if len(parts) == 1 else ('and',) + tuple(parts))
    return out


def branches(state, evs, run):
    out = []
    total = mass(state)
    seen = 0.0
    for i, e in enumerate(fresh_events(evs)):
        sub = given(state, e)
        m = mass(sub)
        seen += m
        if not sub:
            continue
        sub = run(i, sub)
        out += rescale(sub, m)
    if abs(seen - total) > 1e-6 * total:
        raise Impossible('branches do not cover')
    return out


def value_event(var, v):
    if isinstance(v, str):
        return ('nom', var, (v,))
    if isinstance(v, tuple):
        return ('ivl', ('var', var), v)
    return ('in', ('var', var), (v,))


def step(s, state, env):
    k = s[0]
    if k in ('const', 'array'):
        return state
    if k == 'sample':
        var, dist = conc(s[1], env), conc(s[2], env)
        return [q for p in state for q in add_var(p, var, dist)]
    if k == 'transform':
        var, e = conc(s[1], env), conc(s[2], env)
        out = []
        for p in state:
            c = p.comp
            d = dict(c.derived)
            d[var] = terms.subst(e, c.derived)
            out.append(Path(p.w, ref.Comp(1.0, c.bases, d, c.keys), p.ev))
        return out
    if k == 'if':
        return branches(state, [conc(e, env) for e, _ in s[1]], lambda i, sub: interp(s[1][i][1], sub, env))
    if k == 'ifexp':
        def one(i, sub):
            r = s[2][i][1]
            return step(('sample' if r[0] == 'd' else 'transform', s[1], r[1]), sub, env)
        return branches(state, [conc(e, env) for e, _ in s[2]], one)
    if k == 'for':
        for i in range(conc(s[2], env), conc(s[3], env)):
            state = interp(s[4], state, dict(env, **{s[1]: i}))
            if len(state) > LIMIT:
                raise TooMany()
        return state
    if k == 'switch':
        var, vals = conc(s[1], env), switch_values(s, env)
        evs = [value_event(var, v) for v in vals]

        def one(i, sub):
            e = dict(env)
            if s[2] == 'enum':
                e.update({s[3][0]: i, s[3][1]: vals[i]})
            else:
                e[s[3][0]] = vals[i]
            return interp(s[5], sub, e)
        return branches(state, evs, one)
    if k == 'condition':
        return rescale(given(state, conc(s[1], env)), mass(state))
    if k == 'constrain':
        return constrain(state, {conc(v, env): conc(x, env) for v, x in s[1]})
    raise AssertionError(s)


def switch_values(s, env):
    if s[2] == 'range':
        return list(range(conc(s[4][0], env), conc(s[4][1], env)))
    return list(conc(s[4], env))


def constrain(state, asg):
    total = mass(state)
    cand = []
    for p in state:
        d, lp = 0, 0.0
        for v, x in asg.items():
            if v not in p.comp.bases:
                raise Impossible('derived variable')
            dd, l = ref.base_density(p.comp.bases[v], x)
            d, lp = d + dd, lp + l
        if lp == -math.inf:
            continue
        q = Path(p.w * math.exp(lp), ref.fix(p.comp, asg, 1.0), p.ev)
        if sum(path_mass(q).values()) > 0:
            cand.append((d, q))
    if not cand:
        raise Impossible()
    dm = min(d for d, _ in cand)
    return rescale([q for d, q in cand if d == dm], total)


class Oracle:
    def __init__(self, ctx, state, events):
        self.ctx, self.state, self.events, self.n = ctx, state, list(events), 1500
        self.load()

    def load(self):
        try:
            self.j = joint(self.state, self.events, self.n)
        except ref.Ambiguous:
            self.ctx.skip('ambiguous atom')
        except ref.TooBig:
            self.ctx.skip('too many cells')
        self.total = sum(self.j.values())

    def prob(self, f):
        return sum(p for k, p in self.j.items() if f(k)) / self.total

    def agree(self, got, f, tol=1e-7):
        if abs(got - self.prob(f)) <= tol:
            return True, self.prob(f)
        if self.n < 40000:
            self.n = 40000
            self.ctx.count('dense_recheck')
            self.load()
        return abs(got - self.prob(f)) <= tol, self.prob(f)


# --------------------------------------------------------------------------
# Source text.


class Src:
    """Renders programs, choosing among equivalent spellings with rng (or the
    plainest spelling when rng is None)."""

    def __init__(self, rng=None, assign=None):
        self.rng = rng
        self.names = set()       # names to import
        self.assign = assign     # '~=' or '='

    def pick(self, *xs):
        return self.rng.choice(xs) if self.rng else xs[0]

    def index(self, v):
        if isinstance(v, tuple) and v and v[0] in IX:
            if v[0] == 'cst':
                return v[1]
            if v[0] == 'str':
                return 'str(%s)' % v[1]
            if v[0] == 'side':
                return '%s.%s' % (v[1], v[2])
            if v[0] == 'ix2':
                out = ' + '.join(x if m == 1 else '%d*%s' % (m, x) for x, m in ((v[1], v[2]), (v[3], v[4])))
                a = v[5]
                return out if a == 0 else '%s %s %d' % (out, '+' if a > 0 else '-', abs(a))
            m, a = v[2], v[3]
            out = v[1] if m == 1 else '%d*%s' % (m, v[1])
            return out if a == 0 else '%s %s %d' % (out, '+' if a > 0 else '-', abs(a))
        return self.num(v)

    def num(self, v):
        if isinstance(v, tuple) and v and v[0] in IX:
            s = self.index(v)
            return s if s.isidentifier() else '(%s)' % s
        if isinstance(v, tuple):
            return terms.lit_src(v)
        return repr(v)

    def var(self, v):
        if isinstance(v, tuple) and v[0] == 'el':
            return '%s[%s]' % (v[1], self.index(v[2]))
        return v

    def expr(self, t):
        k = t[0]
        f, n = self.expr, self.num
        if k == 'var':
            return self.var(t[1])
        if k in ('add', 'sub', 'mul', 'div'):
            return '(%s %s %s)' % (f(t[1]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[k], n(t[2]))
        if k in ('radd', 'rsub', 'rmul', 'rdiv'):
            return '(%s %s %s)' % (n(t[1]), {'radd': '+', 'rsub': '-', 'rmul': '*', 'rdiv': '/'}[k], f(t[2]))
        if k == 'neg':
            return '(-%s)' % f(t[1])
        if k == 'abs':
            return 'abs(%s)' % f(t[1])
        if k == 'ipow':
            return '(%s**%s)' % (f(t[1]), n(t[2]))
        if k == 'root':
            return '(%s**(%d, %d))' % (f(t[1]), 1 if t[2] > 0 else -1, abs(t[2]))
        if k in ('sqrt', 'exp', 'log'):
            name = {'sqrt': 'Sqrt', 'exp': 'Exp', 'log': 'Log'}[k]
            self.names.add(('sppl.transforms', name))
            return '%s(%s)' % (name, f(t[1]))
        if k == 'bexp':
            return '(%s**%s)' % (n(t[1]), f(t[2]))
        if k == 'blog':
            self.names.add(('sppl.transforms', 'Logarithm'))
            return 'Logarithm(%s, base=%s)' % (f(t[1]), n(t[2]))
        if k in ('padd', 'psub', 'pmul'):
            return '(%s %s %s)' % (f(t[1]), {'padd': '+', 'psub': '-', 'pmul': '*'}[k], f(t[2]))
        if k == 'piece':
            return '(%s)' % ' + '.join('(%s)*(%s)' % (f(e), self.event(v)) for e, v in t[1])
        if k == 'ind':
            return '(%s)' % self.event(t[1])
        raise AssertionError(t)

    def set(self, vs):
        if any(isinstance(v, str) for v in vs):
            return '{%s}' % ', '.join(map(repr, vs))
        return '{%s}' % ', '.join(map(self.num, vs))

    def member(self, x, vs, neg):
        s = self.set(vs)
        if len(vs) == 1 and self.pick(True, False):
            v = self.num(vs[0]) if not isinstance(vs[0], str) else repr(vs[0])
            return self.pick('(%s %s %s)' % (x, '!=' if neg else '==', v),
                             '(%s(%s == %s))' % ('~' if neg else '', x, v))
        return self.pick('(%s %s %s)' % (x, 'not in' if neg else 'in', s),
                         '(%s(%s << %s))' % ('~' if neg else '', x, s))

    def event(self, t):
        k = t[0]
        e = self.event
        if k == 'not':
            return '(%s%s)' % (self.pick('~', '~', 'not '), e(t[1]))
        if k in ('and', 'or'):
            op = {'and': self.pick(' & ', ' & ', ' and '), 'or': self.pick(' | ', ' | ', ' or ')}[k]
            return '(%s)' % op.join(e(s) for s in t[1:])
        if k == 'xor':
            return '(%s ^ %s)' % (e(t[1]), e(t[2]))
        if k in ('nom', 'nnom'):
            return self.member(self.var(t[1]), t[2], k == 'nnom')
        x = self.expr(t[1])
        n = self.num
        if k == 'cmp':
            flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
            return self.pick('(%s %s %s)' % (x, t[2], n(t[3])), '(%s %s %s)' % (n(t[3]), flip[t[2]], x))
        if k == 'rng':
            return self.pick('((%s %s %s) %s %s)', '((%s %s %s) %s %s)', '(%s %s %s %s %s)') % (n(t[2]), t[3], x, t[5], n(t[4]))
        if k == 'ivl':
            return '(%s %s %s)' % (x, self.pick('<<', 'in'), self.interval(t[2]))
        if k in ('in', 'nin'):
            return self.member(x, t[2], k == 'nin')
        raise AssertionError(t)

    def interval(self, v):
        self.names.add(('sppl.sets', 'Interval'))
        a, b, lo, hi = v
        for x in (a, b):
            if isinstance(x, float) and math.isinf(x):
                self.names.add(('sppl.sets', 'inf'))
        return 'Interval(%s, %s, left_open=%s, right_open=%s)' % (self.num(a), self.num(b), lo, hi)

    def dist(self, d):
        k = d[0]
        if k == 'mix':
            return ' | '.join('%s*%s' % (self.num(w), self.dist(c)) for w, c in d[1])
        if k == 'choice':
            return 'choice({%s})' % ', '.join('%s: %s' % (self.index(s) if isinstance(s, tuple) else repr(s), self.num(w))
                                              for s, w in d[1])
        n, kw = d[1], dict(d[2])
        if n == 'discrete':
            return 'discrete({%s})' % ', '.join('%s: %s' % (self.num(x), self.num(w)) for x, w in kw['table'])
        if n == 'uniformd':
            return 'uniformd(values=[%s])' % ', '.join(map(self.num, kw['values']))
        return '%s(%s)' % (n, ', '.join('%s=%s' % (a, self.index(b) if isinstance(b, tuple) else self.num(b)) for a, b in kw.items()))

    def eq(self):
        return self.assign or self.pick('~=', '~=', '=')

    def block(self, stmts, ind):
        return '\n'.join(self.stmt(s, ind) for s in stmts)

    def test(self, e):
        s = self.event(e)
        return s if self.pick(True, False) else s[1:-1] if s.startswith('(') and balanced(s) else s

    def stmt(self, s, ind=0):
        p = ' ' * ind
        k = s[0]
        if k == 'raw':
            return '\n'.join(p + l for l in s[1].split('\n'))
        if k == 'const':
            return '%s%s = %s' % (p, s[1], s[2] if isinstance(s[2], str) else repr(s[2]))
        if k == 'array':
            return '%s%s = array(%s)' % (p, s[1], self.index(s[2]))
        if k == 'sample':
            return '%s%s %s %s' % (p, self.var(s[1]), self.eq(), self.dist(s[2]))
        if k == 'transform':
            x = self.expr(s[2]) if s[2][0] != 'ind' else self.event(s[2][1])
            return '%s%s %s %s' % (p, self.var(s[1]), self.eq(), x)
        if k == 'if':
            out = []
            for i, (e, body) in enumerate(s[1]):
                head = 'else' if e is None else '%s %s' % ('if' if i == 0 else 'elif', self.test(e))
                out.append('%s%s:\n%s' % (p, head, self.block(body, ind + 4)))
            return '\n'.join(out)
        if k == 'ifexp':
            parts = []
            for e, (c, r) in s[2]:
                x = self.dist(r) if c == 'd' else self.expr(r)
                parts.append('(%s)' % x if e is None else '(%s) if %s else ' % (x, self.event(e)))
            return '%s%s %s (%s)' % (p, self.var(s[1]), self.eq(), ''.join(parts))
        if k == 'for':
            lo, hi = self.index(s[2]), self.index(s[3])
            r = 'range(%s)' % hi if s[2] == 0 and self.pick(True, False) else 'range(%s, %s)' % (lo, hi)
            return '%sfor %s in %s:\n%s' % (p, s[1], r, self.block(s[4], ind + 4))
        if k == 'switch':
            if s[2] == 'range':
                v = 'range(%s, %s)' % (self.index(s[4][0]), self.index(s[4][1]))
            elif s[2] == 'bins':
                v = '[%s]' % ', '.join(self.interval(x) for x in s[4])
            else:
                v = '[%s]' % ', '.join(repr(x) if isinstance(x, str) else self.num(x) for x in s[4])
                if s[2] == 'enum':
                    v = 'enumerate(%s)' % v
            return '%sswitch (%s) cases (%s in %s):\n%s' % (
                p, self.var(s[1]), ', '.join(s[3]), v, self.block(s[5], ind + 4))
        if k == 'condition':
            e = self.event(s[1])
            return '%scondition(%s)' % (p, e)
        if k == 'constrain':
            return '%sconstrain({%s})' % (p, ', '.join(
                '%s: %s' % (self.var(v), repr(x) if isinstance(x, str) else self.num(x)) for v, x in s[1]))
        raise AssertionError(s)

    def program(self, stmts):
        body = self.block(stmts, 0)
        mods = {}
        for m, n in sorted(self.names):
            mods.setdefault(m, []).append(n)
        head = ''.join('from %s import %s\n' % (m, ', '.join(ns)) for m, ns in mods.items())
        if self.rng and self.rng.random() < 0.25:
            body = self.noise(body)
        return head + body + '\n'

    def noise(self, body):
        """Text without meaning."""
        rng = self.rng
        out = []
        for l in body.split('\n'):
            r = rng.random()
            ind = ' ' * (len(l) - len(l.lstrip()))
            if r < 0.1:
                out.append('')
            elif r < 0.2:
                out.append(ind + rng.choice(["# it's", '# x ~= y', '# "quoted', '# switch (X) cases (i in [1]):', "# 'a' in b"]))
            elif r < 0.25 and not l.lstrip().startswith(('else', 'elif')):
                out.append(ind + rng.choice(["'''text'''", '"""X ~= norm()"""', "'condition(X < 0)'"]))
            elif r < 0.3 and not l.lstrip().startswith(('else', 'elif')):
                out.append(ind + 'pass')
            if not l.lstrip().startswith('switch') and r > 0.8:
                l += rng.choice(['  ', "  # it's", '  # ~= in'])
            out.append(l)
        return '\n'.join(out)


def balanced(s):
    """Does the first parenthesis close at the end?"""
    d = 0
    for i, c in enumerate(s):
        d += c == '('
        d -= c == ')'
        if d == 0:
            return i == len(s) - 1
    return False


# --------------------------------------------------------------------------
# Generation, interleaved with interpretation (so that events are possible).


STRINGS = ['x in y', 'a ~= b', "it's", 'say "hi"', 'a:b', '(c)', 'in', '[0]', 'range(2)', 'X', '#', 'a, b', 'T) cases (i in [1]):', '~=']


class ProgGen:
    def __init__(self, rng, size=None, style=None):
        self.rng = rng
        self.size = size if size is not None else rng.choice([2, 3, 3, 4, 5])
        self.kind = {}           # variable -> 'num' | 'nom'
        self.fresh = ['X', 'Y', 'W', 'V', 'U', 'T', 'S', 'R']
        self.freshnom = ['N', 'M', 'P', 'Q', 'L']
        rng.shuffle(self.fresh)
        self.arrays = []
        self.transcendental = rng.random() < 0.25
        self.features = set()
        self.nfor = 0
        self.sub = {}

    def gen_event(self, kind, state, lo=1e-3, hi=1.0, widths=(1, 1, 2), plain=0.6):
        """An event over the variables with probability in (lo, hi], or None."""
        rng = self.rng
        nums = [v for v, k in kind.items() if k == 'num']
        noms = [v for v, k in kind.items() if k == 'nom']
        if not nums and not noms:
            return None
        total = mass(state)
        for _ in range(12):
            g = EventGen(rng, nums, noms, rng.choice(['int', 'int', 'float']), depth=0 if rng.random() < plain else 1,
                         transcendental=False, piece=False, ind=rng.random() < 0.1)
            t = g.event(rng.choice(widths))
            if not all(models.total_lit(a) for a in terms.atoms(t)):
                continue
            if any(a[0] in ('cmp', 'rng', 'ivl') and a[1][0] == 'ind' for a in terms.atoms(t)):
                continue
            p = mass(given(state, t)) / total
            if lo < p <= hi:
                return t
        return None

    def dist(self, kind, mix=True):
        rng = self.rng
        if kind == 'nom':
            vs = rng.sample(models.NOMV[:5], rng.randint(1, 3))
            return ('choice', tuple(zip(vs, models.weights(rng, len(vs)))))
        if mix and rng.random() < 0.2:
            n = rng.choice([2, 2, 3])
            self.features.add('mixture')
            return ('mix', tuple(zip(models.weights(rng, n), [self.dist(kind, False) for _ in range(n)])))
        n, kw = models.primitive(rng)
        while n == 'atom':
            n, kw = models.primitive(rng)
        if n == 'atomic' and rng.random() < 0.2:
            kw = (('loc', rng.choice([0.5, -1.25])),)
        return ('prim', n, kw)

    def expr(self, kind, state):
        """An expression of one variable that is defined on every path, or None."""
        rng = self.rng
        nums = [v for v, k in kind.items() if k == 'num']
        if not nums:
            return None
        for _ in range(8):
            g = Gen(rng, rng.choice(['int', 'float']), transcendental=self.transcendental, maxdeg=2,
                    piece=rng.random() < 0.3, ind=rng.random() < 0.2)
            e = g.expr(('var', rng.choice(nums)), rng.choice([1, 1, 2]))
            if e[0] == 'var':
                continue
            if all(defined(p.comp, e) for p in state):
                return e
        return None

    def new(self, kind):
        return (self.freshnom if kind == 'nom' else self.fresh).pop()

    def define(self, kind, var, vk, state):
        """A statement (with its final state) that defines var."""
        rng = self.rng
        if vk == 'num' and rng.random() < 0.3:
            e = self.expr(kind, state)
            if e is not None:
                self.features.add('transform')
                s = ('transform', var, e)
                return s, step(s, state, {})
        s = ('sample', var, self.dist(vk))
        return s, step(s, state, {})

    def test_chain(self, kind, state, n):
        """Events of an if with n branches (the last None unless they cover)."""
        rng = self.rng
        nums = [v for v, k in kind.items() if k == 'num']
        if nums and rng.random() < 0.25:
            # Tests that cover everything, without else.
            v = ('var', rng.choice(nums))
            cuts = sorted(rng.sample(range(-2, 4), n - 1))
            evs = []
            for i in range(n):
                if i == 0:
                    evs.append(('cmp', v, '<', cuts[0]))
                elif i == n - 1:
                    evs.append(('cmp', v, '>=', cuts[-1]))
                elif rng.random() < 0.5:
                    evs.append(('rng', v, cuts[i - 1], '<=', cuts[i], '<'))
                else:
                    evs.append(('cmp', v, '<', cuts[i]))       # overlaps the tests before it
            self.features.add('no-else')
            return evs
        evs = []
        for _ in range(n - 1):
            e = self.gen_event(kind, state, 0 if rng.random() < 0.9 else -1, 1.0)
            if e is None:
                return None
            evs.append(e)
        return evs + [None]

    def block(self, kind, state, depth, defs):
        """Statements defining exactly the variables in defs, [(name, kind)]; kind is
        updated; returns (statements, state)."""
        rng = self.rng
        out = []
        defs = list(defs)
        rng.shuffle(defs)
        while defs:
            r = rng.random()
            if depth > 0 and r < 0.3 and len(kind) > 0:
                k = rng.randint(1, len(defs))
                r2 = self.branching(kind, state, depth - 1, defs[:k])
                if r2:
                    s, state = r2
                    out.append(s)
                    kind.update(dict(defs[:k]))
                    defs = defs[k:]
                    continue
            if kind and r > 0.9:
                c = self.observe(kind, state)
                if c:
                    out.append(c[0])
                    state = c[1]
            v, vk = defs.pop()
            s, state = self.define(kind, v, vk, state)
            out.append(s)
            kind[v] = vk
        if kind and rng.random() < 0.08:
            c = self.observe(kind, state)
            if c:
                out.append(c[0])
                state = c[1]
        if not out:
            raise TooMany()
        return out, state

    def observe(self, kind, state):
        rng = self.rng
        if rng.random() < 0.75:
            e = self.gen_event(kind, state, 1e-2, 1.0)
            if e is None:
                return None
            self.features.add('condition')
            s = ('condition', e)
            return s, step(s, state, {})
        bases = [v for v in kind if all(v in p.comp.bases for p in state)]
        if not bases:
            return None
        asg = []
        for v in rng.sample(bases, min(len(bases), rng.choice([1, 1, 2]))):
            b = rng.choice(state).comp.bases[v]
            if b.kind == 'cont':
                x = round(float(b.data.ppf(rng.uniform(0.05, 0.95))), 3)
            else:
                x = rng.choice(sorted(b.data))
                x = x if isinstance(x, str) else int(x) if x == int(x) else x
            asg.append((v, x))
        s = ('constrain', tuple(asg))
        try:
            st = step(s, state, {})
        except Impossible:
            return None
        self.features.add('constrain')
        return s, st

    def branching(self, kind, state, depth, defs):
        rng = self.rng
        r = rng.random()
        if r < 0.25:
            return self.switch(kind, state, depth, defs)
        if r < 0.4 and len(defs) == 1:
            n = rng.choice([2, 2, 3])
            evs = self.test_chain(kind, state, n)
            if evs is None or evs[-1] is not None:
                return None
            parts = []
            for sub in self.subs(state, evs):
                s, _ = self.define(dict(kind), defs[0][0], defs[0][1], sub or state)
                parts.append(('d' if s[0] == 'sample' else 'x', s[2]))
            s = ('ifexp', defs[0][0], tuple(zip(evs, parts)))
            self.features.add('ifexp')
            return s, step(s, state, {})
        n = rng.choice([2, 2, 3])
        evs = self.test_chain(kind, state, n)
        if evs is None:
            return None
        out = []
        for e, sub in zip(evs, self.subs(state, evs)):
            body, _ = self.block(dict(kind), sub or state, depth, defs)
            out.append((e, tuple(body)))
            if not sub:
                self.features.add('dead-branch')
        s = ('if', tuple(out))
        self.features.add('if')
        if n > 2:
            self.features.add('elif')
        return s, step(s, state, {})

    def subs(self, state, evs):
        return [given(state, e) for e in fresh_events(evs)]

    def switch(self, kind, state, depth, defs):
        rng = self.rng
        cands = []
        for v, vk in kind.items():
            if all(v in p.comp.bases and p.comp.bases[v].kind in ('disc', 'nom') for p in state):
                vals = set()
                for p in state:
                    vals |= set(p.comp.bases[v].data)
                if len(vals) <= 5:
                    cands.append((v, vk, vals))
        nums = [v for v, k in kind.items() if k == 'num']
        i = rng.choice(['i', 'j', 'k', 'c'])
        if nums and (not cands or rng.random() < 0.35):
            v = rng.choice(nums)
            cuts = sorted(rng.sample(range(-2, 4), rng.choice([1, 2])))
            ends = [-math.inf] + cuts + [math.inf]
            closed = rng.random() < 0.5      # overlapping ends go to the earlier bin
            vals = [(a, b, a == -math.inf or (not closed and rng.random() < 0), b == math.inf or not closed)
                    for a, b in zip(ends, ends[1:])]
            s0 = ('switch', v, 'bins', (i,), tuple(vals))
            param = None
        elif cands:
            v, vk, vals = rng.choice(cands)
            vals = sorted(vals)
            if vk == 'num':
                vals = [int(x) if x == int(x) else x for x in vals]
            isint = all(isinstance(x, int) for x in vals)
            if isint and rng.random() < 0.4:
                s0 = ('switch', v, 'range', (i,), (min(vals), max(vals) + 1))
                if max(vals) - min(vals) > 6:
                    return None
                param = ('ix', i, 1, 0)
            elif rng.random() < 0.3:
                rng.shuffle(vals)
                s0 = ('switch', v, 'enum', (i, 'z'), tuple(vals))
                param = ('ix', i, 1, 0)
            else:
                rng.shuffle(vals)
                if rng.random() < 0.2:
                    vals = vals + [rng.choice(vals)]          # repeated: the first one counts
                s0 = ('switch', v, 'list', (i,), tuple(vals))
                param = ('ix', i, 1, 0) if isint else ('str', i) if vk == 'nom' else None
        else:
            return None
        self.features.add('switch-' + s0[2])
        body = self.template_body(kind, state, depth, defs, param)
        if body is None:
            return None
        s = s0 + (tuple(body),)
        return s, step(s, state, {})

    def template_body(self, kind, state, depth, defs, param):
        """Statements whose parameters mention the index (when there is one)."""
        rng = self.rng
        body = []
        kind = dict(kind)
        for v, vk in defs:
            d = self.dist(vk, mix=False)
            if param is not None and rng.random() < 0.8:
                if vk == 'nom':
                    if param[0] == 'str' or rng.random() < 0.5:
                        d = ('choice', ((('str', param[1]), 0.5), ('only', 0.5)))
                elif param[0] == 'ix':
                    x = ('ix', param[1], rng.choice([1, 1, 2]), rng.choice([0, 1, -1]))
                    d = rng.choice([('prim', 'norm', (('loc', x), ('scale', rng.choice([0.5, 1, 2])))),
                                    ('prim', 'atomic', (('loc', x),)),
                                    ('prim', 'uniform', (('loc', x), ('scale', 2))),
                                    ('prim', 'randint', (('high', x[:3] + (x[3] + 3,)), ('low', x)))])
            if vk == 'num' and rng.random() < 0.25:
                nums = [u for u, k in kind.items() if k == 'num']
                if nums:
                    x = param if param is not None and param[0] == 'ix' else rng.randint(-2, 2)
                    body.append(('transform', v, ('add', ('rmul', 2, ('var', rng.choice(nums))), x)))
                    kind[v] = vk
                    continue
            if vk == 'num' and len(kind) and rng.random() < 0.2:
                e = self.gen_event(kind0(kind, defs), state, 0, 1.0, widths=(1,))
                if e is not None:
                    d2 = self.dist(vk, mix=False)
                    body.append(('if', ((e, (('sample', v, d),)), (None, (('sample', v, d2),)))))
                    kind[v] = vk
                    continue
            body.append(('sample', v, d))
            kind[v] = vk
        return body

    def loop(self, state):
        """An array and a loop that fills it."""
        rng = self.rng
        self.nfor += 1
        A = 'ABCD'[self.nfor - 1]
        n = rng.choice([1, 2, 2, 3])
        i = rng.choice(['i', 'j', 'k'])
        el = lambda add=0: ('el', A, ('ix', i, 1, add))
        pre, stmts = [], []
        hi = n
        if rng.random() < 0.3:
            pre.append(('const', 'n%d' % self.nfor, n))
            hi = ('cst', 'n%d' % self.nfor, n)
            if rng.random() < 0.3:
                pre = [pre[0], ('const', 'n%d' % self.nfor, n + 1), pre[0]]
                self.features.add('const-again')
        stmts.append(('array', A, hi if rng.random() < 0.5 else n + rng.choice([0, 0, 1])))
        self.features.add('array')
        vk = rng.choice(['num', 'num', 'num', 'nom'])
        style = rng.choice(['indep', 'markov', 'markov', 'test', 'derived', 'plain-parent', 'nested', 'inside', 'switch'])
        length = n
        x = ('ix', i, rng.choice([1, 2]), rng.choice([0, 1, -1]))
        body = []
        if vk == 'nom':
            d0 = ('choice', (('a', 0.25), ('b', 0.75)))
            d1 = ('choice', (('a', 0.5), (('str', i), 0.5)))
        else:
            d0 = self.dist('num')
            d1 = rng.choice([('prim', 'norm', (('loc', x), ('scale', 1))), ('prim', 'atomic', (('loc', x),)), self.dist('num')])
        lo = 0
        if style == 'indep':
            body.append(('sample', el(), d1))
        elif style in ('markov', 'derived'):
            lo = 1
            stmts.append(('sample', ('el', A, 0), d0))
            if vk == 'nom':
                body.append(('if', ((('nom', el(-1), ('a',)), (('sample', el(), d0),)), (None, (('sample', el(), d1),)))))
            elif style == 'derived':
                body.append(('transform', el(), ('add', ('rmul', rng.choice([2, -1, 0.5]), ('var', el(-1))), x)))
            else:
                t = ('cmp', ('var', el(-1)), rng.choice(['<', '>=']), rng.choice([0, 1, x]))
                body.append(('if', ((t, (('sample', el(), d0),)), (None, (('sample', el(), d1),)))))
                if rng.random() < 0.3:
                    body[-1] = ('ifexp', el(), ((t, ('d', d0)), (None, ('d', d1))))
        elif style == 'nested':
            # Two indices.
            j = rng.choice([x for x in ('i', 'j', 'k') if x != i])
            m = rng.choice([1, 2, 2]) if n < 3 else 1
            length = n * m
            stmts[-1] = ('array', A, length)
            at = ('ix2', i, m, j, 1, 0)
            if vk == 'num':
                d1 = rng.choice([('prim', 'norm', (('loc', ('ix2', i, rng.choice([1, 2]), j, rng.choice([1, -1]), 0)), ('scale', 1))),
                                 ('prim', 'norm', (('loc', x), ('scale', 1))), d0])
            inner = [('sample', ('el', A, at), d1)]
            e = self.gen_event(self.kind, state, 0, 1.0, widths=(1,)) if rng.random() < 0.3 else None
            if e is not None:
                inner = [('if', ((e, tuple(inner)), (None, (('sample', ('el', A, at), d0),))))]
            body.append(('for', j, 0, m, tuple(inner)))
            self.features.add('for-nested')
        elif style == 'inside' and self.kind:
            # Loops inside the branches of a conditional.
            e = self.gen_event(self.kind, state, 0, 1.0, widths=(1,))
            if e is None:
                return None
            loops = [('for', rng.choice([i, 'k']), lo, hi, (('sample', None, d),)) for d in (d1, d0)]
            loops = [l[:4] + ((('sample', ('el', A, ('ix', l[1], 1, 0)), reindex(l[4][0][2], i, l[1])),),) for l in loops]
            stmts.append(('if', ((e, (loops[0],)), (None, (loops[1],)))))
            self.features.add('for-inside')
        elif style == 'switch' and self.kind:
            sw = self.switch(self.kind, state, 0, [('%s@' % A, vk)])
            if sw is None or i in sw[0][3]:
                return None
            sw = retarget(sw[0], '%s@' % A, el())
            body.append(sw)
            self.features.add('switch-in-for')
        elif style == 'test' and self.kind:
            e = self.gen_event(self.kind, state, 0, 1.0, widths=(1,))
            if e is None:
                return None
            body.append(('if', ((e, (('sample', el(), d0),)), (None, (('sample', el(), d1),)))))
        else:
            body.append(('sample', el(), d0))
        if style in ('markov', 'indep') and rng.random() < 0.2:
            body.append(('condition', ('cmp', ('var', el()), '<', 3) if vk == 'num' else ('nnom', el(), ('zz',))))
        if body:
            stmts.append(('for', i, lo, hi, tuple(body)))
        self.features.add('for')
        try:
            st = interp(stmts, state)
        except Impossible:
            return None
        for j in range(length):
            self.kind['%s[%d]' % (A, j)] = vk
        self.arrays.append(A)
        return pre, stmts, st

    def program(self):
        """(statements, state)"""
        rng = self.rng
        consts, out = [], []
        state = START()
        n = self.size
        while n > 0:
            r = rng.random()
            if r < 0.25 and self.nfor < 2:
                x = self.loop(state)
                if x:
                    consts += x[0]
                    out += x[1]
                    state = x[2]
                    n -= 1
                    continue
            if r < 0.6 and self.kind:
                k = min(rng.choice([1, 1, 2]), n)
                defs = []
                for _ in range(k):
                    vk = rng.choice(['num', 'num', 'num', 'nom'])
                    defs.append((self.new(vk), vk))
                b = self.branching(self.kind, state, rng.choice([0, 1, 1]), defs)
                if b:
                    out.append(b[0])
                    state = b[1]
                    self.kind.update(dict(defs))
                    n -= k
                    continue
                for v, vk in defs:
                    (self.freshnom if vk == 'nom' else self.fresh).append(v)
            vk = rng.choice(['num', 'num', 'num', 'nom'])
            v = self.new(vk)
            s, state = self.define(self.kind, v, vk, state)
            out.append(s)
            self.kind[v] = vk
            n -= 1
            if rng.random() < 0.2:
                c = self.observe(self.kind, state)
                if c:
                    out.append(c[0])
                    state = c[1]
            if len(state) > LIMIT:
                raise TooMany()
        prog = tuple(consts + out)
        if rng.random() < 0.15:
            old = ['a', 'b', 'c', 'd', 'zz']
            self.sub = dict(zip(old, rng.sample(STRINGS, 5)))
            new = restring(prog, self.sub)
            if new != prog:
                self.features.add('strings')
                prog, state = new, interp(new, START())
        return prog, state

    def query(self, widths=(1, 1, 2, 2, 3)):
        rng = self.rng
        nums = [v for v, k in self.kind.items() if k == 'num']
        noms = [v for v, k in self.kind.items() if k == 'nom']
        while True:
            g = EventGen(rng, nums, noms, rng.choice(['int', 'int', 'float']), depth=rng.choice([0, 0, 1]),
                         transcendental=False, piece=False, ind=False)
            t = g.event(rng.choice(widths))
            if all(models.total_lit(a) for a in terms.atoms(t)):
                return restring(t, self.sub)


def reindex(t, i, j):
    if isinstance(t, tuple):
        if t and t[0] in ('ix', 'str') and t[1] == i:
            return (t[0], j) + t[2:]
        return tuple(reindex(s, i, j) for s in t)
    return t


def retarget(t, name, target):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ('sample', 'transform', 'ifexp') and t[1] == name:
            return (t[0], target, t[2])
        return tuple(retarget(s, name, target) for s in t)
    return t


def restring(t, sub):
    """Replace string values."""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k in ('nom', 'nnom'):
        return (k, t[1], tuple(sub.get(v, v) for v in t[2]))
    if k == 'choice':
        return (k, tuple((sub.get(v, v) if isinstance(v, str) else v, w) for v, w in t[1]))
    if k == 'switch':
        return t[:4] + (tuple(sub.get(v, v) if isinstance(v, str) else v for v in t[4]) if t[2] in ('list', 'enum') else t[4],) \
            + (restring(t[5], sub),)
    if k == 'constrain':
        return (k, tuple((v, sub.get(x, x) if isinstance(x, str) else x) for v, x in t[1]))
    return tuple(restring(s, sub) for s in t)


def kind0(kind, defs):
    d = {v for v, _ in defs}
    return {v: k for v, k in kind.items() if v not in d}


def defined(c, e):
    ee = terms.subst(e, c.derived)
    (v,) = terms.event_vars(('cmp', ee, '<', 0))
    k = c.keys[v]
    if k[0] == 'leaf':
        d = (k[2], k[3])
    elif k[0] == 'const':
        d = ('atom', (('value', k[1]),))
    else:
        return False
    return not isinstance(dict(d[1]).get('value', 0), str) and models.defined_on(d, v, ee)


def variables(stmts, env=None):
    """Names defined by statements that are not inside loops."""
    out = []
    for s in stmts:
        if s[0] in ('sample', 'transform', 'ifexp'):
            out.append(conc(s[1], env or {}))
        elif s[0] == 'if':
            out += variables(s[1][0][1], env)
        elif s[0] == 'switch':
            out += variables(s[5], env)
    return out


def compile(source):
    from sppl.compilers.sppl_to_python import SPPL_Compiler
    return SPPL_Compiler(source).execute_module()
