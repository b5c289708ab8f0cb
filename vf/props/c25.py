"""C25: ill-formed programs are rejected at translation.

A random well-formed program gets one ill-formed statement (or loses something
it needs) at a point that execution reaches; it must be rejected."""
import os

from .. import mquery, progs, ref
from ..progs import conc, given, mass, step, value_event, switch_values
from .c23 import generate

FRESH = 'F9'


def choose(rng, xs):
    return rng.choice(xs) if xs else None


class Point:
    """A place in a program: what is defined there, and the state."""

    def __init__(self, g, state, env, path):
        self.g, self.state, self.env, self.path = g, state, env, path
        comps = [p.comp for p in state]
        names = set(comps[0].bases) | set(comps[0].derived)
        for c in comps:
            names &= set(c.bases) | set(c.derived)
        self.kind = {v: k for v, k in g.kind.items() if v in names}
        for c in comps[:1]:
            for v in names:
                if v not in self.kind and v in c.bases:
                    self.kind[v] = 'nom' if c.bases[v].kind == 'nom' else 'num'
        self.nums = sorted(v for v, k in self.kind.items() if k == 'num')
        self.noms = sorted(v for v, k in self.kind.items() if k == 'nom')
        self.inside = [p[0] for p in path]


def points(g, stmts, state, env, path, out):
    """All the places reached by execution (with probability above 1e-3)."""
    for i, s in enumerate(list(stmts) + [None]):
        if state[0].comp.bases:
            out.append((path + (('at', i),), Point(g, state, env, path)))
        if s is None:
            break
        total = mass(state)
        k = s[0]
        if k == 'if':
            evs = progs.fresh_events([conc(e, env) for e, _ in s[1]])
            for b, e in enumerate(evs):
                sub = given(state, e)
                if sub and mass(sub) > 1e-3 * total:
                    points(g, s[1][b][1], sub, env, path + (('if', i, b),), out)
        elif k == 'for':
            lo, hi = conc(s[2], env), conc(s[3], env)
            if lo < hi:
                points(g, s[4], state, dict(env, **{s[1]: lo}), path + (('for', i),), out)
        elif k == 'switch':
            vals = switch_values(s, env)
            evs = progs.fresh_events([value_event(conc(s[1], env), v) for v in vals])
            for j, e in enumerate(evs):
                sub = given(state, e)
                if sub and mass(sub) > 1e-3 * total:
                    e2 = dict(env, **({s[3][0]: j, s[3][1]: vals[j]} if s[2] == 'enum' else {s[3][0]: vals[j]}))
                    points(g, s[5], sub, e2, path + (('switch', i),), out)
                    break
        state = step(s, state, env)
        if len(state) > progs.LIMIT:
            raise progs.TooMany()
    return out


def edit(stmts, path, f):
    """The program with f applied to the block that the path leads to."""
    head, rest = path[0], path[1:]
    stmts = list(stmts)
    if head[0] == 'at':
        return tuple(f(stmts, head[1]))
    i = head[1]
    s = stmts[i]
    if head[0] == 'if':
        parts = list(s[1])
        e, b = parts[head[2]]
        parts[head[2]] = (e, edit(b, rest, f))
        stmts[i] = ('if', tuple(parts))
    elif head[0] == 'for':
        stmts[i] = s[:4] + (edit(s[4], rest, f),)
    else:
        stmts[i] = s[:5] + (edit(s[5], rest, f),)
    return tuple(stmts)


D = ['norm()', 'uniform(loc=0, scale=2)', 'poisson(mu=2)', "choice({'a': 0.5, 'b': 0.5})", '0.5*norm() | 0.5*atomic(loc=3)', 'atomic(loc=1)']

UNSUPPORTED = [
    'while True:\n    %(f)s ~= norm()', 'while %(x)s < 1:\n    pass', '%(x)s += 1', '%(x)s -= 1', '%(f)s: float = 2',
    'def fun():\n    return 1', 'class C:\n    pass', 'with open("x"):\n    pass', 'assert %(x)s < 1', 'del %(x)s',
    'try:\n    pass\nexcept Exception:\n    pass', 'raise ValueError()', '%(x)s', '%(x)s < 1', '(%(x)s < 1) & (%(x)s > 0)', '[condition(%(x)s < 1)]',
    'print(%(x)s)', 'conditon(%(x)s < 1)', 'observe(%(x)s < 1)', 'sample(%(x)s)', 'condition', 'lambda: 1', 'return %(x)s', 'break', 'continue',
    'global q', '%(f)s, F8 = norm(), norm()', '%(f)s = F8 = norm()', '%(f)s ~= norm() + norm()', '%(f)s ~= norm() + 1', '%(f)s ~= 2*norm()',
    '%(f)s ~= norm() if True', '%(f)s ~= nurm()', '%(f)s ~= norm(0, 1)', '%(f)s ~= norm(loc=%(x)s)', '%(f)s ~= norm', '%(f)s ~= choice({1: 0.5, 2: 0.5})',
    "%(f)s ~= choice({'a': 0.5, 'b': 0.4})", "%(f)s ~= choice({'a': 1.5, 'b': -0.5})", '%(f)s ~= 0.3*norm() | 0.6*poisson(mu=1)',
    '%(f)s ~= 0.6*norm() | 0.6*poisson(mu=1)', '%(f)s ~= 0.5*norm() & 0.5*norm()', '%(f)s ~= [norm(), norm()]', '%(f)s ~= discrete({1: 0.5, 2: 0.6})',
    '%(f)s ~= (norm(),)', 'for %(i)s in range(2):\n    %(f)s ~= norm()', 'for %(i)s in [0, 1]:\n    pass',
    'for %(i)s in enumerate([1, 2]):\n    pass', 'for %(i)s in range(0, 4, 2):\n    pass', 'for %(i)s in range(2):\n    pass\nelse:\n    condition(%(x)s < 1000)',
    'for a, b in range(2):\n    condition(%(x)s < 1000)', 'switch (%(x)s) cases (%(i)s):\n    pass',
    'switch (%(x)s):\n    pass', 'condition()', 'condition(%(x)s)', 'condition(%(x)s + 1)', 'condition(1)', 'condition(%(x)s < 1000, %(x)s > -1000)',
    'condition("a")', 'condition(%(x)s = 1)', 'constrain(%(x)s < 1)', 'constrain()', 'constrain({"%(x)s": 1})',
    '%(f)s ~= %(x)s + "a"', '%(f)s ~= abs()', '%(x)s[0] ~= norm()', '%(x)s.y ~= norm()', 'import', '%(f)s ~=', '~= norm()', '%(f)s ~= norm(',
    'if %(x)s:\n    %(f)s ~= norm()\nelse:\n    %(f)s ~= norm()', 'if %(x)s + 1:\n    %(f)s ~= norm()\nelse:\n    %(f)s ~= norm()',
    'if %(x)s is 1:\n    %(f)s ~= norm()\nelse:\n    %(f)s ~= poisson(mu=1)', 'for %(i)s in range(2):\n    arr9 = array(2)',
    'async def f():\n    pass', 'nonlocal q', '%(f)s ~= (yield)', '%(f)s ~= norm() or poisson(mu=1)', '%(f)s ~= not norm()',
    '%(f)s ~= norm() < 1', '(%(f)s := 3)', '%(f)s ~= %(x)s and %(x)s', '%(f)s ~= lambda: %(x)s',
]


def mutations(ctx, rng, g, P):
    """[(kind, statements to insert)]"""
    raw = lambda t: [('raw', t)]
    plain = [v for v in P.kind if '[' not in v]
    any_ = choose(rng, P.nums + P.noms)
    x = choose(rng, P.nums)
    n = choose(rng, P.noms)
    d = lambda: rng.choice(D)
    out = []
    v = choose(rng, sorted(P.kind))
    out.append(('redefined', raw('%s ~= %s' % (v, d()))))
    if x:
        y = rng.choice(P.nums)
        out.append(('redefined-derived', raw('%s ~= %s + 1' % (v, y))))
        out.append(('redefined-derived', raw('%s = 2*%s' % (x, x))))
    out.append(('redefined-ifexp', raw('%s ~= %s if %s < 1 else %s' % (v, d(), x or v, d()))))
    out.append(('redefined-array', raw('%s = array(3)' % rng.choice(plain))) if plain else
               ('undeclared-array', raw('Uq[0] ~= %s' % d())))
    if g.arrays:
        A = rng.choice(g.arrays)
        if any(u.startswith(A + '[') for u in P.kind):
            out.append(('array-as-variable', raw('%s ~= %s' % (A, d()))))
            out.append(('array-twice', raw('%s = array(2)' % A)))
            out.append(('array-index', raw('%s[50] ~= %s' % (A, d()))))
            out.append(('array-index', raw("%s['a'] ~= %s" % (A, d()))))
    out.append(('undeclared-array', raw('Uq[0] ~= %s' % d())))
    out.append(('undeclared-array', raw('for i9 in range(2):\n    Uq[i9] ~= %s' % d())))
    if plain:
        out.append(('not-an-array', raw('%s[1] ~= %s' % (rng.choice(plain), d()))))
    out.append(('undeclared', raw('condition(Uq < 1)')))
    out.append(('undeclared', raw("condition(Uq == 'a')")))
    out.append(('undeclared', raw("condition((Uq < 0) | (%s))" % ('%s < 1000' % x if x else "%s != 'nope'" % n))))
    out.append(('undeclared', raw('%s ~= Uq + 1' % FRESH)))
    out.append(('undeclared', raw('constrain({Uq: 1})')))
    out.append(('undeclared', raw('if Uq < 1:\n    %s ~= norm()\nelse:\n    %s ~= norm()' % (FRESH, FRESH))))
    out.append(('undeclared', raw('switch (Uq) cases (k9 in [0, 1]):\n    %s ~= norm()' % FRESH)))
    # Used before its definition.
    later = [u for u in g.kind if u not in P.kind and '[' not in u]
    if later:
        u = rng.choice(later)
        test = '%s < 1' % u if g.kind[u] == 'num' else "%s == 'a'" % u
        out.append(('too-early', raw('condition(%s)' % test)))
        out.append(('too-early', raw('if %s:\n    %s ~= norm()\nelse:\n    %s ~= norm()' % (test, FRESH, FRESH))))
        if g.kind[u] == 'num':
            out.append(('too-early', raw('%s ~= 2*%s' % (FRESH, u))))
    # Impossible evidence.
    if x:
        out.append(('impossible', raw('condition((%s < 0) & (%s > 1))' % (x, x))))
        out.append(('impossible', raw('condition(%s**2 < 0)' % x)))
        out.append(('impossible', raw("condition(abs(%s) == 0.3137123)" % x)))
        out.append(('impossible', raw("condition(not (%s < 1) and %s < 0)" % (x, x))))
        out.append(('impossible', raw("condition(2 < %s < 1)" % x)))
        out.append(('not-an-event', raw('condition(%s)' % x)))
    if n:
        out.append(('impossible', raw("condition(%s == 'nope')" % n)))
        out.append(('impossible', raw("condition((%s in {'nope', 'none'}) & (%s != 'zz'))" % (n, n))))
        bases = all(n in p.comp.bases for p in P.state)
        if bases:
            out.append(('impossible-constrain', raw("constrain({%s: 'nope'})" % n)))
    if x and all(x in p.comp.bases for p in P.state):
        out.append(('impossible-constrain', raw("constrain({%s: 'nope'})" % x)))
        out.append(('impossible-constrain', raw("constrain({%s: float('inf')})" % x)))
    # Conditionals.
    e = g.gen_event(P.kind, P.state, 1e-3, 0.99, widths=(1, 1, 2))
    S = lambda v: ('sample', v, g.dist(rng.choice(['num', 'nom']), mix=False))
    sub = given(P.state, e) if e is not None else None
    if e is not None and 'for' not in P.inside and mass(sub) > 1e-3 * mass(P.state):
        out.append(('no-alternative', [('if', ((e, (S(FRESH),)),))]))
        out.append(('no-cover', [('if', ((e, (S(FRESH),)), (e, (S(FRESH),))))]))
        out.append(('no-cover', [('if', ((('and', e, e), (S(FRESH),)), (e, (S(FRESH),)), (('and', e, e), (S(FRESH),))))]))
        F = FRESH
        for a, b in [((F,), ('F8',)), ((F, 'F8'), (F,)), ((F,), (F, 'F8')), ((F,), ()), ((), (F,))]:
            body = lambda vs: tuple(map(S, vs)) or (('raw', 'pass'),)
            out.append(('different-variables', [('if', ((e, body(a)), (None, body(b))))]))
            if rng.random() < 0.5:
                e1 = ('and', e, ('cmp', ('var', x), '<', 1000)) if x else e
                out.append(('different-variables', [('if', ((e1, body(a)), (('not', e1), body(b)), (None, body(a))))]))
        # A branch that redefines a variable.
        out.append(('redefined-in-branch', [('if', ((e, (S(FRESH),)), (None, (S(v),))))]))
        out.append(('redefined-in-branch', [('if', ((e, (S(v),)), (None, (S(v),))))]))
        out.append(('redefined-in-branch', [('if', ((e, (S(FRESH),)), (None, (S(FRESH), S(v)))))]))
        if 'switch' not in P.inside and rng.random() < 0.5:
            out.append(('impossible-in-branch', [('if', ((e, (S(FRESH), ('condition', ('not', e)))), (None, (S(FRESH),))))]))
            out.append(('impossible-in-branch', [('if', ((e, (S(FRESH),)), (None, (('condition', e), S(FRESH)))))]))
    # Switches that leave out a value.
    for u in sorted(P.kind):
        if 'for' in P.inside or not all(u in p.comp.bases and p.comp.bases[u].kind in ('disc', 'nom') for p in P.state):
            continue
        vals = set()
        for p in P.state:
            vals |= set(p.comp.bases[u].data)
        if not 2 <= len(vals) <= 6:
            continue
        vals = sorted(vals)
        rng.shuffle(vals)
        left = vals.pop()
        sub = given(P.state, value_event(u, left))
        if not sub or mass(sub) < 1e-4 * mass(P.state):
            continue
        vals = [int(z) if not isinstance(z, str) and z == int(z) else z for z in vals]
        out.append(('switch-no-cover', [('switch', u, rng.choice(['list', 'enum']), ('k9', 'z9'), tuple(vals), (S(FRESH),))]))
        if out[-1][1][0][2] == 'list':
            s = out[-1][1][0]
            out[-1] = (out[-1][0], [s[:3] + (('k9',),) + s[4:]])
    if x and 'for' not in P.inside:
        e = ('rng', ('var', x), 0, '<', 1, '<=')
        sub = given(P.state, e)
        if sub and mass(sub) > 1e-4 * mass(P.state):
            inf = float('inf')
            out.append(('switch-no-cover', [('switch', x, 'bins', ('k9',), ((-inf, 0, True, False), (1, inf, True, True)), (S(FRESH),))]))
    # Constructs that are not in the language.
    for t in rng.sample(UNSUPPORTED, 8):
        if '%(x)s' in t and not x:
            continue
        if 'Assign' in t:
            continue
        if 'F8' in t and False:
            continue
        y = x if '[0]' not in t and '.y' not in t else choose(rng, [u for u in P.nums if '[' not in u])
        if y is None:
            continue
        t = t % dict(x=y or 'X', f=FRESH, i='i9')
        out.append(('unsupported', raw(t)))
    # Constants are only for the beginning.
    out.append(('late-constant', raw('c9 = 3')))
    return out


def case(ctx, rng, idx):
    mquery.config(ctx, rng, 0.95)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    if rng.random() < 0.2:
        os.environ['SPPL_NO_SIMPLIFY'] = '1'
    g, stmts, state = generate(ctx, rng, size=rng.choice([1, 2, 2, 3, 4]))
    try:
        pts = points(g, stmts, progs.START(), {}, (), [])
    except (progs.TooMany, progs.Impossible, ref.TooBig, ref.Ambiguous):
        ctx.skip('no points')
    if rng.random() < 0.1:
        src = progs.Src(rng).program(stmts)
        ctx.desc(src)
        ctx.call('compile', lambda: progs.compile(src).model)
        ctx.count('accepted')
    for _ in range(3):
        inner = [p for p in pts if len(p[0]) > 1]
        path, P = rng.choice(inner) if inner and rng.random() < 0.5 else rng.choice(pts)
        if not P.kind:
            continue
        try:
            muts = mutations(ctx, rng, g, P)
        except (ref.TooBig, ref.Ambiguous):
            continue
        kinds = sorted({k for k, _ in muts})
        for kind in rng.sample(kinds, min(5, len(kinds))):
            new = rng.choice([m for k, m in muts if k == kind])
            prog = edit(stmts, path, lambda b, i: b[:i] + list(new) + b[i:])
            src = progs.Src(rng).program(prog)
            ctx.desc('%s:\n%s' % (kind, src))
            ctx.rejects(kind, lambda: progs.compile(src).model, lambda: src)
            ctx.evaluations += 1
            ctx.count('rejected:' + kind)
            ctx.count('in:' + (P.inside[-1] if P.inside else 'top'))
            ctx.seen((kind, src))
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(ctx.case_desc[:900])
