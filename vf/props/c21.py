"""C21: models survive conversion to JSON and back.

Models of every kind (conditioned, constrained, with derived variables, from
programs, over every distribution offered) are written as JSON text; another
process, with other hash values, reads the text and answers the same queries."""
import json
import math
import os
import select
import subprocess
import sys

from .. import jsonchild, models, mquery, progs, ref, terms
from ..core import CaseSlow
from ..mquery import S
from . import c22, c23, c26
from .c12 import assignment

_child = []


class Child:
    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.p = subprocess.Popen([sys.executable, '-B', '-m', 'vf.jsonchild'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)
        self.served = 0

    def ask(self, req, limit=60):
        self.p.stdin.write((json.dumps(req) + '\n').encode())
        self.p.stdin.flush()
        buf = b''
        fd = self.p.stdout.fileno()
        while not buf.endswith(b'\n'):
            r, _, _ = select.select([fd], [], [], limit)
            if not r:
                self.stop()
                raise CaseSlow()
            d = os.read(fd, 1 << 16)
            if not d:
                self.stop()
                raise RuntimeError('the process ended')
            buf += d
        self.served += 1
        return json.loads(buf)

    def stop(self):
        self.p.kill()
        self.p.wait()
        _child[:] = []


def child(ctx, rng):
    if _child and _child[0].served >= 40:
        _child[0].stop()
    if not _child:
        _child.append(Child(rng.randrange(1, 2 ** 31)))
        ctx.count('processes')
    return _child[0]


def finish(ctx):
    for c in list(_child):
        c.stop()


def numbers_in(x):
    if isinstance(x, float):
        return x
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            return None
    return None


def same(a, b, tol=1e-9):
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1, abs(a))
    return a == b


def send(ctx, rng, desc, spe, req, n=1):
    from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
    d = ctx.call('to-dict', spe_to_dict, spe)
    text = ctx.call('to-json', json.dumps, d)
    ctx.check(json.loads(text) == json.loads(ctx.call('to-json', lambda: json.dumps(spe_to_dict(spe)))), 'not-repeatable', desc)
    ctx.count('bytes', len(text))
    req = dict(req, nosym='SPPL_NO_SYMBOLIC' in os.environ, doc=text)
    want = jsonchild.answers(spe, req)
    for k in range(n):
        r = child(ctx, rng).ask(req)
        if 'failed' in r:
            ctx.violation('not-restored', '%s\n%s\n%s' % (desc, text[:1500], r['failed']))
        got = r['answers']
        for q in sorted(want):
            ctx.evaluations += 1
            # Small probabilities of logarithms far out are compared relatively.
            ok = same(got.get(q), want[q], 1e-7 if 'error' not in str(want[q]) else 0)
            if not ok and all(isinstance(numbers_in(x), float) for x in (got.get(q), want[q])):
                # Equal as probabilities?
                ok = math.isclose(math.exp(min(numbers_in(got[q]), 700)), math.exp(min(numbers_in(want[q]), 700)), rel_tol=1e-7, abs_tol=1e-10) \
                    and 'density' not in q
            ctx.check(ok, 'different:' + q.rstrip('0123456789'), lambda: '%s\n%s\n%s: %r, restored: %r\nqueries %r'
                      % (desc, text[:1500], q, want[q], got.get(q), {a: b for a, b in req.items() if a != 'doc'}))
            if not str(want[q]).startswith('error'):
                ctx.count('answered:' + q.rstrip('0123456789'))
        for q, v in want.items():
            if q.startswith('logprob') and isinstance(v, float) and -20 < v < -1e-9:
                ctx.seen((desc, req['events'][int(q[7:])], k))
        if r.get('again') is None:
            ctx.violation('not-written-again', '%s\n%s\n%s' % (desc, text[:1500], r.get('error')))
        req['doc'] = text = r['again']
        ctx.count('restored')


def random_case(ctx, rng):
    M = c22.random_model(ctx, rng)
    spe, evid, desc = c22.alter(ctx, rng, M, M.show)
    asg = assignment(rng, M)
    if rng.random() < 0.3:
        a = {M.mb.b.id(v): x for v, x in asg.items()}
        try:
            (d, l), _ = M.ref.density(asg, evid)
        except (ref.Ambiguous, ref.TooBig):
            ctx.skip('ambiguous')
        if l > -50:
            spe = ctx.call('constrain', spe.constrain, a)
            desc = '%s @ %r' % (desc, asg)
            ctx.count('constrained')
    derive = None
    nums = [v for v, k, _ in M.mg.schema if k == 'num']
    if nums and rng.random() < 0.4:
        v = rng.choice(nums)
        e = rng.choice([('mul', ('var', v), 2), ('abs', ('add', ('var', v), -1)), ('ipow', ('var', v), 2),
                        ('add', ('mul', ('var', v), ('rat', 1, 3)), 0.1), ('exp', ('var', v)),
                        ('piece', ((('var', v), ('cmp', ('var', v), '<', 0)), (('neg', ('var', v)), ('cmp', ('var', v), '>=', 0))))])
        if rng.random() < 0.5:
            spe = ctx.call('derive', spe.transform, M.mb.b.id('Zq'), M.mb.b.expr(e))
            desc += '; Zq = ' + S(e)
            ctx.count('derived')
        else:
            derive = ['Zq', repr(e)]
    ctx.desc(desc)
    if rng.random() < 0.2:
        from sppl.spe import spe_cache_duplicate_subtrees
        spe = ctx.call('share', spe_cache_duplicate_subtrees, spe, {})
        ctx.count('shared')
    # Events that rounding could decide are left out.
    ts = [M.eg.sized(widths=(1, 1, 2, 3), maxdnf=5) for _ in range(4)]
    M.oracle(ts, evid)
    req = dict(events=[repr(t) for t in ts[1:]], cond=repr(ts[0]), assign=[(v, repr(x)) for v, x in asg.items()],
               constrain=rng.random() < 0.7, derive=derive, seed=rng.randrange(2 ** 31), n=rng.choice([1, 3, 8]),
               subset=rng.sample(M.mg.bases, 1))
    send(ctx, rng, desc, spe, req, rng.choice([1, 1, 2]))


def program_case(ctx, rng):
    mquery.config(ctx, rng, 0.95)
    g, stmts, state = c23.generate(ctx, rng)
    src = progs.Src(rng).program(stmts)
    ctx.desc(src)
    ns = ctx.call('compile', progs.compile, src)
    ts = [g.query() for _ in range(4)]
    progs.Oracle(ctx, state, ts)
    v = rng.choice(sorted(g.kind))
    x = 'a' if g.kind[v] == 'nom' else rng.choice([0, 1, 2, 0.5])
    req = dict(events=[repr(t) for t in ts[1:]], cond=repr(ts[0]), assign=[(v, repr(x))], constrain=True,
               seed=rng.randrange(2 ** 31), n=3, subset=[v])
    send(ctx, rng, src, ns.model, req, rng.choice([1, 2]))
    ctx.count('programs')


def distribution_case(ctx, rng, idx):
    import sppl.distributions as D
    from sppl.spe import AtomicLeaf
    from sppl.transforms import Id
    mquery.config(ctx, rng, 0.95)
    import sympy
    cs, ds = c26.shapes(rng), c26.dshapes(rng)
    names = [n for n in sorted(cs) if n not in c26.SLOW] + sorted(ds) + ['discrete', 'rv_discrete', 'symbolic', 'numpy']
    name = names[idx % len(names)]
    X = Id('X')
    cont = False
    if name in ('discrete', 'rv_discrete'):
        t = c26.table(rng)
        desc = '%s(%r)' % (name, t)
        leaf = X >> (D.discrete({v: float(w) for v, w in t}) if name == 'discrete'
                     else D.rv_discrete(values=([v for v, _ in t], [float(w) for _, w in t])))
    elif name == 'symbolic':
        v = rng.choice([sympy.Rational(1, 3), sympy.sqrt(2), sympy.pi, sympy.Integer(4), sympy.log(3), -sympy.E])
        desc = 'atomic %s' % v
        leaf = AtomicLeaf(X, v)
    else:
        if name == 'numpy':
            import numpy
            kw = rng.choice([dict(loc=numpy.float64(0.5), scale=numpy.float32(2)), dict(loc=numpy.int64(3)),
                             dict(loc=sympy.Rational(1, 3), scale=sympy.sqrt(2))])
            name = 'norm'
        else:
            kw = (cs if name in cs else ds)[name]()
            if rng.random() < 0.5:
                kw['loc'] = rng.choice([-2, 1, 3])
            if name in cs and rng.random() < 0.5:
                kw['scale'] = rng.choice([0.5, 2, 3])
        cont = name in cs
        desc = '%s(%s)' % (name, ', '.join('%s=%r' % i for i in kw.items()))
        leaf = X >> getattr(D, name)(**kw)
    ctx.desc(desc)
    ctx.count('dist:' + name)
    if name in ('discrete', 'rv_discrete', 'symbolic'):
        ts = [rng.choice([-3, 0, 1, 2, 5]) for _ in range(4)]
    else:
        d = leaf.dist
        ts = [float(d.ppf(rng.uniform(0.05, 0.95))) for _ in range(4)]
        ts = [round(t, 3) if cont else int(t) for t in ts]
    ev = lambda a, b: rng.choice([('cmp', ('var', 'X'), rng.choice(['<', '<=', '>', '>=']), a),
                                  ('or', ('cmp', ('var', 'X'), '<', min(a, b) - 1), ('cmp', ('var', 'X'), '>', max(a, b))),
                                  ('in', ('var', 'X'), tuple({a, b})),
                                  ('cmp', ('abs', ('var', 'X')), '<', abs(a))])
    if rng.random() < 0.6:
        E = terms.Build().event(ev(ts[0], ts[1]))
        if leaf.prob(E) > 1e-3:
            leaf = ctx.call('condition', leaf.condition, E)
            desc += ' | %s' % E
            ctx.desc(desc)
    if rng.random() < 0.4:
        e = rng.choice([('mul', ('var', 'X'), 2), ('abs', ('var', 'X')), ('add', ('ipow', ('var', 'X'), 2), ('rat', 1, 3))])
        leaf = ctx.call('derive', leaf.transform, Id('Z'), terms.Build().expr(e))
        desc += '; Z = ' + S(e)
        ctx.desc(desc)
    req = dict(events=[repr(ev(a, b)) for a, b in zip(ts, ts[1:])], cond=repr(ev(ts[2], ts[3])), assign=[('X', repr(ts[3]))],
               constrain=True, derive=['Q', repr(('add', ('var', 'X'), 1))], seed=rng.randrange(2 ** 31), n=2, subset=['X'])
    send(ctx, rng, desc, leaf, req)


def case(ctx, rng, idx):
    k = rng.random()
    if k < 0.55:
        random_case(ctx, rng)
    elif k < 0.7:
        program_case(ctx, rng)
    else:
        distribution_case(ctx, rng, idx)
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(str(ctx.case_desc)[:300])
