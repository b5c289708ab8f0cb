"""C16: sampling is reproducible from the supplied generator only.

Samples are drawn twice from equal generators under different global states
(and, in batches, in a process with another hash seed); the global generators
are fingerprinted around every operation."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import mquery
from ..core import CaseEnd, Ctx, rng_for
from ..mquery import S
from .c12 import assignment, sysasg
from .c14 import prepare


def fingerprint():
    s = np.random.get_state()
    return hashlib.sha256(repr((s[0], s[1].tobytes(), s[2:])).encode()).hexdigest()


def shown(out):
    """Exact content of samples (order of the keys ignored)."""
    return [sorted((str(k), str(v), repr(float(v)) if not isinstance(v, str) else v) for k, v in s.items())
            if isinstance(s, dict) else repr(s) for s in out]


def request(rng, M, spe, kind=None, ordered=True):
    names = sorted(str(s) for s in spe.get_symbols())
    kind = kind or rng.choice(['sample', 'subset', 'func'])
    sub = rng.sample(names, rng.randint(1, len(names)))
    N = rng.choice([1, 3, 10, 40])
    b = M.mb.b
    if kind == 'sample':
        return kind, sub, N, lambda *prng: spe.sample(N, *prng)
    if kind == 'subset':
        syms = [b.id(v) for v in sub]
        if not ordered:
            syms = set(syms)
        return kind, sub, N, lambda *prng: spe.sample_subset(syms, N, *prng)
    f = eval('lambda %s: (%s,)' % (', '.join(sub), ', '.join(sub)))
    return kind, sub, N, lambda *prng: spe.sample_func(f, N, *prng)


def scramble(rng):
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))


BATCH = 10


def batch(seed, idx):
    """Samples of a batch of models, as text (run in two processes)."""
    out = []
    for k in range(BATCH):
        ctx = Ctx('C16', 'quick', seed)
        rng = rng_for(seed, 'C16batch', '%d.%d' % (idx, k))
        try:
            M = mquery.M(ctx, rng, dtotal=True, mixed=False)
            spe, evid, R = prepare(ctx, rng, M)
            kind, sub, N, draw = request(rng, M, spe, ordered=False)
            s = rng.randrange(2 ** 31)
            out.append(('%s: %s of %s x %d' % (ctx.case_desc, kind, sub, N), shown(draw(np.random.RandomState(s)))))
        except CaseEnd:
            out.append(('skipped', []))
    return out


def child(seed, idx):
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    np.seterr(all='ignore')
    print(json.dumps(batch(seed, idx)))


def cross(ctx, rng, idx):
    seed = ctx.seed
    outs = []
    for h in ('1', '2'):
        env = dict(os.environ, PYTHONHASHSEED=h)
        r = subprocess.run([sys.executable, '-c', 'from vf.props.c16 import child; child(%d, %d)' % (seed, idx)],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if r.returncode != 0:
            raise RuntimeError(r.stderr[-2000:])
        outs.append(json.loads(r.stdout.strip().splitlines()[-1]))
    for a, b in zip(*outs):
        ctx.desc(a[0])
        if a[0] != b[0]:
            raise RuntimeError('batches differ: %s / %s' % (a[0], b[0]))
        ctx.count('across-processes')
        ctx.check(a[1] == b[1], 'other-process', lambda: 'hash seeds 1 and 2:\n%s\n%s' % (a[1], b[1]))


def case(ctx, rng, idx):
    if idx % 256 < 8 and idx % 8 == (idx // 256) % 8:
        return cross(ctx, rng, idx)
    scramble(rng)
    f0 = fingerprint()

    def pure(what):
        nonlocal f0
        ctx.check(fingerprint() == f0, 'global-state:' + what, lambda: ctx.case_desc)
        ctx.count('op:' + what)
    M = mquery.M(ctx, rng, dtotal=True, mixed=False)
    pure('build')
    spe, evid, R = prepare(ctx, rng, M)
    pure('condition')
    kind, sub, N, draw = request(rng, M, spe)
    desc = '%s: %s of %s x %d' % (ctx.case_desc, kind, sub, N)
    s = rng.randrange(2 ** 31)
    p1, p2 = np.random.RandomState(s), np.random.RandomState(s)
    a = shown(ctx.call('sample', draw, p1))
    pure('sample')
    scramble(rng)
    f0 = fingerprint()
    b = shown(ctx.call('sample', draw, p2))
    pure('sample')
    ctx.check(a == b, 'not-reproducible', lambda: '%s\n%s\n%s' % (desc, a[:5], b[:5]))
    a2, b2 = shown(draw(p1)), shown(draw(p2))
    ctx.check(a2 == b2, 'generator-state', lambda: '%s\n%s\n%s' % (desc, a2[:5], b2[:5]))
    pure('sample')
    # The generator is used: continuous values differ from draw to draw.
    cont = [v for v in sub if all(v in c.bases and c.bases[v].kind == 'cont' for c in R.comps)]
    if cont and kind != 'sample' or kind == 'sample' and any(
            all(c.bases[v].kind == 'cont' for c in R.comps) for v in M.mg.bases):
        ctx.check(a != a2, 'generator-unused', lambda: '%s\n%s' % (desc, a[:5]))
        other = shown(draw(np.random.RandomState(s + 1)))
        ctx.check(a != other, 'generator-unused', lambda: '%s\n%s' % (desc, a[:5]))
        ctx.count('distinct-streams')
    # Without a generator, the global numpy generator decides.
    k = rng.randrange(2 ** 31)
    outs = []
    for _ in range(2):
        random.seed(rng.random())
        np.random.seed(k)
        outs.append(shown(ctx.call('sample', draw)))
    ctx.check(outs[0] == outs[1], 'global-not-reproducible', lambda: '%s\n%s\n%s' % (desc, outs[0][:5], outs[1][:5]))
    # Nothing else consumes randomness.
    scramble(rng)
    f0 = fingerprint()
    t, u = M.eg.sized(widths=(1, 2), maxdnf=3), M.eg.sized(widths=(1,), maxdnf=2)
    E, F = M.ev(t), M.ev(u)
    others(ctx, rng, M, spe, E, F, pure)
    ctx.evaluations += 1
    ctx.seen(desc)


def others(ctx, rng, M, spe, E, F, pure):
    from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
    from sppl.compilers.spe_to_sppl import render_sppl
    from sppl.compilers.sppl_to_python import SPPL_Compiler
    from sppl.magics.render import render_networkx_graph
    from sppl.render import render_nested_lists
    from sppl.spe import Memo, spe_cache_duplicate_subtrees
    ops = [
        ('prob', lambda: spe.prob(E)),
        ('logprob', lambda: spe.logprob(E, Memo())),
        ('condition', lambda: spe.condition(E)),
        ('mutual-information', lambda: spe.mutual_information(E, F)),
        ('density', lambda: spe.logpdf(sysasg(M, assignment(rng, M)))),
        ('constrain', lambda: spe.constrain(sysasg(M, assignment(rng, M)))),
        ('transform', lambda: spe.transform(M.mb.b.id('T9'), M.mb.b.id(M.mg.bases[0]) ** 2)),
        ('to-dict', lambda: spe_from_dict(json.loads(json.dumps(spe_to_dict(spe))))),
        ('render', lambda: render_sppl(spe)),
        ('nested-lists', lambda: render_nested_lists(spe)),
        ('graph', lambda: render_networkx_graph(spe)),
        ('hash', lambda: (hash(spe), spe == M.spe)),
        ('share', lambda: spe_cache_duplicate_subtrees(M.spe, {})),
        ('compile', lambda: SPPL_Compiler('A ~= normal(loc=0, scale=1)\nB ~= A**2\nif A > 0:\n    C ~= choice({"x": .5, "y": .5})\n'
                                          'else:\n    C ~= choice({"x": .1, "y": .9})\ncondition(B < 4)').execute_module()),
    ]
    for what, op in rng.sample(ops, 5):
        try:
            op()
        except Exception:
            pass            # whether it is supported is decided elsewhere
        pure(what)
