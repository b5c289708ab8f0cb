"""C28: rendered views show exactly the model structure.

Nested lists and graphs rendered for random models (shared subtrees, deep
nesting, conditioned, derived variables, programs) are compared node by node
with a walk over the model; renderings are made at once, from several threads,
and under clocks that stand still."""
import contextlib
import io
import math
import os
import re
import sys
import tempfile
import threading
import time

from .. import models, mquery, progs, terms
from ..gen_terms import Gen
from ..mquery import S
from . import c22, c23


def kind(spe):
    from sppl.spe import AtomicLeaf, NominalLeaf, ProductSPE, RealLeaf, SumSPE
    for n, t in (('sum', SumSPE), ('product', ProductSPE), ('nominal', NominalLeaf), ('atomic', AtomicLeaf), ('real', RealLeaf)):
        if isinstance(spe, t):
            return n
    raise AssertionError(spe)


def derived(spe):
    return [(k, v) for k, v in spe.env.items() if k != spe.symbol]


def nodes(spe):
    if kind(spe) in ('sum', 'product'):
        return 1 + sum(map(nodes, spe.children))
    return 1 + len(derived(spe))


def params(spe):
    return (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)


# Nested lists --------------------------------------------------------------------

def nested(ctx, spe, r, at):
    """The nested list r shows the node spe."""
    k = kind(spe)

    def bad(what, got, want):
        ctx.violation('lists:' + what, '%s\nat %s: %s is %r, should be %r' % (ctx.case_desc, at, what, got, want))

    def eq(what, got, want):
        if not (got == want):
            bad(what, got, want)
    if not (isinstance(r, list) and len(r) == 2 and isinstance(r[0], str)):
        bad('form', r, 'a name and fields')
    names = {'sum': ('SumSPE', 'ExposedSumSPE'), 'product': ('ProductSPE',), 'nominal': ('NominalLeaf',), 'atomic': ('AtomicLeaf',),
             'real': ('RealLeaf', 'ContinuousLeaf', 'DiscreteLeaf')}[k]
    if r[0] not in names:
        bad('kind', r[0], names[0])
    f = dict((a, b) for a, b in r[1])
    ctx.evaluations += 1
    if k in ('sum', 'product'):
        eq('variables', sorted(map(str, f['symbols'])), sorted(map(str, spe.get_symbols())))
        eq('n_children', f['n_children'], len(spe.children))
        eq('number of children', len(f['children']), len(spe.children))
        if k == 'sum':
            ws = [math.exp(w) for w in spe.weights]
            if len(f['weights']) != len(ws) or any(abs(a - b) > 1e-12 for a, b in zip(f['weights'], ws)):
                bad('weights', f['weights'], ws)
        return 1 + sum(nested(ctx, c, x, at + '/%d' % i) for i, (c, x) in enumerate(zip(spe.children, f['children'])))
    eq('symbol', f['symbol'], spe.symbol)
    eq('derived variables', {str(a): repr(b) for a, b in f['env'].items()} if 'env' in f else None,
       {str(a): repr(b) for a, b in spe.env.items()})
    if k == 'nominal':
        want = {str(x): float(w) for x, w in spe.dist.items()}
        eq('dist', {str(x): float(w) for x, w in f['dist'].items()}, want)
    elif k == 'atomic':
        eq('value', f['value'], spe.value)
    else:
        eq('dist', tuple(f['dist']), params(spe))
        eq('support', f['support'], spe.support)
        eq('conditioned', bool(f['conditioned']), bool(spe.conditioned))
    return 1 + len(f['env']) - 1


def concise(ctx, spe, r, at):
    k = kind(spe)

    def eq(what, got, want):
        ctx.check(got == want, 'concise:' + what, lambda: '%s\nat %s: %s is %r, should be %r' % (ctx.case_desc, at, what, got, want))
    ctx.evaluations += 1
    if k in ('sum', 'product'):
        eq('kind', r[0][0], {'sum': '+', 'product': '*'}[k])
        eq('count', re.findall(r'\d+', r[0]), [str(len(spe.children))])
        eq('number of children', len(r[1]), len(spe.children))
        for i, (c, x) in enumerate(zip(spe.children, r[1])):
            concise(ctx, c, x, at + '/%d' % i)
        return
    eq('variables', [tuple(p) for p in r], [(str(a), str(b)) for a, b in spe.env.items()])


# Graphs -----------------------------------------------------------------------------

def graph(ctx, spe, G, mech='graph'):
    import networkx as nx
    n, m = nodes(spe), G.number_of_nodes()
    ctx.check(m == n, mech + ':nodes', lambda: '%s\n%d nodes, should be %d' % (ctx.case_desc, m, n))
    ctx.check(G.number_of_edges() == n - 1, mech + ':edges', lambda: '%s\n%d edges, should be %d' % (ctx.case_desc, G.number_of_edges(), n - 1))
    ctx.check(nx.is_arborescence(G) if n > 1 else True, mech + ':tree', lambda: '%s\n%s' % (ctx.case_desc, list(G.edges.data())))
    (root,) = [v for v in G.nodes if G.in_degree(v) == 0]
    ctx.maxi('nodes', n)
    why = []

    def label(v):
        return str(G.nodes[v].get('label'))

    def leaf_ok(s, v):
        lines = label(v).split('\n')
        if lines[0].strip() != s.symbol.token:
            return 'leaf label %r, should be of %s' % (label(v), s.symbol.token)
        rest = '\n'.join(lines[1:])
        k = kind(s)
        if k == 'nominal':
            return None if 'nominal' in rest.lower() else 'leaf label %r of a string variable' % label(v)
        if k == 'atomic':
            return None if 'atomic' in rest.lower() and str(s.value) in rest else 'leaf label %r, value %s' % (label(v), s.value)
        if not rest.startswith(s.dist.dist.name):
            return 'leaf label %r, distribution %s' % (label(v), s.dist.dist.name)
        shown = rest[len(s.dist.dist.name):]
        for p in s.dist.kwds.values():
            if str(p) not in shown:
                return 'leaf label %r without the parameter %s' % (label(v), p)
        if not s.dist.kwds and re.search(r'\d', shown):
            return 'leaf label %r, no parameters' % label(v)
        return None

    def match(s, v):
        """None if the tree below v shows s, or what is wrong."""
        ctx.evaluations += 1
        out = list(G.successors(v))
        k = kind(s)
        if k not in ('sum', 'product'):
            w = leaf_ok(s, v)
            if w:
                return w
            ds = derived(s)
            if len(out) != len(ds):
                return '%d derived variables at %r, should be %d' % (len(out), label(v), len(ds))
            got = sorted((str(G.edges[v, u].get('label')).strip(), label(u)) for u in out)
            want = sorted((str(a), str(b)) for a, b in ds)
            if got != want:
                return 'derived variables %r, should be %r' % (got, want)
            return None
        if label(v) != {'sum': '\N{PLUS SIGN}', 'product': '\N{MULTIPLICATION SIGN}'}[k]:
            return 'label %r of a %s' % (label(v), k)
        if len(out) != len(s.children):
            return '%d children, should be %d' % (len(out), len(s.children))
        if k == 'sum':
            # Edge weights are shown with three digits.
            for u in out:
                if not re.match(r'^\s*\d+(\.\d+)?(e-?\d+)?\s*$', str(G.edges[v, u].get('label'))):
                    return 'edge label %r' % (G.edges[v, u].get('label'),)
        # Children in some order: first as listed, else any assignment.
        left = list(out)
        for i, c in enumerate(s.children):
            found, why = None, None
            for u in left:
                if k == 'sum' and abs(float(G.edges[v, u]['label']) - math.exp(s.weights[i])) > 5.01e-4:
                    why = why or 'no edge with the weight %.4f of a component' % math.exp(s.weights[i])
                    continue
                w = match(c, u)
                if w is None:
                    found = u
                    break
                why = w
            if found is None:
                return why
            left.remove(found)
        return None
    if len(list(G.nodes)) < 400:
        w = match(spe, root)
        ctx.check(w is None, mech + ':structure', lambda: '%s\n%s\n%s\n%s' % (ctx.case_desc, w, dict(G.nodes.data('label')), list(G.edges.data('label'))))


@contextlib.contextmanager
def frozen(rng):
    """Clocks that stand still, or run backwards, while rendering."""
    k = rng.randrange(3)
    names = ['time', 'time_ns', 'perf_counter', 'monotonic', 'perf_counter_ns', 'monotonic_ns']
    old = {n: getattr(time, n) for n in names}
    t = [1000]

    def back():
        t[0] -= 1
        return t[0]
    try:
        for n in names:
            setattr(time, n, (lambda: 1234567890) if k == 0 else back if k == 1 else old[n])
        yield k
    finally:
        for n in names:
            setattr(time, n, old[n])


def deep(ctx, rng):
    """A deep model built from alternating mixtures and products."""
    from sppl.distributions import atomic, norm, choice
    from sppl.spe import ProductSPE, SumSPE
    from sppl.transforms import Id
    d = rng.choice([5, 10, 20, 35])
    X = Id('X')
    spe = X >> norm(loc=rng.randint(0, 3))
    vs = [X]
    for i in range(d):
        v = Id('V%d' % i)
        leaf = v >> rng.choice([norm(), atomic(loc=i), choice({'a': 0.25, 'b': 0.75})])
        parts = [spe, leaf]
        rng.shuffle(parts)
        spe = ProductSPE(parts)
        vs.append(v)
        other = ProductSPE([u >> norm(loc=i) for u in vs])
        w = rng.choice([0.5, 0.25, 0.1])
        parts = [(spe, math.log(w)), (other, math.log(1 - w))]
        rng.shuffle(parts)
        spe = SumSPE([p for p, _ in parts], [x for _, x in parts])
    ctx.desc('deep model of depth %d' % d)
    ctx.count('deep')
    return spe


def model(ctx, rng):
    r = rng.random()
    if r < 0.08:
        return deep(ctx, rng)
    if r < 0.25:
        mquery.config(ctx, rng, 0.95)
        g, stmts, state = c23.generate(ctx, rng)
        src = progs.Src(rng).program(stmts)
        ctx.desc(src)
        ctx.count('programs')
        return ctx.call('compile', progs.compile, src).model
    M = c22.random_model(ctx, rng)
    spe, evid, desc = c22.alter(ctx, rng, M, M.show)
    if rng.random() < 0.3:
        v = rng.choice([v for v, k, _ in M.mg.schema])
        if any(k == 'num' and u == v for u, k, _ in M.mg.schema):
            e = Gen(rng, 'int').expr(('var', v), 1)
            try:
                spe = spe.transform(M.mb.b.id('Zq'), M.mb.b.expr(e))
                desc += '; Zq = ' + S(e)
                ctx.count('derived')
            except Exception:
                pass
    if rng.random() < 0.3:
        from sppl.spe import spe_cache_duplicate_subtrees
        spe = ctx.call('share', spe_cache_duplicate_subtrees, spe, {})
        ctx.count('shared')
    ctx.desc(desc)
    return spe


def write_dot(G, path):
    """Stand-in for the writer of pygraphviz, which is not installed."""
    q = lambda x: '"%s"' % str(x).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
    with open(path, 'w') as f:
        f.write('digraph {\n')
        for v, d in G.nodes.data():
            f.write('%s [label=%s];\n' % (q(v), q(d.get('label', ''))))
        for a, b, d in G.edges.data():
            f.write('%s -> %s [label=%s];\n' % (q(a), q(b), q(d.get('label', ''))))
        f.write('}\n')


def drawing(ctx, rng, spe):
    """The whole pipeline, into a scratch directory."""
    import networkx as nx
    import networkx.drawing.nx_agraph
    import sppl.magics.render as R
    seen = []

    def writer(G, path):
        seen.append(G)
        write_dot(G, path)
    old = nx.nx_agraph.write_dot
    with tempfile.TemporaryDirectory() as d:
        tmp, tempfile.tempdir = tempfile.tempdir, d
        nx.nx_agraph.write_dot = nx.drawing.nx_agraph.write_dot = writer
        try:
            name = os.path.join(d, 'out') if rng.random() < 0.5 else None
            ext = rng.choice([None, 'png', 'pdf'])
            try:
                src = R.render_graphviz(spe, filename=name, ext=ext)
            except ImportError:
                ctx.count('no writer')
                return
            except Exception as e:
                ctx.violation('exception:drawing:%s' % type(e).__name__, '%s\n%s' % (ctx.case_desc, e))
            if not seen:
                ctx.count('no writer')
                return
            if name:
                files = [f for f in os.listdir(d) if f.endswith('.' + (ext or 'png'))]
                ctx.check(len(files) == 1 and os.path.getsize(os.path.join(d, files[0])) > 100, 'drawing:file', lambda: '%s\n%s' % (ctx.case_desc, os.listdir(d)))
            ctx.check(len(re.findall(r'\[label=', src.source)) == 2 * nodes(spe) - 1, 'drawing:source',
                      lambda: '%s\n%s' % (ctx.case_desc, src.source[:1500]))
            ctx.check(not isinstance(src, str), 'drawing:type', '')
            graph(ctx, spe, seen[-1], 'drawing')
            ctx.count('drawings')
        finally:
            tempfile.tempdir = tmp
            nx.nx_agraph.write_dot = nx.drawing.nx_agraph.write_dot = old


def case(ctx, rng, idx):
    import networkx as nx
    from sppl.magics.render import render_networkx_graph
    from sppl.render import render_nested_lists, render_nested_lists_concise
    spe = model(ctx, rng)
    before = nodes(spe)
    with frozen(rng):
        L = ctx.call('lists', render_nested_lists, spe)
        C = ctx.call('concise', render_nested_lists_concise, spe)
        G = ctx.call('graph', render_networkx_graph, spe)
    n = nested(ctx, spe, L, '')
    ctx.check(n == before, 'lists:nodes', lambda: '%s\n%d nodes, should be %d' % (ctx.case_desc, n, before))
    concise(ctx, spe, C, '')
    graph(ctx, spe, G)
    ctx.count('rendered')
    if rng.random() < 0.2:
        # The same and other models, from several threads at once.
        old = sys.getswitchinterval() if hasattr(sys, 'getswitchinterval') else None
        out = [[], [], [], []]
        sub = [spe] + list(getattr(spe, 'children', ()))

        def run(i):
            try:
                for j in range(4):
                    s = sub[(i * j) % len(sub)]
                    out[i].append((s, render_networkx_graph(s), render_nested_lists(s)))
            except Exception as e:
                out[i].append(e)
        try:
            if old:
                sys.setswitchinterval(1e-5)
            ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            if old:
                sys.setswitchinterval(old)
        for o in out:
            for x in o:
                ctx.check(not isinstance(x, Exception), 'exception:thread', lambda: '%s\n%r' % (ctx.case_desc, x))
                graph(ctx, x[0], x[1], 'threads')
                nested(ctx, x[0], x[2], '')
        ctx.count('threads')
    if rng.random() < 0.06 and before < 60:
        drawing(ctx, rng, spe)
    if before > 1:
        ctx.seen((ctx.case_desc,))
    if rng.random() < 0.02 and len(ctx.samples) < 6:
        ctx.samples.append(str(ctx.case_desc)[:300])
