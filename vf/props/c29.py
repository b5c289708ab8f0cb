"""C29: notebook sessions always refer to the last definition of a model.

Random sequences of cells (definitions, redefinitions, cells that fail, names
with spaces around them, inspections, drawings, unknown names) run in a real
IPython shell; a table kept next to it says what every name must refer to."""
import contextlib
import io
import os
import sys
import tempfile

from .. import mquery, progs, ref, terms
from ..mquery import S, lp_query
from . import c23, c28
from .c11 import repr_tree

_shells = []


class Writer:
    """Stand-in for the writer of graphs (pygraphviz is not installed)."""

    def __enter__(self):
        import networkx as nx
        import networkx.drawing.nx_agraph
        self.seen = []
        self.nx, self.old = nx, nx.nx_agraph.write_dot

        def writer(G, path):
            self.seen.append(G)
            c28.write_dot(G, path)
        nx.nx_agraph.write_dot = nx.drawing.nx_agraph.write_dot = writer
        self.dir = tempfile.TemporaryDirectory()
        self.tmp, tempfile.tempdir = tempfile.tempdir, self.dir.name
        self.cwd = os.getcwd()
        os.chdir(self.dir.name)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        tempfile.tempdir = self.tmp
        self.nx.nx_agraph.write_dot = self.nx.drawing.nx_agraph.write_dot = self.old
        self.dir.cleanup()


def shells():
    if not _shells:
        os.environ['IPYTHONDIR'] = tempfile.mkdtemp(prefix='vfipy')
        from traitlets.config import Config
        from IPython.core.interactiveshell import InteractiveShell
        c = Config()
        c.HistoryManager.enabled = False
        c.InteractiveShell.colors = 'NoColor'
        for _ in range(2):
            _shells.append(InteractiveShell(config=c))
    return _shells


def finish(ctx):
    import shutil
    d = os.environ.get('IPYTHONDIR', '')
    if os.path.basename(d).startswith('vfipy'):
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


FAILS = ['X ~= norm()\nX ~= norm()', 'X ~= norm(\n', 'condition(Q < 1)', 'X ~= norm()\ncondition(X**2 < 0)', 'X ~= nurm()', 'while True: pass',
         "X ~= choice({'a': 0.5})", 'X ~= norm()\nif X < 0:\n    Y ~= norm()', 'A = array(2)\nA[5] ~= norm()',
         'X ~= norm()\nY ~= 1/0']
NAMES = ['model', 'm', 'model2', 'Model', 'my_model', '_m1', 'command', 'Id', 'norm', 'spe', 'm_2', 'x1']
BADNAMES = ['1m', 'a b', 'a-b', 'lambda', 'm()', 'None']
UNKNOWN = ['nope', 'modell', 'mode', 'MODEL', '', 'X_', 'model 2', 'm;']


class Prog:
    def __init__(self, ctx, rng):
        self.g, stmts, self.state = c23.generate(ctx, rng, size=rng.choice([1, 1, 2, 2, 3]))
        self.src = progs.Src(rng).program(stmts)
        self.ts = [self.g.query() for _ in range(3)]
        self.o = progs.Oracle(ctx, self.state, self.ts)


class Session:
    def __init__(self, ctx, rng, shell, pool, log, no):
        import sppl.magics
        self.ctx, self.rng, self.sh, self.pool, self.log, self.no = ctx, rng, shell, pool, log, no
        with quiet():
            sppl.magics.load_ipython_extension(shell)
        self.table = {}         # name -> program
        self.kept = []          # (user variable, program, tree)
        self.names = rng.sample(NAMES, rng.choice([2, 3, 4]))
        if rng.random() < 0.3:
            # The name of a variable of a program.
            vs = [v for p in pool for v in p.g.kind if '[' not in v]
            if vs:
                self.names[0] = rng.choice(vs)

    def say(self, *xs):
        self.log.append('[%d] %s' % (self.no, ' '.join(map(str, xs))))
        self.ctx.desc('\n'.join(self.log))

    def fail(self, mech, why):
        self.ctx.violation(mech, '%s\n%s' % ('\n'.join(self.log), why))

    def spaced(self, name):
        return self.rng.choice([name, name, name, name + ' ', '  ' + name, name + '\t'])

    def run(self, cell):
        """Run a cell as the notebook does: (error or None, output, errors shown)"""
        with quiet() as (out, err):
            r = self.sh.run_cell(cell)
        return r.error_before_exec or r.error_in_exec, out.getvalue(), err.getvalue()

    def line(self, magic, arg):
        with quiet() as (out, err):
            r = self.sh.run_line_magic(magic, arg)
        return r, out.getvalue()

    def define(self, name, src):
        if self.rng.random() < 0.6:
            return self.run('%%%%sppl %s\n%s' % (self.spaced(name), src))[0]
        try:
            with quiet():
                self.sh.run_cell_magic('sppl', self.spaced(name), src)
        except Exception as e:
            return e
        except SystemExit as e:
            return e
        return None

    # Commands -----------------------------------------------------------------
    def op_define(self):
        name, p = self.rng.choice(self.names), self.rng.choice(self.pool)
        if name in p.g.kind and self.rng.random() < 0.5 or '#' in name:
            return
        self.say('define', name, 'as', p.src)
        e = self.define(name, p.src)
        if e is not None:
            self.fail('definition-failed', repr(e))
        self.ctx.count('redefined' if name in self.table else 'defined')
        self.table[name] = p

    def op_fail(self):
        name = self.rng.choice(self.names)
        bad = self.rng.choice(FAILS)
        if self.rng.random() < 0.25:
            # The reason comes late in a program that is otherwise fine.
            p = self.rng.choice(self.pool)
            bad = p.src.rstrip('\n') + '\n' + self.rng.choice(['condition(Uq < 1)', 'while True:\n    pass', 'condition('])
        if self.rng.random() < 0.2:
            name = self.rng.choice(BADNAMES)
            bad = self.rng.choice(self.pool).src
        self.say('failing definition of', name, 'as', bad)
        e = self.define(name, bad)
        if e is None:
            self.fail('accepted', '')
        self.ctx.count('failing definitions')

    def op_nameless(self):
        p = self.rng.choice(self.pool)
        self.say('definition without a name')
        e, out, err = self.run('%%%%sppl%s\n%s' % (self.rng.choice(['', ' ', '  ']), p.src))
        if e is None and not (out + err).strip():
            self.fail('nameless-definition', 'nothing was reported')
        self.ctx.count('nameless')

    def known(self):
        return self.rng.choice(sorted(self.table)) if self.table else None

    def model(self, name, spe, p, what):
        ctx, rng = self.ctx, self.rng
        if not hasattr(spe, 'logprob'):
            self.fail('%s:not-a-model' % what, repr(spe))
        got = {s.token for s in spe.get_symbols()}
        if got != set(p.g.kind):
            self.fail('%s:variables' % what, '%s has variables %s, should be %s' % (name, sorted(got), sorted(p.g.kind)))
        i = rng.randrange(len(p.ts))
        t = p.ts[i]
        q = lp_query(ctx, rng, spe, ctx.call('build-event', terms.Build().event, t))
        ok, want = p.o.agree(q, lambda key: key[i])
        if not ok:
            self.fail('%s:probability' % what, '%s: P(%s) = %.12g, should be %.12g' % (name, S(t), q, want))
        ctx.evaluations += 1
        if 1e-9 < want < 1 - 1e-9:
            ctx.seen((len(self.log), self.no, what, tuple(self.log[-3:])))

    def op_get(self):
        name = self.known()
        if name is None:
            return
        self.say('get', name)
        if self.rng.random() < 0.5:
            spe = self.ctx.call('get', self.line, 'sppl_get_spe', self.spaced(name))[0]
        else:
            v = 'kept_%d' % len(self.kept)
            e, out, err = self.run('%s = %%sppl_get_spe %s' % (v, name))
            if e is not None:
                self.fail('get-failed', repr(e))
            spe = self.sh.user_ns.get(v)
            if hasattr(spe, 'logprob'):
                self.kept.append((v, self.table[name], repr_tree(spe)))
        self.model(name, spe, self.table[name], 'get')
        self.ctx.count('got')

    def op_kept(self):
        """Models fetched before a redefinition stay what they were."""
        if not self.kept:
            return
        v, p, tree = self.rng.choice(self.kept)
        self.say('look at', v)
        spe = self.sh.user_ns[v]
        if repr_tree(spe) != tree:
            self.fail('kept-model-changed', v)
        self.model(v, spe, p, 'kept')
        self.ctx.count('kept')

    def op_namespace(self):
        name = self.known()
        if name is None:
            return
        self.say('namespace of', name)
        ns = self.ctx.call('namespace', self.line, 'sppl_get_namespace', self.spaced(name))[0]
        p = self.table[name]
        self.model(name, getattr(ns, name), p, 'namespace')
        for v in p.g.kind:
            if '[' not in v and v != name:
                x = getattr(ns, v, None)
                if getattr(x, 'token', None) != v:
                    self.fail('namespace:variable', '%s of %s is %r' % (v, name, x))
            elif '[' in v:
                A, i = v[:-1].split('[')
                if A != name and getattr(getattr(ns, A, {})[int(i)], 'token', None) != v:
                    self.fail('namespace:array', '%s of %s' % (v, name))
        self.ctx.count('namespaces')

    def op_python(self):
        name = self.known()
        if name is None:
            return
        self.say('to Python:', name)
        r, out = self.ctx.call('python', self.line, 'sppl_to_python', self.spaced(name))
        space = {}
        try:
            exec(out, space)
        except Exception as e:
            self.fail('python:does-not-run', '%r\n%s' % (e, out))
        if name not in space:
            self.fail('python:no-model', out)
        self.model(name, space[name], self.table[name], 'python')
        self.ctx.count('translations')

    def op_unknown(self):
        rng = self.rng
        magic = rng.choice(['sppl_get_spe', 'sppl_to_python', 'sppl_get_namespace', 'sppl_to_graph'])
        name = rng.choice(UNKNOWN + [n for n in self.names if n not in self.table] * 3)
        if name.strip() in self.table or magic == 'sppl_to_graph' and name.strip().split() and (
                name.split()[0] in self.table or name.split()[0] in self.sh.user_ns):
            return
        self.say(magic, 'of unknown', repr(name))
        if rng.random() < 0.5:
            e = self.run('%%%s %s' % (magic, name))[0]
            if e is None:
                self.fail('unknown-accepted', '%s %s' % (magic, name))
        else:
            try:
                r, out = self.line(magic, name)
            except Exception:
                pass
            else:
                self.fail('unknown-accepted', '%s %s is %r %s' % (magic, name, r, out))
        self.ctx.count('unknown names')

    def op_graph(self):
        name = self.known()
        p = self.table.get(name)
        if name is None or self.rng.random() < 0.3:
            if not self.kept:
                return
            name, p, _ = self.rng.choice(self.kept)
            if name in self.table:
                return
        elif self.rng.random() < 0.3 and self.kept:
            # A variable of the notebook with the name of a program.
            self.sh.user_ns[name] = self.sh.user_ns[self.kept[0][0]]
        arg = name + self.rng.choice(['', '', ' picture'])
        self.say('graph of', arg)
        with Writer() as w:
            e, out, err = self.run('%%sppl_to_graph %s' % arg)
            files = os.listdir('.')
        if isinstance(e, ImportError):
            self.ctx.count('no writer')
            return
        if e is not None:
            self.fail('graph-failed', repr(e))
        if not w.seen:
            self.ctx.count('no writer')
            return
        if 'picture' in arg and not any(f.startswith('picture') for f in files):
            self.fail('graph:file', files)
        spe = self.line('sppl_get_spe', name)[0] if name in self.table else self.sh.user_ns[name]
        self.model(name, spe, p, 'graph')
        c28.graph(self.ctx, spe, w.seen[-1])
        self.ctx.count('graphs')

    def check_all(self):
        self.say('at the end')
        for name, p in sorted(self.table.items()):
            self.model(name, self.ctx.call('get', self.line, 'sppl_get_spe', name)[0], p, 'end')
        for v, p, tree in self.kept:
            self.model(v, self.sh.user_ns[v], p, 'end-kept')


def case(ctx, rng, idx):
    mquery.config(ctx, rng, 0.95)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)
    pool = [Prog(ctx, rng) for _ in range(rng.choice([2, 3, 3, 4]))]
    log = []
    ss = []
    for no, sh in enumerate(shells()[:rng.choice([1, 1, 2])]):
        for v in [v for v in sh.user_ns if v.startswith('kept_')] + NAMES:
            sh.user_ns.pop(v, None)
        ss.append(Session(ctx, rng, sh, pool, log, no))
    graphs = rng.random() < 0.25
    for _ in range(rng.choice([6, 10, 15, 20])):
        s = rng.choice(ss)
        k = rng.choices(['define', 'fail', 'nameless', 'get', 'kept', 'namespace', 'python', 'unknown', 'graph'],
                        [5, 2, 0.4, 4, 1, 1.5, 1.5, 1, 0.5 if graphs else 0])[0]
        getattr(s, 'op_' + k)()
    for s in ss:
        s.check_all()
        ctx.maxi('names', len(s.table))
    for s in ss:
        for n in s.names:
            s.sh.user_ns.pop(n, None)
    ctx.count('sessions')
    if len(ss) > 1:
        ctx.count('two sessions')
    if rng.random() < 0.05 and len(ctx.samples) < 4:
        ctx.samples.append('\n'.join(log)[:900])
