"""Answers queries on models; run as a separate process, it only knows the JSON
text of the model."""
import json
import math
import os
import sys


def answers(spe, req):
    """Answers to the queries of a request (plain JSON data); an operation that
    fails is answered by the name of the error."""
    import numpy
    from vf import terms
    from sppl.transforms import Id
    b = terms.Build()
    out = {}

    def ask(name, f):
        try:
            out[name] = f()
        except Exception as e:
            out[name] = 'error ' + type(e).__name__

    def plain(x):
        if isinstance(x, str):
            return x
        x = float(x)
        return x if math.isfinite(x) else str(x)
    evs = [(i, eval(t)) for i, t in enumerate(req['events'])]
    asg = {Id(v): eval(x, {'inf': math.inf}) for v, x in req['assign']}
    ask('symbols', lambda: sorted(s.token for s in spe.get_symbols()))
    ask('size', lambda: spe.size())

    def probs(s, pre):
        for i, t in evs:
            ask('%s%d' % (pre, i), lambda: plain(s.logprob(b.event(t))))
    probs(spe, 'logprob')
    ask('density', lambda: plain(spe.logpdf(asg)))
    ask('mutual', lambda: plain(spe.mutual_information(b.event(evs[0][1]), b.event(evs[-1][1]))))
    if req.get('cond') is not None:
        post = []
        ask('condition', lambda: post.append(spe.condition(b.event(eval(req['cond'])))))
        for s in post:
            probs(s, 'conditioned')
            ask('conditioned-density', lambda: plain(s.logpdf(asg)))
    if req.get('constrain'):
        post2 = []
        ask('constrain', lambda: post2.append(spe.constrain(asg)))
        for s in post2:
            probs(s, 'constrained')
    if req.get('derive'):
        z, e = req['derive']
        new = []
        ask('derive', lambda: new.append(spe.transform(Id(z), b.expr(eval(e)))))
        for s in new:
            ask('derived', lambda: plain(s.logprob(Id(z) > 0)))

    def sample(s):
        prng = numpy.random.RandomState(req['seed'])
        rows = s.sample(req['n'], prng)
        return [sorted([k.token, plain(x)] for k, x in r.items()) for r in rows]
    ask('sample', lambda: sample(spe))
    if req.get('subset'):
        prng = numpy.random.RandomState(req['seed'])
        ask('subset', lambda: [sorted([k.token, plain(x)] for k, x in r.items())
                               for r in spe.sample_subset([Id(v) for v in req['subset']], req['n'], prng)])
    return out


def main():
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    import numpy
    numpy.seterr(all='ignore')
    from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        if req['nosym']:
            os.environ['SPPL_NO_SYMBOLIC'] = '1'
        else:
            os.environ.pop('SPPL_NO_SYMBOLIC', None)
        try:
            spe = spe_from_dict(json.loads(req['doc']))
        except Exception as e:
            import traceback
            real.write(json.dumps({'failed': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:])}) + '\n')
            real.flush()
            continue
        out = {'answers': answers(spe, req)}
        try:
            out['again'] = json.dumps(spe_to_dict(spe))
        except Exception as e:
            out['again'] = None
            out['error'] = repr(e)
        real.write(json.dumps(out) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
