"""Runs the cases of one property (inside /opt/venv's interpreter)."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--n', type=int, default=1)
    ap.add_argument('--cases', type=int, default=0)
    ap.add_argument('--only', type=int, default=None)
    ap.add_argument('--upto', type=int, default=None)
    ap.add_argument('--time', type=float, default=30)
    ap.add_argument('--caselimit', type=float, default=20)
    ap.add_argument('--out', required=True)
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    import numpy
    numpy.seterr(all='ignore')
    from vf.core import Ctx, CaseEnd, CaseSlow, in_sppl, rng_for
    mod = importlib.import_module('vf.props.' + a.prop.lower())
    ctx = Ctx(a.prop, a.tier, a.seed)
    hb = open(a.out + '.hb', 'w')
    t0 = time.time()
    done = 0
    if a.only is not None:
        idxs = [a.only]
    else:
        top = a.cases if a.upto is None else min(a.cases, a.upto + 1)
        idxs = range(a.worker, top, a.n)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    trace = os.environ.get('VF_TRACE')
    slow, expired = [], []

    def expire(signum, frame):
        raise CaseSlow()
    # CPU time, so that the verdict does not depend on the load of the machine;
    # the code under test uses the other (real time) alarm.
    signal.signal(signal.SIGPROF, expire)
    for idx in idxs:
        if a.only is None and a.upto is None and time.time() - t0 > a.time:
            break
        hb.seek(0)
        hb.write('%d %f\n' % (idx, time.time()))
        hb.flush()
        ctx.case_idx, ctx.case_desc = idx, None
        rng = rng_for(a.seed, a.prop, idx)
        t1 = time.time()
        try:
            signal.setitimer(signal.ITIMER_PROF, a.caselimit)
            try:
                mod.case(ctx, rng, idx)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except CaseEnd:
            pass
        except CaseSlow:
            expired.append((idx, str(ctx.case_desc)[:300]))
        except Exception as e:
            if in_sppl(e.__traceback__):
                ctx.violations.append(dict(case=idx, mechanism='exception:uncaught:' + type(e).__name__,
                                           detail=traceback.format_exc()[-2500:],
                                           desc=str(ctx.case_desc)[:1500]))
                continue
            ctx.errors.append(dict(case=idx, desc=str(ctx.case_desc)[:1500],
                                   error=traceback.format_exc()[-2500:]))
            if len(ctx.errors) > 20:
                break
        done += 1
        dt = time.time() - t1
        if trace:
            print(idx, '%.2f' % dt, ctx.case_desc, file=sys.stderr)
        if dt > 2:
            slow.append((idx, round(dt, 2)))
        if len(ctx.violations) > 200:
            break
    if hasattr(mod, 'finish'):
        try:
            mod.finish(ctx)
        except CaseEnd:
            pass
    out = dict(done=done, counts=ctx.counts, distinct=[h.hex() for h in ctx.distinct],
               samples=ctx.samples[:6], violations=ctx.violations, errors=ctx.errors,
               skips=ctx.skips, evaluations=ctx.evaluations, slow=slow[:20], expired=expired,
               wall=time.time() - t0)
    with open(a.out + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(a.out + '.tmp', a.out)


if __name__ == '__main__':
    main()
