"""Check driver (system python3): builds /repo, spreads cases, judges, writes evidence."""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
NW = int(os.environ.get('VF_WORKERS', '8'))


def build(dst):
    env = dict(os.environ, PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1')
    src = os.path.join(dst, 'src')
    # setup.py writes only under the build base, but it is run on a copy of the
    # sources so that nothing whatever is written into /repo.
    os.mkdir(src)
    for name in ('setup.py', 'src', 'magics', 'tests', 'README.md', 'requirements.sh'):
        p = os.path.join(REPO, name)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, name), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        elif os.path.exists(p):
            shutil.copy2(p, os.path.join(src, name))
    out = os.path.join(dst, 'build')
    r = subprocess.run([PY, 'setup.py', '-q', 'build', '-b', out], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lib = os.path.join(out, 'lib')
    if r.returncode != 0 or not os.path.isdir(os.path.join(lib, 'sppl')):
        print(r.stdout)
        raise SystemExit('build failed')
    return lib


def worker_env(lib, scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith('SPPL_')}
    env.update(PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', LC_ALL='C.UTF-8',
               PYTHONPATH=lib + os.pathsep + ROOT, PYTHONDONTWRITEBYTECODE='1',
               PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', VF_LIB=lib, VF_ROOT=ROOT, TMPDIR=scratch,
               HOME=scratch, IPYTHONDIR=os.path.join(scratch, 'ipython'))
    return env


def spawn(env, scratch, out, prop, tier, seed, **kw):
    cmd = [PY, '-m', 'vf.worker', '--prop', prop, '--tier', tier, '--seed', str(seed), '--out', out]
    for k, v in kw.items():
        cmd += ['--' + k, str(v)]
    log = open(out + '.log', 'w')
    return subprocess.Popen(cmd, cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def heartbeat(out):
    try:
        with open(out + '.hb') as f:
            i, t = f.readline().split()
        return int(i), float(t)
    except (OSError, ValueError):
        return None


def wait(p, out, hang):
    """Wait for a worker; returns ('ok'|'hang'|'dead', case)."""
    start = time.time()
    while True:
        rc = p.poll()
        hb = heartbeat(out)
        if rc is not None:
            if os.path.exists(out):
                return 'ok', None
            return 'dead', hb[0] if hb else None
        last = hb[1] if hb else start + 60
        if time.time() - last > hang:
            kill(p)
            return 'hang', hb[0] if hb else None
        time.sleep(0.05)


def one(env, scratch, prop, tier, seed, case, hang, **kw):
    out = os.path.join(scratch, 'one_%s_%d_%d' % (prop, case, int(time.time() * 1e6)))
    p = spawn(env, scratch, out, prop, tier, seed, **(kw or {'only': case}))
    st, _ = wait(p, out, hang)
    if st == 'ok':
        with open(out) as f:
            return st, json.load(f)
    with open(out + '.log') as f:
        return st, f.read()[-3000:]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--time', type=float)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        a.prop, a.tier, a.seed = rp['property'], rp['tier'], rp['seed']
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % a.prop)
    try:
        return run(a, scratch, t0, rp if a.replay else None)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_meta(prop):
    with open(os.path.join(ROOT, 'vf', 'budget.json')) as f:
        return json.load(f)[prop]


def run(a, scratch, t0, rp):
    lib = build(scratch)
    env = worker_env(lib, scratch)
    prop, tier = a.prop, a.tier
    meta = load_meta(prop)
    b = meta[tier]
    cases = a.cases or b['cases']
    limit = a.time or b['time']
    hang = b.get('hang', 150)
    if rp:
        st, r = one(env, scratch, prop, tier, a.seed, rp['case'], 300, **rp.get('mode', {}))
        print(st, json.dumps(r, indent=1) if isinstance(r, dict) else r)
        bad = st != 'ok' or r['violations']
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1 if bad else 0
    outs = [os.path.join(scratch, 'w%d' % i) for i in range(NW)]
    procs = [spawn(env, scratch, outs[i], prop, tier, a.seed, worker=i, n=NW, cases=cases, time=limit, caselimit=b.get('caselimit', 20))
             for i in range(NW)]
    res, hangs, dead = [], [], []
    for i, p in enumerate(procs):
        st, c = wait(p, outs[i], hang)
        if st == 'ok':
            with open(outs[i]) as f:
                r = json.load(f)
                r['worker'] = i
                res.append(r)
        elif st == 'hang':
            hangs.append((i, c))
        else:
            with open(outs[i] + '.log') as f:
                dead.append((i, c, f.read()[-2500:]))
    for i in range(NW):
        if a.verbose:
            with open(outs[i] + '.log') as f:
                s = f.read()
                if s.strip():
                    print('--- worker', i)
                    print(s[-3000:])
    counts, distinct, samples, viols, errors, skips = {}, set(), [], [], [], {}
    evals = done = 0
    expired = []
    for r in res:
        done += r['done']
        evals += r['evaluations']
        for k, v in r['counts'].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith('max_') else counts.get(k, 0) + v
        for k, v in r['skips'].items():
            skips[k] = skips.get(k, 0) + v
        distinct.update(r['distinct'])
        samples += r['samples'][:2]
        expired += r['expired']
        for v in r['violations']:
            v['worker'] = r['worker']
            viols.append(v)
        errors += r['errors']
    # Group violations by mechanism; reproduce the first of each in isolation.
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        known = [k for k in json.load(f)['findings'] if k['property'] == prop]
    bymech = {}
    for v in sorted(viols, key=lambda v: v['case'] if v['case'] is not None else -1):
        bymech.setdefault(v['mechanism'], []).append(v)
    reported, unrepro, known_hit = [], [], {}
    for mech, vs in sorted(bymech.items()):
        kf = [k for k in known if re.fullmatch(k['mechanism'], mech)
              and all(re.search(k.get('detail', ''), v['detail'] + '\n' + v['desc'], re.S) for v in vs)]
        if kf:
            known_hit.setdefault(kf[0]['id'], (kf[0], []))[1].extend(vs)
            continue
        ok = None
        for v in vs[:3]:
            if v['case'] is None:
                ok = (v, {})
                break
            st, r = one(env, scratch, prop, tier, a.seed, v['case'], hang)
            if st != 'ok' or any(x['mechanism'] == mech for x in r['violations']):
                ok = (v, {})
                break
        if ok is None and not meta.get('timing'):
            v = vs[0]
            mode = dict(worker=v['worker'], n=NW, cases=cases, upto=v['case'])
            st, r = one(env, scratch, prop, tier, a.seed, v['case'], hang, **mode)
            if st != 'ok' or any(x['mechanism'] == mech for x in r['violations']):
                ok = (v, mode)
        if ok is None:
            unrepro.append(vs[0])
            continue
        reported.append((mech, ok[0], ok[1], len(vs)))
    slowc = []
    # Symbolic algebra has rare inputs it does not finish on; only many of them
    # mean that the system stopped answering.
    if len(expired) > max(5, meta.get('slow', 0.03) * done):
        c, d = expired[0]
        reported.append(('no-answer', dict(case=c, mechanism='no-answer', desc=d,
                         detail='%d of %d cases exceed their CPU limit' % (len(expired), done)), {}, len(expired)))
    for i, c in hangs:
        if c is None:
            errors.append(dict(case=None, error='worker %d never started a case' % i))
            continue
        st, r = one(env, scratch, prop, tier, a.seed, c, hang)
        if st == 'hang':
            reported.append(('no-answer', dict(case=c, mechanism='no-answer', desc='case %d' % c,
                             detail='no answer within %d s, twice' % hang), {}, 1))
        else:
            slowc.append(c)
    for i, c, log in dead:
        if c is None:
            errors.append(dict(case=None, error=log))
            continue
        st, r = one(env, scratch, prop, tier, a.seed, c, hang)
        if st == 'dead':
            reported.append(('crash', dict(case=c, mechanism='crash', desc='case %d' % c, detail=log), {}, 1))
        else:
            errors.append(dict(case=c, error=log))
    rc = 0
    floor = meta.get('floor', {}).get(tier, {}) if a.cases is None and a.time is None else {}
    short = []
    if not reported:
        full = floor.pop('distinct', 0) if floor else 0
        if full and len(distinct) < full:
            short.append('distinct %d < %d' % (len(distinct), full))
        for k, v in floor.items():
            if counts.get(k, 0) < v:
                short.append('%s %d < %d' % (k, counts.get(k, 0), v))
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for mech, v, mode, n in reported:
        name = re.sub(r'[^A-Za-z0-9_.-]+', '_', mech)[:60]
        path = os.path.join('replays', '%s_%s_%s.json' % (prop, v['case'], name))
        with open(os.path.join(ROOT, path), 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=a.seed, case=v['case'], mode=mode,
                           mechanism=mech, detail=v['detail'], desc=v['desc'], occurrences=n), f, indent=1)
        print('--- %s (x%d) case %s' % (mech, n, v['case']))
        print('    ' + v['desc'].replace('\n', '\n    '))
        print('    ' + v['detail'].replace('\n', '\n    ')[:1800])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for kid, (k, vs) in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if errors:
        print('HARNESS ERRORS: %d' % len(errors))
        for e in errors[:3]:
            print(e.get('case'), e.get('desc'))
            print(e['error'])
        # Harness errors that are few are reported; they make the run inconclusive.
        if rc == 0:
            rc = 2
    if short and rc == 0:
        print('INCONCLUSIVE: ' + '; '.join(short))
        rc = 2
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=meta['rule'],
               samples=samples[:8] or ['(none)'], cases_run=done, cases_planned=cases,
               observations=counts, skipped=skips, harness_errors=len(errors),
               unreproduced=[dict(mechanism=v['mechanism'], case=v['case']) for v in unrepro],
               slow_cases=slowc, cpu_limit_exceeded=[dict(case=c, desc=d) for c, d in expired[:20]], known_findings=sorted(known_hit))
    ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(reported))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(ROOT, 'evidence', '%s.json' % prop))
    print('%s %s seed=%d: cases=%d/%d evaluations=%d distinct=%d violations=%d unreproduced=%d slow=%d skips=%s %.1fs'
          % (prop, tier, a.seed, done, cases, evals, len(distinct), len(reported), len(unrepro), len(expired),
             json.dumps(skips), time.time() - t0))
    if a.verbose:
        print(json.dumps(counts, indent=1))
        for v in unrepro:
            print('unreproduced', v)
        print('slow', [s for r in res for s in r['slow']][:20])
    return rc


if __name__ == '__main__':
    sys.exit(main())
