"""Confirm a planted bug in a scratch copy of /repo, and optionally run its check on it.

  plant.py ID            patch applies, builds, keeps the stable tests, demo 0 / nonzero
  plant.py ID --check    additionally run ./check on the patched copy (VF_REPO)
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scripts(d, repo):
    for n in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + n).read().replace('/opt/vp/build.sh', os.path.join(d, 'build.sh'))
        s = re.sub(r'/repo\b', repo, s)
        open(os.path.join(d, n), 'w').write(s)


def demo(d, repo, seeded):
    dd = os.path.join(d, 'demo')
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(seeded, dd, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    return sh(['timeout', '300', 'bash', os.path.join(dd, 'demo.sh')], cwd=repo, env=env)


def main():
    ident = sys.argv[1]
    seeded = os.path.join(ROOT, 'seeded', ident)
    meta = json.load(open(os.path.join(seeded, 'meta.json')))
    d = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('build', '__pycache__'))
        scripts(d, repo)
        ok = True
        if '--check-only' not in sys.argv:
            b = sh(['bash', d + '/build.sh'])
            if b.returncode:
                print(ident, 'base build fails', b.stdout[-500:]); return 1
            r = demo(d, repo, seeded)
            print(ident, 'demo unchanged rc', r.returncode, r.stdout[-300:] if r.returncode else '')
            ok &= r.returncode == 0
        a = sh(['git', 'apply', os.path.join(seeded, 'patch.diff')], cwd=repo)
        if a.returncode:
            print(ident, 'patch does not apply', a.stdout); return 1
        if '--check-only' not in sys.argv:
            b = sh(['bash', d + '/build.sh'])
            if b.returncode:
                print(ident, 'patched build fails', b.stdout[-500:]); return 1
            r = demo(d, repo, seeded)
            print(ident, 'demo patched rc', r.returncode, '' if r.returncode else r.stdout[-300:])
            ok &= r.returncode != 0
            sh(['bash', d + '/test.sh', d + '/out.json'])
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            o = json.load(open(d + '/out.json'))
            passed = set(o.get('passed') or o.get('stable') or o.get('pass'))
            missing = sorted(set(base) - passed)
            print(ident, 'stable tests missing:', len(missing), missing[:5])
            ok &= not missing
        if '--check' in sys.argv or '--check-only' in sys.argv:
            for p in ([meta['property']] + [x for x in sys.argv[2:] if re.match(r'C\d\d$', x)]):
                r = sh(['./check', p], cwd=ROOT, env=dict(os.environ, VF_REPO=repo, VERIF_SEED='1', VF_EVID=d))
                out = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'mechanism' in l]
                print(ident, p, 'check rc', r.returncode, out[:2] or r.stdout[-400:])
        print(ident, 'CONFIRMED' if ok else 'NOT CONFIRMED')
        return 0 if ok else 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
