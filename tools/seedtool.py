#!/usr/bin/env python3
"""Development aid for planted bugs (not used by any check).

  seedtool.py verify ID...        patch applies, demo 0 on clean / !=0 patched, stable tests pass with the patch (uses /repo)
  seedtool.py hit ID... [--props C01,C02|all]   run the quick checks on a scratch copy of /repo with the patch applied
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')


def sh(cmd, cwd=None, env=None, timeout=1800):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def scratch(i):
    d = tempfile.mkdtemp(prefix='seed_%s_' % i)
    sh('git -C /repo archive HEAD | tar x -C %s' % d)
    return d


def verify(ids, tests=True):
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('stable', base.get('passed', base.get('tests', []))))
    for i in ids:
        s = os.path.join(SEED, i)
        d = scratch(i)
        dd = tempfile.mkdtemp(prefix='demo_')
        for f in os.listdir(s):
            if f not in ('patch.diff', 'meta.json'):
                shutil.copy(os.path.join(s, f), dd)
        r0, o0 = sh('bash %s/demo.sh' % dd, cwd=d)
        ra, oa = sh('git init -q . && git apply %s/patch.diff' % s, cwd=d)
        r1, o1 = sh('bash %s/demo.sh' % dd, cwd=d)
        shutil.rmtree(d); shutil.rmtree(dd)
        ok = r0 == 0 and ra == 0 and r1 not in (0, 2)
        miss = None
        if ok and not tests:
            miss = []
        if ok and tests:
            try:
                sh('git -C /repo apply %s/patch.diff' % s)
                rb, ob = sh('bash /opt/vp/build.sh')
                rt, ot = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
                res = json.load(open('/tmp/seed_out.json'))
                miss = sorted(stable - set(res['passed']))
            finally:
                sh('git -C /repo checkout -- .')
            if rb:
                miss = ['BUILD'] + [ob[-800:]]
        print('%-28s clean=%d apply=%d patched=%d tests:%s %s' % (i, r0, ra, r1, None if miss is None else (miss[:3] or 'ok'),
              'GOOD' if ok and miss == [] else 'BAD\n' + o0[-600:] + oa[-300:] + o1[-600:]), flush=True)


def hit(ids, props):
    for i in ids:
        s = os.path.join(SEED, i)
        meta = json.load(open(os.path.join(s, 'meta.json')))
        d = scratch(i)
        sh('git init -q . && git apply %s/patch.diff' % s, cwd=d)
        ps = [meta['property']] if not props else (['C%02d' % k for k in range(1, 18)] if props == 'all' else props.split(','))
        res = []
        for p in ps:
            r, o = sh('python3 %s/run.py %s' % (V, p), env={'VH_REPO': d, 'VERIF_TIER': 'quick', 'VH_EVIDENCE': d + '/ev'})
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            res.append('%s:%s' % (p, {0: 'quiet', 1: 'HIT'}.get(r, 'ERR%s' % r)))
            if r == 1 and p == meta['property']:
                print('   ', v[:1], o.strip().splitlines()[-2][:300] if len(o.strip().splitlines()) > 1 else '')
            if r not in (0, 1):
                print(o[-800:])
        shutil.rmtree(d)
        print('%-28s [%s] %s' % (i, meta['property'], ' '.join(res)), flush=True)


if __name__ == '__main__':
    a = sys.argv[2:]
    props = ''
    if '--props' in a:
        k = a.index('--props'); props = a[k + 1]; del a[k:k + 2]
    ids = a or sorted(os.listdir(SEED))
    if sys.argv[1] == 'hit':
        hit(ids, props)
    else:
        verify(ids, tests=sys.argv[1] == 'verify')  # 'demo': only the demonstrations
