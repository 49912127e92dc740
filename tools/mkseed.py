#!/usr/bin/env python3
"""mkseed.py ID...|all [--nocheck]: (re)create seeded/<ID> from tools/seeds.py, confirm it in a scratch copy of /repo
(own mount namespace): builds, passes the 38 tests, demo 0 without and nonzero with the patch; then run the check on it."""
import sys, os, json, shutil, subprocess, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
SC = '/tmp/seed/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    os.makedirs('/tmp/seed', exist_ok=True)
    if not os.path.exists(SC):
        sh('cp -a /repo %s' % SC)
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD' % (SC, SC, SC))


def inns(cmd, timeout=900):
    return sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && %s'" % (SC, cmd), timeout=timeout)


def make(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fresh()
    for f, a, b in s['edits']:
        p = os.path.join(SC, f)
        t = open(p).read()
        if t.count(a) != 1:
            return 'edit matches %d times: %s' % (t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    df = sh('git -C %s diff' % SC).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(df)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.copy(os.path.join(HERE, 'harness', 'h.hh'), d)
    spec = json.load(open(os.path.join(HERE, 'props', 'specs.json')))[s['property']]['harness']
    if 'harness' in s:
        objs = spec.get('objs')
        if objs and 'skip' not in s:
            s['skip'] = sorted(f[:-3] for f in os.listdir(SC + '/src') if f.endswith('.cc') and f[:-3] not in objs)
        s.setdefault('flags', ' '.join(spec.get('srcflags', [])))
        s.setdefault('libs', ' '.join(spec.get('libs', [])))
        for e in s.get('extra', []):
            shutil.copy(os.path.join(HERE, 'harness', e), d)
        shutil.copy(os.path.join(HERE, 'harness', s['harness']), os.path.join(d, 'demo.cc'))
    elif 'demo' in s:
        open(os.path.join(d, 'demo.cc'), 'w').write(s['demo'])
    t = open(os.path.join(HERE, 'tools', 'demo.sh')).read()
    runs = '\n'.join('timeout %d %s%s %s || { echo "demo: property broken"; exit 1; }' % (s.get('timeout', 120), s.get('pre', ''), './demo.x' if n == 1 else 'mpirun -n %d ./demo.x' % n, s.get('args', '')) for n in s.get('np', [1]))
    t = t.replace('__RUNS__', runs).replace('__SKIP__', ' '.join(s.get('skip', []))).replace('__LIBS__', s.get('libs', '')).replace('__FLAGS__', s.get('flags', ''))
    if 'sh' in s:
        t = s['sh']
    open(os.path.join(d, 'demo.sh'), 'w').write(t)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if '--nocheck' in sys.argv:
        return 'written'
    r = inns('bash /opt/vp/test.sh /tmp/seed/o.json')
    m = re.findall(r'(\d+) passed, (\d+) failed', r.stdout)
    msg = 'tests %s' % (m[-1:] or r.stdout[-300:])
    r1 = inns('bash %s/demo.sh' % d, 400)
    sh('git -C %s checkout -q -- .' % SC)
    r0 = inns('bash /opt/vp/build.sh && bash %s/demo.sh' % d, 400)
    msg += '; demo unpatched %d patched %d' % (r0.returncode, r1.returncode)
    if r0.returncode:
        msg += r0.stdout[-600:]
    return msg


def check(s):
    fresh()
    sh('git -C %s apply %s' % (SC, os.path.join(HERE, 'seeded', s['id'], 'patch.diff')))
    r = sh('VERIF_REPO=%s timeout 880 python3 %s/check.py %s' % (SC, HERE, s['property']))
    sh('git -C %s checkout -q -- .' % SC)
    o = r.stdout.strip().split('\n')
    return 'check rc %d: %s' % (r.returncode, ' | '.join(x[:160] for x in o if 'failing input' in x or 'failed obl' in x or 'VIOL' in x or '[quick]' in x)[:700])


import seeds
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
for s in seeds.SEEDS:
    if ids == ['all'] or s['id'] in ids:
        if '--only-check' not in sys.argv:
            print(s['id'], make(s), flush=True)
        print(s['id'], check(s), flush=True)
