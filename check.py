#!/usr/bin/env python3
"""One property check:  check.py P05 [--tier quick|thorough]

1. vc/child.py (python3-vt): contracts + obligations over /repo's current source, deductive.
2. harness/<id>.cc against /repo's current source: concrete replay of the same contract.
exit 0 held; exit 1 + VIOLATION line; exit 2 the check could not decide anything."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib.util, signal, threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from tools import hbuild
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_spec(pid):
    with open(os.path.join(HERE, 'props', 'specs.json')) as f:
        return json.load(f)[pid]


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == pid:
                out.append(k)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = load_spec(pid)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    res = {}
    budget = 420 if tier == 'quick' else 820
    try:
        # ---- deductive part
        def deductive():
            out = os.path.join(tmp, 'proof.json')
            p = subprocess.Popen(['python3-vt', os.path.join(HERE, 'vc', 'child.py'), pid, tier, str(seed), out],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                                 env=dict(os.environ, VERIF_REPO=REPO))
            try:
                txt, _ = p.communicate(timeout=budget)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                txt, _ = p.communicate()
                res['proof'] = {'status': 'timeout', 'log': txt.decode('utf8', 'replace')[-2000:]}
                return
            try:
                res['proof'] = json.load(open(out))
                res['proof']['status'] = 'done'
            except Exception:
                res['proof'] = {'status': 'crashed', 'log': txt.decode('utf8', 'replace')[-3000:]}

        def concrete():
            try:
                res['harness'] = hbuild.run(pid, spec.get('harness') or {}, REPO, tmp, tier, seed)
            except Exception as e:
                res['harness'] = {'status': 'unavailable', 'why': 'driver: %r' % (e,)}

        ths = [threading.Thread(target=deductive), threading.Thread(target=concrete)]
        for t in ths: t.start()
        for t in ths: t.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, tier, seed, spec, res.get('proof', {'status': 'crashed', 'log': ''}),
                  res.get('harness', {'status': 'unavailable', 'why': 'none'}), t0)


def report(pid, tier, seed, spec, proof, har, t0):
    known = known_findings(pid)
    listed = {}
    for k in known:
        for m in k['match']:
            listed[m] = k
    hits = {}
    fails = []
    for f in har.get('failures', []):
        k = next((k for m, k in listed.items() if f.startswith(m)), None)
        if k is None:
            fails.append(f)
        else:
            hits[k['id']] = k
    done = proof['status'] == 'done'
    obls = proof.get('results', []) if done else []
    bad = []
    for r in obls:
        if r['ok']:
            continue
        lab = 'obligation %s: %s' % (r.get('function', ''), r['name'])
        k = next((k for m, k in listed.items() if lab.startswith(m)), None)
        if k is None:
            bad.append(r)
        else:
            hits[k['id']] = k
    for k in known:
        if k.get('always'):
            hits[k['id']] = k
    unsup = proof.get('unsupported', []) if done else []
    n_obl = len(obls)
    n_ok = sum(1 for r in obls if r['ok'])
    hst = har['status']
    bounded = [u['function'] for u in unsup]
    proved_all = done and n_obl > 0 and not bad and not unsup
    level = spec.get('level', 'proof')

    for k in hits.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    code, vio = 0, None
    if hst == 'fail' and fails:
        code, vio = 1, ''
    elif bad:
        code, vio = 1, ' no-failing-input-found'
    elif proved_all:
        code = 0
    elif hst in ('pass', 'fail'):
        code = 0
    else:
        code = 2

    cov = {
        'obligations': n_obl, 'discharged': n_ok,
        'checker_cmd': 'python3-vt /verif/vc/child.py %s %s %d OUT.json' % (pid, tier, seed),
        'trusted_base': proof.get('trusted', []) if done else [],
        'functions_under_contract': proof.get('units', []) if done else [],
        'functions_executed': proof.get('functions', []) if done else [],
        'discharged_by': proof.get('by', {}),
        'solver_s': proof.get('solver_s', 0),
        'loop_summaries': proof.get('loops', 0),
        'bounded_not_proved': bounded,
        'failed_obligations': [{'function': r.get('function'), 'name': r['name'], 'result': r.get('result')} for r in bad][:40],
        'deductive_status': proof['status'],
        'harness': {k: v for k, v in har.items() if k not in ('log',)},
    }
    if 'evaluations' in har:
        cov['evaluations'] = har['evaluations']
    if proof.get('log'):
        cov['deductive_log'] = proof['log'][-800:]
    if not (done and n_obl):
        cov['explanation'] = 'deductive part gave no result on this source; only the bounded concrete harness ran'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level if (done and n_obl) else 'other',
          'coverage': cov, 'assumptions': proof.get('assumptions', []) if done else [],
          'wall_s': round(time.time() - t0, 2), 'violations': 0 if code != 1 else max(1, len(fails) + len(bad))}
    if 'explanation' not in cov and level == 'other':
        cov['explanation'] = spec.get('explanation', '')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')

    print('%s [%s] obligations %d discharged %d unsupported units %d deductive=%s harness=%s (%s) %.1fs' % (
        pid, tier, n_obl, n_ok, len(unsup), proof['status'], hst,
        har.get('evaluations', har.get('why', '')), time.time() - t0))
    for u in unsup:
        print('  bounded only (not proved): %s: %s' % (u['function'], u.get('reason', u.get('status'))))
    if code == 1:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%d.json' % (pid, os.getpid()))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'repo': REPO,
                       'failing_inputs': fails[:50], 'replay_cmd': har.get('replay_cmd'),
                       'harness_log': har.get('log', '')[-6000:],
                       'failed_obligations': bad[:40]}, f, indent=1, default=str)
            f.write('\n')
        for x in fails[:8]:
            print('  failing input: ' + x[:400])
        for r in bad[:8]:
            print('  failed obligation: %s: %s (%s)' % (r.get('function', ''), r['name'][:200], r.get('result')))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, vio))
    elif code == 2:
        print('UNDECIDED: %s / %s %s' % (proof.get('log', '')[-500:], har.get('why'), har.get('log', '')[-1500:]))
    return code


if __name__ == '__main__':
    sys.exit(main())
