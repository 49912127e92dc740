"""Builds one concrete harness against /repo's current sources in a scratch directory and runs it."""
import os, re, subprocess, time, signal, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {
    'OMPI_CXX': 'g++', 'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_plm': 'isolated',
    'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_rmaps_base_oversubscribe': '1',
    'OMPI_MCA_hwloc_base_binding_policy': 'none', 'OMPI_MCA_mpi_yield_when_idle': '1', 'OMP_WAIT_POLICY': 'passive',
    'PMIX_MCA_gds': 'hash', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '2', 'LANG': 'C.UTF-8',
}
BASE = ['-std=c++11', '-O1', '-w', '-fopenmp', '-include', 'cstdint', '-fno-access-control', '-DASSERT_ON=1', '-DUSE_PETSC=1',
        '-I/usr/lib/petsc/include']
LIBS = ['-L/usr/lib/petsc/lib', '-lpetsc_real']


def sh(cmd, env, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:                       # mpirun ends its ranks when asked to; then make sure
            os.killpg(p.pid, signal.SIGTERM)
            try:
                p.wait(4)
            except subprocess.TimeoutExpired:
                pass
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if os.path.basename(cmd[0]) == 'mpirun':
            subprocess.call(['pkill', '-KILL', '-f', '^' + cmd[3]])
        o, _ = p.communicate()
        return None, o.decode('utf8', 'replace')


def run(pid, h, repo, tmp, tier, seed, keep=None):
    if not h:
        return {'status': 'none', 'why': 'no harness'}
    env = dict(os.environ)
    env.update(ENV)
    env['TMPDIR'] = tmp
    env['VERIF_SEED'] = str(seed)
    env['VERIF_TIER'] = tier
    env['VERIF_TMP'] = tmp
    env['VERIF_REPO'] = repo
    src = os.path.join(repo, 'src')
    objs = h.get('objs', 'all')
    if objs == 'all':
        objs = sorted(f[:-3] for f in os.listdir(src) if f.endswith('.cc') and f != 'Main.cc')
    t0 = time.time()
    jobs = []
    flags = BASE + ['-I' + src, '-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(repo, 'util')]
    for o in objs:
        p = os.path.join(src, o + '.cc')
        if os.path.exists(p):
            jobs.append(['mpicxx'] + flags + h.get('srcflags', []) + ['-c', p, '-o', os.path.join(tmp, o + '.o')])
    srcs = h['src'] if isinstance(h['src'], list) else [h['src']]
    hob = []
    for s in srcs:
        ho = os.path.join(tmp, 'h_' + s.replace('/', '_') + '.o')
        hob.append(ho)
        jobs.append(['mpicxx'] + flags + h.get('flags', []) + ['-c', os.path.join(HERE, 'harness', s), '-o', ho])
    # link with whatever other objects there are: a refactoring may have added source files
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda c: sh(c, env, 300), jobs))
    bad = [(c[-3], o) for c, (rc, o) in zip(jobs, rs) if rc != 0]
    if bad:
        return {'status': 'unavailable', 'why': 'compile failed: ' + bad[0][0], 'log': bad[0][1][-3000:]}
    exe = os.path.join(tmp, 'harness.x')
    link = ['mpicxx', '-fopenmp', '-o', exe] + hob + [c[-1] for c in jobs[:len(jobs) - len(srcs)]] + LIBS + h.get('libs', [])
    rc, o = sh(link, env, 300)
    if rc != 0 and h.get('objs', 'all') != 'all':
        h2 = dict(h)
        h2['objs'] = 'all'
        return run(pid, h2, repo, tmp, tier, seed)
    if rc != 0:
        return {'status': 'unavailable', 'why': 'link failed', 'log': o[-3000:]}
    build_s = time.time() - t0
    fails, ev, logs, runs_done, cmds, hung = [], 0, [], 0, [], []
    samples = []
    runs = list(h.get('runs', [{}]))
    if tier == 'thorough':
        runs += h.get('thorough_runs', [])
    left = (380 if tier == 'quick' else 780)
    for r in runs:
        np_ = r.get('np', 1)
        args = [str(a) for a in r.get('args', [])]
        cmd = ([exe] if np_ == 1 and not r.get('mpirun') else ['mpirun', '-n', str(np_), exe]) + args
        e2 = dict(env)
        e2.update({k: str(v) for k, v in r.get('env', {}).items()})
        e2 = {k: v.replace('{HERE}', HERE) for k, v in e2.items()}
        lim = max(5, min(r.get('timeout', 150), left - (time.time() - t0)))
        wd = os.path.join(tmp, 'w%d' % len(cmds))
        os.makedirs(wd, exist_ok=True)
        t1 = time.time()
        rc, o = sh(cmd, e2, lim, cwd=wd)
        cmds.append(' '.join(['VERIF_SEED=%d' % seed, 'VERIF_TIER=' + tier] + ['%s=%s' % kv for kv in r.get('env', {}).items()] + [os.path.basename(c) if c == exe else c for c in cmd]))
        runs_done += 1
        lab = 'np=%d %s' % (np_, ' '.join(args))
        m = re.findall(r'^CASES (\d+)', o, re.M)
        ev += sum(int(x) for x in m)
        samples += re.findall(r'^SAMPLE (.*)$', o, re.M)[:2]
        fl = re.findall(r'^FAIL (.*)$', o, re.M)
        fails += ['%s [%s]' % (x, lab) for x in fl]
        for blk in o.split('==================') if h.get('tsan') else []:
            if 'ThreadSanitizer: data race' in blk:
                # a race counts when the repository's code makes one of the accesses (libraries are not instrumented)
                top = [x for x in re.findall(r'^ +#[01] +(.*)$', blk, re.M) if '/src/' in x and 'libsanitizer' not in x]
                acc = re.findall(r'^ *((?:Write|Read|Previous|Atomic|Previous atomic)[a-z ]+of size \d+)', blk, re.M)
                if top:
                    w = 'data race: %s in %s' % (' / '.join(acc), ' and '.join(re.sub(r' \(harness.x.*', '', x).replace(repo + '/', '') for x in top[:2]))
                    if not any(w in x for x in fails):
                        fails.append('%s [%s]' % (w, lab))
        if rc is None:
            if r.get('hang_is_failure'):
                fails.append('no termination within %ds [%s] %s' % (lim, lab, ' '.join(r.get('env', {}))))
                logs.append('TIMEOUT %s\n%s' % (lab, o[-1500:]))
                break
            else:
                hung.append(lab)
            logs.append('TIMEOUT %s\n%s' % (lab, o[-1500:]))
        elif rc != 0 and re.search(r'FATAL: ThreadSanitizer|ThreadSanitizer: CHECK failed', o):
            hung.append(lab + ' (the race detector does not run here)')
        elif rc != 0 and not fl:
            if r.get('crash_is_failure', True):
                fails.append('run ended with status %s: %s [%s]' % (rc, ' '.join(o.strip().split('\n')[-6:])[-500:], lab))
            logs.append('STATUS %s %s\n%s' % (rc, lab, o[-3000:]))
        elif rc == 0 and not fl and not re.search(r'^DONE', o, re.M):
            fails.append('run ended early without finishing the cases: %s [%s]' % (' '.join(o.strip().split('\n')[-4:])[-300:], lab))
            logs.append(o[-2000:])
        elif fl:
            logs.append(o[-3000:])
    out = {'status': 'fail' if fails else ('timeout' if hung else 'pass'), 'evaluations': ev, 'runs': runs_done, 'failures': fails,
           'build_s': round(build_s, 1), 'samples': samples[:3],
           'replay_cmd': 'python3 /verif/tools/hrun.py %s   # builds harness/%s against %s and runs: %s' % (pid, srcs[0], repo, ' ; '.join(cmds)),
           'log': '\n'.join(logs)}
    if hung:
        out['why'] = 'timed out: ' + ', '.join(hung)
    return out
