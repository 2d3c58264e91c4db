#!/usr/bin/env python3
"""Decide one property by seeded simulation.

check.py <property> [quick|thorough]     exit 0 held, 1 VIOLATION, 3 the check itself failed
check.py --setup                         build only
check.py --replay <file>                 replay a violation exactly
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
MIRROR = os.path.join(V, 'build', 'src')
BUILD = os.path.join(V, 'build', 'b')
QUICK_S, THOROUGH_S = 40, 600
WORKERS = max(2, min(8, os.cpu_count() or 2))


def die(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(3)


def mirror():
    """Copy the sources of /repo's working tree, touching only files whose content changed."""
    keep = set()
    for top in ('src', 'config', 'eval', 'CMakeLists.txt'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in files:
            rel = os.path.relpath(f, REPO)
            dst = os.path.join(MIRROR, rel)
            keep.add(dst)
            with open(f, 'rb') as h:
                new = h.read()
            try:
                with open(dst, 'rb') as h:
                    if h.read() == new:
                        continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, 'wb') as h:
                h.write(new)
    for d, _, fs in os.walk(MIRROR):
        for f in fs:
            if os.path.join(d, f) not in keep:
                os.unlink(os.path.join(d, f))


def build(targets):
    mirror()
    t = time.time()
    if not targets:
        return 0.0, False
    os.makedirs(BUILD, exist_ok=True)
    cached = os.path.exists(os.path.join(BUILD, 'simcheck'))
    log = os.path.join(V, 'build', 'build.log')
    with open(log, 'w') as h:
        for cmd in (['cmake', '-S', os.path.join(V, 'sim'), '-B', BUILD, '-G', 'Ninja', '-DEKF_CAL_DIR=' + MIRROR],
                    ['ninja', '-C', BUILD] + targets):
            if subprocess.call(cmd, stdout=h, stderr=subprocess.STDOUT) != 0:
                h.flush()
                with open(log, errors='replace') as r:
                    sys.stdout.write(r.read()[-4000:])
                die('build failed')
    return time.time() - t, cached


def known(prop):
    cls = {}
    try:
        with open(os.path.join(V, 'known-findings.txt')) as h:
            for line in h:
                if line.startswith('known: property=%s class=' % prop):
                    c, _, what = line.split('class=', 1)[1].strip().partition(' ')
                    cls[c] = what
    except OSError:
        pass
    return cls


def env():
    e = dict(os.environ)
    e['SIM_REPO'] = MIRROR
    alt = os.path.join(BUILD, 'simalt')
    e.pop('SIM_ALT', None)
    if os.path.exists(alt):
        e['SIM_ALT'] = alt
    for k in ('OMP_NUM_THREADS', 'OPENCV_FOR_THREADS_NUM', 'OPENBLAS_NUM_THREADS'):
        e[k] = '1'
    return e


def scratch_root():
    for base in ('/dev/shm', '/tmp'):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return tempfile.mkdtemp(prefix='ekfsim-', dir=base)
    die('no scratch directory')


def targets_for(prop):
    return {'C16': ['simcheck', 'simalt'], 'C25': ['simros'], 'C26': [], 'C27': [], 'C28': []}.get(prop, ['simcheck'])


def binary(prop):
    if prop == 'C26':
        return ['python3', '-B', os.path.join(V, 'sim', 'py', 'mc_check.py')]
    if prop in ('C27', 'C28'):
        return ['python3-vt', '-B', os.path.join(V, 'sim', 'py', 'st_check.py' if prop == 'C27' else 'rp_check.py')]
    return [os.path.join(BUILD, targets_for(prop)[0])]


def replay(path):
    with open(path) as h:
        prop = [l.split()[1] for l in h if l.startswith('prop ')][0]
    build(targets_for(prop))
    root = scratch_root()
    try:
        r = subprocess.run(binary(prop) + ['replay', path, root], env=env(), stdout=subprocess.PIPE, text=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.stdout.write(r.stdout)
    return r


def search(prop, tier, seed, budget):
    root = scratch_root()
    kn = known(prop)
    procs, outs = [], []
    try:
        for w in range(WORKERS):
            sc = os.path.join(root, 'w%d' % w)
            os.makedirs(sc)
            out = os.path.join(root, 'out%d.json' % w)
            outs.append(out)
            procs.append(subprocess.Popen(
                binary(prop) + ['search', prop, tier, str(seed), str(w), str(WORKERS), str(budget),
                 '100000000', sc, out] + sorted(kn), env=env(), stdout=subprocess.DEVNULL,
                stderr=open(out + '.err', 'w')))
        res, errs = [], []
        # wait for all; once one has found a violation the others need not go on
        end, found = time.time() + budget + 180, None
        while any(p.poll() is None for p in procs) and time.time() < end:
            time.sleep(0.1)
            if found is None:
                for w, p in enumerate(procs):
                    if p.poll() == 0 and os.path.exists(outs[w] + '.plan'):
                        found = time.time()
            elif time.time() - found > 3:
                break
        for w, p in enumerate(procs):
            rc = p.poll()
            if rc is None:
                p.kill()
                p.wait()
                if found is None:
                    errs.append('worker %d did not finish' % w)
            elif rc == 0:
                with open(outs[w]) as h:
                    res.append(json.load(h))
            else:
                with open(outs[w] + '.err', errors='replace') as h:
                    errs.append('worker %d: status %s: %s' % (w, rc, h.read()[-500:]))
        viols = []
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        for w in range(WORKERS):
            try:
                with open(outs[w]) as h:
                    v = json.load(h)['violation']
            except (OSError, ValueError):
                continue
            if v:
                dst = os.path.join(V, 'replays', '%s-%s.plan' % (prop, v['seed']))
                shutil.copy(outs[w] + '.plan', dst)
                viols.append((v, dst))
        # a violation counts when a fresh process repeats it exactly
        good = []
        for v, dst in sorted(viols, key=lambda x: x[0]['ops_after']):
            sc = os.path.join(root, 'replay')
            os.makedirs(sc, exist_ok=True)
            r = subprocess.run(binary(prop) + ['replay', dst, sc], env=env(), stdout=subprocess.PIPE, text=True)
            got = dict(l.split('=', 1) for l in r.stdout.splitlines() if '=' in l)
            if r.returncode == 1 and got.get('cls') == v['cls'] and got.get('hash') == v['hash']:
                good.append((v, dst))
                if len(good) >= 2:
                    break
            else:
                errs.append('replay of %s differs: %s' % (dst, r.stdout[-300:]))
        return res, good, errs, kn
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(root, ignore_errors=True)


def evidence(prop, tier, seed, res, good, wall, build_s):
    import meta
    cnt, states, hashes, samples = {}, set(), set(), []
    for r in res:
        for k, x in r['counts'].items():
            cnt[k] = cnt.get(k, 0) + x
        states |= set(r['states'])
        hashes |= set(r['hashes'])
        samples += r['samples'][:1]
    runs = sum(r['runs'] for r in res)
    det = sum(r['determinism_reruns'] for r in res)
    swall = max([r['wall'] for r in res] + [1e-9])
    m = meta.META[prop]
    faults = {k[6:]: int(x) for k, x in sorted(cnt.items()) if k.startswith('fault.') and x}
    evals = {k[5:]: int(x) for k, x in sorted(cnt.items()) if k.startswith('eval.') and x}
    probes = {k[6:]: int(x) for k, x in sorted(cnt.items()) if k.startswith('probe.') and x}
    other = {k: int(x) for k, x in sorted(cnt.items()) if not k.startswith(('fault.', 'eval.', 'probe.')) and x}
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(hashes),
        'rule': m['rule'],
        'samples': samples[:6],
        'distinct_abstract_states': len(states),
        'abstract_state': m.get('state', meta.STATE),
        'oracle_evaluations': evals,
        'runs_per_hour': round(runs / swall * 3600),
        'seeds': 'one per run, derived from VERIF_SEED=%d, the property and the run number' % seed,
        'simulated_seconds': round(sum(r['sim_time'] for r in res), 3),
        'faults_injected': faults,
        'conditions_reached': probes,
        'other_counts': other,
        'determinism_reruns_identical': det,
        'real_components': m['real'],
        'stub_components': m['stub'],
        'build_s': round(build_s, 1),
        'violations_with_replay': [{'seed': v['seed'], 'class': v['cls'], 'what': v['what'], 'ops_before': v['ops_before'],
                                    'ops_after': v['ops_after'], 'replay': dst} for v, dst in good],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': m['assume'], 'wall_s': round(wall, 2), 'violations': len(good)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
        h.write('\n')


def main():
    a = sys.argv[1:]
    sys.path.insert(0, os.path.join(V, 'tools'))
    sys.dont_write_bytecode = True
    if a and a[0] == '--setup':
        s, _ = build(['simcheck', 'simalt'])
        subprocess.call(['ninja', '-C', BUILD, 'simros'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        print('built in %.1f s' % s)
        return 0
    if len(a) == 2 and a[0] == '--replay':
        return replay(os.path.abspath(a[1])).returncode
    if not a:
        print(__doc__)
        return 3
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:12], 16)
    t0 = time.time()
    bs, cached = build(targets_for(prop))
    print('build %.1f s%s' % (bs, ' (from a previous build)' if cached else ''), flush=True)
    budget = float(os.environ.get('SIM_BUDGET_S', QUICK_S if tier == 'quick' else THOROUGH_S))
    res, good, errs, kn = search(prop, tier, seed, budget)
    if not res and not good:
        for e in errs:
            print(e)
        die('no worker finished')
    evidence(prop, tier, seed, res, good, time.time() - t0, bs)
    for c in sorted(set(c for r in res for c in r['known'])):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[c]))
    print('%s %s: %d runs, %d distinct, %.0f s simulated' % (
        prop, tier, sum(r['runs'] for r in res), len(set(s for r in res for s in r['states'])), sum(r['sim_time'] for r in res)))
    if good:
        for v, dst in good[:1]:
            print('%s: %s (seed %s, %d of %d operations left)' % (v['cls'], v['what'], v['seed'], v['ops_after'], v['ops_before']))
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        return 1
    if errs:
        for e in errs:
            print(e)
        die('not every worker gave an answer')
    return 0


if __name__ == '__main__':
    sys.exit(main())
