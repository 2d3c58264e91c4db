#!/usr/bin/env python3
"""C27: the statistics of a batch, over the logs that simulated runs leave behind. Same command line as simcheck.

search <prop> <tier> <seed> <worker> <workers> <budget_s> <maxruns> <scratch> <out.json> [known classes]
replay <plan> <scratch>      gen <prop> <seed>      one <prop> <seed> <scratch>
"""
import copy, hashlib, json, math, os, random, resource, runpy, shutil, signal, sys, tempfile, time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
EVAL = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'eval')
sys.path.insert(0, os.path.join(HERE, 'stub'))
sys.path.insert(0, EVAL)
import numpy as np
import scipy.spatial.transform  # noqa: F401  (loaded once, before the runs are forked)
import yaml
import pandas

PROP, SCRIPT = 'C27', 'stats.py'
LISTS = ['imu', 'cam', 'gps']
LOADER = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)
RUNFAULTS = ['absent', 'empty', 'killed', 'killed', 'nologs', 'header', 'unit']
FILEFAULTS = ['gone', 'zero', 'header', 'torn', 'torn', 'value', 'half']


def seed_of(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:15], 16)


# ---------------------------------------------------------------- plans
def generate(seed, tier):
    r = random.Random(seed_of('plan', seed))
    names = ['a', 'run', 'x.y', 'two imu', 'cam-1', 'été', 'a_0', '0', 'b[1]']
    dirs = ['', 'cfg', 'deep/er', 'set.yaml.d', 'with space', 'runs', 'v[0]', 'st*r']
    inputs, used = [], set()
    for i in range(r.choices([1, 2, 3], [6, 3, 1])[0]):
        while True:
            d, n = r.choice(dirs), r.choice(names)
            if (d, n) not in used:
                break
        used.add((d, n))
        ids = list(range(1, 6)) if r.random() < 0.6 else r.sample([1, 2, 3, 8, 9, 10, 11, 12, 19, 20, 100], 5)
        q = {'rel': os.path.join(d, n) + ('.yml' if r.random() < 0.07 else '.yaml'), 'form': r.choice(['abs', 'rel', 'rel', 'dot']),
             'n': r.choice([1, 1, 2, 2, 3, 4, 5, 8, 10, 11, 12]), 'named': r.random() < 0.95,
             'imu': sorted(ids[:r.choice([0, 1, 1, 2])]), 'cam': sorted(ids[2:2 + r.choice([0, 0, 1, 2])]), 'gps': sorted(ids[4:4 + r.choice([0, 1])]),
             'seed': r.randrange(1 << 40), 'bad': None, 'faults': [], 'left': r.choice([0, 0, 0, 2])}
        total = max(q['n'], 3) + q['left']
        files = ['body_state', 'body_truth'] + ['imu_%d' % k for k in q['imu']] + ['msckf_%d' % k for k in q['cam']] + ['gps_%d' % k for k in q['gps']]
        if r.random() < 0.7:
            for k in range(r.choice([1, 1, 2, 3])):
                if r.random() < 0.5:
                    q['faults'].append({'run': r.randrange(total), 'kind': r.choice(RUNFAULTS), 'file': None, 'at': r.random()})
                else:
                    q['faults'].append({'run': r.randrange(total), 'kind': r.choice(FILEFAULTS), 'file': r.choice(files), 'at': r.random()})
        inputs.append(q)
    if len(inputs) > 1 and r.random() < 0.2:
        r.choice(inputs)['bad'] = r.choice(['absent', 'syntax', 'nokey', 'empty'])
    return {'seed': seed, 'inputs': inputs, 'runs': r.choice([None, None, None, 1, 2, 3, 5]), 'time': r.choice([None, None, 2.0]), 'cwd': r.choice(['', '', 'work']),
            'stale': r.random() < 0.2}


def stem(p):
    return os.path.splitext(p)[0]


def dirs_of(plan, q, more=0):
    """Directories of the runs, the directory of the summary."""
    n = plan['runs'] or (q['n'] if q['named'] else 1)
    top = os.path.basename(stem(q['rel']))
    base = stem(q['rel'])
    if n > 1 or plan['time']:
        digits = math.ceil(math.log10(n))
        return [os.path.join(base, 'runs', '%s_%0*d' % (top, digits, k) if digits else '%s_%d' % (top, k)) for k in range(n + more)], base if n > 1 else os.path.join(base, 'runs', '%s_0' % top), n
    return [base], base, 1


# ---------------------------------------------------------------- the logs of a run
def g(v):
    return '%.6g' % v


def table(head, rows):
    return ','.join(head) + '\n' + ''.join(','.join(r) + '\n' for r in rows)


def make_run(q, k):
    """name -> text of a complete run, as the simulator writes it."""
    r = random.Random(seed_of('run', q['seed'], k))
    out = {}
    T = r.uniform(1, 4)
    nt, ns = r.randrange(3, 12), r.randrange(1, 10)
    off = r.uniform(-30, 30)
    vec = lambda s: [off + r.uniform(-s, s) for _ in range(3)]
    head = ['time'] + ['body_%s_%d' % (n, i) for n in ('pos', 'vel', 'acc') for i in range(3)] + ['body_ang_pos_%d' % i for i in range(4)] + \
        ['body_%s_%d' % (n, i) for n in ('ang_vel', 'ang_acc') for i in range(3)]
    for i in q['imu']:
        head += ['imu_pos_%d_%d' % (i, c) for c in range(3)] + ['imu_ang_pos_%d_%d' % (i, c) for c in range(4)] + \
            ['imu_acc_bias_%d_%d' % (i, c) for c in range(3)] + ['imu_gyr_bias_%d_%d' % (i, c) for c in range(3)]
    for i in q['cam']:
        head += ['cam_pos_%d_%d' % (i, c) for c in range(3)] + ['cam_ang_pos_%d_%d' % (i, c) for c in range(4)]
    for i in q['gps']:
        head += ['gps_pos_%d_%d' % (i, c) for c in range(3)]
    head += ['ref_lat', 'ref_lon', 'ref_alt', 'ref_heading']
    const = {h: off * 0.1 + r.uniform(-1, 1) for h in head if not h.startswith(('time', 'body_'))}
    rows = []
    for j in range(nt):
        row = []
        for h in head:
            row.append(g(T * j / (nt - 1)) if h == 'time' else g(const[h]) if h in const else g(off + r.uniform(-5, 5)))
        rows.append(row)
    out['body_truth'] = (head, rows)
    head = ['time'] + ['body_%s_%d' % (n, i) for n in ('pos', 'vel', 'acc') for i in range(3)] + ['body_ang_pos_%d' % i for i in range(4)] + \
        ['body_%s_%d' % (n, i) for n in ('ang_vel', 'ang_acc') for i in range(3)] + ['body_cov_%d' % i for i in range(18)] + ['state_size', 'duration_0']
    rows = []
    for j in range(ns):
        t = T * (j + r.random()) / ns
        rows.append([g(t) if h == 'time' else str(18 + 12 * j) if h == 'state_size' else str(r.randrange(1, 3000)) if h == 'duration_0' else g(off + r.uniform(-5, 5)) for h in head])
    out['body_state'] = (head, rows)
    for i in q['imu']:
        head = ['time', 'stationary', 'score'] + ['imu_pos_%d' % c for c in range(3)] + ['imu_ang_pos_%d' % c for c in range(4)] + ['imu_acc_bias_%d' % c for c in range(3)] + \
            ['imu_gyr_bias_%d' % c for c in range(3)] + ['acc_%d' % c for c in range(3)] + ['omg_%d' % c for c in range(3)] + ['residual_%d' % c for c in range(6)] + ['duration_0']
        rows = []
        m = r.randrange(1, 12)
        for j in range(m):
            rows.append([g(T * (j + r.random()) / m) if h == 'time' else str(r.randrange(2)) if h == 'stationary' else str(r.randrange(1, 3000)) if h == 'duration_0'
                         else g(off * 0.1 + r.uniform(-2, 2)) for h in head])
        out['imu_%d' % i] = (head, rows)
    for i in q['cam']:
        head = ['time'] + ['cam_pos_%d' % c for c in range(3)] + ['cam_ang_pos_%d' % c for c in range(4)] + ['FeatureTracks', 'duration_0']
        m = r.randrange(1, 6)
        rows = [[g(T * (j + r.random()) / m) if h == 'time' else str(r.randrange(1, 3000)) if h in ('duration_0', 'FeatureTracks') else g(off * 0.1 + r.uniform(-2, 2)) for h in head]
                for j in range(m)]
        out['msckf_%d' % i] = (head, rows)
    for i in q['gps']:
        head = ['time', 'lat', 'lon', 'alt', 'x', 'y', 'z', 'ref_lat', 'ref_lon', 'ref_alt', 'ref_heading', 'is_initialized', 'residual_0', 'residual_1', 'residual_2', 'duration_0']
        m = r.randrange(1, 9)
        init = r.choice([0, r.randrange(m), r.randrange(m), m])
        ref = {h: off * 0.1 + r.uniform(-1, 1) for h in ('ref_lat', 'ref_lon', 'ref_alt', 'ref_heading')}
        rows = []
        for j in range(m):
            rows.append([g(T * (j + r.random()) / m) if h == 'time' else str(int(j >= init)) if h == 'is_initialized' else str(r.randrange(1, 3000)) if h == 'duration_0'
                         else g(ref[h] if j > init else 0) if h in ref else g(off + r.uniform(-5, 5)) for h in head])
        out['gps_%d' % i] = (head, rows)
    return out


def tear(head, rows, at, kind):
    """Text of a log cut short, the rows that are still whole."""
    text = table(head, rows)
    lo = len(table(head, []))
    if kind == 'half':
        keep = int(at * len(rows))
        return table(head, rows[:keep]), rows[:keep]
    if kind == 'value':
        # cut within the last value of a row, where what is left is no number
        keep = int(at * len(rows))
        if keep >= len(rows):
            return text, rows
        last = rows[keep][-1]
        cut = '-' if last.startswith('-') else last[:last.index('e') + 1] if 'e' in last else ''
        return table(head, rows[:keep]) + ','.join(rows[keep][:-1] + [cut]), rows[:keep]
    cut = lo + int(at * (len(text) - lo))
    t = text[:cut]
    whole = t[:t.rfind('\n') + 1]
    keep = whole.count('\n') - 1
    rest = t[len(whole):]
    if rest.count(',') == len(head) - 1 and rest[-1] != ',':
        t = whole + rest[:rest.rfind(',')]       # a number cut short cannot be told from a number
    return t, rows[:keep]


def build(plan, root, counts):
    """Writes the world. Returns per input the list of runs, each name -> (head, whole rows) or None if unreadable."""
    world = []
    for q in plan['inputs']:
        p = os.path.join(root, q['rel'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        doc = {'/EkfCalNode': {'ros__parameters': {'imu_list': [], 'sim_params': {'seed': 1, 'max_time': 10}}}}
        if q['named']:
            doc['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs'] = q['n']
        if q['bad'] == 'absent':
            counts['fault.config_absent'] = counts.get('fault.config_absent', 0) + 1
        else:
            with open(p, 'w') as f:
                if q['bad'] == 'syntax':
                    f.write('a: [1, 2\nb: }')
                elif q['bad'] == 'nokey':
                    f.write('a: 1\n')
                elif q['bad'] == 'empty':
                    pass
                else:
                    yaml.safe_dump(doc, f)
            if q['bad']:
                counts['fault.config_' + q['bad']] = counts.get('fault.config_' + q['bad'], 0) + 1
        dirs, top, n = dirs_of(plan, q, q['left'])
        runs = []
        for k, d in enumerate(dirs):
            full = os.path.join(root, d)
            logs = make_run(q, k)
            text = {m: table(h, r) for m, (h, r) in logs.items()}
            here = [f for f in q['faults'] if f['run'] == k]
            gone = False
            for f in here:
                if f['file'] is not None and f['file'] not in logs:
                    continue
                counts['fault.%s_%s' % ('log' if f['file'] else 'run', f['kind'])] = counts.get('fault.%s_%s' % ('log' if f['file'] else 'run', f['kind']), 0) + 1
                r = random.Random(seed_of('fault', q['seed'], k, f['at']))
                for m in ([f['file']] if f['file'] else sorted(text)):
                    h, rows = logs[m] or ((), ())
                    if logs[m] is None or m not in text:
                        continue
                    if f['kind'] == 'absent':
                        gone = True
                    if f['kind'] in ('absent', 'nologs', 'gone') or (f['kind'] == 'unit' and r.random() < 0.5):
                        del text[m]
                        logs[m] = None
                    elif f['kind'] in ('empty', 'zero'):
                        text[m], logs[m] = '', (h, [])
                    elif f['kind'] == 'header':
                        text[m], logs[m] = table(h, []), (h, [])
                    elif f['kind'] in ('killed', 'torn', 'value', 'half'):
                        a = f['at'] if f['file'] else min(1, max(0, f['at'] + r.uniform(-0.05, 0.05)))
                        text[m], keep = tear(h, rows, a, 'torn' if f['kind'] == 'killed' else f['kind'])
                        logs[m] = (h, keep)
            if not gone:
                os.makedirs(full, exist_ok=True)
                for m, t in text.items():
                    with open(os.path.join(full, m + '.csv'), 'w') as f:
                        f.write(t)
            runs.append(logs)
        if len(runs) > n:
            counts['fault.runs_left_over'] = counts.get('fault.runs_left_over', 0) + len(runs) - n
        # the directory of the summary exists since the runner has made it
        os.makedirs(os.path.join(root, top), exist_ok=True)
        if plan['stale']:
            counts['fault.old_summary'] = counts.get('fault.old_summary', 0) + 1
            with open(os.path.join(root, top, 'stats.txt'), 'w') as f:
                f.write('Statistic,RMSE-Mean,RMSE-StdDev\nbody_0_err_pos: 77.0000, 0.0000\nolder_0_err: 1.0000, 0.0000\n')
        world.append((runs[:n], top))
    return world


# ---------------------------------------------------------------- the reference
def col(log, name):
    h, rows = log
    i = h.index(name)
    return np.array([float(r[i]) for r in rows])


def rms(est, tru, enames, tnames):
    t, tt = col(est, 'time'), col(tru, 'time')
    s = np.zeros(len(t))
    for a, b in zip(enames, tnames):
        s = s + (col(est, a) - np.interp(t, tt, col(tru, b))) ** 2
    return float(np.sqrt(np.mean(s)))


def expect(q, runs):
    """key -> list of acceptable lists of values."""
    out = {}

    def usable(run, m):
        return run.get(m) is not None and len(run[m][1]) > 0

    def pairs(m, f):
        return [f(r[m], r['body_truth']) for r in runs if usable(r, m) and usable(r, 'body_truth')]

    def own(m, f):
        return [f(r[m]) for r in runs if usable(r, m)], [f(r[m]) for r in runs if usable(r, m) and usable(r, 'body_truth')]

    for n in ('pos', 'vel', 'acc', 'ang_vel', 'ang_acc'):
        c = ['body_%s_%d' % (n, i) for i in range(3)]
        out['body_0_err_' + n] = [pairs('body_state', lambda e, t: rms(e, t, c, c))]
    out['body_0_states'] = own('body_state', lambda e: float(np.mean(col(e, 'state_size'))))
    for k in q['imu']:
        m = 'imu_%d' % k
        out['imu_%d_err_pos' % k] = [pairs(m, lambda e, t: rms(e, t, ['imu_pos_%d' % i for i in range(3)], ['imu_pos_%d_%d' % (k, i) for i in range(3)]))]
        for b in ('acc', 'gyr'):
            out['imu_%d_err_%s_bias' % (k, b)] = [pairs(m, lambda e, t: rms(e, t, ['imu_%s_bias_%d' % (b, i) for i in range(3)], ['imu_%s_bias_%d_%d' % (b, k, i) for i in range(3)]))]
        out['imu_%d_duration' % k] = own(m, lambda e: float(np.mean(col(e, 'duration_0'))))
    for k in q['cam']:
        out['mskcf_%d_err_pos' % k] = [pairs('msckf_%d' % k, lambda e, t: rms(e, t, ['cam_pos_%d' % i for i in range(3)], ['cam_pos_%d_%d' % (k, i) for i in range(3)]))]
    for k in q['gps']:
        m = 'gps_%d' % k

        def after(e, t, names, f):
            on = np.nonzero(col(e, 'is_initialized'))[0]
            if len(on) == 0 or on[0] + 1 >= len(e[1]):
                return None
            return f([col(e, n)[on[0] + 1] - col(t, n)[0] for n in names])
        refs = [pairs(m, lambda e, t: after(e, t, ['ref_lat', 'ref_lon', 'ref_alt'], lambda d: float(np.sqrt(sum(x * x for x in d)))))]
        head = [pairs(m, lambda e, t: after(e, t, ['ref_heading'], lambda d: float(d[0])))]
        out['gps_%d_err_init_pos' % k] = [[v for v in x if v is not None] for x in refs]
        out['gps_%d_err_init_ang' % k] = [[v for v in x if v is not None] for x in head]
        out['gps_%d_init_count' % k] = own(m, lambda e: float(np.sum(col(e, 'is_initialized') == 0)))
    return out


# ---------------------------------------------------------------- one run
class Out:
    pass


def child(plan, root, log):
    """The real script in a process of its own: 0 done, 4 ended by an exception, 9 the stand-in lacks something."""
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    cwd = os.path.join(root, plan['cwd'])
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    argv = [os.path.join(EVAL, SCRIPT)]
    for q in plan['inputs']:
        p = os.path.join(root, q['rel'])
        argv.append(p if q['form'] == 'abs' else os.path.relpath(p, cwd) if q['form'] == 'rel' else os.path.join('.', os.path.relpath(p, cwd)))
    if plan['runs']:
        argv += ['-n', str(plan['runs'])]
    if plan['time']:
        argv += ['-t', str(plan['time'])]
    if plan.get('light'):
        argv.append('--light')
    fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    sys.stderr = os.fdopen(2, 'w', closefd=False)
    sys.argv = argv
    rc = 0
    try:
        runpy.run_path(argv[0], run_name='__main__')
    except pandas.Unsupported as x:
        print('UNSUPPORTED', x)
        rc = 9
    except SystemExit as x:
        rc = 0 if x.code in (None, 0) else 5
    except Exception as x:
        print('EXCEPTION %s: %s' % (type(x).__name__, x))
        rc = 4
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def summary(path):
    try:
        with open(path) as f:
            lines = f.read().split('\n')
    except OSError:
        return None
    d = {}
    for x in lines[1:]:
        if x.strip():
            k, _, v = x.rpartition(':')
            d.setdefault(k.strip(), []).append([float(y) for y in v.split(',')])
    return d


def simulate(plan, scratch):
    top = tempfile.mkdtemp(prefix='s', dir=scratch)
    root = os.path.join(top, 'w')
    os.mkdir(root)
    o = Out()
    o.viol, o.counts, o.states, o.evals, o.simt = None, {}, set(), 0, 0.0
    h = hashlib.sha256()
    c = o.counts

    def fail(cls, what, op=0):
        if o.viol is None:
            o.viol = (cls, what.replace(top, '').replace('\n', ' ')[:400], op)

    try:
        world = build(plan, root, c)
        log = os.path.join(top, 'log')
        pid = os.fork()
        if pid == 0:
            try:
                child(plan, root, log)
            finally:
                os._exit(8)
        st = os.waitpid(pid, 0)[1]
        rc = os.waitstatus_to_exitcode(st)
        with open(log, errors='replace') as f:
            said = f.read()
        h.update(('%d' % rc).encode())
        c['eval.calls'] = c.get('eval.calls', 0) + 1
        for q, (runs, _) in zip(plan['inputs'], world):
            o.simt += sum(float(x['body_truth'][1][-1][0]) for x in runs if x['body_truth'] and x['body_truth'][1])
            o.states.add(int(hashlib.sha256(repr((len(runs), len(q['imu']), len(q['cam']), len(q['gps']), q['bad'], bool(plan['runs']), bool(plan['time']),
                                                  sorted({(f['kind'], (f['file'] or '').split('_')[0]) for f in q['faults'] if f['run'] < len(runs)}))).encode()).hexdigest()[:12], 16))
        if rc == 9:
            c['probe.stand_in_gap'] = c.get('probe.stand_in_gap', 0) + 1
            return o
        if rc == 8 or rc < 0:
            raise RuntimeError('script ended with status %d: %s' % (rc, said[-300:]))
        bad = any(q['bad'] for q in plan['inputs'])
        if rc == 4:
            fail('exception', 'the script ends with ' + said[said.rfind('EXCEPTION') + 10:].split('\n')[0])
        elif rc == 5 and not bad:
            fail('exit', 'the script exits with a status although every configuration can be read')
        for i, (q, (runs, where)) in enumerate(zip(plan['inputs'], world)):
            if q['bad'] or o.viol:
                continue
            path = os.path.join(root, where, 'stats.txt')
            try:
                d = summary(path)
            except ValueError as x:
                fail('format', 'stats.txt of %s: %s' % (q['rel'], x), i)
                break
            want = expect(q, runs)
            if d is None:
                if any(v for x in want.values() for v in x):
                    fail('missing', 'no stats.txt for %s' % q['rel'], i)
                continue
            if 'older_0_err' in d:
                fail('stale', 'stats.txt of %s is that of an earlier evaluation' % q['rel'], i)
                break
            for k in sorted(want):
                alts = want[k]
                c['eval.statistics'] = c.get('eval.statistics', 0) + 1
                o.evals += 1
                got = d.get(k)
                h.update(repr((k, got)).encode())
                if not any(alts):
                    # nothing to say; a value all the same is made up
                    if got and any(x == x for x in got[0]):
                        fail('invented', '%s of %s: %s with no usable run' % (k, q['rel'], got[0]), i)
                    c['eval.nothing'] = c.get('eval.nothing', 0) + 1
                    continue
                if not all(alts) and (not got or all(x != x for x in got[0])):
                    continue
                if not got:
                    fail('absent', '%s is not in stats.txt of %s (%d usable runs of %d)' % (k, q['rel'], len(alts[0]), len(runs)), i)
                    break
                if len(got) > 1 or len(got[0]) != 2:
                    fail('format', '%s of %s: %s' % (k, q['rel'], got), i)
                    break
                ok = False
                for a in alts:
                    if a:
                        m, s = float(np.mean(a)), float(np.std(a))
                        ok = ok or (abs(got[0][0] - m) <= 1.01e-4 + 1e-6 * abs(m) and abs(got[0][1] - s) <= 1.01e-4 + 1e-6 * abs(m))
                if not ok:
                    a = alts[0] or alts[-1]
                    fail('value', '%s of %s: %s in stats.txt, the %d usable of %d runs have mean %.4f, deviation %.4f' % (k, q['rel'], got[0], len(a), len(runs), np.mean(a), np.std(a)), i)
                    break
            for k in sorted(d):
                h.update(repr((k, d[k])).encode())
    finally:
        shutil.rmtree(top, ignore_errors=True)
        if o.viol:
            h.update((o.viol[0] + o.viol[1]).encode())
        o.hash = h.hexdigest()[:16]
    return o


# ---------------------------------------------------------------- minimisation
def size(plan):
    return sum(1 + q['n'] + len(q['faults']) + len(q['imu']) + len(q['cam']) + len(q['gps']) + bool(q['bad']) + bool(q['left']) for q in plan['inputs']) + \
        sum(1 for k in ('runs', 'time', 'cwd', 'stale') if plan[k])


def shrink(plan, cls, scratch, limit):
    tried, end = 0, time.time() + limit

    def variants():
        for i in range(len(plan['inputs'])):
            if len(plan['inputs']) > 1:
                p = copy.deepcopy(plan)
                del p['inputs'][i]
                yield p
        for k, v in (('runs', None), ('time', None), ('cwd', ''), ('stale', False)):
            if plan[k] != v:
                yield dict(copy.deepcopy(plan), **{k: v})
        for i, q in enumerate(plan['inputs']):
            for j in range(len(q['faults'])):
                p = copy.deepcopy(plan)
                del p['inputs'][i]['faults'][j]
                yield p
            for k in LISTS:
                for j in range(len(q[k])):
                    p = copy.deepcopy(plan)
                    del p['inputs'][i][k][j]
                    yield p
            for k, v in (('bad', None), ('left', 0), ('n', 1), ('n', 2), ('form', 'abs'), ('named', True), ('rel', 'a%d.yaml' % i), ('imu', [1]), ('cam', [2]), ('gps', [3])):
                if q[k] != v and not (k == 'n' and q['n'] < v) and not (isinstance(v, list) and not q[k]):
                    p = copy.deepcopy(plan)
                    p['inputs'][i][k] = v
                    yield p

    go = True
    while go and time.time() < end:
        go = False
        for p in variants():
            if time.time() > end:
                break
            tried += 1
            try:
                o = simulate(p, scratch)
            except RuntimeError:
                continue
            if o.viol and o.viol[0] == cls:
                plan, go = p, True
                break
    return plan, tried


def save(plan, path):
    with open(path, 'w') as f:
        f.write('prop %s\nseed %d\n' % (PROP, plan['seed']) + json.dumps(plan, indent=1) + '\n')


def load(path):
    with open(path) as f:
        s = f.read()
    return json.loads(s[s.index('{'):])


def main():
    a = sys.argv[1:]
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', os.path.abspath(sys.argv[0])] + a)
    os.umask(0o022)
    if a[0] == 'gen':
        print(json.dumps(generate(int(a[2]), 'quick'), indent=1))
        return 0
    if a[0] in ('one', 'replay'):
        plan = generate(int(a[2]), 'quick') if a[0] == 'one' else load(a[1])
        o = simulate(plan, a[-1])
        print('viol=%d\nhash=%s' % (bool(o.viol), o.hash))
        if o.viol:
            print('cls=%s\nop=%s\nwhat=%s' % (o.viol[0], o.viol[2], o.viol[1]))
        if os.environ.get('SIM_COUNTS'):
            print(json.dumps(o.counts, sort_keys=True))
        return 1 if o.viol else 0
    prop, tier, seed, worker, workers, budget, maxruns, scratch, out = a[1:10]
    known = set(a[10:])
    seed, worker, workers, budget, maxruns = int(seed), int(worker), int(workers), float(budget), int(maxruns)
    t0 = time.time()
    counts, states, hashes, samples, hits = {}, set(), set(), [], set()
    runs = det = nondet = 0
    simt, viol = 0.0, None
    i = worker
    while time.time() - t0 < budget and runs < maxruns:
        s = seed_of(prop, seed, i) & ((1 << 53) - 1)
        i += workers
        plan = generate(s, tier)
        o = simulate(plan, scratch)
        runs += 1
        simt += o.simt
        for k, v in o.counts.items():
            counts[k] = counts.get(k, 0) + v
        states |= o.states
        if o.evals >= 5:
            hashes.add(o.hash)
        if len(samples) < 3:
            samples.append('seed %d: %d inputs, %d faults, %d statistics, hash %s' % (s, len(plan['inputs']), sum(len(q['faults']) for q in plan['inputs']), o.evals, o.hash))
        if not o.viol:
            if runs % 16 == 1:
                if simulate(plan, scratch).hash == o.hash:
                    det += 1
                else:
                    sys.stderr.write('seed %d is not deterministic\n' % s)
                    nondet += 1
            continue
        if o.viol[0] in known:
            hits.add(o.viol[0])
            continue
        if simulate(plan, scratch).hash != o.hash:
            sys.stderr.write('seed %d does not repeat\n' % s)
            nondet += 1
            continue
        small, tried = shrink(plan, o.viol[0], scratch, 20)
        q = simulate(small, scratch)
        viol = {'seed': s, 'cls': q.viol[0], 'what': q.viol[1], 'ops_before': size(plan), 'ops_after': size(small), 'op': q.viol[2], 'hash': q.hash, 'tried': tried}
        save(small, out + '.plan')
        break
    if viol is None and nondet:
        return 3
    with open(out, 'w') as f:
        json.dump({'runs': runs, 'determinism_reruns': det, 'wall': time.time() - t0, 'sim_time': simt, 'counts': counts, 'states': sorted(states),
                   'hashes': sorted(hashes), 'samples': samples, 'known': sorted(hits), 'violation': viol}, f)
    return 0


if __name__ == '__main__':
    sys.exit(main())
