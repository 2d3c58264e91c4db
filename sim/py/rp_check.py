#!/usr/bin/env python3
"""C28: the report of a batch, over the logs that simulated runs leave behind. Same command line as simcheck.

The world (batches, options, damage) is that of st_check; the runs log more, and what the report draws is kept by the stand-in for bokeh.
"""
import copy, hashlib, json, math, os, random, re, shutil, sys, tempfile

sys.dont_write_bytecode = True
import st_check as S
import numpy as np
from scipy.spatial.transform import Rotation as R
import scipy.stats.distributions  # noqa: F401  (loaded once, before the runs are forked)

S.PROP, S.SCRIPT = 'C28', 'report.py'
g = S.g
base_generate, base_make, base_size = S.generate, S.make_run, S.size


# ---------------------------------------------------------------- plans
def generate(seed, tier):
    p = base_generate(seed, tier)
    r = random.Random(S.seed_of('report', seed))
    p['light'] = r.random() < 0.3
    p['stale'] = False
    for q in p['inputs']:
        q['fid'] = [c for c in q['cam'] if r.random() < 0.6]
        q['boards'] = [r.choice([0, 1, 3, 7]) + 10 * i for i in range(len(q['fid']))]
        r.shuffle(q['boards'])
        q['ext'] = [k for k in q['imu'] + q['cam'] + q['gps'] if r.random() < 0.6]
        q['int'] = [k for k in q['imu'] if r.random() < 0.6]
        q['fidext'] = [k for k in q['fid'] if r.random() < 0.7]
        q['aug'] = bool(q['cam']) and r.random() < 0.8
        more = ['aug_state', 'feature_points', 'board_truth'] + ['fiducial_%d' % k for k in q['fid']] + ['triangulation_%d' % k for k in q['cam']]
        for f in q['faults']:
            if f['file'] is not None and r.random() < 0.4:
                f['file'] = r.choice(more)
    return p


def size(plan):
    return base_size(plan) + sum(len(q['fid']) + len(q['ext']) + len(q['int']) + len(q['fidext']) + q['aug'] for q in plan['inputs'])


def fids(q):
    return [(i, b) for i, b in zip(q['fid'], q['boards']) if i in q['cam']]


# ---------------------------------------------------------------- the logs of a run
def quat(x):
    """As logged: w, x, y, z."""
    q = x.as_quat()
    return [g(q[3]), g(q[0]), g(q[1]), g(q[2])]


def put(log, names, values):
    """Columns of a log, replaced or, before its last one, added."""
    head, rows = log
    for i, n in enumerate(names):
        if n in head:
            k = head.index(n)
            for row, v in zip(rows, values):
                row[k] = v[i]
        else:
            k = head.index('residual_0') if 'residual_0' in head else len(head) - 1
            head.insert(k, n)
            for row, v in zip(rows, values):
                row.insert(k, v[i])


def make_run(q, k):
    out = base_make(q, k)
    r = random.Random(S.seed_of('more', q['seed'], k))
    rnd = lambda s: R.from_rotvec([r.uniform(-s, s) for _ in range(3)])
    near = lambda t, s: t * rnd(s)
    flip = lambda v: [g(-float(x)) for x in v] if r.random() < 0.2 else v
    var = lambda n: [g(10 ** r.uniform(-7, -1)) for _ in range(n)]
    thead, trows = out['body_truth']
    T = float(trows[-1][0])
    q0, w = rnd(3), [r.uniform(-0.04, 0.04) for _ in range(3)]
    true = lambda t: q0 * R.from_rotvec([x * t / T for x in w])
    n4 = lambda s: ['%s_%d' % (s, i) for i in range(4)]
    put(out['body_truth'], n4('body_ang_pos'), [quat(true(float(x[0]))) for x in trows])
    consts = {}
    for kind, ids in (('imu', q['imu']), ('cam', q['cam'])):
        for i in ids:
            c = consts[i] = rnd(3)
            put(out['body_truth'], ['%s_ang_pos_%d_%d' % (kind, i, c_) for c_ in range(4)], [quat(c)] * len(trows))
    b = out['body_state']
    put(b, n4('body_ang_pos'), [flip(quat(near(true(float(x[0])), 0.4))) for x in b[1]])
    put(b, ['body_cov_%d' % i for i in range(18)], [var(18) for _ in b[1]])
    if q['aug']:
        m = r.randrange(1, 8)
        out['aug_state'] = (['time'] + ['aug_pos_%d' % i for i in range(3)] + ['aug_ang_%d' % i for i in range(4)],
                            [[g(T * (j + r.random()) / m)] + [g(r.uniform(-9, 9)) for _ in range(3)] + flip(quat(rnd(3))) for j in range(m)])
    for i in q['imu']:
        m = out['imu_%d' % i]
        put(m, n4('imu_ang_pos'), [flip(quat(near(consts[i], 0.4))) for _ in m[1]])
        if i in q['ext']:
            put(m, ['imu_ext_cov_%d' % j for j in range(6)], [var(6) for _ in m[1]])
        if i in q['int']:
            put(m, ['imu_int_cov_%d' % j for j in range(6)], [var(6) for _ in m[1]])
    pts = [[g(r.uniform(-9, 9)) for _ in range(3)] for _ in range(r.randrange(3, 30))]
    if q['cam']:
        out['feature_points'] = (['Feature', 'x', 'y', 'z'], [[str(j)] + p for j, p in enumerate(pts)])
    for i in q['cam']:
        m = out['msckf_%d' % i]
        put(m, n4('cam_ang_pos'), [flip(quat(near(consts[i], 0.4))) for _ in m[1]])
        if i in q['ext']:
            put(m, ['cam_cov_%d' % j for j in range(6)], [var(6) for _ in m[1]])
        rows = []
        n = r.randrange(1, 6)
        for j in range(n):
            t = '%.3g' % (T * (j + r.random()) / n)
            for f in r.sample(range(len(pts)), r.randrange(1, min(5, len(pts)))):
                rows.append([t, str(f)] + [g(float(v) + r.uniform(-1, 1)) for v in pts[f]])
        rows.sort(key=lambda x: float(x[0]))
        out['triangulation_%d' % i] = (['time', 'feature', 'x', 'y', 'z'], rows)
    boards = {}
    for i, bd in fids(q):
        pos, ang = [r.uniform(-9, 9) for _ in range(3)], rnd(3)
        boards[bd] = [str(bd)] + [g(v) for v in pos] + quat(ang)
        head = ['time', 'board'] + ['board_meas_pos_%d' % c for c in range(3)] + n4('board_meas_ang') + ['cam_pos_%d' % c for c in range(3)] + n4('cam_ang_pos') + \
            ['residual_%d' % c for c in range(6)]
        if i in q['fidext']:
            head += ['fid_pos_%d' % c for c in range(3)] + n4('fid_ang') + ['fid_cov_%d' % c for c in range(6)]
        if i in q['ext']:
            head += ['cam_cov_%d' % c for c in range(6)]
        head += ['duration_0']
        rows = []
        m = r.randrange(1, 9)
        for j in range(m):
            row = [g(T * (j + r.random()) / m), str(bd)] + [g(r.uniform(-5, 5)) for _ in range(3)] + flip(quat(rnd(3))) + [g(r.uniform(-1, 1)) for _ in range(3)] + \
                flip(quat(near(consts[i], 0.4))) + [g(r.uniform(-1, 1)) for _ in range(6)]
            if i in q['fidext']:
                row += [g(v + r.uniform(-1, 1)) for v in pos] + flip(quat(near(ang, 0.4))) + var(6)
            if i in q['ext']:
                row += var(6)
            rows.append(row + [str(r.randrange(1, 3000))])
        out['fiducial_%d' % i] = (head, rows)
    if q['cam'] or q['imu']:
        out['board_truth'] = (['board', 'pos_x', 'pos_y', 'pos_z', 'quat_w', 'quat_x', 'quat_y', 'quat_z'], [boards[b] for b in sorted(boards)])
    return out


# ---------------------------------------------------------------- the reference
def cols(log, names):
    return [S.col(log, n) for n in names]


def rot(log, names):
    a = np.array(cols(log, names)).T
    return R.from_quat(np.stack([a[:, 1], a[:, 2], a[:, 3], a[:, 0]], axis=1))


def true_rot(tru, names, t):
    """Attitude of the truth at given times."""
    tt, a = S.col(tru, 'time'), np.array(cols(tru, names))
    a = np.array([np.interp(t, tt, x) for x in a]).T
    return R.from_quat(np.stack([a[:, 1], a[:, 2], a[:, 3], a[:, 0]], axis=1))


def ang_err(e, t):
    """Angles of the rotation between two attitudes, in each of the ways to take it."""
    return [x.as_euler('XYZ').T for x in (e * t.inv(), t * e.inv(), t.inv() * e, e.inv() * t)]


def err(est, tru, en, tn):
    t, tt = S.col(est, 'time'), S.col(tru, 'time')
    return [S.col(est, a) - np.interp(t, tt, S.col(tru, b)) for a, b in zip(en, tn)]


def names(f, n, start=0):
    return [f % i for i in range(start, start + n)]


class Tab:
    def __init__(self):
        self.series = []       # (group, component, run, x, alternatives of y, needed, tolerance)
        self.stats = None
        self.tri = None

    def add(self, group, run, x, ys, need, tol=1e-6):
        """ys: per component a list of alternatives."""
        for i, y in enumerate(ys):
            self.series.append((group, i, run, x, y, need, tol))


def nees(es, angs, vs):
    """Alternatives of the sum of squared errors, each over its variance: es errors, angs alternatives of attitude errors (or None), vs variances."""
    out = []
    for a in angs or [[]]:
        s = 0
        for e, v in zip(list(es[0]) + list(a) + list(es[1]), vs):
            s = s + e * e / v
        out.append(s)
    return out


def expect(q, runs):
    """Title of a tab -> what it may and what it has to show."""
    tabs = {}

    def usable(run, m):
        return run.get(m) is not None and len(run[m][1]) > 0

    def tab(title, m, f, more=()):
        t = Tab()
        for k, run in enumerate(runs):
            if usable(run, m):
                ok = all(usable(run, x) for x in ('body_truth',) + tuple(more))
                f(t, k, run[m], run if ok else None, ok)
        t.stats = [[S.col(run[m], 'duration_0') for run in runs if usable(run, m) and (not b or all(usable(run, x) for x in ('body_truth',) + tuple(more)))] for b in (1, 0)]
        t.need = any(s[5] for s in t.series)
        tabs[title] = t
        return t

    def plain(t, group, k, log, ns, ok):
        t.add(group, k, S.col(log, 'time'), [[y] for y in cols(log, ns)], ok)

    def body(t, k, e, run, ok):
        x = S.col(e, 'time')
        for n in ('pos', 'vel', 'acc', 'ang_vel', 'ang_acc'):
            plain(t, n, k, e, names('body_%s_%%d' % n, 3), ok)
        t.add('ang', k, x, [[y] for y in rot(e, names('body_ang_pos_%d', 4)).as_euler('XYZ').T], ok, 1e-5)
        for i, n in enumerate(('pos', 'vel', 'acc', 'ang', 'ang_vel', 'ang_acc')):
            plain(t, n + ' cov', k, e, names('body_cov_%d', 3, 3 * i), ok)
        plain(t, 'size', k, e, ['state_size'], ok)
        if ok:
            tru = run['body_truth']
            es = {n: err(e, tru, names('body_%s_%%d' % n, 3), names('body_%s_%%d' % n, 3)) for n in ('pos', 'vel', 'acc', 'ang_vel', 'ang_acc')}
            for n in es:
                t.add(n + ' err', k, x, [[y] for y in es[n]], ok)
            a = ang_err(rot(e, names('body_ang_pos_%d', 4)), true_rot(tru, names('body_ang_pos_%d', 4), x))
            t.add('ang err', k, x, [[b[i] for b in a] for i in range(3)], ok, 1e-4)
            t.add('nees', k, x, [nees((es['pos'] + es['vel'] + es['acc'], es['ang_vel'] + es['ang_acc']), a, cols(e, names('body_cov_%d', 18)))], ok, 1e-3)

    b = tab('Body', 'body_state', body)
    for k, run in enumerate(runs):
        if usable(run, 'aug_state'):
            e = run['aug_state']
            ok = b.need and usable(run, 'body_state') and usable(run, 'body_truth')
            plain(b, 'aug pos', k, e, names('aug_pos_%d', 3), ok)
            b.add('aug ang', k, S.col(e, 'time'), [[y] for y in rot(e, names('aug_ang_%d', 4)).as_euler('XYZ').T], ok, 1e-5)

    for i in q['imu']:
        def imu(t, k, e, run, ok):
            x = S.col(e, 'time')
            plain(t, 'acc', k, e, names('acc_%d', 3), ok)
            plain(t, 'omg', k, e, names('omg_%d', 3), ok)
            plain(t, 'acc res', k, e, names('residual_%d', 3), ok)
            plain(t, 'omg res', k, e, names('residual_%d', 3, 3), ok)
            plain(t, 'stationary', k, e, ['stationary', 'score'], ok)
            tru = run and run['body_truth']
            lead, tail, a, vs = [], [], None, []
            if i in q['ext']:
                plain(t, 'pos cov', k, e, names('imu_ext_cov_%d', 3), ok)
                plain(t, 'ang cov', k, e, names('imu_ext_cov_%d', 3, 3), ok)
                if ok:
                    lead = err(e, tru, names('imu_pos_%d', 3), names('imu_pos_%d_%%d' % i, 3))
                    a = ang_err(rot(e, names('imu_ang_pos_%d', 4)), true_rot(tru, names('imu_ang_pos_%d_%%d' % i, 4), x))
                    vs += cols(e, names('imu_ext_cov_%d', 6))
                    t.add('pos err', k, x, [[y] for y in lead], ok)
                    t.add('ang err', k, x, [[b[c] for b in a] for c in range(3)], ok, 1e-4)
            if i in q['int']:
                plain(t, 'bias cov', k, e, names('imu_int_cov_%d', 3), ok)
                plain(t, 'gyr cov', k, e, names('imu_int_cov_%d', 3, 3), ok)
                if ok:
                    ea = err(e, tru, names('imu_acc_bias_%d', 3), names('imu_acc_bias_%d_%%d' % i, 3))
                    eg = err(e, tru, names('imu_gyr_bias_%d', 3), names('imu_gyr_bias_%d_%%d' % i, 3))
                    t.add('acc bias err', k, x, [[y] for y in ea], ok)
                    t.add('gyr bias err', k, x, [[y] for y in eg], ok)
                    tail = ea + eg
                    vs += cols(e, names('imu_int_cov_%d', 6))
            if vs:
                t.add('nees', k, x, [nees((lead, tail), a, vs)], ok, 1e-3)
        tab('IMU %d' % i, 'imu_%d' % i, imu)

    def camera(t, i, k, e, run, ok):
        """The estimates of a camera, in the log of its tracks or of its boards."""
        x = S.col(e, 'time')
        plain(t, 'cam pos', k, e, names('cam_pos_%d', 3), ok)
        eu = rot(e, names('cam_ang_pos_%d', 4)).as_euler('XYZ').T
        t.add('cam ang', k, x, [[y, z] for y, z in zip(cols(e, names('cam_ang_pos_%d', 3, 1)), eu)], ok, 1e-5)
        plain(t, 'pos cov', k, e, names('cam_cov_%d', 3), ok)
        plain(t, 'ang cov', k, e, names('cam_cov_%d', 3, 3), ok)
        if ok:
            tru = run['body_truth']
            lead = err(e, tru, names('cam_pos_%d', 3), names('cam_pos_%d_%%d' % i, 3))
            a = ang_err(rot(e, names('cam_ang_pos_%d', 4)), true_rot(tru, names('cam_ang_pos_%d_%%d' % i, 4), x))
            t.add('pos err', k, x, [[y] for y in lead], ok)
            t.add('ang err', k, x, [[b[c] for b in a] for c in range(3)], ok, 1e-4)
            return lead, a

    for i in q['cam']:
        def cam(t, k, e, run, ok):
            plain(t, 'tracks', k, e, ['FeatureTracks'], ok)
            if i in q['ext']:
                r = camera(t, i, k, e, run, ok)
                if r:
                    t.add('nees', k, S.col(e, 'time'), [nees((r[0], []), r[1], cols(e, names('cam_cov_%d', 6)))], ok, 1e-3)
        t = tab('MSCKF %d' % i, 'msckf_%d' % i, cam)
        t.tri = []
        for strict in (1, 0):
            acc = {}
            for run in runs:
                m = 'triangulation_%d' % i
                if usable(run, m) and usable(run, 'feature_points') and (not strict or usable(run, 'msckf_%d' % i) and usable(run, 'body_truth')):
                    where = {int(float(p[0])): [float(v) for v in p[1:]] for p in run['feature_points'][1]}
                    for row in run[m][1]:
                        if int(row[1]) in where:
                            acc.setdefault(float(row[0]), []).append([float(v) - w for v, w in zip(row[2:], where[int(row[1])])])
            ts = sorted(acc)
            t.tri.append((np.array(ts), [np.array([np.mean([e[c] for e in acc[x]]) for x in ts]) for c in range(3)], [np.array([np.std([e[c] for e in acc[x]]) for x in ts]) for c in range(3)]))

    for i, bd in fids(q):
        def fid(t, k, e, run, ok):
            x = S.col(e, 'time')
            plain(t, 'board pos', k, e, names('board_meas_pos_%d', 3), ok)
            t.add('board ang', k, x, [[y] for y in rot(e, names('board_meas_ang_%d', 4)).as_euler('XYZ').T], ok, 1e-5)
            if i in q['ext']:
                camera(t, i, k, e, run, ok)
            if i in q['fidext'] and ok:
                row = [w for w in run['board_truth'][1] if w[0] == str(bd)]
                if row:
                    tr = [float(v) for v in row[0][1:]]
                    es = [S.col(e, 'fid_pos_%d' % c) - tr[c] for c in range(3)]
                    a = ang_err(rot(e, names('fid_ang_%d', 4)), R.from_quat([tr[4], tr[5], tr[6], tr[3]]))
                    t.add('nees', k, x, [nees((es, []), a, cols(e, names('fid_cov_%d', 6)))], ok, 1e-3)
        tab('Fiducial %d' % i, 'fiducial_%d' % i, fid, ['board_truth'])

    for i in q['gps']:
        def gps(t, k, e, run, ok):
            x = S.col(e, 'time')
            plain(t, 'fixes', k, e, ['x', 'y', 'z'], ok)
            plain(t, 'residuals', k, e, names('residual_%d', 3), ok)
            if i in q['ext']:
                plain(t, 'cov', k, e, names('gps_cov_%d', 3), ok)
                if ok:
                    es = err(e, run['body_truth'], names('ant_pos_%d', 3), names('gps_pos_%d_%%d' % i, 3))
                    t.add('pos err', k, x, [[y] for y in es], ok)
                    t.add('nees', k, x, [nees((es, []), None, cols(e, names('gps_cov_%d', 3)))], ok, 1e-3)
        tab('GPS %d' % i, 'gps_%d' % i, gps)
    return tabs


def more_gps(q, k, out):
    r = random.Random(S.seed_of('gps', q['seed'], k))
    for i in q['gps']:
        if i in q['ext']:
            m = out['gps_%d' % i]
            put(m, names('ant_pos_%d', 3) + names('gps_cov_%d', 3), [[g(r.uniform(-2, 2)) for _ in range(3)] + [g(10 ** r.uniform(-7, -1)) for _ in range(3)] for _ in m[1]])
    return out


def close(a, b, tol, floor=1e-10):
    return len(a) == len(b) and bool(np.all(np.abs(a - b) <= tol * np.abs(b) + floor))


def judge(doc, tabs, fail, c):
    """Compares a saved report with what its runs logged."""
    seen = {}
    for t in doc['tabs']:
        if t['title'] in seen:
            return fail('tab', 'two tabs are named %s' % t['title'])
        seen[t['title']] = t
    for title in seen:
        if title not in tabs or not (tabs[title].need or tabs[title].series):
            return fail('tab', 'a tab %s of nothing that was logged' % title)
    for title, t in tabs.items():
        if title not in seen:
            if t.need:
                return fail('tab', 'no tab %s although %d runs logged it' % (title, len({s[2] for s in t.series if s[5]})))
            continue
        c['eval.tabs'] = c.get('eval.tabs', 0) + 1
        index = {}
        for n, s in enumerate(t.series):
            index.setdefault((len(s[3]), '%.6g' % s[3][0]), []).append(n)
        drawn = set()
        tri_seen = False
        for f in seen[title]['figs']:
            where = '%s, "%s"' % (title, f['title'])
            scale = 1e3 if '[mm]' in f['y'] or '[mrad]' in f['y'] else 1.0
            groups = set()
            tri = set()
            lines = []
            for gl in f['glyphs']:
                if gl['kind'] == 'quad':
                    unit = 1.0 if '[us]' in f['x'] else 1e-3 if '[ms]' in f['x'] else 1e-6 if '[s]' in f['x'] else None
                    ok = False
                    for alt in t.stats:
                        d = np.concatenate(alt) * (unit or 1.0) if alt else np.array([])
                        n = sum(gl['top'])
                        ok = ok or (n == len(d) and (unit is None or not len(d) or (abs(gl['left'][0] - d.min()) <= 1e-6 * d.max() and abs(gl['right'][-1] - d.max()) <= 1e-6 * d.max()) or d.min() == d.max()))
                    c['eval.histograms'] = c.get('eval.histograms', 0) + 1
                    if not ok:
                        d = np.concatenate(t.stats[0]) if t.stats[0] else np.array([0.0])
                        return fail('histogram', '%s: %d updates from %.6g to %.6g %s; the runs logged %d from %.6g to %.6g us' % (where, sum(gl['top']), gl['left'][0], gl['right'][-1], f['x'], len(d), d.min(), d.max()))
                    continue
                x, y = np.array(gl['x']), np.array(gl['y'])
                if not len(x) and not len(y):
                    continue
                c['eval.lines'] = c.get('eval.lines', 0) + 1
                if len(x) != len(y):
                    return fail('length', '%s: a line of %d times and %d values' % (where, len(x), len(y)))
                if t.tri is not None:
                    hit = [k for k in range(3) for a in t.tri if close(x, a[0], 1e-9) and close(y, a[1][k] * scale, 1e-6, 1e-9)]
                    if hit:
                        tri.update(hit)
                        groups.add('triangulation')
                        continue
                cand = {}
                for n in index.get((len(x), '%.6g' % x[0]), []):
                    s = t.series[n]
                    if close(x, s[3], 1e-9):
                        d = [float(np.max(np.abs(y - a * scale) / (np.abs(a) * scale + 1e-12))) for a in s[4]
                             if close(y, a * scale, s[6], s[6] * scale if 'ang' in s[0] and 'cov' not in s[0] else 1e-10)]
                        if d:
                            cand[n] = min(d)
                if not cand:
                    run = [t.series[n][2] for n in index.get((len(x), '%.6g' % x[0]), [])]
                    return fail('line', '%s: the line %s of run %s, starting with %.6g at %.6g, is nothing that the run logged, nor its error' % (where, gl['label'], run[0] if run else '?', y[0], x[0]))
                lines.append((gl['label'], cand))
            # short logs may have more than one reading: a figure shows one thing, as closely as it can
            both = set.intersection(*({t.series[n][0] for n in cand} for _, cand in lines)) if lines else set()
            rest = {gr: sum(min(d for n, d in cand.items() if t.series[n][0] == gr) for _, cand in lines) for gr in sorted(both)}
            group = min(rest, key=rest.get) if rest else None
            for label, cand in lines:
                pick = {n: d for n, d in cand.items() if group is None or t.series[n][0] == group}
                free = {n: d for n, d in pick.items() if n not in drawn} or pick
                if label in ('X', 'Y', 'Z'):
                    free = {n: d for n, d in free.items() if t.series[n][1] == 'XYZ'.index(label)} or free
                hit = min(free, key=free.get)
                s = t.series[hit]
                if hit in drawn and s[0] != 'nees':
                    return fail('twice', '%s: %s of run %d is drawn twice' % (where, s[0], s[2]))
                drawn.add(hit)
                groups.add(s[0])
                if label in ('X', 'Y', 'Z') and 'XYZ'.index(label) != s[1]:
                    return fail('label', '%s: the line %s is component %d of %s' % (where, label, s[1], s[0]))
            if len(groups) > 1:
                return fail('mixed', '%s: shows %s together' % (where, ' and '.join(sorted(groups))))
            if tri:
                tri_seen = True
                if tri != {0, 1, 2}:
                    return fail('missing', '%s: triangulation errors without component %s' % (where, {0, 1, 2} - tri))
                for b in f['bands']:
                    ok = any(close(np.array(b['base']), a[0], 1e-9) and close(np.array(b['lower']), (a[1][k] - a[2][k]) * scale, 1e-6, 1e-9) and close(np.array(b['upper']), (a[1][k] + a[2][k]) * scale, 1e-6, 1e-9)
                             for a in t.tri for k in range(3))
                    if not ok:
                        return fail('band', '%s: the band is not the mean and deviation of the errors' % where)
        for n, s in enumerate(t.series):
            if s[5] and n not in drawn:
                return fail('missing', '%s: %s (component %d) of run %d is not shown' % (title, s[0], s[1], s[2]))
        if t.tri is not None and len(t.tri[0][0]) and not tri_seen:
            return fail('missing', '%s: triangulation errors are not shown' % title)


# ---------------------------------------------------------------- one run
def simulate(plan, scratch):
    top = tempfile.mkdtemp(prefix='r', dir=scratch)
    root = os.path.join(top, 'w')
    os.mkdir(root)
    o = S.Out()
    o.viol, o.counts, o.states, o.evals, o.simt = None, {}, set(), 0, 0.0
    h = hashlib.sha256()
    c = o.counts

    def failer(i):
        def fail(cls, what, op=i):
            if o.viol is None:
                o.viol = (cls, what.replace(top, '').replace('\n', ' ')[:400], op)
        return fail

    try:
        world = S.build(plan, root, c)
        log = os.path.join(top, 'log')
        pid = os.fork()
        if pid == 0:
            try:
                S.child(plan, root, log)
            finally:
                os._exit(8)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        with open(log, errors='replace') as f:
            said = f.read()
        h.update(('%d' % rc).encode())
        c['eval.calls'] = c.get('eval.calls', 0) + 1
        for q, (runs, _) in zip(plan['inputs'], world):
            o.simt += sum(float(x['body_truth'][1][-1][0]) for x in runs if x['body_truth'] and x['body_truth'][1])
            o.states.add(int(hashlib.sha256(repr((len(runs), len(q['imu']), len(q['cam']), len(q['gps']), len(q['fid']), len(q['ext']), len(q['int']), q['aug'], q['bad'],
                                                  sorted({(f['kind'], (f['file'] or '').split('_')[0]) for f in q['faults'] if f['run'] < len(runs)}))).encode()).hexdigest()[:12], 16))
        if rc == 9:
            c['probe.stand_in_gap'] = c.get('probe.stand_in_gap', 0) + 1
            if os.environ.get('SIM_VERBOSE'):
                print(said)
            return o
        if rc == 8 or rc < 0:
            raise RuntimeError('script ended with status %d: %s' % (rc, said[-300:]))
        bad = any(q['bad'] for q in plan['inputs'])
        if rc == 4:
            failer(0)('exception', 'the script ends with ' + said[said.rfind('EXCEPTION') + 10:].split('\n')[0])
        elif rc == 5 and not bad:
            failer(0)('exit', 'the script exits with a status although every configuration can be read')
        for i, (q, (runs, where)) in enumerate(zip(plan['inputs'], world)):
            if q['bad'] or o.viol:
                continue
            fail = failer(i)
            tabs = expect(q, runs)
            d = os.path.join(root, where)
            reports = sorted(x for x in os.listdir(d) if x.endswith('.html'))
            if not reports:
                if any(t.need for t in tabs.values()):
                    fail('absent', 'no report in %s' % where)
                continue
            if len(reports) > 1:
                fail('absent', 'several reports in %s: %s' % (where, reports))
                continue
            with open(os.path.join(d, reports[0])) as f:
                doc = json.load(f)
            n0 = c.get('eval.lines', 0)
            judge(doc, tabs, fail, c)
            o.evals += c.get('eval.lines', 0) - n0
            doc.pop('filename')
            h.update(json.dumps(doc, sort_keys=True).encode())
    finally:
        shutil.rmtree(top, ignore_errors=True)
        if o.viol:
            h.update((o.viol[0] + o.viol[1]).encode())
        o.hash = h.hexdigest()[:16]
    return o


S.generate, S.size, S.simulate = generate, size, simulate
S.make_run = lambda q, k: more_gps(q, k, make_run(q, k))
S.LISTS = ['imu', 'cam', 'gps', 'fid', 'ext', 'int', 'fidext']

if __name__ == '__main__':
    sys.exit(S.main())
