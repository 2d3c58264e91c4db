#!/usr/bin/env python3
"""C26: the Monte-Carlo runner over simulated processes. Same command line as simcheck.

search <prop> <tier> <seed> <worker> <workers> <budget_s> <maxruns> <scratch> <out.json> [known classes]
replay <plan> <scratch>      gen <prop> <seed>      one <prop> <seed> <scratch>
"""
import argparse, concurrent.futures, copy, errno, glob, hashlib, io, json, multiprocessing, multiprocessing.pool, os, random
import resource, shutil, signal, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc_sim
import yaml

LOADER = mc_sim.LOADER

EVAL = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'eval')
CONF = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'config')


# ---------------------------------------------------------------- plans
def shipped():
    return sorted(glob.glob(os.path.join(CONF, '**', '*.yaml'), recursive=True))


def seed_of(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:15], 16)


def generate(seed, tier):
    r = random.Random(seed_of('plan', seed))
    names = ['a', 'run', 'x.y', 'mc_0', 'two imu', 'cam-1', 'été', 'a_0', '0']
    dirs = ['', 'cfg', 'deep/er', 'set.yaml.d', 'with space', 'runs']
    big = 0.03 if tier == 'quick' else 0.1
    inputs = []
    used = set()
    for i in range(r.choices([1, 2, 3, 5], [5, 4, 2, 1])[0]):
        while True:
            d, n = r.choice(dirs), r.choice(names)
            if (d, n) not in used:
                break
        used.add((d, n))
        nr = r.choice([1, 2, 2, 3, 4, 5, 9, 10, 11]) if r.random() > big else r.choice([20, 99, 100, 101])
        inp = {'uid': 'u%d' % i, 'rel': os.path.join(d, n) + ('.yml' if r.random() < 0.07 else '.yaml'),
               'form': r.choice(['abs', 'rel', 'rel', 'dot', 'odd']), 'n': nr, 'start': r.choice([0, 0, 0, 1, 5, 100]),
               'seed': r.choice([1, 1, 7, 12345, 0, 0.0, 3.0, 2147483647]), 'max_time': r.choice([10.0, 5, 0.25]),
               'missing': [], 'bad': None, 'base': r.choice(['small'] * 6 + ['shipped', 'anchor']), 'pick': r.randrange(1000)}
        for k in ('number_of_runs', 'run_number', 'seed', 'max_time'):
            if r.random() < 0.05:
                inp['missing'].append(k)
        inputs.append(inp)
    if r.random() < 0.15 and len(inputs) > 1:
        r.choice(inputs)['bad'] = r.choice(['absent', 'syntax', 'nokey', 'empty', 'dir'])
    calls = []
    ncalls = r.choices([1, 2, 3], [4, 4, 2])[0]
    # (the options stay the same over the calls of most histories)
    opts = None
    for c in range(ncalls):
        if opts is None or r.random() < 0.3:
            opts = {'runs': r.choice([None, None, None, 1, 2, 3, 4, 7, 10, 12]), 'time': r.choice([None, None, None, 0.5, 5.0, 3.0])}
            if opts['runs'] and opts['runs'] > 7 and len(inputs) > 3:
                opts['runs'] = 3
        order = list(range(len(inputs)))
        if r.random() < 0.3:
            r.shuffle(order)
        if c and r.random() < 0.15:
            order = order[:max(1, len(order) - 1)]
        cl = {'script': 'evaluate' if r.random() < 0.2 else 'run', 'order': order, 'runs': opts['runs'], 'time': opts['time'],
              'jobs': r.choice([None, None, 1, 2, 3, 8]), 'ncpu': r.choice([1, 2, 4, 8]), 'no_plot': r.random() < 0.3,
              'cwd': r.choice(['', '', 'cfg', 'work']), 'sched_seed': r.randrange(1 << 48), 'sched': None,
              'policy': r.choice(['uniform', 'main_first', 'main_last', 'prio', 'prio']), 'speed': r.choice([0.1, 1.0, 1.0, 10.0]),
              'crash': None, 'sims': [], 'fs': []}
        if r.random() < 0.5:
            for inp in inputs:
                for k in range(r.choice([0, 1, 1, 2])):
                    b = {'uid': inp['uid'], 'start': 0 if 'run_number' in inp['missing'] else inp['start'],
                         'run': r.choice([None] + list(range(min(inp['n'], 12)))), 'exit': r.choice([0, 1, 2, -11, -9, 134, 0]),
                         'stderr': r.random() < 0.4, 'stdout': r.random() < 0.7, 'binary': r.random() < 0.2, 'speed': r.choice([0.01, 1.0, 10.0])}
                    cl['sims'].append(b)
        if r.random() < 0.35:
            for k in range(r.choice([1, 1, 2])):
                inp = r.choice(inputs)
                op = r.choice(['open', 'write', 'mkdir', 'exec', 'exec', 'read'])
                e = {'open': [errno.EACCES, errno.ENOSPC, errno.EMFILE], 'write': [errno.ENOSPC], 'mkdir': [errno.ENOSPC, errno.EACCES],
                     'exec': [errno.ENOENT, errno.EAGAIN, errno.ENOMEM, errno.EACCES], 'read': [errno.EIO, errno.EMFILE]}[op]
                cl['fs'].append({'op': op, 'under': os.path.splitext(inp['rel'])[0] if op != 'read' else inp['rel'], 'nth': r.choice([1, 1, 2, 3, 4, 6, 9]),
                                 'errno': r.choice(e), 'name': {'open': 'file_open', 'write': 'disk_full', 'mkdir': 'mkdir', 'exec': 'process_start',
                                                                'read': 'read_input'}[op], 'uid': inp['uid']})
        if c + 1 < ncalls and r.random() < 0.35:
            cl['crash'] = r.choice([3, 8, 20, 45, 90, 150]) + r.randrange(10)
        calls.append(cl)
    # (numbers drawn from wide ranges may be equal: in some histories, they often are)
    if r.random() < 0.3:
        most = max([i['n'] for i in inputs] + [c['runs'] or 0 for c in calls])
        for c in calls:
            c['coarse'] = 2 * most + 3
    return {'seed': seed, 'inputs': inputs, 'calls': calls}


def content(inp):
    if inp['base'] == 'shipped' and shipped():
        fs = shipped()
        with open(fs[inp['pick'] % len(fs)]) as f:
            d = yaml.safe_load(f)
        ros = d.get('/EkfCalNode', {}).get('ros__parameters') if isinstance(d, dict) else None
        if not isinstance(ros, dict):
            return content(dict(inp, base='small'))
        ros.setdefault('sim_params', {})
    else:
        ros = {'data_log_rate': 0.0, 'imu_list': ['A', 'B'], 'camera_list': [], 'process_noise': {'pos': 1.0e-9, 'vel': 0.1, 'note': 'a: b # c'},
               'imu': {'A': {'rate': 400.0, 'pos': [0.0, -1.5, 1e22], 'flag': True, 'topic': '/imu', 'none': None},
                       'B': {'rate': 100, 'pos': [0.1 * (inp['pick'] % 7), 2.5e-07, 0.0], 'flag': False, 'topic': 'on', 'empty': []}},
               'sim_params': {'truth_type': 'cyclic', 'pos_frequency': [0.3, 0.5, 0.7], 'no_errors': False}}
        d = {'/EkfCalNode': {'ros__parameters': ros}}
        if inp['base'] == 'anchor':
            ros['shared'] = ros['imu']['A']        # dumped as an anchor and an alias
    ros['uid'] = inp['uid']
    sp = ros['sim_params']
    for k, v in (('number_of_runs', inp['n']), ('run_number', inp['start']), ('seed', inp['seed']), ('max_time', inp['max_time'])):
        sp[k] = v
        if k in inp['missing']:
            del sp[k]
    if inp['bad'] == 'nokey':
        del ros['sim_params']
    return d


def write_input(inp, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if inp['bad'] == 'absent':
        return None
    if inp['bad'] == 'dir':
        os.makedirs(path)
        return None
    if inp['bad'] == 'empty':
        text = ''
    elif inp['bad'] == 'syntax':
        text = '/EkfCalNode:\n  ros__parameters: [1, 2\n  a: }\n'
    else:
        text = yaml.dump(content(inp), default_flow_style=inp['pick'] % 5 == 0)
    with open(path, 'w') as f:
        f.write(text)
    return text


# ---------------------------------------------------------------- one run
class Viol(Exception):
    def __init__(self, cls, what, op):
        Exception.__init__(self, what)
        self.cls, self.what, self.op = cls, what, op


class Out:
    pass


def argv_of(cl, inputs, root):
    a = []
    cwd = os.path.join(root, cl['cwd'])
    for i in cl['order']:
        p = os.path.join(root, inputs[i]['rel'])
        f = inputs[i]['form']
        if f == 'rel':
            p = os.path.relpath(p, cwd)
        elif f == 'dot':
            p = './' + os.path.relpath(p, cwd)
        elif f == 'odd':
            p = os.path.join(os.path.dirname(p), '..', os.path.basename(os.path.dirname(p)), os.path.basename(p))
        a.append(p)
    if cl['jobs']:
        a += ['-j', str(cl['jobs'])]
    if cl['runs']:
        a += ['-n', str(cl['runs'])]
    if cl['time']:
        a += ['-t', repr(cl['time'])]
    if cl['no_plot']:
        a += ['--no_plot']
    return a


def execute(call, root, fds):
    jr = tempfile.TemporaryFile(dir=os.path.dirname(root))
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (40, 41))
            n = os.open('/dev/null', os.O_RDWR)
            for f in (0, 1, 2):
                os.dup2(n, f)
            mc_sim.run_call(call, root, jr.fileno(), EVAL)
        except BaseException:
            import traceback
            os.write(jr.fileno(), (json.dumps({'k': 'internal', 's': 0, 'what': traceback.format_exc()[-1500:]}) + '\n').encode())
        os._exit(80)
    end = time.time() + 90
    st = None
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(0.0005)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        st = None
    jr.seek(0)
    ev = [json.loads(l) for l in jr.read().decode().splitlines()]
    jr.close()
    return ev, st


def norm(d):
    """Content of a configuration without what may differ between runs."""
    d = copy.deepcopy(d)
    sp = d['/EkfCalNode']['ros__parameters']['sim_params']
    return d, {k: sp.pop(k, None) for k in ('seed', 'number_of_runs', 'run_number', 'max_time')}


def stem(p):
    b, e = os.path.splitext(p)
    return b if e in ('.yaml', '.yml') else p


def mentions(text, rel, root):
    return stem(os.path.join(root, rel)) in text or stem(os.path.basename(rel)) in text


class Run:
    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.counts, self.hash, self.state = {}, hashlib.sha256(), set()
        self.simt = 0.0
        self.seeds = {}
        self.evals = 0
        self.traces = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def check(self, ok, cls, what, op):
        self.count('eval.' + cls)
        self.evals += 1
        if not ok:
            raise Viol(cls, what.replace(self.root, ''), op)

    def go(self):
        root, plan = self.root, self.plan
        ins = plan['inputs']
        for d in ('cfg', 'work'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        self.text, self.want = {}, {}
        for inp in ins:
            self.text[inp['rel']] = write_input(inp, os.path.join(root, inp['rel']))
            if not inp['bad']:
                self.want[inp['uid']] = norm(yaml.load(self.text[inp['rel']], Loader=LOADER))
        for ci, cl in enumerate(plan['calls']):
            call = dict(cl, argv=argv_of(cl, ins, root))
            ev, st = execute(call, root, None)
            for e in ev:
                self.hash.update(json.dumps(e, sort_keys=True).replace(root, '').encode())
            if os.environ.get('SIM_VERBOSE'):
                for e in ev:
                    sys.stderr.write(json.dumps(e)[:300] + '\n')
            self.judge(ci, cl, ev, st)
        return self

    def judge(self, ci, cl, ev, st):
        plan, root = self.plan, self.root
        ins = [plan['inputs'][i] for i in cl['order']]
        kinds = {}
        for e in ev:
            kinds.setdefault(e['k'], []).append(e)
        if 'internal' in kinds:
            raise RuntimeError(kinds['internal'][0]['what'])
        self.count('op.call')
        if cl.get('coarse'):
            self.count('fault.equal_random_numbers')
        last = ev[-1]['k'] if ev else 'nothing'
        op = '%d: %s of %d inputs, -n %s -t %s -j %s' % (ci, cl['script'], len(ins), cl['runs'], cl['time'], cl['jobs'])
        self.check(last in ('exit', 'crash'), 'finish',
                   'the call never ends (%s)' % last if last in ('deadlock', 'livelock') else 'the call ended abnormally (%s, status %s)' % (last, st), op)
        crashed = last == 'crash'
        if crashed:
            self.count('fault.crash_of_the_runner')
        else:
            x = ev[-1]
            self.simt += x['now']
            for k, v in x['counts'].items():
                self.count(k, v)
            self.traces.append(x['choices'])
            self.count('decisions', len(x['choices']))
        text = ''.join(e['text'] for e in kinds.get('print', []))
        faults = kinds.get('fault', [])
        starts = kinds.get('start', [])
        begins = {e['id']: e for e in kinds.get('begin', [])}
        ends = {e['id']: e for e in kinds.get('end', [])}
        by_uid = {i['uid']: i for i in ins}
        tag = lambda e: 'configuration %s' % e['cfg']
        for e in kinds.get('escape', []):
            self.check(False, 'containment', 'writes to %s' % e['path'], op)
        for f in ('input',):
            for inp in plan['inputs']:
                p = os.path.join(root, inp['rel'])
                if self.text[inp['rel']] is not None:
                    with open(p) as h:
                        self.check(h.read() == self.text[inp['rel']], 'input_untouched', 'input file %s was changed' % inp['rel'], op)
        # ---- every run that was started
        runs = {}
        dirs, cfgs = {}, {}
        for s in starts:
            self.check(s['argv0'] == 'sim' and s['nargs'] >= 3 and s['cfg'] is not None and s['dir'] is not None, 'command',
                       'the simulator is started with %s arguments, configuration %s, directory %s' % (s['nargs'], s['cfg'], s['dir']), op)
            self.check(s['isdir'], 'own_directory', 'the output directory %s does not exist when the run starts' % s['dir'], op)
            b = begins.get(s['id'])
            if b is None:
                self.check(crashed, 'wait', 'the script ended before the run of %s began' % s['cfg'], op)
                continue
            d = os.path.normpath(s['dir'])
            self.check(d not in dirs, 'own_directory', 'two runs (%s and %s) write into %s' % (dirs.get(d), s['cfg'], d), op)
            dirs[d] = s['cfg']
            c = os.path.normpath(s['cfg'])
            self.check(c not in cfgs, 'once', 'the run of %s is simulated twice' % c, op)
            cfgs[c] = s['id']
            self.check(d == stem(c), 'own_directory', 'results of %s go to %s, where the reports do not look' % (c, d), op)
            uid = b.get('uid')
            self.check(isinstance(b['content'], dict) and uid in by_uid and not by_uid[uid]['bad'], 'configuration',
                       'the run of %s reads a configuration that is not one of the inputs: %s' % (c, str(b.get('error') or b['content'])[:80]), op)
            inp = by_uid[uid]
            self.check(c == inp['rel'] or c.startswith(stem(inp['rel']) + '/'), 'own_directory',
                       'the run of input %s lies in %s' % (inp['rel'], c), op)
            rest, own = norm(b['content'])
            wrest, wown = self.want[uid]
            n = cl['runs'] or (wown['number_of_runs'] or 1)
            self.check(rest == wrest, 'configuration', 'the configuration %s differs from its input beyond seed, run number and time' % c, op)
            self.check(own['max_time'] == (cl['time'] if cl['time'] else wown['max_time']), 'run_time',
                       'run %s has max_time %s instead of %s' % (c, own['max_time'], cl['time'] or wown['max_time']), op)
            self.check(own['number_of_runs'] in (1, None) or (n == 1 and c == inp['rel']), 'configuration', 'run %s asks for %s runs' % (c, own['number_of_runs']), op)
            runs.setdefault(uid, []).append((own, s, b))
            e = ends.get(s['id'])
            if e is None:
                self.check(crashed, 'wait', 'the script ended before the run of %s did' % c, op)
                continue
            self.check(e['intact'], 'own_directory', 'the log in %s was overwritten while the run went on' % d, op)
        jobs = cl['jobs'] or max(1, cl['ncpu'] - 1)
        for s in starts:
            self.check(s['running'] <= jobs, 'jobs', '%d runs at the same time, at most %d were asked for' % (s['running'], jobs), op)
        # ---- the runs of every input
        lossy = set()
        for inp in ins:
            uid = inp['uid']
            if inp['bad']:
                if not crashed:
                    self.check(bool(text), 'report', 'the unusable input %s (%s) is not reported' % (inp['rel'], inp['bad']), op)
                    self.count('fault.unusable_input_' + inp['bad'])
                continue
            wown = self.want[uid][1]
            n = cl['runs'] or (wown['number_of_runs'] or 1)
            got = sorted(o['run_number'] or 0 for o, _, _ in runs.get(uid, []))
            first = wown['run_number'] or 0
            # no run is repeated, whatever happened
            want = list(range(first, first + n))
            mine = [f for f in faults if (f['path'] + '/').startswith(stem(inp['rel']) + '/') or f['path'] == inp['rel']]
            if mine:
                lossy.add(uid)
            allow = n if any(f['ctx'] == 'main' or f['path'] == inp['rel'] for f in mine) else len(mine)
            bad = [r for r in got if r not in want] or [r for r in set(got) if got.count(r) > 1]
            self.check(not bad, 'run_numbers', 'input %s: run numbers %s instead of %d to %d' % (inp['rel'], got[:12], first, first + n - 1), op)
            if not crashed:
                self.check(len(got) >= n - allow, 'all_runs', 'input %s: %d of %d runs were simulated%s%s' % (
                    inp['rel'], len(got), n, ', %d faults hit it' % len(mine) if mine else '',
                    ', another input is unusable' if any(i['bad'] for i in ins) else ''), op)
                for f in mine:
                    self.check(os.strerror(f['err']) in text or mentions(text, f['path'], root), 'report', 'the failure "%s" of %s is not reported' % (os.strerror(f['err']), f['path']), op)
            sd = [o['seed'] for o, _, _ in runs.get(uid, [])]
            if n > 1:
                # 0 leaves the generator of the simulator as it is: all such runs are the same
                eff = [5489 if s == 0 else s for s in sd]
                self.check(len(set(map(repr, eff))) == len(eff) and all(type(s) is int and 0 <= s < 1 << 32 for s in sd if n > 1), 'own_seed',
                           'input %s: the seeds of the runs are %s' % (inp['rel'], str(sd)[:120]), op)
            if wown['seed'] is None or wown['seed']:
                for o, s, b in runs.get(uid, []):
                    key = (uid, n, bool(cl['time']) if n == 1 else None, o['run_number'] or 0)
                    old = self.seeds.setdefault(key, o['seed'])
                    self.check(old == o['seed'], 'reproducible', 'run %s of input %s has seed %s, and had %s before' % (o['run_number'], inp['rel'], o['seed'], old), op)
        # ---- captured output, reports
        if not crashed:
            for o, s, b in [x for l in runs.values() for x in l]:
                e = ends[s['id']]
                c = os.path.normpath(s['cfg'])
                hurt = [f for f in faults if (f['path'] + '/').startswith(stem(c) + '/')]
                if e['rc'] or e['err'] and not e['merged']:
                    self.check(mentions(text, c, root), 'report', 'the run of %s ended with status %d and %d bytes of errors, and the output does not say so' % (
                        c, e['rc'], len(e['err'])), op)
                if hurt:
                    continue
                for name, data in (('sim.stdout', e['out']), ('sim.stderr', e['err'])):
                    if e['merged'] and name == 'sim.stderr':
                        continue
                    if e['merged']:
                        data = e['out']
                    p = os.path.join(root, stem(c), name)
                    have = b''
                    if os.path.exists(p):
                        with open(p, 'rb') as h:
                            have = h.read()
                    self.check(have == data.encode('latin-1'), 'captured_output', '%s/%s holds %r instead of %r' % (stem(c), name, have[:60], data[:60]), op)
            x = ev[-1]
            if not any(i['bad'] for i in ins) and not faults:
                self.check(x['status'] == 0, 'finish', 'the script ends with status %s %s' % (x['status'], x['what']), op)
                # ---- what the reports are given
                lcall = dict(cl, script='lists', argv=argv_of(cl, plan['inputs'], root), sims=[], fs=[], crash=None)
                lev, lst = execute(lcall, root, None)
                ls = [e for e in lev if e['k'] == 'lists']
                self.check(bool(ls), 'lists', 'the list of runs to report is not made: %s' % (lev[-1].get('what') if lev else lst), op)
                self.judge_lists(cl, ins, runs, ls[0]['lists'], op)
                if cl['script'] == 'evaluate':
                    for k, want in (('plot', 0 if cl['no_plot'] else 1), ('stats', 1)):
                        got = kinds.get(k, [])
                        self.check(len(got) == want, 'evaluate', '%s were made %d times instead of %d' % (k, len(got), want), op)
                        for g in got:
                            self.check(g['running'] == 0 and g['s'] >= max([e['s'] for e in ends.values()] + [0]), 'evaluate', '%s were made before all runs had ended' % k, op)
                            self.judge_lists(cl, ins, runs, g['lists'], op)
        # ---- nothing else was written
        okay = [stem(i['rel']) for i in plan['inputs']]
        for d, sub, fs in os.walk(root):
            for f in fs + sub:
                rel = os.path.relpath(os.path.join(d, f), root)
                known = any(rel == s or rel.startswith(s + '/') or (s + '/').startswith(rel + '/') for s in okay) or rel in ('cfg', 'work') or \
                    any(i['rel'] == rel or i['rel'].startswith(rel + '/') for i in plan['inputs'])
                self.check(known, 'containment', 'left %s behind' % rel, op)
        if ci == 0 and not crashed and not faults:
            for inp in ins:
                if inp['uid'] in runs:
                    p = os.path.join(root, stem(inp['rel']), '.gitignore')
                    self.check(os.path.exists(p) and '*' in open(p).read().split(), 'ignored_by_git', 'the results in %s are not kept out of version control' % stem(inp['rel']), op)
        order = tuple(e['id'] for e in kinds.get('end', []))[:6]
        self.state.add('%s %s n%s t%d j%d f%s b%s %s' % (cl['script'], len(ins), min(len(starts), 6), bool(cl['time']), jobs, sorted(set(f['op'] for f in faults)),
                                                        sorted(set(i['bad'] or '' for i in ins)), order))

    def judge_lists(self, cl, ins, runs, lists, op):
        root = self.root
        cwd = os.path.join(root, cl['cwd'])
        self.check(len(lists) == len(ins), 'lists', '%d lists for %d inputs' % (len(lists), len(ins)), op)
        for inp, l in zip(ins, lists):
            have = [os.path.relpath(os.path.realpath(os.path.join(cwd, p)), os.path.realpath(root)) for p in l]
            want = [os.path.normpath(s['cfg']) for o, s, _ in sorted(runs.get(inp['uid'], []), key=lambda x: x[0]['run_number'] or 0)]
            self.check(have == want, 'lists', 'input %s: the reports read %s, the runs were %s' % (inp['rel'], have[:4], want[:4]), op)


def simulate(plan, scratch):
    """Returns an Out with violation (cls, what, op) or None."""
    top = tempfile.mkdtemp(prefix='r', dir=scratch)
    root = os.path.join(top, 'w')
    os.mkdir(root)
    o = Out()
    r = Run(plan, root)
    o.viol = None
    try:
        r.go()
    except Viol as v:
        o.viol = v
    finally:
        shutil.rmtree(top, ignore_errors=True)
    h = r.hash.copy()
    if o.viol:
        h.update((o.viol.cls + o.viol.what).encode())
    o.hash, o.counts, o.states, o.simt, o.evals, o.traces = h.hexdigest()[:16], r.counts, r.state, r.simt, r.evals, r.traces
    return o


# ---------------------------------------------------------------- minimisation
def size(plan):
    return sum(len(c['order']) + len(c['sims']) + len(c['fs']) + bool(c['crash']) + sum(1 for k in ('runs', 'time', 'jobs') if c[k]) for c in plan['calls']) + \
        sum(len(i['missing']) + bool(i['bad']) + i['n'] for i in plan['inputs'])


def shrink(plan, cls, scratch, limit):
    tried = 0
    end = time.time() + limit

    def attempt(p):
        nonlocal plan, tried
        tried += 1
        if time.time() > end:
            return False
        try:
            o = simulate(p, scratch)
        except RuntimeError:
            return False
        if o.viol and o.viol.cls == cls:
            plan = p
            return True
        return False

    def variants():
        for c in range(len(plan['calls'])):
            if len(plan['calls']) > 1:
                p = copy.deepcopy(plan)
                del p['calls'][c]
                yield p
        for i in range(len(plan['inputs'])):
            if len(plan['inputs']) > 1:
                p = copy.deepcopy(plan)
                del p['inputs'][i]
                for c in p['calls']:
                    c['order'] = [j - (j > i) for j in c['order'] if j != i]
                if all(c['order'] for c in p['calls']):
                    yield p
        for c in range(len(plan['calls'])):
            for k in ('sims', 'fs'):
                for j in range(len(plan['calls'][c][k])):
                    p = copy.deepcopy(plan)
                    del p['calls'][c][k][j]
                    yield p
            for k, v in (('crash', None), ('runs', None), ('time', None), ('jobs', None), ('runs', 2), ('jobs', 1), ('cwd', ''), ('script', 'run'), ('policy', 'uniform'),
                         ('order', sorted(plan['calls'][c]['order'])), ('no_plot', False), ('sched', [])):
                if plan['calls'][c][k] != v and not (v is None and not plan['calls'][c][k]) and not (k == 'runs' and v == 2 and not plan['calls'][c][k]):
                    p = copy.deepcopy(plan)
                    p['calls'][c][k] = v
                    yield p
        for i in range(len(plan['inputs'])):
            q = plan['inputs'][i]
            for k, v in (('missing', []), ('bad', None), ('n', 2), ('n', 1), ('start', 0), ('seed', 1), ('form', 'abs'), ('rel', 'a%d.yaml' % i), ('base', 'small'), ('pick', 1), ('max_time', 10.0)):
                if q[k] != v and not (k == 'n' and q['n'] < v):
                    p = copy.deepcopy(plan)
                    p['inputs'][i][k] = v
                    if k == 'rel':
                        for c in p['calls']:
                            for f in c['fs']:
                                if f['uid'] == q['uid']:
                                    f['under'] = v if f['op'] == 'read' else stem(v)
                    yield p

    go = True
    while go and time.time() < end:
        go = False
        for p in variants():
            if attempt(p):
                go = True
                break
    # shorten the schedule: decisions after the end of the list are 0
    for c in range(len(plan['calls'])):
        if plan['calls'][c]['sched'] is None:
            try:
                o = simulate(plan, scratch)
            except RuntimeError:
                break
            if c < len(o.traces):
                tr = o.traces[c]
                p = copy.deepcopy(plan)
                p['calls'][c]['sched'] = tr
                if attempt(p):
                    lo = len(tr)
                    while lo > 0 and time.time() < end:
                        p = copy.deepcopy(plan)
                        p['calls'][c]['sched'] = plan['calls'][c]['sched'][:lo // 2]
                        if not attempt(p):
                            break
                        lo //= 2
    return plan, tried


def save(plan, path):
    with open(path, 'w') as f:
        f.write('prop C26\nseed %d\n' % plan['seed'] + json.dumps(plan, indent=1) + '\n')


def load(path):
    with open(path) as f:
        s = f.read()
    return json.loads(s[s.index('{'):])


def main():
    a = sys.argv[1:]
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', os.path.abspath(__file__)] + a)
    os.umask(0o022)
    if a[0] == 'gen':
        print(json.dumps(generate(int(a[2]), 'quick'), indent=1))
        return 0
    if a[0] in ('one', 'replay'):
        plan = generate(int(a[2]), 'quick') if a[0] == 'one' else load(a[1])
        o = simulate(plan, a[-1])
        print('viol=%d\nhash=%s' % (bool(o.viol), o.hash))
        if o.viol:
            print('cls=%s\nop=%s\nwhat=%s' % (o.viol.cls, o.viol.op, o.viol.what))
        if os.environ.get('SIM_COUNTS'):
            print(json.dumps(o.counts, sort_keys=True))
        return 1 if o.viol else 0
    prop, tier, seed, worker, workers, budget, maxruns, scratch, out = a[1:10]
    known = set(a[10:])
    seed, worker, workers, budget, maxruns = int(seed), int(worker), int(workers), float(budget), int(maxruns)
    t0 = time.time()
    counts, states, hashes, samples, hits = {}, set(), set(), [], set()
    runs = det = nondet = 0
    simt, viol = 0.0, None
    i = worker
    while time.time() - t0 < budget and runs < maxruns:
        s = seed_of(prop, seed, i) & ((1 << 53) - 1)
        i += workers
        plan = generate(s, tier)
        o = simulate(plan, scratch)
        runs += 1
        simt += o.simt
        for k, v in o.counts.items():
            counts[k] = counts.get(k, 0) + v
        states |= o.states
        if o.evals >= 5:
            hashes.add(o.hash)
        if len(samples) < 3:
            samples.append('seed %d: %d inputs, %d calls, %d checks, trace hash %s' % (s, len(plan['inputs']), len(plan['calls']), o.evals, o.hash))
        if not o.viol:
            if runs % 16 == 1:
                if simulate(plan, scratch).hash == o.hash:
                    det += 1
                else:
                    sys.stderr.write('seed %d is not deterministic\n' % s)
                    nondet += 1
            continue
        if o.viol.cls in known:
            hits.add(o.viol.cls)
            continue
        q = simulate(plan, scratch)
        if q.hash != o.hash:
            sys.stderr.write('seed %d does not repeat\n' % s)
            nondet += 1
            continue
        small, tried = shrink(plan, o.viol.cls, scratch, 20)
        q = simulate(small, scratch)
        viol = {'seed': s, 'cls': q.viol.cls, 'what': q.viol.what, 'ops_before': size(plan), 'ops_after': size(small), 'op': q.viol.op, 'hash': q.hash, 'tried': tried}
        save(small, out + '.plan')
        break
    if viol is None and nondet:
        return 3
    with open(out, 'w') as f:
        json.dump({'runs': runs, 'determinism_reruns': det, 'wall': time.time() - t0, 'sim_time': simt, 'counts': counts, 'states': sorted(states),
                   'hashes': sorted(hashes), 'samples': samples, 'known': sorted(hits), 'violation': viol}, f)
    return 0


if __name__ == '__main__':
    sys.exit(main())
