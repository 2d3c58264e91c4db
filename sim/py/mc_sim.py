"""Simulator for the Monte-Carlo scripts: one call of a script, in this process, under a seeded scheduler.

Every process the script would start (pool workers, the simulator binary) is a context of the scheduler. Contexts are
threads that run one at a time; which one goes on is decided at every seam (pool operations, start and end of a process,
opening of a file, creation of a directory, sleeping). Emulated worker processes have their own random state, working
directory, environment and copy of the script's globals, as after fork. The binary is a stand-in that reads the
configuration it is given, writes into the directory it is given, and ends as the plan says.
"""
import builtins, copy, errno, hashlib, io, itertools, json, os, pickle, random, runpy, signal, sys, threading, time, traceback, types

R_OPEN, R_MKDIR, R_IOOPEN = builtins.open, os.mkdir, io.open
import yaml

LOADER = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)


class Deadlock(BaseException):
    pass


class Proc:
    """An emulated process."""
    _pid = itertools.count(1000)

    def __init__(self, name):
        self.pid, self.name = next(self._pid), name
        self.rand = random.getstate()
        self.cwd = os.getcwd()
        self.env = dict(os.environ)


class Ctx:
    def __init__(self, proc, name):
        self.proc, self.name = proc, name
        self.sem = threading.Semaphore(0)
        self.ready = True
        self.pred = None
        self.done = self.killed = False
        self.prio = 0.0


class Sim:
    def __init__(self, call, root, journal_fd):
        self.call, self.root, self.fd = call, root, journal_fd
        self.rng = random.Random(call['sched_seed'])
        self.forced = list(call['sched']) if call.get('sched') is not None else None
        self.nchoice, self.steps, self.now = 0, 0, 0.0
        self.crash = call.get('crash')
        self.policy = call.get('policy', 'uniform')
        self.ctxs, self.events = [], []      # events: [weight, fn]
        self.counts = {}
        self.running, self.maxrun = 0, 0
        self.faults = [dict(f) for f in call.get('fs', [])]
        self.cur = None
        self.main = None
        self.nsim = 0
        self.at_exit = []
        self.in_event = False
        self.choices = []

    # ---- journal
    def log(self, kind, **kw):
        kw['k'] = kind
        kw['s'] = self.steps
        b = json.dumps(kw, sort_keys=True) + '\n'
        os.write(self.fd, b.encode())

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---- scheduling
    def pick(self, n, weights=None):
        if n <= 1:
            return 0
        i = self.nchoice
        self.nchoice += 1
        if self.forced is not None:
            c = self.forced[i] % n if i < len(self.forced) else 0
        elif weights:
            c = self.rng.choices(range(n), weights)[0]
        else:
            c = self.rng.randrange(n)
        self.choices.append(c)
        return c

    def save(self, c):
        p = c.proc
        p.rand = random.getstate()
        p.cwd = os.getcwd()
        p.env = dict(os.environ)

    def load(self, c):
        p = c.proc
        random.setstate(p.rand)
        try:
            os.chdir(p.cwd)
        except OSError:
            pass
        if dict(os.environ) != p.env:
            os.environ.clear()
            os.environ.update(p.env)

    def weight(self, c):
        if self.policy == 'main_first':
            return 50.0 if c is self.main else 1.0
        if self.policy == 'main_last':
            return 0.02 if c is self.main else 1.0
        if self.policy == 'prio':
            if self.rng.random() < 0.02:
                c.prio = self.rng.random()
            return 1e-3 + c.prio ** 6
        return 1.0

    def switch(self):
        """Let the scheduler decide who goes on; returns when the calling context is chosen."""
        me = self.cur
        self.steps += 1
        if self.crash is not None and self.steps >= self.crash:
            self.log('crash')
            os._exit(77)
        if self.steps > 200000:
            self.log('livelock')
            os._exit(78)
        while True:
            cand = [c for c in self.ctxs if not c.done and (c.ready or (c.pred and c.pred()))]
            w = [self.weight(c) for c in cand] + [e[0] for e in self.events]
            if not w:
                self.log('deadlock', waiting=[c.name for c in self.ctxs if not c.done])
                os._exit(79)
            i = self.pick(len(w), None if self.forced is not None else w)
            if i >= len(cand):
                e = self.events.pop(i - len(cand))
                self.now += self.rng.random() if self.forced is None else 0.5
                keep = (me.ready, me.pred) if me is not None else None
                self.in_event = True
                e[1]()
                self.in_event = False
                if me is not None:
                    me.ready, me.pred = keep
                continue
            c = cand[i]
            c.ready, c.pred = False, None
            if c is me:
                return
            if me is not None and me.proc is not c.proc:
                if not me.done:
                    self.save(me)
                self.load(c)
            elif me is None:
                self.load(c)
            self.cur = c
            c.sem.release()
            if me is None or me.done and not me.killed:
                return
            me.sem.acquire()
            return

    def yield_(self):
        if self.in_event:       # a callback, on a thread of the pool
            return
        self.cur.ready = True
        self.switch()

    def wait(self, pred):
        while not pred():
            self.cur.ready, self.cur.pred = False, pred
            self.switch()

    def spawn(self, proc, name, fn):
        c = Ctx(proc, name)
        c.prio = self.rng.random()
        self.ctxs.append(c)

        def body():
            c.sem.acquire()
            try:
                fn()
            except SystemExit:
                pass
            except BaseException:
                self.log('internal', what=traceback.format_exc()[-1500:])
                os._exit(80)
            c.done = True
            self.ctxs.remove(c)
            self.switch()

        t = threading.Thread(target=body, daemon=True)
        t.start()
        return c

    # ---- file seam
    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p[len(self.root) + 1:] if p.startswith(self.root + '/') else None

    def fault(self, op, rel):
        for f in self.faults:
            if f['op'] == op and (rel + '/').startswith(f['under'] + '/'):
                f['nth'] -= 1
                if f['nth'] == 0:
                    self.count('fault.' + f['name'])
                    self.log('fault', op=op, path=rel, ctx=self.cur.name, err=f['errno'])
                    return f['errno']
        return None

    def open(self, real, file, mode='r', *a, **k):
        if isinstance(file, int) or self.cur is None:
            return real(file, mode, *a, **k)
        write = any(c in mode for c in 'wax+')
        rel = self.inside(file)
        if rel is None:
            if write and os.fspath(file) not in ('/dev/null', b'/dev/null'):
                self.log('escape', path=str(file))
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(file))
            return real(file, mode, *a, **k)
        self.yield_()
        e = self.fault('open' if write else 'read', rel)
        if e:
            raise OSError(e, os.strerror(e), str(file))
        if write:
            e = self.fault('write', rel)
            if e:                                   # the file is created, its content is lost
                if 'r' not in mode:
                    real(file, mode).close()
                return real('/dev/full', 'wb' if 'b' in mode else 'w')
        f = real(file, mode, *a, **k)
        self.yield_()
        return f

    def mkdir(self, path, *a, **k):
        rel = self.inside(path)
        if rel is None:
            if os.path.isdir(path):
                return R_MKDIR(path, *a, **k)
            self.log('escape', path=str(path))
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(path))
        self.yield_()
        e = self.fault('mkdir', rel)
        if e:
            raise OSError(e, os.strerror(e), str(path))
        return R_MKDIR(path, *a, **k)


S = None     # the simulator of this process


# ---------------------------------------------------------------- processes (the simulator binary)
class FakeProcess:
    """subprocess.Popen: the stand-in binary."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        import subprocess
        self.args = args
        if shell or isinstance(args, (str, bytes)):
            import shlex
            argv = shlex.split(os.fsdecode(args)) if isinstance(args, (str, bytes)) else [os.fsdecode(a) for a in args]
        else:
            argv = [os.fsdecode(os.fspath(a)) for a in args]
        self.returncode = None
        self.text = bool(text or encoding or errors or universal_newlines)
        self.encoding = encoding or 'utf-8'
        self.id = S.nsim
        S.nsim += 1
        base = cwd or os.getcwd()
        cfg = os.path.join(base, argv[1]) if len(argv) > 1 else ''
        out = os.path.join(base, argv[2]) if len(argv) > 2 else ''
        S.yield_()
        rel, orel = S.inside(cfg), S.inside(out)
        e = S.fault('exec', rel or '')
        if e:
            raise OSError(e, os.strerror(e), argv[0])
        self.pid = 50000 + self.id
        self.stdin = None
        self.cfg, self.out, self.argv = cfg, out, argv
        self.alive = True
        S.running += 1
        S.maxrun = max(S.maxrun, S.running)
        S.log('start', id=self.id, argv0=os.path.basename(argv[0]), nargs=len(argv), cfg=rel, dir=orel,
              isdir=os.path.isdir(out), ctx=S.cur.name, running=S.running)
        self.dests = (stdout, stderr)
        self.PIPE, self.STDOUT, self.DEVNULL = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL
        # pipes are read at the end: the process does not depend on its reader
        self.stdout = _Pipe(self, 0) if stdout == self.PIPE else None
        self.stderr = _Pipe(self, 1) if stderr == self.PIPE else None
        self.data = [b'', b'']
        S.events.append([S.call.get('speed', 1.0), self.begin])

    def begin(self):
        rec = {'id': self.id, 'content': None}
        try:
            with R_OPEN(self.cfg, 'r') as f:
                raw = f.read()
            rec['content'] = yaml.load(raw, Loader=LOADER)
        except Exception as x:
            rec['error'] = type(x).__name__
        sp = None
        if isinstance(rec['content'], dict):
            try:
                ros = rec['content']['/EkfCalNode']['ros__parameters']
                sp = ros['sim_params']
                rec['uid'] = ros.get('uid')
            except Exception:
                sp = None
        mark = os.path.join(self.out, 'body_state.csv')
        try:
            with R_OPEN(mark, 'w') as f:
                f.write('run %d\n' % self.id)
        except OSError as x:
            rec['nodir'] = x.errno
        self.mark = mark
        self.rec = rec
        beh = {}
        if sp is not None:
            for b in S.call.get('sims', []):
                if b['uid'] == rec.get('uid') and b['run'] in (None, sp.get('run_number', 0) - b.get('start', 0)):
                    beh = b
                    break
        self.beh = beh
        S.log('begin', **rec)
        S.events.append([S.call.get('speed', 1.0) * beh.get('speed', 1.0), self.finish])

    def finish(self):
        beh = self.beh
        tag = '%s/%d' % (self.rec.get('uid'), self.id)
        out = ('simulated %s\n' % tag).encode() if beh.get('stdout', True) else b''
        err = ('error in %s\n' % tag).encode() + b'\xff\xfe\n' * bool(beh.get('binary')) if beh.get('stderr') else b''
        if self.text:
            out, err = [d.replace(b'\xff\xfe', b'??') for d in (out, err)]
        rc = beh.get('exit', 0)
        if rc:
            S.count('fault.sim_killed' if rc < 0 else 'fault.sim_exit_status')
        if err:
            S.count('fault.sim_stderr')
        same = None
        try:
            with R_OPEN(self.mark) as f:
                same = f.read() == 'run %d\n' % self.id
        except OSError:
            pass
        data = [out, err]
        if self.dests[1] == self.STDOUT:
            data = [out + err, b'']
        for i in (0, 1):
            d = self.dests[i]
            if d == self.PIPE:
                self.data[i] = data[i]
            elif d is None:
                sys.stdout.write(data[i].decode('utf-8', 'replace'))
            elif hasattr(d, 'fileno'):
                if data[i]:
                    os.write(d.fileno(), data[i])
            elif isinstance(d, int) and d >= 0:
                os.write(d, data[i])
        self.rc = rc
        self.alive = False
        S.running -= 1
        S.log('end', id=self.id, rc=rc, out=out.decode('latin-1'), err=err.decode('latin-1'), intact=same,
              merged=self.dests[1] == self.STDOUT)

    # API
    def _join(self, timeout=None):
        if timeout is None:
            S.wait(lambda: not self.alive)
        else:
            S.yield_()
            if self.alive:
                import subprocess
                raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self.rc

    def conv(self, b):
        return b.decode(self.encoding) if self.text else b

    def communicate(self, input=None, timeout=None):
        self._join(timeout)
        return (self.conv(self.data[0]) if self.stdout else None, self.conv(self.data[1]) if self.stderr else None)

    def wait(self, timeout=None):
        self._join(timeout)
        return self.returncode

    def poll(self):
        S.yield_()
        if not self.alive:
            self.returncode = self.rc
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._join()

    def __class_getitem__(cls, item):
        return cls


class _Pipe:
    def __init__(self, p, i):
        self.p, self.i, self.pos = p, i, 0

    def read(self, n=-1):
        self.p._join()
        d = self.p.data[self.i][self.pos:]
        if n is not None and n >= 0:
            d = d[:n]
        self.pos += len(d)
        return self.p.conv(d)

    def readlines(self):
        return list(self)

    def readline(self):
        self.p._join()
        d = self.p.data[self.i][self.pos:].split(b'\n', 1)
        d = d[0] + b'\n' if len(d) > 1 else d[0]
        self.pos += len(d)
        return self.p.conv(d)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def close(self):
        pass


# ---------------------------------------------------------------- pools
class Result:
    def __init__(self, n=1, single=True, cb=None, ecb=None):
        self.vals, self.ok, self.left, self.single = [None] * n, [None] * n, n, single
        self.cb, self.ecb = cb, ecb
        self.arrived = []

    def put(self, i, ok, v):
        self.vals[i], self.ok[i] = v, ok
        self.arrived.append(i)
        self.left -= 1
        if self.left == 0:
            bad = [x for o, x in zip(self.ok, self.vals) if not o]
            v = self.vals[0] if self.single else self.vals
            if bad:
                if self.ecb:
                    self.ecb(bad[0])
            elif self.cb:
                self.cb(v)

    def ready(self):
        S.yield_()
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError('not ready')
        return all(self.ok)

    def wait(self, timeout=None):
        if timeout is None:
            S.wait(lambda: self.left == 0)
        else:
            S.yield_()

    def get(self, timeout=None):
        import multiprocessing
        self.wait(timeout)
        if self.left:
            raise multiprocessing.TimeoutError
        for o, v in zip(self.ok, self.vals):
            if not o:
                raise v
        return self.vals[0] if self.single else self.vals


class Worker:
    """An emulated worker process: its own copy of the globals of the scripts, as after fork."""

    def __init__(self, sim, n, threads):
        self.threads = threads
        self.proc = sim.main.proc if threads else Proc('worker%d' % n)
        self.globals = {}           # id of the globals of a module -> the copy
        if threads:
            return
        mods = [sys.modules['__main__']] + [m for m in sys.modules.values()
                                            if (getattr(m, '__file__', None) or '').startswith(sim.evald + '/')]
        memo = {}
        for m in mods:
            g = self.globals.setdefault(id(m.__dict__), {})
            for k, v in list(m.__dict__.items()):
                if isinstance(v, (list, dict, set, bytearray)) and not k.startswith('__'):
                    try:
                        v = copy.deepcopy(v, memo)
                    except Exception:
                        pass
                g[k] = v
        for g in self.globals.values():
            for k, v in list(g.items()):
                if isinstance(v, types.FunctionType):
                    g[k] = self.function(v)

    def function(self, f):
        """The function as the forked process sees it."""
        if not isinstance(f, types.FunctionType) or id(f.__globals__) not in self.globals:
            return f
        return rebind(f, self.globals[id(f.__globals__)])


def rebind(f, g):
    n = types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
    n.__kwdefaults__ = f.__kwdefaults__
    n.__module__, n.__qualname__, n.__dict__ = f.__module__, f.__qualname__, f.__dict__
    return n


def resolve(f):
    """Pickle a callable by reference, as the pool does; returns a loader."""
    import functools
    if isinstance(f, functools.partial):
        inner, a, k = resolve(f.func), pickle.dumps(f.args), pickle.dumps(f.keywords)
        return lambda w: functools.partial(inner(w), *pickle.loads(a), **pickle.loads(k))
    if isinstance(f, types.FunctionType):
        if '<' in f.__qualname__ or f.__closure__:
            raise pickle.PicklingError("Can't pickle local object %s" % f.__qualname__)
        return lambda w: w.function(f)
    b = pickle.dumps(f)
    return lambda w: pickle.loads(b)


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None, threads=False):
        if processes is None:
            processes = S.call['ncpu'] or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        S.yield_()
        self.state, self.threads = 'RUN', threads
        self.queue, self.outq = [], []
        self.pending = 0
        self.n = processes
        self.initializer = (initializer, initargs)
        self.workers = []
        for i in range(processes):
            w = Worker(S, i, threads)
            w.ctx = S.spawn(w.proc, 'worker%d' % i, lambda w=w: self.loop(w))
            self.workers.append(w)

    def loop(self, w):
        if self.initializer[0]:
            (self.initializer[0] if self.threads else resolve(self.initializer[0])(w))(*self.initializer[1])
        while True:
            S.wait(lambda: self.queue or self.state in ('CLOSE', 'TERMINATE') and not self.pending or self.state == 'TERMINATE')
            if self.state == 'TERMINATE' or not self.queue:
                return
            res, idx, load, args = self.queue.pop(0)
            try:
                f, a, k = load(w) + args()
                v, ok = f(*a, **k), True
            except Exception as x:
                v, ok = x, False
            if not self.threads:
                try:
                    v = pickle.loads(pickle.dumps(v)) if ok else pickle_error(v)
                except Exception as x:
                    v, ok = x, False
            # the result travels back and is handled by a thread of the main process
            if self.state != 'TERMINATE':
                self.deliver(res, idx, ok, v)

    def deliver(self, res, idx, ok, v):
        def arrive():
            if self.state == 'TERMINATE':
                return
            me = S.cur
            S.save(me)
            S.load(S.main)
            try:
                if isinstance(idx, list):
                    for j, i in enumerate(idx):
                        res.put(i, ok if not ok else True, v if not ok else v[j])
                else:
                    res.put(idx, ok, v)
            finally:
                S.save(S.main)
                S.load(me)
                self.pending -= 1
        S.events.append([3.0, arrive])

    def enqueue(self, res, idx, f, args, kw):
        """The task is pickled by a thread of the main process some time after it was queued."""
        if self.state != 'RUN':
            raise ValueError('Pool not running')
        self.pending += 1
        S.count('probe.tasks')

        def feed():
            if self.state == 'TERMINATE':
                return
            if self.threads:
                self.queue.append((res, idx, lambda w: (f,), lambda: (args, kw)))
                return
            try:
                load, ab = resolve(f), pickle.dumps((args, kw))
            except Exception as x:
                self.deliver(res, idx, False, x)
                return
            self.queue.append((res, idx, lambda w: (load(w),), lambda: tuple(pickle.loads(ab))))

        # keep the order of the queue: feed events form a chain
        self.outq.append(feed)

        def pump():
            if self.outq:
                self.outq.pop(0)()
        S.events.append([3.0, pump])
        S.yield_()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = Result(1, True, callback, error_callback)
        self.enqueue(r, 0, func, args, kwds)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _map(self, f, items, star, chunk, cb=None, ecb=None):
        items = list(items)
        r = Result(len(items), False, cb, ecb)
        if not items:
            if cb:
                cb([])
            return r
        if chunk is None:
            chunk, extra = divmod(len(items), self.n * 4)
            chunk += bool(extra)
        for i in range(0, len(items), chunk):
            idx = list(range(i, min(i + chunk, len(items))))
            self.enqueue(r, idx, _starchunk if star else _mapchunk, (_ref(f, self.threads), items[i:i + chunk]), {})
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, False, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, True, chunksize, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        for r in rs:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]

        def gen():
            left = list(rs)
            while left:
                S.wait(lambda: any(r.left == 0 for r in left))
                r = [r for r in left if r.left == 0][0]
                left.remove(r)
                yield r.get()
        return gen()

    def close(self):
        S.yield_()
        if self.state == 'RUN':
            self.state = 'CLOSE'

    def terminate(self):
        self.state = 'TERMINATE'
        for w in self.workers:      # workers are killed where they are
            if not w.ctx.done and not self.threads:
                w.ctx.ready, w.ctx.pred = False, (lambda: False)
                w.ctx.done = w.ctx.killed = True
                if w.ctx in S.ctxs:
                    S.ctxs.remove(w.ctx)
        S.log('terminate')
        S.yield_()

    def join(self):
        if self.state == 'RUN':
            raise ValueError('Pool is still running')
        S.wait(lambda: all(w.ctx.done for w in self.workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def pickle_error(x):
    try:
        return pickle.loads(pickle.dumps(x))
    except Exception:
        import multiprocessing.pool
        return multiprocessing.pool.MaybeEncodingError(x, repr(x))


class _ref:
    def __init__(self, f, threads):
        self.f = f

    def __reduce__(self):
        raise pickle.PicklingError('use _mapchunk')


def _mapchunk(f, items):
    return [f(x) for x in items]


def _starchunk(f, items):
    return [f(*x) for x in items]


class MapPool(Pool):
    """Pool whose map chunks resolve the mapped function in the worker."""

    def enqueue(self, res, idx, f, args, kw):
        if args and isinstance(args[0], _ref) and not self.threads:
            g, items = args[0].f, args[1]
            star = f is _starchunk
            self.pending += 1

            def feed():
                if self.state == 'TERMINATE':
                    return
                try:
                    load, ab = resolve(g), pickle.dumps(items)
                except Exception as x:
                    self.deliver(res, idx, False, x)
                    return

                def run(w):
                    h = load(w)
                    return ((lambda its: [h(*x) for x in its]) if star else (lambda its: [h(x) for x in its]),)
                self.queue.append((res, idx, run, lambda: ((pickle.loads(ab),), {})))
            if self.state != 'RUN':
                raise ValueError('Pool not running')
            self.outq.append(feed)
            S.events.append([3.0, lambda: self.outq and self.outq.pop(0)()])
            S.yield_()
            return
        if args and isinstance(args[0], _ref):
            args = (args[0].f,) + args[1:]
        super().enqueue(res, idx, f, args, kw)


class Future:
    def __init__(self, r):
        self.r = r

    def result(self, timeout=None):
        return self.r.get(timeout)

    def exception(self, timeout=None):
        self.r.wait(timeout)
        return None if self.r.ok[0] else self.r.vals[0]

    def done(self):
        return self.r.ready()

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        if self.r.left == 0:
            fn(self)
        else:
            self.r.cb = self.r.ecb = lambda _: fn(self)


class Executor:
    threads = False

    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self.pool = MapPool(max_workers or S.call['ncpu'] or 1, initializer, initargs, threads=self.threads)
        S.at_exit.append(self.shutdown)

    def submit(self, fn, /, *a, **k):
        return Future(self.pool.apply_async(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *x) for x in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.pool.close()
        if wait:
            self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class ThreadExecutor(Executor):
    threads = True


def as_completed(fs, timeout=None):
    left = list(fs)
    while left:
        S.wait(lambda: any(f.r.left == 0 for f in left))
        f = [f for f in left if f.r.left == 0][0]
        left.remove(f)
        yield f


def wait_futures(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = list(fs)
    S.wait(lambda: all(f.r.left == 0 for f in fs))
    return set(fs), set()


class ProcessObj:
    """multiprocessing.Process"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self.target, self.args, self.kwargs, self.exitcode = target, args, kwargs, None
        self.daemon = daemon

    def run(self):
        if self.target:
            self.w.function(self.target)(*self.args, **self.kwargs)

    def start(self):
        self.w = Worker(S, 900, False)
        self.args, self.kwargs = copy.deepcopy(self.args), copy.deepcopy(self.kwargs)

        def go():
            try:
                self.run()
                self.exitcode = 0
            except Exception:
                traceback.print_exc()
                self.exitcode = 1
        self.ctx = S.spawn(self.w.proc, 'process', go)
        if not self.daemon:
            S.at_exit.append(self.join)
        S.yield_()

    def join(self, timeout=None):
        S.wait(lambda: self.ctx.done)

    def is_alive(self):
        S.yield_()
        return not self.ctx.done


# ---------------------------------------------------------------- modules that are not installed
class Missing:
    """Stand-in for plotting and numeric packages the scripts import but this check does not judge."""
    NAMES = ('bokeh', 'pandas', 'numpy', 'scipy')

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name.split('.')[0] in self.NAMES:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__getattr__ = lambda k: type(k, (), {}) if not k.startswith('__') else (_ for _ in ()).throw(AttributeError(k))
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


class Journal(io.TextIOBase):
    def __init__(self, sim, name):
        self.sim, self.name = sim, name

    def writable(self):
        return True

    def write(self, s):
        if s:
            self.sim.log('print', to=self.name, text=s)
        return len(s)

    def flush(self):
        pass

    @property
    def buffer(self):
        j = self

        class B(io.RawIOBase):
            def write(self, b):
                j.write(bytes(b).decode('utf-8', 'replace'))
                return len(b)
        return B()

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


def coarse_numbers(few):
    """Let wide ranges of random integers yield few values only, in the same order for the same seed."""
    kind = random.Random
    of_range = kind.randrange

    def randrange(self, start, stop=None, step=1):
        v = of_range(self, start, stop, step) if stop is not None else of_range(self, start)
        lo, hi = (start, stop) if stop is not None else (0, start)
        if step == 1 and 1000000 <= hi - lo <= 1 << 40:
            return lo + (v - lo) % few
        return v
    kind.randrange = randrange
    kind.randint = lambda self, a, b: randrange(self, a, b + 1)
    random.randrange = random._inst.randrange
    random.randint = random._inst.randint


def run_call(call, root, fd, evald):
    """Run one call of a script in this process and leave the process."""
    global S
    import concurrent.futures, multiprocessing, multiprocessing.pool, subprocess, shutil
    sys.path[0:0] = [evald]
    sys.meta_path.append(Missing())
    import yaml, glob, math, argparse, tempfile, collections, re, functools      # noqa: loaded before the seams
    os.chdir(os.path.join(root, call.get('cwd', '')))
    random.seed(call['sched_seed'] ^ 0x5eed)        # what the operating system would seed with
    if call.get('coarse'):
        coarse_numbers(call['coarse'])
    S = sim = Sim(call, root, fd)
    sim.evald = evald
    main = Ctx(Proc('main'), 'main')
    main.prio = sim.rng.random()
    main.ready = False
    sim.main = sim.cur = main
    sim.ctxs.append(main)

    # ---- seams
    for m, fn in ((builtins, R_OPEN), (io, R_IOOPEN)):
        m.open = lambda file, mode='r', *a, _f=fn, **k: sim.open(_f, file, mode, *a, **k)
    os.mkdir = sim.mkdir
    for k in ('rename', 'replace', 'remove', 'unlink', 'rmdir', 'symlink', 'link'):
        def seam(*a, _f=getattr(os, k), **kw):
            rel = [sim.inside(p) for p in a[:2]]
            if not all(rel) and k not in ('symlink',):
                if os.path.lexists(a[0]):
                    sim.log('escape', path=str(a[0]))
                    raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(a[0]))
            sim.yield_()
            return _f(*a, **kw)
        setattr(os, k, seam)
    subprocess.Popen = FakeProcess
    multiprocessing.Pool = multiprocessing.pool.Pool = MapPool
    multiprocessing.pool.ThreadPool = multiprocessing.dummy_Pool = lambda n=None, *a, **k: MapPool(n, *a, threads=True, **k)
    ctxobj = types.SimpleNamespace(Pool=MapPool, Process=ProcessObj, cpu_count=lambda: call['ncpu'])
    multiprocessing.get_context = lambda m=None: ctxobj
    multiprocessing.set_start_method = lambda *a, **k: None
    multiprocessing.Process = ProcessObj
    multiprocessing.cpu_count = lambda: call['ncpu']
    os.cpu_count = lambda: call['ncpu']
    os.sched_getaffinity = lambda pid: set(range(call['ncpu']))
    os.getpid = lambda: sim.cur.proc.pid
    concurrent.futures.ProcessPoolExecutor = Executor
    concurrent.futures.ThreadPoolExecutor = ThreadExecutor
    concurrent.futures.as_completed = as_completed
    concurrent.futures.wait = wait_futures
    for k in ('time', 'monotonic', 'perf_counter'):
        setattr(time, k, lambda: 1.7e9 + sim.now)

    def sleep(s):
        sim.now += s
        sim.yield_()
    time.sleep = sleep

    def system(cmd):
        return FakeProcess(cmd, shell=True).wait()
    os.system = system

    if call['script'] == 'evaluate':
        rep, st = types.ModuleType('report'), types.ModuleType('stats')
        rep.plot_sim_results = lambda lists, args: sim.log('plot', lists=lists, running=sim.running)
        st.calc_sim_stats = lambda lists, args: sim.log('stats', lists=lists, running=sim.running)
        sys.modules['report'], sys.modules['stats'] = rep, st

    script = os.path.join(evald, call['script'] + '.py')
    sys.argv = [script] + call['argv']
    out = Journal(sim, 'out')
    sys.stdout, sys.stderr = out, Journal(sim, 'err')
    status, what = 0, ''
    if call['script'] == 'lists':
        try:
            from input_parser import InputParser
            import utilities
            p = InputParser()
            sim.log('lists', lists=utilities.generate_mc_lists(p.parse_args()))
        except BaseException as x:
            what = '%s: %s' % (type(x).__name__, x)
            status = 1
    else:
        # as 'python3 script': the script is __main__
        code = compile(R_OPEN(script).read(), script, 'exec')
        mod = types.ModuleType('__main__')
        mod.__file__ = script
        mod.__builtins__ = builtins
        sys.modules['__main__'] = mod
        try:
            exec(code, mod.__dict__)
        except SystemExit as x:
            status = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
        except Exception as x:
            what = '%s: %s' % (type(x).__name__, x)
            status = 1
            traceback.print_exc()
    for f in sim.at_exit:
        f()
    alive = [c.name for c in sim.ctxs if c is not main and not c.done]
    busy = sim.running
    sim.log('exit', status=status, what=what, running=busy, counts=sim.counts, maxrun=sim.maxrun, now=round(sim.now, 3),
            choices=sim.choices, workers=len(alive))
    os._exit(0)
