"""In-simulation stand-ins for multiprocessing.{Process,Queue,Pool} and ProcessPoolExecutor.

A simulated OS process is a scheduler task with its own Proc (own pid, own `random` state);
arguments and results cross the boundary as pickles.  When a child runs relative to its parent
and siblings is the scheduler's (recorded) decision."""
import concurrent.futures
import multiprocessing
import pickle
import queue as queue_mod
import random

from sim import seams
from sim.seams import SimDeadlock, SimStop
from sim.sched import Proc


def _copy(obj):
    return pickle.loads(pickle.dumps(obj, pickle.HIGHEST_PROTOCOL))


def _sim():
    s = seams.cur()
    if s is None or s.sched is None:
        raise RuntimeError("multiprocessing used outside a simulation")
    return s


def new_proc(sim, kind):
    sim.nprocs = getattr(sim, "nprocs", 0) + 1
    p = Proc("%s%d" % (kind, sim.nprocs), sim.pid + 100 + sim.nprocs)
    # like a fork: the child gets a re-seeded generator of its own
    p.rstate = random.Random("proc:%s:%s" % (sim.key, p.name)).getstate()
    sim.sched.per_proc_random = True
    return p


class SimQueue:
    def __init__(self, maxsize=0, **kw):
        self._items = []
        self._maxsize = maxsize
        self._closed = False

    def put(self, obj, block=True, timeout=None):
        s = _sim()
        try:
            data = pickle.dumps(obj)
        except Exception as e:
            # the real queue pickles in a thread of its own, which prints the error and drops the item
            s.log("queue", "dropped", type(e).__name__)
            s.probe("queue_items_dropped")
            return
        s.sched.maybe_switch("queue.put")
        self._items.append(data)
        s.log("queue", "put", len(self._items))
        s.sched.poke()

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        s = _sim()
        s.sched.maybe_switch("queue.get")
        if not self._items:
            if not block:
                raise queue_mod.Empty()
            if timeout is not None:
                t_end = s.clock.t + timeout
                while not self._items and s.clock.t < t_end:
                    s.sched.sleep(max(0.001, min(0.05, t_end - s.clock.t)))
                if not self._items:
                    if s.cfg.get("stall"):  # the reader is held up just after it gave up waiting
                        s.sched.sleep(s.cfg["stall"])
                        s.probe("reader_stalled")
                    raise queue_mod.Empty()
            else:
                s.sched.wait_until(lambda: bool(self._items), "queue.get")
        return pickle.loads(self._items.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._items

    def qsize(self):
        return len(self._items)

    def full(self):
        return False

    def close(self):
        self._closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimProcess:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name or "SimProcess"
        self.daemon = daemon
        self._task = None
        self.exitcode = None
        self.pid = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _sim()
        proc = new_proc(s, "child")
        self.pid = proc.pid
        s.probe("child_processes")

        def body():
            s.sched.maybe_switch("child start")
            try:
                self.run()
                self.exitcode = 0
            except SimStop:
                self.exitcode = -9
                raise
            except BaseException as e:  # printed to stderr by the real thing; exit code 1
                s.log("child", proc.name, "died", type(e).__name__)
                s.child_errors.append(e)
                self.exitcode = 1
            finally:
                s.sched.poke()

        self._task = s.sched.spawn(proc.name, body, proc)
        s.sched.maybe_switch("process.start")

    def is_alive(self):
        _sim().sched.maybe_switch("is_alive")
        return self._task is not None and self.exitcode is None

    def join(self, timeout=None):
        s = _sim()
        if timeout is not None:
            t_end = s.clock.t + timeout
            while self.exitcode is None and s.clock.t < t_end:
                s.sched.sleep(max(0.001, min(0.05, t_end - s.clock.t)))
        else:
            s.sched.wait_until(lambda: self.exitcode is not None, "process.join")

    def terminate(self):
        if self._task is not None and self.exitcode is None:
            self.exitcode = -15
            _sim().sched.crash_proc(self._task.proc)

    kill = terminate

    def close(self):
        pass


class _Job:
    def __init__(self, fn, args, kwargs):
        self.data = pickle.dumps((fn, args, kwargs), pickle.HIGHEST_PROTOCOL)
        self.done = False
        self.value = None
        self.error = None


class _Workers:
    """n simulated worker processes pulling jobs off a shared list"""

    def __init__(self, n, initializer=None, initargs=()):
        self.n = max(1, int(n or 1))
        self.jobs = []
        self.closed = False
        self.tasks = None
        self.init = (initializer, initargs)

    def submit(self, job):
        s = _sim()
        if self.tasks is None:
            self.tasks = []
            for _ in range(self.n):
                proc = new_proc(s, "worker")
                self.tasks.append(s.sched.spawn(proc.name, lambda: self._serve(s), proc))
        self.jobs.append(job)
        s.sched.poke()

    def _serve(self, s):
        fn, a = self.init
        if fn:
            fn(*a)
        while True:
            if not self.jobs:
                s.sched.wait_until(lambda: bool(self.jobs) or self.closed, "pool idle")
                if not self.jobs:
                    return
            job = self.jobs.pop(0)
            try:
                f, args, kwargs = pickle.loads(job.data)
                job.value = pickle.dumps(f(*args, **kwargs), pickle.HIGHEST_PROTOCOL)
            except SimStop:
                raise
            except BaseException as e:
                try:
                    pickle.loads(pickle.dumps(e))
                    job.error = e
                except Exception:
                    job.error = RuntimeError(repr(e))
            job.done = True
            s.sched.poke()
            s.sched.maybe_switch("job done")

    def wait(self, job):
        s = _sim()
        if not job.done:
            s.sched.wait_until(lambda: job.done, "pool result")
        if job.error is not None:
            raise job.error
        return pickle.loads(job.value)

    def close(self):
        self.closed = True
        s = seams.cur()
        if s is not None and s.sched is not None:
            s.sched.poke()

    def join(self):
        if self.tasks:
            _sim().sched.wait_until(lambda: all(t.state == "done" for t in self.tasks), "pool.join")


class _Async:
    def __init__(self, w, jobs, single):
        self.w, self.jobs, self.single = w, jobs, single

    def get(self, timeout=None):
        r = [self.w.wait(j) for j in self.jobs]
        return r[0] if self.single else r

    def wait(self, timeout=None):
        for j in self.jobs:
            try:
                self.w.wait(j)
            except Exception:
                pass

    def ready(self):
        return all(j.done for j in self.jobs)

    def successful(self):
        return all(j.error is None for j in self.jobs)


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._w = _Workers(processes or 4, initializer, initargs)

    def _jobs(self, fn, argss):
        js = [_Job(fn, a, {}) for a in argss]
        for j in js:
            self._w.submit(j)
        return js

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        j = _Job(fn, tuple(args), dict(kwds))
        self._w.submit(j)
        return _Async(self._w, [j], True)

    def map(self, fn, it, chunksize=None):
        return self.map_async(fn, it).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self._w, self._jobs(fn, [(x,) for x in it]), False)

    def starmap(self, fn, it, chunksize=None):
        return _Async(self._w, self._jobs(fn, [tuple(x) for x in it]), False).get()

    def imap(self, fn, it, chunksize=1):
        for j in self._jobs(fn, [(x,) for x in it]):
            yield self._w.wait(j)

    def imap_unordered(self, fn, it, chunksize=1):
        left = self._jobs(fn, [(x,) for x in it])
        s = _sim()
        while left:
            s.sched.wait_until(lambda: any(j.done for j in left), "imap_unordered")
            done = [j for j in left if j.done]
            j = done[s.choose(len(done))]
            left.remove(j)
            yield self._w.wait(j)

    def close(self):
        self._w.close()

    def terminate(self):
        self._w.jobs[:] = []
        self._w.close()

    def join(self):
        self._w.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=()):
        self._n = max_workers
        self._wk = None
        self._init = (initializer, initargs)
        self._down = False

    def submit(self, fn, *args, **kwargs):
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if self._wk is None:
            self._wk = _Workers(self._n or 4, *self._init)
        job = _Job(fn, args, kwargs)
        w = self._wk
        w.submit(job)
        return SimFuture(w, job)

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()

        return gen()

    def shutdown(self, wait=True, **kw):
        self._down = True
        s = seams.cur()
        if s is not None:
            s.log("executor", "shutdown")
        if self._wk is not None:
            self._wk.close()
            if wait:
                self._wk.join()


class SimFuture:
    def __init__(self, w, job):
        self._w, self._job = w, job

    def result(self, timeout=None):
        return self._w.wait(self._job)

    def done(self):
        return self._job.done

    def exception(self, timeout=None):
        try:
            self._w.wait(self._job)
        except Exception as e:
            return e
        return None

    def add_done_callback(self, fn):
        try:
            self._w.wait(self._job)
        except Exception:
            pass
        fn(self)


def install():
    multiprocessing.Process = SimProcess
    multiprocessing.Queue = SimQueue
    multiprocessing.SimpleQueue = SimQueue
    multiprocessing.JoinableQueue = SimQueue
    multiprocessing.Pool = SimPool
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    import concurrent.futures.process as p

    p.ProcessPoolExecutor = SimExecutor
