"""concurrent.futures on simulated processes: the executors run on the simulated pools."""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import pickle
import threading
from functools import partial
from concurrent.futures import _base
from concurrent.futures.process import BrokenProcessPool, _chain_from_iterable_of_lists, _get_chunks, _process_chunk

from . import kernel, simmp, simpipes

NS = kernel.NS


class Workers(simmp.Pool):
    def __init__(self, *a):
        self.clean = set()
        simmp.Pool.__init__(self, *a)

    def _worker(self, p, i):
        simmp.Pool._worker(self, p, i)
        self.clean.add(i)

    def broken(self):
        return any(not p.alive and i not in self.clean for i, (p, t) in enumerate(self.workers))


class ThreadWorkers(Workers):
    _thread = True

    def broken(self):
        return False


class SimFuture(_base.Future):
    def __init__(self, executor):
        _base.Future.__init__(self)
        self._condition = threading.Condition(simpipes.real_rlock())
        self.executor = executor
        self.task = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def cancel(self):
        if self.done():
            return self.cancelled()
        tasks = self.executor.pool.tasks
        for i, t in enumerate(tasks):
            if t is self.task:
                del tasks[i]
                r = _base.Future.cancel(self)
                self.set_running_or_notify_cancel()
                return r
        return False

    def running(self):
        return not self.done() and not any(t is self.task for t in self.executor.pool.tasks)

    def _wait(self, timeout):
        k = simmp.K()
        k.op('result')
        pool = self.executor.pool
        dl = None if timeout is None else k.now + int(timeout * NS)
        if not k.block(lambda: self.done() or pool.broken(), dl, 'future'):
            raise _base.TimeoutError()
        self.executor.check()

    def result(self, timeout=None):
        self._wait(timeout)
        return _base.Future.result(self, 0)

    def exception(self, timeout=None):
        self._wait(timeout)
        return _base.Future.exception(self, 0)


class Executor(_base.Executor):
    workers = Workers

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=()):
        k = simmp.K()
        if max_workers is None:
            max_workers = self.default(k)
        if max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self.args = max_workers, initializer, initargs
        self.pool = None
        self.futures = []
        self.stopped = False
        self.is_broken = False

    def default(self, k):
        return k.knobs.get('cpus', 1)

    def __deepcopy__(self, memo):
        return self

    def check(self):
        if self.pool is not None and self.pool.broken() and not self.is_broken:
            self.is_broken = True
            self.pool._terminate_now()
            for f in self.futures:
                if not f.done():
                    f.set_exception(BrokenProcessPool(
                        'A process in the process pool was terminated abruptly while the future was running or pending.'))

    def submit(self, fn, *args, **kwargs):
        k = simmp.K()
        k.op('submit')
        self.check()
        if self.is_broken:
            raise BrokenProcessPool('A child process terminated abruptly, the process pool is not usable anymore')
        if self.stopped:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if self.pool is None:
            self.pool = self.workers(*self.args)
        pool = self.pool
        f = SimFuture(self)
        self.futures.append(f)

        def done(v):
            if not f.done():
                f.set_result(v)

        def fail(e):
            if not f.done():
                f.set_exception(e)
        job = simmp.Result(pool, done, fail)
        job.collect = lambda j: j.items[0][1]
        job.length = 1
        jid = len(pool.jobs)
        pool.jobs[jid] = job
        task = (jid, 0, fn, args, kwargs)
        if not pool._thread:
            try:
                task = pickle.dumps(task, pickle.HIGHEST_PROTOCOL)
            except Exception as e:
                f.set_exception(e)
                return f
        f.task = task
        pool.tasks.append(task)
        pool.task_bytes += len(task)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        if self.workers._thread:
            return _base.Executor.map(self, fn, *iterables, timeout=timeout)
        return _chain_from_iterable_of_lists(_base.Executor.map(
            self, partial(_process_chunk, fn), _get_chunks(*iterables, chunksize=chunksize), timeout=timeout))

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.stopped = True
        if self.pool is None:
            return
        if cancel_futures:
            for f in self.futures:
                f.cancel()
        self.pool.close()
        if wait:
            k = simmp.K()
            k.op('join')
            pool = self.pool
            k.block(lambda: pool.broken() or
                    (all(t.done for p, t in pool.workers) if pool._thread else
                     not any(p.alive for p, t in pool.workers)), what='executor shutdown')
            self.check()
            if pool in pool.owner.pools:
                pool.owner.pools.remove(pool)


class ThreadExecutor(Executor):
    workers = ThreadWorkers

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        Executor.__init__(self, max_workers, None, initializer, initargs)

    def default(self, k):
        return min(32, k.knobs.get('cpus', 1) + 4)


def wait_for(fs, timeout=None, return_when=_base.ALL_COMPLETED):
    k = simmp.K()
    fs = set(fs)
    k.op('result')

    def ready():
        done = [f for f in fs if f.done()]
        if any(f.executor.pool.broken() for f in fs):
            return True
        if return_when == _base.FIRST_COMPLETED and done:
            return True
        if return_when == _base.FIRST_EXCEPTION and any(not f.cancelled() and f._exception for f in done):
            return True
        return len(done) == len(fs)
    k.block(ready, None if timeout is None else k.now + int(timeout * NS), 'futures')
    for f in fs:
        f.executor.check()
    done = {f for f in fs if f.done()}
    return _base.DoneAndNotDoneFutures(done, fs - done)


def as_completed(fs, timeout=None):
    k = simmp.K()
    left = list(dict.fromkeys(fs))
    end = None if timeout is None else k.now + int(timeout * NS)
    while left:
        k.op('result')
        if not k.block(lambda: any(f.done() or f.executor.pool.broken() for f in left), end, 'futures'):
            raise _base.TimeoutError('%d (of %d) futures unfinished' % (len(left), len(fs)))
        for f in left:
            f.executor.check()
        for f in [f for f in left if f.done()]:
            left.remove(f)
            yield f


def install():
    for m in (concurrent.futures, concurrent.futures.process):
        m.ProcessPoolExecutor = Executor
    for m in (concurrent.futures, concurrent.futures.thread):
        m.ThreadPoolExecutor = ThreadExecutor
    for m in (concurrent.futures, _base):
        m.wait = wait_for
        m.as_completed = as_completed
