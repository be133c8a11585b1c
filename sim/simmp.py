"""multiprocessing and time on simulated processes."""
import errno
import itertools
import multiprocessing
import multiprocessing.pool
import multiprocessing.queues
import multiprocessing.synchronize
import multiprocessing.process
import os
import pickle
import queue as queue_mod
import random as random_mod
import signal
import time as time_mod
import sys
import types

from . import kernel

NS = kernel.NS


def K():
    k = kernel.K
    if k is None:
        raise kernel.HarnessError('multiprocessing object used outside a run')
    return k


class Shared(object):
    """Kernel-level object shared by all processes: never copied at fork."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise RuntimeError('%s objects should only be shared between processes through inheritance'
                           % type(self).__name__)

    _gen = None

    def _fresh(self):
        k = K()
        if self._gen is not k.shared_gen:
            self._gen = k.shared_gen
            self._reset()
        return k


class Semaphore(Shared):
    def __init__(self, value=1, maxvalue=None, kind='sem'):
        self.init = value
        self.maxvalue = maxvalue
        self.kind = kind
        self._reset()

    def _reset(self):
        self.value = self.init
        self.owner = None
        self.depth = 0

    def acquire(self, block=True, timeout=None):
        k = self._fresh()
        k.op('lock')
        if self.kind == 'rlock' and self.owner is k.cur:
            self.depth += 1
            return True
        if self.value <= 0:
            if not block:
                return False
            dl = None if timeout is None else k.now + int(max(0, timeout) * NS)
            if not k.block(lambda: self.value > 0, dl, 'lock'):
                return False
        self.value -= 1
        self.owner = k.cur
        self.depth = 1
        return True

    def release(self):
        k = self._fresh()
        if self.kind == 'rlock':
            if self.owner is not k.cur:
                raise AssertionError('attempt to release recursive lock not owned by thread')
            self.depth -= 1
            if self.depth:
                return
        elif self.kind in ('lock', 'bsem') and self.value >= self.init:
            raise ValueError('semaphore or lock released too many times')
        self.owner = None
        self.value += 1
        k.op('unlock')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def get_value(self):
        self._fresh()
        return self.value


def Lock():
    return Semaphore(1, 1, 'lock')


def RLock():
    return Semaphore(1, 1, 'rlock')


def BoundedSemaphore(value=1):
    return Semaphore(value, value, 'bsem')


class Event(Shared):
    def __init__(self):
        self._reset()

    def _reset(self):
        self.flag = False

    def is_set(self):
        self._fresh()
        return self.flag

    def set(self):
        self._fresh().op('event')
        self.flag = True

    def clear(self):
        self._fresh().op('event')
        self.flag = False

    def wait(self, timeout=None):
        k = self._fresh()
        k.op('event')
        dl = None if timeout is None else k.now + int(timeout * NS)
        return k.block(lambda: self.flag, dl, 'event')


class Condition(Shared):
    def __init__(self, lock=None):
        self._lock = lock or RLock()
        self._reset()

    def _reset(self):
        self.tickets = 0
        self.served = 0

    def acquire(self, *a):
        return self._lock.acquire(*a)

    def release(self):
        self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        k = self._fresh()
        my = self.tickets
        self.tickets += 1
        self._lock.release()
        dl = None if timeout is None else k.now + int(timeout * NS)
        ok = k.block(lambda: self.served > my, dl, 'cond')
        if not ok:
            self.served = max(self.served, my + 1)
        self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        k = self._fresh()
        dl = None if timeout is None else k.now + int(timeout * NS)
        while not predicate():
            if dl is not None and k.now >= dl:
                return False
            self.wait(None if dl is None else (dl - k.now) / NS)
        return True

    def notify(self, n=1):
        self._fresh().op('cond')
        self.served = min(self.tickets, self.served + n)

    def notify_all(self):
        self._fresh().op('cond')
        self.served = self.tickets


class Value(Shared):
    def __init__(self, typecode=None, value=0, lock=True):
        self.__dict__['_init'] = value
        self.__dict__['_lk'] = RLock()
        self.__dict__['_v'] = value

    def _reset(self):
        self.__dict__['_v'] = self._init

    @property
    def value(self):
        k = self._fresh()
        k.op('shmem')
        return self._v

    @value.setter
    def value(self, v):
        k = self._fresh()
        k.op('shmem')
        self.__dict__['_v'] = v

    def get_lock(self):
        return self._lk

    def get_obj(self):
        return self

    def acquire(self, *a):
        return self._lk.acquire(*a)

    def release(self):
        self._lk.release()

    def __enter__(self):
        return self._lk.acquire()

    def __exit__(self, *a):
        self._lk.release()


class Array(Shared):
    def __init__(self, typecode, size_or_init, lock=True):
        self._i = [0] * size_or_init if isinstance(size_or_init, int) else list(size_or_init)
        self._lk = RLock()
        self._reset()

    def _reset(self):
        self._v = list(self._i)

    def __getitem__(self, i):
        self._fresh().op('shmem')
        return self._v[i]

    def __setitem__(self, i, v):
        self._fresh().op('shmem')
        self._v[i] = v

    def __len__(self):
        return len(self._v)

    def get_lock(self):
        return self._lk


def needs_import(obj):
    """Objects that are not pickled without looking up classes or functions in their modules."""
    if isinstance(obj, (tuple, list)):
        return any(needs_import(x) for x in obj)
    return type(obj) not in (int, str, bytes, float, bool, type(None), bytearray)


def import_lock(p):
    """Looking a class up takes the import lock of its module (PyPy). A process that was forked while a
    feeder thread of its parent was holding it waits for ever."""
    if p.import_lock:
        K().block(lambda: False, what='import lock held by a thread of the parent when this process was forked')


class Queue(Shared):
    """multiprocessing.Queue: per-process buffer, a feeder thread that pickles and writes to a
    bounded pipe, qsize() counting what was put and not yet taken."""

    def __init__(self, maxsize=0, *, ctx=None):
        self.maxsize = maxsize
        self._reset()

    def _reset(self):
        self.pipe = []           # (payload bytes)
        self.outstanding = 0     # bytes in the pipe
        self.count = 0           # put minus taken
        self.buffers = {}        # proc -> list
        self.feeders = {}
        self.cancelled = set()
        self.wlock = False
        self.closed_by = set()

    def put(self, obj, block=True, timeout=None):
        k = self._fresh()
        p = k.cur_proc
        if p in self.closed_by:
            raise ValueError('Queue %r is closed' % self)
        k.op('qput')
        if self.maxsize > 0 and self.count >= self.maxsize:
            dl = None if timeout is None else k.now + int(timeout * NS)
            if not block or not k.block(lambda: self.count < self.maxsize, dl, 'queue full'):
                raise queue_mod.Full
        self.count += 1
        buf = self.buffers.setdefault(p, [])
        buf.append(obj)
        if p not in self.feeders:
            t = k.spawn(p, lambda: self._feed(p, buf), 'feeder of %s' % p.name)
            t.interruptible = False
            self.feeders[p] = t
            p.queue_feeders.append(self)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _feed(self, p, buf):
        k = K()
        cap = k.knobs.get('pipe_cap', 65536)
        while True:
            k.block(lambda: bool(buf), what='feeder')
            obj = buf[0]
            imports = needs_import(obj)
            if imports:
                import_lock(p)
                p.importing += 1
                k.op('pickle')
                p.importing -= 1
            try:
                data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
            except Exception:
                buf.pop(0)
                self.count -= 1
                continue
            k.block(lambda: not self.wlock and self.outstanding < cap, what='pipe')
            self.wlock = True
            k.op('pipewrite')
            entry = [data, imports]
            self.pipe.append(entry)
            self.outstanding += len(data) + 4
            if self.outstanding > cap:
                k.block(lambda: self.outstanding <= cap or not any(e is entry for e in self.pipe), what='pipe full')
            self.wlock = False
            buf.pop(0)

    def drained(self, p):
        return p in self.cancelled or not self.buffers.get(p)

    def get(self, block=True, timeout=None):
        k = self._fresh()
        if k.cur_proc in self.closed_by:
            raise ValueError('Queue %r is closed' % self)
        k.op('qget')
        if not self.pipe:
            if not block:
                raise queue_mod.Empty
            dl = None if timeout is None else k.now + int(max(0, timeout) * NS)
            if not k.block(lambda: bool(self.pipe), dl, 'queue get'):
                raise queue_mod.Empty
        data, imports = self.pipe.pop(0)
        self.outstanding -= len(data) + 4
        self.count -= 1
        if imports:
            import_lock(k.cur_proc)
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        self._fresh().op('qsize')
        return self.count

    def empty(self):
        self._fresh().op('qsize')
        return not self.pipe

    def full(self):
        self._fresh()
        return self.maxsize > 0 and self.count >= self.maxsize

    def close(self):
        k = self._fresh()
        self.closed_by.add(k.cur_proc)

    def join_thread(self):
        k = self._fresh()
        p = k.cur_proc
        k.block(lambda: self.drained(p), what='join_thread')

    def cancel_join_thread(self):
        k = self._fresh()
        self.cancelled.add(k.cur_proc)


class JoinableQueue(Queue):
    def _reset(self):
        Queue._reset(self)
        self.unfinished = 0

    def put(self, obj, block=True, timeout=None):
        Queue.put(self, obj, block, timeout)
        self.unfinished += 1

    def task_done(self):
        self._fresh()
        if self.unfinished <= 0:
            raise ValueError('task_done() called too many times')
        self.unfinished -= 1

    def join(self):
        self._fresh().block(lambda: self.unfinished == 0, what='queue join')


class SimpleQueue(Shared):
    def __init__(self, *, ctx=None):
        self._reset()

    def _reset(self):
        self.pipe = []
        self.outstanding = 0

    def put(self, obj):
        k = self._fresh()
        data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
        k.op('qput')
        cap = k.knobs.get('pipe_cap', 65536)
        k.block(lambda: self.outstanding < cap, what='pipe')
        e = [data]
        self.pipe.append(e)
        self.outstanding += len(data) + 4
        if self.outstanding > cap:
            k.block(lambda: self.outstanding <= cap or not any(x is e for x in self.pipe), what='pipe full')

    def get(self):
        k = self._fresh()
        k.op('qget')
        k.block(lambda: bool(self.pipe), what='simplequeue get')
        data = self.pipe.pop(0)[0]
        self.outstanding -= len(data) + 4
        return pickle.loads(data)

    def empty(self):
        self._fresh()
        return not self.pipe

    def close(self):
        pass


_counter = itertools.count(1)


class Process(object):
    """multiprocessing.Process, fork start method."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        k = kernel.K
        n = 1
        if k is not None:
            k.proc_names = getattr(k, 'proc_names', 0) + 1
            n = k.proc_names
        self._name = name or '%s-%d' % (type(self).__name__, n)
        self._daemonic = bool(daemon)
        self._sproc = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        k = K()
        assert self._sproc is None, 'cannot start a process twice'
        k.op('fork')
        parent = k.cur_proc
        image, child_self = k.memory.fork_image(self)
        p = k.new_proc(self._name, 'process', parent, self._daemonic)
        p.image = image
        self._sproc = p
        child_self._sproc = p
        p.handle = self

        def body():
            try:
                try:
                    child_self.run()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except kernel.HarnessError:
                    raise
                except kernel.greenlet.GreenletExit:
                    raise
                except BaseException as e:
                    code = 1
                    k.child_errors = getattr(k, 'child_errors', [])
                    k.child_errors.append((p.name, type(e).__name__, str(e)[:200]))
                p.main_task.interruptible = False
                p.main_task.throw = None
                if p.threads:
                    simpipes.finish_threads(k, p)
                for c in p.children:
                    if c.alive and c.daemon:
                        k.kill_proc(c)
                for c in p.children:
                    if c.alive:
                        k.block(lambda: not c.alive, what='exit: join child')
                for q in p.queue_feeders:
                    k.block(lambda: q.drained(p), what='exit: join queue feeder')
                p.exitcode = code
            finally:
                p.alive = False
                for t in list(k.tasks):
                    if t.proc is p and t is not p.main_task:
                        t.done = True
                        k.tasks.remove(t)
                        k.graveyard.append(t)
        p.main_task = k.spawn(p, body, self._name)
        if k.cur.proc.kbi_pending:
            pass

    def join(self, timeout=None):
        k = K()
        assert self._sproc is not None, 'can only join a started process'
        k.op('join')
        p = self._sproc
        dl = None if timeout is None else k.now + int(timeout * NS)
        k.block(lambda: not p.alive, dl, 'join %s' % self._name)

    def is_alive(self):
        k = K()
        k.op('poll')
        return self._sproc is not None and self._sproc.alive

    def terminate(self):
        k = K()
        k.op('kill')
        if self._sproc.alive:
            k.signal(self._sproc, signal.SIGTERM)

    def kill(self):
        k = K()
        k.op('kill')
        if self._sproc.alive:
            k.kill_proc(self._sproc)
            self._sproc.exitcode = -9

    def close(self):
        pass

    @property
    def exitcode(self):
        return None if self._sproc is None or self._sproc.alive else self._sproc.exitcode

    @property
    def pid(self):
        return self._sproc.pid if self._sproc else None

    ident = pid

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, n):
        self._name = n

    @property
    def daemon(self):
        return self._daemonic

    @daemon.setter
    def daemon(self, d):
        self._daemonic = d

    @property
    def sentinel(self):
        if self._sproc is None:
            raise ValueError('process not started')
        return simpipes.Sentinel(self._sproc)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self._name)


class Result(object):
    """AsyncResult and the imap iterators, for one submitted job."""

    def __init__(self, pool, callback=None, error_callback=None):
        self.pool = pool
        self.items = {}       # index -> (ok, value)
        self.order = []       # arrival
        self.length = None
        self.callback = callback
        self.error_callback = error_callback
        self.done = False
        self.value = None
        self.ok = True

    def __deepcopy__(self, memo):
        return self

    def arrive(self, i, ok, val):
        self.items[i] = (ok, val)
        self.order.append(i)

    def complete(self):
        return self.length is not None and len(self.order) >= self.length


class ImapIterator(object):
    def __init__(self, job, ordered):
        self.job = job
        self.ordered = ordered
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self, timeout=None):
        return self.next(timeout)

    def next(self, timeout=None):
        k = K()
        j = self.job
        k.op('result')
        if self.ordered:
            def ready():
                return self.i in j.items or (j.length is not None and self.i >= j.length)
        else:
            def ready():
                return self.i < len(j.order) or (j.length is not None and self.i >= j.length)
        dl = None if timeout is None else k.now + int(timeout * NS)
        if not k.block(ready, dl, 'pool result'):
            raise multiprocessing.TimeoutError
        if j.length is not None and self.i >= j.length and not (self.i < len(j.order)):
            raise StopIteration
        idx = self.i if self.ordered else j.order[self.i]
        self.i += 1
        ok, v = j.items.pop(idx)
        if ok:
            return v
        raise v


class AsyncResult(object):
    def __init__(self, job, collect):
        self.job = job
        self.collect = collect

    def ready(self):
        K().op('result')
        return self.job.complete() or self.job.done

    def wait(self, timeout=None):
        k = K()
        k.op('result')
        dl = None if timeout is None else k.now + int(timeout * NS)
        k.block(lambda: self.job.complete() or self.job.done, dl, 'pool result')

    def successful(self):
        if not self.ready():
            raise ValueError('not ready')
        return all(ok for ok, v in self.job.items.values())

    def get(self, timeout=None):
        self.wait(timeout)
        j = self.job
        if not (j.complete() or j.done):
            raise multiprocessing.TimeoutError
        for i in j.order:
            ok, v = j.items[i]
            if not ok:
                raise v
        return self.collect(j)


def _mapstar(args):
    return list(map(*args))


def _starmapstar(args):
    return list(itertools.starmap(args[0], args[1]))


class Pool(Shared):
    """multiprocessing.pool.Pool: worker processes forked at construction, a task-feeding thread
    that consumes the iterable lazily, whole chunks failing together."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        k = K()
        if processes is None:
            processes = k.knobs.get('cpus', 1)
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.n = processes
        self.k = k
        self.initializer = initializer
        self.initargs = initargs
        self.tasks = []         # pickled
        self.task_bytes = 0
        self.jobs = {}
        self.state = 'run'
        self.pending = 0
        self.workers = []
        self.feeds = []
        self.feeders = []
        self.owner = k.cur_proc
        self.maxtasks = maxtasksperchild
        for i in range(processes):
            self._new_worker(i)
        self.owner.pools.append(self)

    _thread = False

    def _new_worker(self, i):
        k = self.k
        k.op('fork')
        if self._thread:
            p = self.owner
        else:
            image, init = k.memory.fork_image((self.initializer, self.initargs))
            p = k.new_proc('PoolWorker-%d' % (i + 1), 'worker', self.owner, True)
            p.image = image
        t = k.spawn(p, lambda: self._worker(p, i), 'worker %d' % (i + 1))
        if self._thread:
            t.interruptible = False
        else:
            p.main_task = t
        self.workers.append((p, t))

    def _worker(self, p, i):
        k = self.k
        died = True
        try:
            if self.initializer is not None:
                self.initializer(*self.initargs)
            done = 0
            while True:
                k.block(lambda: bool(self.tasks) or self.state != 'run' and not self.feeds, what='pool task')
                if not self.tasks:
                    break
                k.op('task')
                if not self.tasks:
                    continue
                data = self.tasks.pop(0)
                self.task_bytes -= len(data)
                if not self._thread:
                    import_lock(p)
                jid, idx, func, args, kwargs = data if self._thread else pickle.loads(data)
                try:
                    r = (True, func(*args, **kwargs))
                except Exception as e:
                    r = (False, e)
                if self._thread:
                    payload = r
                else:
                    try:
                        payload = pickle.dumps(r, pickle.HIGHEST_PROTOCOL)
                    except Exception as e:
                        payload = pickle.dumps((False, multiprocessing.pool.MaybeEncodingError(e, r[1])))
                k.op('taskdone')
                try:
                    ok, v = payload if self._thread else pickle.loads(payload)
                except Exception:
                    # the result handler thread of a real pool dies here: the job never completes
                    continue
                job = self.jobs.get(jid)
                if job is not None:
                    job.arrive(idx, ok, v)
                    if job.complete():
                        self._finish(job)
                done += 1
                if self.maxtasks and done >= self.maxtasks:
                    break
            died = self.state == 'run' and not self.maxtasks
        finally:
            if not self._thread:
                p.alive = False
        if self.maxtasks and self.state == 'run' and not self._thread:
            self._new_worker(i)

    def _finish(self, job):
        job.done = True
        if all(ok for ok, v in job.items.values()):
            if job.callback:
                job.callback(job.collect(job))
        elif job.error_callback:
            job.error_callback([v for ok, v in job.items.values() if not ok][0])

    def _submit(self, job, gen):
        """gen yields (func, args, kwargs)"""
        k = self.k
        if self.state != 'run':
            raise ValueError('Pool not running')
        jid = len(self.jobs)
        self.jobs[jid] = job
        token = object()
        self.feeds.append(token)

        def feed():
            cap = k.knobs.get('pipe_cap', 65536)
            i = -1
            try:
                try:
                    for i, (func, args, kwargs) in enumerate(gen):
                        if self.state == 'terminate':
                            break
                        if self._thread:
                            data = (jid, i, func, args, kwargs)
                            self.tasks.append(data)
                            k.op('feed')
                            continue
                        try:
                            data = pickle.dumps((jid, i, func, args, kwargs), pickle.HIGHEST_PROTOCOL)
                        except Exception as e:
                            job.arrive(i, False, e)
                            continue
                        k.op('feed')
                        k.block(lambda: self.task_bytes < cap or self.state == 'terminate', what='task pipe')
                        if self.state == 'terminate':
                            break
                        self.tasks.append(data)
                        self.task_bytes += len(data)
                except Exception as e:
                    i += 1
                    job.arrive(i, False, e)
                if self.state == 'terminate':
                    return
                job.length = i + 1
                if job.complete():
                    self._finish(job)
            finally:
                self.feeds.remove(token)
        t = k.spawn(self.owner, feed, 'pool feeder')
        t.interruptible = False
        self.feeders.append(t)
        return job

    @staticmethod
    def _batches(func, it, size, star=False):
        it = iter(it)
        while True:
            x = tuple(itertools.islice(it, size))
            if not x:
                return
            yield (func, x)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def _imap(self, func, iterable, chunksize, ordered):
        if chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
        job = Result(self)
        if chunksize == 1:
            gen = ((func, (x,), {}) for x in iterable)
            self._submit(job, gen)
            return ImapIterator(job, ordered)
        gen = ((_mapstar, (b,), {}) for b in self._batches(func, iterable, chunksize))
        self._submit(job, gen)
        it = ImapIterator(job, ordered)
        return (item for chunk in it for item in chunk)

    def _map(self, func, iterable, mapper, chunksize, callback=None, error_callback=None):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        job = Result(self, callback, error_callback)
        job.collect = lambda j: [x for i in sorted(j.items) for x in j.items[i][1]]
        self._submit(job, ((mapper, (b,), {}) for b in self._batches(func, items, chunksize)))
        return AsyncResult(job, job.collect)

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, _mapstar, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, _mapstar, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, _starmapstar, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, _starmapstar, chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        job = Result(self, callback, error_callback)
        job.collect = lambda j: j.items[0][1]
        self._submit(job, iter([(func, tuple(args), dict(kwds))]))
        return AsyncResult(job, job.collect)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        if self.state == 'run':
            self.state = 'close'

    def _terminate_now(self):
        k = self.k
        self.state = 'terminate'
        for p, t in self.workers:
            if self._thread:
                continue
            if p.alive:
                k.kill_proc(p)
        self.tasks = []
        if self in self.owner.pools:
            self.owner.pools.remove(self)
        # the thread consuming the iterable goes on until its next element
        k.block(lambda: all(t.done for t in self.feeders), what='pool: join task handler')

    def terminate(self):
        self.k.op('terminate')
        self._terminate_now()

    def join(self):
        k = self.k
        if self.state == 'run':
            raise ValueError('Pool is still running')
        k.op('join')
        if self._thread:
            k.block(lambda: all(t.done for p, t in self.workers), what='pool join')
        else:
            k.block(lambda: not any(p.alive for p, t in self.workers), what='pool join')

    def __enter__(self):
        if self.state != 'run':
            raise ValueError('Pool not running')
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        pass


class ThreadPool(Pool):
    _thread = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        Pool.__init__(self, processes, initializer, initargs)


class Context(object):
    """multiprocessing.get_context()"""


def cpu_count():
    k = kernel.K
    if k is None:
        return 1
    return k.knobs.get('cpus', 1)


class _Current(object):
    def __init__(self, p):
        self.name = 'MainProcess' if p.kind == 'main' else p.name
        self.pid = self.ident = p.pid
        self.daemon = p.daemon
        self.exitcode = None
        self.authkey = b'x'
        self._config = {}

    def is_alive(self):
        return True


def current_process():
    return _Current(K().cur_proc)


def active_children():
    return [c.handle for c in K().cur_proc.children if c.alive and c.handle is not None]


class RandomProxy(object):
    """random.<fn> drawing from the running simulated process's own generator."""

    def __init__(self):
        self.names = [n for n in ('random', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle',
                                  'uniform', 'getrandbits', 'gauss', 'expovariate', 'betavariate', 'triangular',
                                  'normalvariate', 'seed', 'getstate', 'setstate') if hasattr(random_mod, n)]
        self.real = {n: getattr(random_mod, n) for n in self.names}

    def install(self):
        for n in self.names:
            setattr(random_mod, n, self._make(n))

    def _make(self, n):
        real = self.real[n]

        def f(*a, **kw):
            k = kernel.K
            if k is None or k.cur_proc is None:
                return real(*a, **kw)
            if n == 'seed' and not a:
                a = (k.cur_proc.pid,)
            return getattr(k.cur_proc.rng, n)(*a, **kw)
        f.__name__ = n
        return f


from . import simfutures, simpipes    # noqa: E402  (they build on the classes above)


def install_exit():
    """Exit functions and signal handlers."""
    import atexit
    real_register, real_unregister = atexit.register, atexit.unregister
    real_signal, real_getsignal = signal.signal, signal.getsignal

    def current():
        k = kernel.K
        return None if k is None else k.cur_proc

    def register(fn, *a, **kw):
        p = current()
        if p is None:
            return real_register(fn, *a, **kw)
        p.atexit.append((fn, a, kw))
        return fn

    def unregister(fn):
        p = current()
        if p is None:
            return real_unregister(fn)
        p.atexit = [x for x in p.atexit if x[0] != fn]

    def default(n):
        return signal.default_int_handler if n == signal.SIGINT else signal.SIG_DFL

    def set_handler(n, h):
        p = current()
        if p is None:
            return real_signal(n, h)
        n = int(n)
        if n in (signal.SIGKILL, signal.SIGSTOP):
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        if kernel.K.cur is not p.main_task:
            raise ValueError('signal only works in main thread')
        old = p.handlers.get(n, default(n))
        p.handlers[n] = h
        return old

    def getsignal(n):
        p = current()
        return real_getsignal(n) if p is None else p.handlers.get(int(n), default(n))

    def unsupported(name):
        real = getattr(signal, name)

        def f(*a):
            if current() is not None:
                raise kernel.HarnessError('signal.%s' % name)
            return real(*a)
        return f
    atexit.register, atexit.unregister = register, unregister
    signal.signal, signal.getsignal = set_handler, getsignal
    for n in ('alarm', 'setitimer', 'pthread_kill', 'sigwait', 'pause', 'raise_signal'):
        setattr(signal, n, unsupported(n))


def install():
    real_time = {n: getattr(time_mod, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns',
                                                   'monotonic_ns', 'perf_counter_ns', 'localtime', 'gmtime',
                                                   'strftime', 'ctime', 'process_time')}

    def t_time():
        k = kernel.K
        return real_time['time']() if k is None else k.wall_ns() / 1e9

    def t_time_ns():
        k = kernel.K
        return real_time['time_ns']() if k is None else k.wall_ns()

    def t_mono():
        k = kernel.K
        return real_time['monotonic']() if k is None else k.now / 1e9

    def t_mono_ns():
        k = kernel.K
        return real_time['monotonic_ns']() if k is None else k.now

    def t_sleep(s):
        k = kernel.K
        return real_time['sleep'](s) if k is None else k.sleep(s)

    def with_now(name, pos):
        real = real_time[name]

        def f(*a):
            k = kernel.K
            if k is not None and len(a) <= pos:
                if name == 'strftime':
                    a = a + (real_time['localtime'](k.wall_ns() / 1e9),)
                else:
                    a = a + (k.wall_ns() / 1e9,)
            return real(*a)
        return f
    time_mod.time = t_time
    time_mod.time_ns = t_time_ns
    time_mod.monotonic = time_mod.perf_counter = time_mod.process_time = t_mono
    time_mod.monotonic_ns = time_mod.perf_counter_ns = t_mono_ns
    time_mod.sleep = t_sleep
    for n, pos in (('localtime', 0), ('gmtime', 0), ('ctime', 0), ('strftime', 1)):
        setattr(time_mod, n, with_now(n, pos))
    # modules imported before that have their own names for these functions
    swap = {id(f): getattr(time_mod, n) for n, f in real_time.items()}
    keep = list(real_time.values())
    for name, m in list(sys.modules.items()):
        if m is None or m is time_mod or name.split('.')[0] in ('sim', '__main__', 'threading', 'selectors', 'signal'):
            continue
        for n, v in list(vars(m).items()):
            if id(v) in swap and any(v is f for f in keep):
                setattr(m, n, swap[id(v)])

    real_getpid, real_urandom, real_cpu = os.getpid, os.urandom, os.cpu_count

    def getpid():
        k = kernel.K
        return real_getpid() if k is None or k.cur_proc is None else k.cur_proc.pid

    def getppid():
        k = kernel.K
        if k is None or k.cur_proc is None:
            return 1
        return k.cur_proc.parent.pid if k.cur_proc.parent else 1

    def urandom(n):
        k = kernel.K
        if k is None or k.cur_proc is None:
            return real_urandom(n)
        if not hasattr(k, 'entropy'):
            k.entropy = kernel.mkrandom('entropy', k.seed)
        return k.entropy.getrandbits(8 * n).to_bytes(n, 'little') if n else b''

    class SimRandom(random_mod.Random):
        """Unseeded generators created during a run draw their seed from the run's."""

        def seed(self, a=None, version=2):
            if a is None and kernel.K is not None:
                a = int.from_bytes(urandom(16), 'little')
            super().seed(a, version)

    SimRandom.__name__ = SimRandom.__qualname__ = 'Random'
    random_mod.Random = SimRandom
    import tempfile
    tempfile._Random = SimRandom
    os.getpid, os.getppid, os.urandom = getpid, getppid, urandom
    random_mod._urandom = urandom
    os.cpu_count = lambda: real_cpu() if kernel.K is None else cpu_count()
    os.sched_getaffinity = lambda pid: set(range(cpu_count()))

    def os_exit(code):
        k = kernel.K
        if k is None:
            raise kernel.HarnessError('os._exit')
        p = k.cur_proc
        p.exitcode = code
        k.kill_proc(p)
        if p.kind == 'main':
            raise kernel.HarnessError('os._exit in the main process')
        k.pending = k._choose(None)
        k.hub.switch()
    os._exit = os_exit

    def os_kill(pid, sig):
        k = kernel.K
        if k is None:
            raise kernel.HarnessError('os.kill')
        for p in k.procs:
            if p.pid == pid:
                if sig in (signal.SIGINT, signal.SIGTERM) and p.alive:
                    k.signal(p, int(sig))
                    if p is k.cur_proc:
                        if not p.alive:
                            k.pending = k._choose(None)
                            k.hub.switch()
                        if k.cur is p.main_task:
                            k._resume(k.cur)
                elif sig and p.alive and p is not k.cur_proc:
                    k.kill_proc(p)
                    p.exitcode = -sig
                return
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    os.kill = os_kill
    install_exit()

    mp = multiprocessing
    ctx = Context()
    names = dict(Process=Process, Pool=Pool, Queue=Queue, JoinableQueue=JoinableQueue, SimpleQueue=SimpleQueue,
                 Lock=Lock, RLock=RLock, Semaphore=Semaphore, BoundedSemaphore=BoundedSemaphore, Event=Event,
                 Condition=Condition, Value=Value, RawValue=Value, Array=Array, RawArray=Array, cpu_count=cpu_count,
                 current_process=current_process, active_children=active_children)
    for n, v in names.items():
        setattr(mp, n, v)
        setattr(ctx, n, v)
    ctx.get_start_method = lambda allow_none=False: 'fork'
    ctx.get_context = lambda method=None: ctx
    ctx.TimeoutError = mp.TimeoutError
    ctx._name = 'fork'
    mp.get_context = lambda method=None: ctx
    mp.get_start_method = lambda allow_none=False: 'fork'
    mp.set_start_method = lambda *a, **kw: None
    mp.parent_process = lambda: None

    def refuse(n):
        def f(*a, **kw):
            raise kernel.HarnessError('multiprocessing.%s is not simulated' % n)
        return f
    for n in ('Manager',):
        setattr(mp, n, refuse(n))
        setattr(ctx, n, refuse(n))
    mp.pool.Pool = Pool
    mp.pool.ThreadPool = ThreadPool
    mp.queues.Queue = Queue
    mp.queues.JoinableQueue = JoinableQueue
    mp.queues.SimpleQueue = SimpleQueue
    mp.synchronize.Lock = Lock
    mp.synchronize.RLock = RLock
    mp.synchronize.Event = Event
    mp.process.BaseProcess = Process
    mp.process.current_process = current_process
    RandomProxy().install()
    simfutures.install()
    simpipes.install(ctx)
