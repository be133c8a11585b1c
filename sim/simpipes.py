"""Pipes, sentinels, barriers and threads on simulated processes."""
import multiprocessing
import multiprocessing.connection
import pickle
import queue
import threading

from . import kernel, simmp

NS = kernel.NS


class Sentinel(int):
    def __new__(cls, p):
        s = int.__new__(cls, 100000 + p.pid)
        s.proc = p
        return s

    def sim_ready(self):
        return not self.proc.alive


class Connection(simmp.Shared):
    """One end of a pipe; it is open in every process that inherited it and did not close it."""

    def __init__(self, proc, readable, writable):
        self.holders = {proc}
        self.readable = readable
        self.writable = writable
        self.inbox = []
        self.bytes = 0
        self.peer = None

    def inherit(self, parent, child):
        if parent in self.holders:
            self.holders.add(child)

    def _here(self):
        k = simmp.K()
        if k.cur_proc not in self.holders:
            raise OSError('handle is closed')
        return k

    @property
    def closed(self):
        return simmp.K().cur_proc not in self.holders

    def fileno(self):
        self._here()
        return 50000 + id(self) % 10000

    def close(self):
        self.holders.discard(simmp.K().cur_proc)

    def open_somewhere(self):
        return any(p.alive for p in self.holders)

    def sim_ready(self):
        return bool(self.inbox) or not self.peer.open_somewhere()

    def send_bytes(self, data, offset=0, size=None):
        k = self._here()
        if not self.writable:
            raise OSError('connection is read-only')
        data = bytes(data)[offset:None if size is None else offset + size]
        k.op('send')
        cap = k.knobs.get('pipe_cap', 65536)
        k.block(lambda: self.peer.bytes < cap or not self.peer.open_somewhere(), what='pipe')
        if not self.peer.open_somewhere():
            raise BrokenPipeError(32, 'Broken pipe')
        self.peer.inbox.append(data)
        self.peer.bytes += len(data)

    def send(self, obj):
        self._here()
        self.send_bytes(pickle.dumps(obj, pickle.HIGHEST_PROTOCOL))

    def recv_bytes(self, maxlength=None):
        k = self._here()
        if not self.readable:
            raise OSError('connection is write-only')
        k.op('recv')
        k.block(self.sim_ready, what='pipe')
        if not self.inbox:
            raise EOFError
        data = self.inbox.pop(0)
        self.bytes -= len(data)
        return data

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def poll(self, timeout=0.0):
        k = self._here()
        k.op('poll')
        return bool(k.block(self.sim_ready, None if timeout is None else k.now + int(max(0, timeout) * NS), 'pipe'))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def Pipe(duplex=True):
    k = simmp.K()
    a = Connection(k.cur_proc, True, duplex)
    b = Connection(k.cur_proc, duplex, True)
    a.peer, b.peer = b, a
    k.conns += [a, b]
    return a, b


def wait(object_list, timeout=None):
    k = simmp.K()
    objs = list(object_list)
    for o in objs:
        if not hasattr(o, 'sim_ready'):
            raise kernel.HarnessError('connection.wait on %r' % (o,))
    k.op('poll')
    k.block(lambda: any(o.sim_ready() for o in objs),
            None if timeout is None else k.now + int(max(0, timeout) * NS), 'wait')
    return [o for o in objs if o.sim_ready()]


class Barrier(simmp.Shared):
    def __init__(self, parties, action=None, timeout=None):
        self.parties = parties
        self.action = action
        self.timeout = timeout
        self.n = 0
        self.generation = 0
        self.broken = False

    @property
    def n_waiting(self):
        return self.n

    def wait(self, timeout=None):
        k = simmp.K()
        k.op('barrier')
        timeout = self.timeout if timeout is None else timeout
        if self.broken:
            raise threading.BrokenBarrierError
        g, i = self.generation, self.n
        self.n += 1
        if self.n == self.parties:
            if self.action:
                self.action()
            self.n = 0
            self.generation += 1
            return i
        ok = k.block(lambda: self.generation != g or self.broken,
                     None if timeout is None else k.now + int(timeout * NS), 'barrier')
        if not ok:
            self.broken = True
        if self.broken:
            raise threading.BrokenBarrierError
        return i

    def abort(self):
        self.broken = True

    def reset(self):
        self.broken = False
        self.n = 0
        self.generation += 1


class ThreadLock(simmp.Semaphore):
    """threading.Lock and RLock: private to a process, so that a fork copies nothing of interest."""

    def acquire(self, blocking=True, timeout=-1):
        return simmp.Semaphore.acquire(self, blocking, None if timeout is None or timeout < 0 else timeout)

    __enter__ = acquire

    def locked(self):
        self._fresh()
        return self.value <= 0

    def release(self):
        self._fresh()
        if self.value >= self.init:
            raise RuntimeError('release unlocked lock')
        try:
            simmp.Semaphore.release(self)
        except AssertionError:
            raise RuntimeError('cannot release un-acquired lock')

    # threading.Condition's protocol
    def _is_owned(self):
        if self.kind == 'rlock':
            return self.owner is simmp.K().cur
        return self.value <= 0

    def _release_save(self):
        d, self.depth = self.depth, 1
        self.release()
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = 1 if self.kind != 'rlock' else d


real_lock, real_rlock, RealThread = threading.Lock, threading.RLock, threading.Thread


def Lock():
    k = kernel.K
    return real_lock() if k is None or k.cur is None else ThreadLock(1, 1, 'lock')


def RLock():
    k = kernel.K
    return real_rlock() if k is None or k.cur is None else ThreadLock(1, 1, 'rlock')


class Thread(RealThread):
    _task = None

    def __deepcopy__(self, memo):
        return self

    def start(self):
        k = kernel.K
        if k is None:
            return RealThread.start(self)
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        k.op('thread')
        self._task = k.spawn(k.cur_proc, self._sim, self.name)
        self._task.interruptible = False
        k.cur_proc.threads.append(self)

    def _sim(self):
        try:
            self.run()
        except (kernel.HarnessError, kernel.greenlet.GreenletExit):
            raise
        except BaseException:
            pass        # printed by threading.excepthook; the process goes on

    def join(self, timeout=None):
        k = kernel.K
        if k is None or self._task is None:
            return RealThread.join(self, timeout)
        k.op('join')
        k.block(lambda: self._task.done, None if timeout is None else k.now + int(max(0, timeout) * NS), 'thread join')

    def is_alive(self):
        if self._task is None:
            return RealThread.is_alive(self)
        return not self._task.done

    @property
    def ident(self):
        return RealThread.ident.fget(self) if self._task is None else self._task.tid

    @property
    def daemon(self):
        return self._daemonic

    @daemon.setter
    def daemon(self, d):
        self._daemonic = d


def finish_threads(k, p):
    """A process that ends waits for its threads that are no daemons."""
    for t in p.threads:
        if not t.daemon and not t._task.done:
            k.block(lambda: t._task.done, what='exit: join thread')


def install(ctx):
    for m in (multiprocessing, ctx):
        m.Pipe = Pipe
        m.Barrier = Barrier
    multiprocessing.connection.wait = wait
    multiprocessing.connection.Pipe = Pipe
    threading.Thread = Thread
    threading.Timer = type('Timer', (Thread,), {n: v for n, v in vars(threading.Timer).items() if n not in ('__dict__', '__weakref__')})
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = RLock
    queue.SimpleQueue = queue._PySimpleQueue
