"""Deterministic scheduler, clock, process table and fault injector.

Simulated OS processes and threads are greenlets.  Exactly one runs at any
time; control changes hands only inside seam operations (`Kernel.op` and
`Kernel.block`).  Which task runs next, and which operation fails and how, is
a pure function of the run's seed (search mode) or of the recorded overrides
and faults (replay mode).
"""
import copy
import dis
import enum
import errno
import hashlib
import io
import logging
import os
import random
from random import Random as RealRandom
import signal
import types
import zlib

import greenlet

NS = 1000000000


ANYWHERE = object()


class HarnessError(Exception):
    """The simulator met something it does not model: never a verdict."""


class StepCap(BaseException):
    pass


def mkrandom(*parts):
    """A generator that is a pure function of `parts` (integer seeds are much cheaper on PyPy)."""
    s = '/'.join(map(str, parts)).encode('utf8')
    return RealRandom((zlib.crc32(s) << 32) | zlib.adler32(s))


K = None          # the kernel of the run in progress, or None


def current():
    return K


class Proc(object):
    def __init__(self, kernel, pid, name, kind, parent=None, daemon=False):
        self.kernel = kernel
        self.pid = pid
        self.name = name
        self.kind = kind
        self.parent = parent
        self.daemon = daemon
        self.alive = True
        self.exitcode = None
        self.image = None
        self.kbi_pending = False
        self.children = []
        self.writers = []        # open writable files (to be flushed at a normal main exit)
        self.queue_feeders = []  # SimQueue feeder tasks that a normal exit waits for
        self.pools = []
        self.threads = []
        self.atexit = []
        self.handlers = dict(parent.handlers) if parent else {}     # {signal: handler}
        self.importing = 0       # feeder threads that hold an import lock at the moment
        self.import_lock = parent is not None and parent.importing > 0   # inherited, and held for ever
        self.handle = None       # the program's Process object
        self._rng = None
        self.objs = {}           # per process state of shared objects
        self.cwd = parent.cwd if parent else kernel.cwd
        self.main_task = None

    @property
    def rng(self):
        """The process's own random generator (reseeded after fork, as the library does)."""
        if self._rng is None:
            self._rng = mkrandom(self.kernel.seed, 'proc', self.pid)
        return self._rng

    def __deepcopy__(self, memo):
        return self


class Signalled(object):
    """Stands for a signal that is handled by the program."""

    def __init__(self, handler, number):
        self.handler = handler
        self.number = number


class Task(object):
    def __init__(self, tid, proc, fn, name):
        self.tid = tid
        self.proc = proc
        self.name = name
        self.fn = fn
        self.done = False
        self.pred = None
        self.deadline = None
        self.stalled_until = None
        self.throw = None
        self.result = None
        self.exc = None
        self.g = None
        self.prio = 0.0
        self.interruptible = True

    def __deepcopy__(self, memo):
        return self


class Policy(object):
    """Schedule search policy, drawn per run."""

    def __init__(self, rng):
        self.rng = rng
        self.kind = rng.choice(['walk', 'walk', 'prio', 'starve', 'rr', 'seq', 'race', 'race'])
        self.p = rng.choice([0.02, 0.08, 0.25, 0.6, 1.0])
        self.victim = rng.randint(0, 12)
        self.change = rng.choice([0.0, 0.005, 0.02, 0.05])
        if self.kind == 'race':
            self.eager = rng.choice([0.01, 0.05, 0.2])
            self.patience = rng.choice([30, 150, 600, 2000])
            self.held = []           # [task, operation, path, decision at which it is let go]
            self.last = {}           # path -> task that touched it last
            self.then = None
            self.n = 0

    def race(self, runnable, cur, hint):
        """Hold a task before an operation until another one is about to do something that may conflict with
        it, then run the two operations right after each other, in either order."""
        r = self.rng
        self.n += 1
        self.held = [h for h in self.held if h[3] > self.n and h[0] in runnable]
        if self.then is not None:
            t, self.then = self.then, None
            if t in runnable:
                return t
        if hint is not None and cur in runnable:
            kind, path = hint
            met = next((h for h in self.held if h[0].proc is not cur.proc and may_conflict(kind, path, h[1], h[2])), None)
            if met is not None:
                self.held.remove(met)
                if r.random() < 0.5:
                    self.then = met[0]
                    return cur
                self.held.append([cur, kind, path, self.n + r.choice([1, 2, 5, 40])])
                return met[0]
            last = self.last.get(path)
            self.last[path] = cur
            if len(self.held) < 3 and r.random() < (self.eager * 5 if last is not None and last is not cur else self.eager):
                self.held.append([cur, kind, path, self.n + self.patience])
        held = [h[0] for h in self.held]
        pool = [t for t in runnable if t not in held]
        if not pool:
            return self.held.pop(0)[0]
        if cur in pool and r.random() >= self.p:
            return cur
        return r.choice(pool)

    def pick(self, runnable, cur, hint=None):
        r = self.rng
        k = self.kind
        if k == 'race':
            return self.race(runnable, cur, hint)
        if k == 'seq':
            if r.random() < 0.003:
                return r.choice(runnable)
            return cur if cur in runnable else runnable[0]
        if k == 'walk':
            if cur in runnable and r.random() >= self.p:
                return cur
            return r.choice(runnable)
        if k == 'rr':
            if cur in runnable and r.random() < 0.5:
                return cur
            if cur is None:
                return runnable[0]
            for t in runnable:
                if t.tid > cur.tid:
                    return t
            return runnable[0]
        if k == 'prio':
            if r.random() < self.change:
                t = r.choice(runnable)
                t.prio = r.random() * 0.1 if r.random() < 0.5 else r.random()
            return max(runnable, key=lambda t: (t.prio, -t.tid))
        # starve: one task (by rank of creation) only runs when nothing else can
        others = [t for t in runnable if t.tid % 7 != self.victim % 7]
        pool = others or runnable
        if cur in pool and r.random() >= self.p:
            return cur
        return r.choice(pool)


def may_conflict(kind1, path1, kind2, path2):
    if path1 == path2:
        return True
    for kind, path, other in ((kind1, path1, path2), (kind2, path2, path1)):
        if kind in ('listdir', 'rmdir', 'mkdir', 'stat') and type(path) is type(other) and other[:len(path)] == path and \
                len(other) > len(path) and other.rfind(SLASH[type(other)]) == len(path):
            return True
    return False


SLASH = {str: '/', bytes: b'/'}

ERRNOS = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'emfile': errno.EMFILE,
          'eacces': errno.EACCES, 'enomem': errno.ENOMEM, 'edquot': errno.EDQUOT}

FAIRNESS = 3000


class Kernel(object):
    def __init__(self, fs, memory, seed, start_ns, knobs, faults=(), overrides=None,
                 observer=None, cwd='/sim/work', max_ops=400000):
        self.fs = fs
        self.memory = memory
        self.seed = seed
        self.now = start_ns
        self.start_ns = start_ns
        self.wall_offset = 0
        self.knobs = knobs
        self.cwd = cwd
        self.tasks = []
        self.procs = []
        self.next_tid = 0
        self.next_pid = knobs.get('first_pid', 4000)
        self.cur = None
        self.cur_proc = None
        self.overrides = overrides          # dict decision -> tid, or None in search mode
        self.recorded = {}
        self.decisions = 0
        self.hint = None                    # the operation the current task is about to do
        self.policy = Policy(mkrandom('sched', seed)) if overrides is None else None
        self.nop = 0
        self.trace = []                     # (tid, kind, path)
        self.hash = hashlib.sha1()
        self.observer = observer
        self.max_ops = max_ops
        self.crashed = False
        self.stepcap = False
        self.deadlock = False
        self.fired = []
        self.killed = set()      # commands killed while others went on
        self.sigcount = {}
        self.by_index = {}
        self.by_sig = {}
        self.lasting = []        # errors that stay: (errno kind, path (kind of operation where there is none) or ANYWHERE)
        self.unfired = 0
        self.harness_error = None
        self.streak = 0
        self.escapes = []
        self.hub = None
        self.pending = None
        self.active = False
        self.shared_gen = object()
        for f in faults:
            if 'sig' in f:
                self.by_sig.setdefault((f['sig'][0], f['sig'][1]), []).append((f['sig'][2], f))
            else:
                self.by_index.setdefault(f['at'], []).append(f)
        self.op_ns = knobs.get('op_ns', 40000)
        self.idle_jumps = 0
        self.want_trace = True

    # ---------------------------------------------------------------- clock
    def monotonic_ns(self):
        return self.now

    def wall_ns(self):
        t = self.now + self.wall_offset
        tick = self.knobs.get('clock_tick_ns', 1)
        return t - t % tick

    def fs_ns(self):
        t = self.now + self.wall_offset
        tick = self.knobs.get('fs_tick_ns', 1)
        return t - t % tick

    # ------------------------------------------------------------ processes
    def new_proc(self, name, kind, parent=None, daemon=False):
        p = Proc(self, self.next_pid, name, kind, parent, daemon)
        self.next_pid += 1
        self.procs.append(p)
        if parent is not None:
            parent.children.append(p)
            for c in self.conns:
                c.inherit(parent, p)
        return p

    def spawn(self, proc, fn, name):
        t = Task(self.next_tid, proc, fn, name)
        self.next_tid += 1
        if self.policy is not None:
            t.prio = self.policy.rng.random()
        t.g = greenlet.greenlet(lambda: self._body(t), self.hub)
        self.tasks.append(t)
        return t

    def _body(self, t):
        try:
            t.result = t.fn()
        except HarnessError as e:
            self.harness_error = e
        except greenlet.GreenletExit:
            raise
        except BaseException as e:
            t.exc = e
        t.done = True
        if t in self.tasks:
            self.tasks.remove(t)
        self.pending = None
        if not (self.crashed or self.stepcap or self.harness_error is not None):
            self.pending = self._choose(None)
        # returning passes control to the hub, which resumes `pending`

    def kill_proc(self, proc):
        """Abrupt end: tasks never run again, buffered data is lost."""
        proc.alive = False
        for t in list(self.tasks):
            if t.proc is proc:
                t.done = True
                self.tasks.remove(t)
                self.graveyard.append(t)
        for c in proc.children:
            if c.alive and c.daemon and False:
                self.kill_proc(c)

    # ------------------------------------------------------------ scheduling
    def _ready(self, t):
        if t.stalled_until is not None:
            if self.now < t.stalled_until:
                return False
            t.stalled_until = None
        if t.throw is not None:
            return True
        if t.pred is None and t.deadline is None:
            return True
        if t.pred is not None and t.pred():
            return True
        return t.deadline is not None and self.now >= t.deadline

    def _choose(self, cur):
        while True:
            ready = self._ready
            runnable = [t for t in self.tasks if ready(t)]
            if runnable:
                break
            best = None
            for t in self.tasks:
                d = t.stalled_until if t.stalled_until is not None else t.deadline
                if d is not None and (best is None or d < best):
                    best = d
            if best is None:
                return None
            self.idle_jumps += 1
            self.now = max(self.now, best)
        default = cur if cur in runnable else runnable[0]
        if len(runnable) == 1:
            self.streak = 0
            return runnable[0]
        d = self.decisions
        self.decisions += 1
        if self.overrides is not None:
            want = self.overrides.get(d)
            choice = default
            if want is not None:
                for t in runnable:
                    if t.tid == want:
                        choice = t
                        break
        else:
            choice = self.policy.pick(runnable, cur, self.hint)
        if choice is cur:
            self.streak += 1
            if self.streak > FAIRNESS:
                i = runnable.index(choice)
                choice = runnable[(i + 1) % len(runnable)]
                self.streak = 0
        else:
            self.streak = 0
        if choice is not default:
            self.recorded[d] = choice.tid
        return choice

    def _switch_in(self, t):
        """Make t the running task (called from whatever greenlet is giving up control)."""
        if t.proc is not self.cur_proc:
            if self.cur_proc is not None:
                self.memory.save(self.cur_proc)
            self.memory.load(t.proc)
            self.cur_proc = t.proc
        self.cur = t
        t.g.switch()

    def _dispatch(self, cur):
        """Give up control; returns when `cur` is scheduled again."""
        nxt = self._choose(cur)
        if nxt is None:
            self.pending = None
            self.hub.switch()
            raise HarnessError('resumed after the end of a run')
        if nxt is cur:
            return
        self._switch_in(nxt)

    def _resume(self, t):
        if t.throw is not None:
            e = t.throw
            t.throw = None
            t.pred = None
            t.deadline = None
            if isinstance(e, Signalled):
                return e.handler(e.number, None)
            raise e

    # ------------------------------------------------------------ seam calls
    def op(self, kind, path='', mutating=False):
        """A seam operation is about to happen.  Returns a fault dict that the caller must honour
        ('torn'), or None; raises the injected error."""
        t = self.cur
        if t is None or greenlet.getcurrent() is not t.g:
            return None
        self.nop += 1
        if self.nop > self.max_ops:
            self.stepcap = True
            self._stop()
        self.now += self.op_ns
        # who runs next
        if len(self.tasks) > 1:
            self.hint = (kind, path) if path else None
            nxt = self._choose(t)
            self.hint = None
            if nxt is not t:
                self._switch_in(nxt)
                # back again
        if t.throw is not None:
            self._resume(t)
        idx = len(self.trace)
        self.trace.append((t.tid, kind, path))
        if self.lasting:
            for want, where in self.lasting:
                if (where is ANYWHERE or where == (path or kind)) and errno_applies(want, kind):
                    raise OSError(ERRNOS[want], os.strerror(ERRNOS[want]), path)
        if not self.by_index and not self.by_sig:
            return None
        f = None
        lst = self.by_index.get(idx)
        if lst:
            f = lst[0]
        elif self.by_sig:
            key = (kind, norm_path(path))
            lst = self.by_sig.get(key)
            if lst is not None:
                n = self.sigcount.get(key, 0)
                self.sigcount[key] = n + 1
                for want, ff in lst:
                    if want == n:
                        f = ff
                        break
        if f is None:
            return None
        return self._fire(f, t, kind, path)

    def _sig(self, kind, path):
        np = norm_path(path)
        n = 0
        for (_, k, p) in self.trace[:-1]:
            if k == kind and norm_path(p) == np:
                n += 1
        return [kind, np, n]

    def _fire(self, f, t, kind, path):
        k = f['kind']
        rec = {'kind': k, 'at': len(self.trace) - 1, 'op': kind, 'path': norm_path(path),
               'task': t.name, 'sig': self._sig(kind, path), 'command': self.root_of(t.proc).name}
        if k == 'killcommand':
            self.fired.append(rec)
            self.kill_command(self.root_of(t.proc))
            self.pending = self._choose(None)
            self.hub.switch()
            raise HarnessError('resumed after being killed')
        if k == 'crash':
            self.fired.append(rec)
            self.crash()
        if k == 'torn':
            if kind != 'write':
                self.fired.append(dict(rec, kind='crash'))
                self.crash()
            self.fired.append(rec)
            return f
        if k == 'kbi':
            self.fired.append(rec)
            self.interrupt(self.root_of(t.proc))
            if t.throw is not None:
                self._resume(t)
            return None
        if k == 'kill':
            if t.proc.kind != 'process' or t is not t.proc.main_task:
                return None
            self.fired.append(rec)
            t.proc.exitcode = -9
            self.kill_proc(t.proc)
            self.pending = self._choose(None)
            self.hub.switch()
            raise HarnessError('resumed after being killed')
        if k == 'stall':
            self.fired.append(rec)
            t.stalled_until = self.now + int(f['secs'] * NS)
            self._dispatch(t)
            if t.throw is not None:
                self._resume(t)
            return None
        if k == 'clockjump':
            self.fired.append(rec)
            self.wall_offset += int(f['secs'] * NS)
            return None
        if k == 'hook':
            self.fired.append(rec)
            f['fn'](self)
            return None
        if k == 'full':
            self.fired.append(rec)
            self.fs.set_full(f.get('room', 0), bool(f.get('inodes')))
            return None
        if k == 'oom':
            # an allocation fails in the code of a process (not in one of the library's helper threads)
            if t is not t.proc.main_task:
                return None
            self.fired.append(rec)
            raise MemoryError()
        if k in ERRNOS:
            if not errno_applies(k, kind):
                return None
            if f.get('lasts'):
                self.lasting.append((k, (path or kind) if f['lasts'] == 'path' else ANYWHERE))
                rec['lasts'] = f['lasts']
            self.fired.append(rec)
            e = ERRNOS[k]
            raise OSError(e, os.strerror(e), path)
        raise HarnessError('unknown fault kind %r' % (k,))

    def stop_spinning(self):
        """Called from a real timer when the running task makes no seam operation any more."""
        if self.cur is not None and greenlet.getcurrent() is self.cur.g:
            self.stepcap = True
            self.spinning = True
            self._stop()

    def crash(self):
        self.crashed = True
        self._stop()

    def _stop(self):
        self.pending = None
        self.hub.switch()
        raise HarnessError('resumed after the end of a run')

    @staticmethod
    def root_of(proc):
        while proc.parent is not None:
            proc = proc.parent
        return proc

    def kill_command(self, root):
        """SIGKILL to all processes of one command; other commands go on."""
        for p in self.procs:
            if p.alive and self.root_of(p) is root:
                p.exitcode = -9
                self.kill_proc(p)
        self.killed.add(root.name)

    def interrupt(self, root):
        """Ctrl-C: every process of the foreground group gets KeyboardInterrupt."""
        for p in self.procs:
            if self.root_of(p) is root and p.alive and p.main_task is not None and not p.main_task.done and p.main_task.interruptible:
                self.signal(p, signal.SIGINT)

    def signal(self, p, number):
        """SIGINT or SIGTERM for one process."""
        h = p.handlers.get(number, signal.default_int_handler if number == signal.SIGINT else signal.SIG_DFL)
        if h == signal.SIG_IGN:
            return
        if h is signal.default_int_handler:
            p.main_task.throw = KeyboardInterrupt()
        elif h == signal.SIG_DFL:
            p.exitcode = -number
            if p.kind == 'main':
                self.killed.add(p.name)
            self.kill_proc(p)
        elif p.main_task is not None and not p.main_task.done:
            p.main_task.throw = Signalled(h, number)

    def block(self, pred, deadline=None, what='wait'):
        """Wait until pred() or the deadline (monotonic ns).  Returns pred()'s final value."""
        t = self.cur
        if t is None or greenlet.getcurrent() is not t.g:
            raise HarnessError('blocking outside a simulated task: %s' % what)
        while not pred():
            t.pred = pred
            t.deadline = deadline
            try:
                self._dispatch(t)
                handled = t.throw is not None
                if handled:
                    self._resume(t)
            finally:
                t.pred = None
                t.deadline = None
            if not handled:
                break
        return bool(pred())

    def sleep(self, secs):
        self.op('sleep')
        t = self.cur
        if t is None or greenlet.getcurrent() is not t.g:
            return
        end = self.now + max(0, int(secs * NS))
        t.deadline = end
        try:
            self._dispatch(t)
            if t.throw is not None:
                self._resume(t)
        finally:
            t.deadline = None

    # ------------------------------------------------------------ whole runs
    def run(self, mains):
        """mains: list of (name, fn).  Runs until all of them and their exit handling are over."""
        global K
        assert K is None
        self.graveyard = []
        self.bars = []
        self.conns = []
        K = self
        self.active = True
        self.hub = greenlet.getcurrent()
        outcomes = [None] * len(mains)
        try:
            roots = []
            for i, (name, fn) in enumerate(mains):
                p = self.new_proc(name, 'main')
                p.image = self.memory.fresh_image()
                roots.append(p)
                t = self.spawn(p, self._main_body(p, fn, outcomes, i), name)
                p.main_task = t
            self.pending = self._choose(None)
            while self.pending is not None:
                nxt, self.pending = self.pending, None
                self._switch_in(nxt)
            # hub regains control: everything finished, crashed, deadlocked or capped
            if self.harness_error is not None:
                raise self.harness_error
            if not self.crashed and not self.stepcap and self.tasks:
                self.deadlock = True
        finally:
            if self.cur_proc is not None:
                self.memory.save(self.cur_proc)
            self.active = False
            K = None
            self.cur = None
            for p in self.procs:
                p.alive = False
        res = []
        for i, o in enumerate(outcomes):
            if roots[i].name in self.killed:
                res.append({'status': 'killed', 'finished': True})
            elif o is None or not o.get('finished'):
                st = 'crash' if self.crashed else 'stepcap' if self.stepcap else 'deadlock'
                d = {'status': st, 'finished': False}
                if o:
                    d['partial'] = o.get('status')
                if st == 'deadlock':
                    d['blocked'] = [t.name for t in self.tasks]
                res.append(d)
            else:
                res.append(o)
        self.tasks_left = self.tasks
        return res

    def _main_body(self, proc, fn, outcomes, i):
        def body():
            out = {'finished': False}
            outcomes[i] = out
            try:
                out['value'] = fn()
                out['status'] = 'ok'
            except HarnessError:
                raise
            except greenlet.GreenletExit:
                raise
            except SystemExit as e:
                out['status'] = 'exit'
                out['code'] = e.code
                if e.code is None or e.code == 0:
                    out['status'] = 'ok'
            except KeyboardInterrupt:
                out['status'] = 'interrupted'
            except BaseException as e:
                out['status'] = 'exc'
                out['exc'] = type(e).__name__
                out['msg'] = str(e)[:300]
                out['exception'] = e
            proc.main_task.throw = None
            proc.main_task.interruptible = False
            for t in proc.threads:
                if not t.daemon:
                    self.block(lambda: t._task.done, what='exit: join thread')
            for g, a, kw in reversed(proc.atexit):
                try:
                    g(*a, **kw)
                except (HarnessError, greenlet.GreenletExit):
                    raise
                except BaseException:
                    pass
            # interpreter exit: terminate daemonic children, join the others,
            # wait for queue feeders, flush files that were left open
            for pool in list(proc.pools):
                pool._terminate_now()
            for c in proc.children:
                if c.alive and c.daemon:
                    self.kill_proc(c)
            for c in proc.children:
                if c.alive:
                    self.block(lambda: not c.alive, what='exit: join child')
            for q in proc.queue_feeders:
                self.block(lambda: q.drained(proc), what='exit: join queue feeder')
            for w in list(proc.writers):
                try:
                    w.close()
                except OSError:
                    pass
            proc.alive = False
            for t in list(self.tasks):
                if t.proc is proc and t is not proc.main_task:
                    t.done = True
                    self.tasks.remove(t)
                    self.graveyard.append(t)
            out['finished'] = True
            return None
        return body

    def interleaving(self):
        h = 0
        for (tid, kind, path) in self.trace:
            h = (h * 1000003 ^ hash_str(kind) ^ tid * 7919 ^ hash_str(norm_path(path))) & 0xffffffffffffffff
        return '%016x' % h

    def full_hash(self):
        h = hashlib.sha1()
        for (tid, kind, path) in self.trace:
            if isinstance(path, bytes):
                path = path.decode('utf-8', 'surrogateescape')
            h.update(('%d %s %s;' % (tid, kind, path)).encode('utf8', 'surrogateescape'))
        h.update(str(self.now).encode())
        return h.hexdigest()[:16]


_hash_memo = {}


def hash_str(s):
    """A hash of s that does not depend on PYTHONHASHSEED."""
    r = _hash_memo.get(s)
    if r is None:
        if len(_hash_memo) > 50000:
            _hash_memo.clear()
        b = s.encode('utf8', 'surrogateescape')
        r = _hash_memo[s] = (zlib.crc32(b) << 32) | zlib.adler32(b)
    return r


def errno_applies(fault, op):
    allowed = {
        'eio': ('open', 'create', 'read', 'write', 'close', 'rename', 'mkdir', 'unlink', 'rmdir', 'listdir', 'fsync', 'readlink'),
        'enospc': ('create', 'write', 'mkdir', 'rename', 'symlink', 'close'),
        'edquot': ('create', 'write', 'mkdir'),
        'emfile': ('open', 'create', 'listdir'),
        'eacces': ('open', 'create', 'rename', 'mkdir', 'unlink', 'rmdir', 'listdir'),
        'enomem': ('open', 'create', 'fork', 'listdir', 'mkdir'),
    }
    return op in allowed[fault]


import re
_ID = re.compile(r'\d{9,}')
_TS = re.compile(r'\d\d-\d\d-\d\dT\d\d-\d\d-\d\d')
_norm_memo = {}
_PT = re.compile(r'_-_\d+\.\d+')


def norm_path(path):
    """Path with random ids and time stamps blanked, so that it names the same thing in another run."""
    r = _norm_memo.get(path)
    if r is None:
        p = path
        if isinstance(p, bytes):
            p = p.decode('utf-8', 'surrogateescape')
        r = ''
        if p:
            r = _PT.sub('_-_@', _TS.sub('@', _ID.sub('#', p)))
        if len(_norm_memo) > 20000:
            _norm_memo.clear()
        _norm_memo[path] = r
    return r


_ATOMIC = (str, bytes, int, float, bool, type(None), types.FunctionType, types.BuiltinFunctionType,
           types.ModuleType, type, complex, types.MethodType)


class Memory(object):
    """Process-private memory of the code under test: module globals, class attributes and
    mutable default arguments of its modules, copied at fork and swapped when another
    simulated process runs."""

    def __init__(self, modules):
        self.spaces = []     # (getter dict-like owner, names)
        self.modules = modules
        self.caches = []
        self.slots = []      # (kind, owner, name)
        self.base_len = []
        stored = set()
        for m in modules:
            stored |= _stored_names(m)
        for m in modules:
            d = m.__dict__
            self.base_len.append(len(d))
            for n, v in list(d.items()):
                if n.startswith('__'):
                    continue
                if hasattr(v, 'cache_clear'):
                    self.caches.append(v)
                if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                    self._func(v)
                    continue
                if isinstance(v, type):
                    if v.__module__ == m.__name__:
                        for cn, cv in list(v.__dict__.items()):
                            if cn.startswith('__') and cn.endswith('__'):
                                continue
                            f = cv.__func__ if isinstance(cv, (staticmethod, classmethod)) else cv
                            if hasattr(f, 'cache_clear'):
                                self.caches.append(f)
                            if isinstance(f, types.FunctionType):
                                self._func(f)
                            elif isinstance(cv, (property, staticmethod, classmethod)):
                                pass
                            elif _is_enum(v) or (cn not in stored and _immutable(cv)):
                                pass
                            else:
                                self.slots.append(('c', v, cn))
                    continue
                if isinstance(v, (types.ModuleType, types.BuiltinFunctionType)):
                    continue
                if n not in stored and _immutable(v):
                    continue
                self.slots.append(('g', d, n))
        self.baseline = self._capture()
        self.baseline_extra = {}
        self.known = [set(m.__dict__) for m in modules]

    def _func(self, f):
        if f.__defaults__ and any(isinstance(x, (list, dict, set)) for x in f.__defaults__):
            self.slots.append(('d', f, '__defaults__'))

    def _capture(self):
        out = []
        for kind, owner, name in self.slots:
            if kind == 'g':
                out.append(owner.get(name, _MISSING))
            else:
                out.append(getattr(owner, name, _MISSING) if kind == 'd' else owner.__dict__.get(name, _MISSING))
        return out

    def _extras(self):
        ex = []
        for i, m in enumerate(self.modules):
            d = m.__dict__
            if len(d) != self.base_len[i]:
                for n in list(d):
                    if n not in self.known[i]:
                        ex.append((i, n, d[n]))
        return ex

    def save(self, proc):
        proc.image = (self._capture(), self._extras())

    def load(self, proc):
        self.load_image(proc.image)

    def load_image(self, image):
        vals, extras = image
        for (kind, owner, name), v in zip(self.slots, vals):
            if kind == 'g':
                if owner.get(name, _MISSING) is not v:
                    if v is _MISSING:
                        owner.pop(name, None)
                    else:
                        owner[name] = v
            else:
                cur = owner.__dict__.get(name, _MISSING) if kind == 'c' else owner.__defaults__
                if cur is not v:
                    if v is _MISSING:
                        try:
                            delattr(owner, name)
                        except AttributeError:
                            pass
                    else:
                        setattr(owner, name, v)
        for i, m in enumerate(self.modules):
            d = m.__dict__
            if len(d) != self.base_len[i]:
                for n in list(d):
                    if n not in self.known[i]:
                        del d[n]
        for i, n, v in extras:
            self.modules[i].__dict__[n] = v

    def fresh_image(self):
        for c in self.caches:
            c.cache_clear()
        vals, ex, _ = self._copy((self.baseline, [], None))
        return (vals, ex)

    def fork_image(self, extra=None):
        """Deep copy of the running process's memory together with `extra` (one object graph)."""
        vals, ex, obj = self._copy((self._capture(), self._extras(), extra))
        return (vals, ex), obj

    def _copy(self, triple):
        vals, ex, obj = triple
        memo = {}
        nv = [self._cp(v, memo) for v in vals]
        ne = [(i, n, self._cp(v, memo)) for i, n, v in ex]
        no = self._cp(obj, memo, strict=True)
        return nv, ne, no

    def _cp(self, v, memo, strict=False):
        if isinstance(v, _ATOMIC) or v is _MISSING:
            return v
        try:
            return copy.deepcopy(v, memo)
        except Exception:
            if strict:
                raise HarnessError('cannot fork object of type %s' % type(v))
            return v      # open files and the like: shared


def _immutable(v, depth=0):
    """Values that need no copy at fork (as long as their name is not rebound)."""
    if isinstance(v, _ATOMIC) or isinstance(v, (frozenset, io.IOBase, logging.Logger, type(re.compile('')), range)):
        return True
    if isinstance(v, tuple):
        return depth < 5 and all(_immutable(x, depth + 1) for x in v)
    t = type(v)
    if _is_enum(t):
        return True
    m = t.__module__ or ''
    return m.split('.')[0] in ('typing', 'regex', '_regex', 'argparse', 'docopt_subcommands', 'ctypes', 'pathlib',
                               '_regex_core', 'operator', 'itertools', 'functools') and not hasattr(v, 'cache_clear') \
        and m.split('.')[0] not in ('itertools',)


def _stored_names(m):
    """Names that the module's code may rebind after import: global statements, attribute stores."""
    out = set()
    seen = set()

    def code(c):
        if c in seen:
            return
        seen.add(c)
        if c.co_name != '<module>':
            for i in dis.get_instructions(c):
                if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_ATTR', 'DELETE_ATTR'):
                    out.add(i.argval)
                elif i.opname in ('LOAD_GLOBAL', 'LOAD_NAME') and i.argval in ('setattr', 'globals', 'vars', 'delattr'):
                    dyn.append(c.co_name)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                code(k)
    dyn = []
    f = getattr(m, '__file__', None)
    if f and f.endswith('.py'):
        with open(f, 'rb') as h:
            code(compile(h.read(), f, 'exec', dont_inherit=True))
    return out


def _is_enum(c):
    return issubclass(c, enum.Enum)


class _Missing(object):
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


_MISSING = _Missing()
