"""Boots the code under test inside the simulator and runs commands against it."""
import gc
import importlib
import io
import logging
import os
import sys

import tqdm

HOME = '/sim/home'
CWD = '/sim/work'
EPOCH = 1600000000


def set_zone(knobs):
    """The time zone of the simulated machine."""
    zone = knobs.get('tz', 'UTC')
    if os.environ.get('TZ') != zone:
        import time
        os.environ['TZ'] = zone
        time.tzset()


def boot(repo):
    """Patch the seams, then import codeprep from `repo`.  Must be called once, before any
    other import of codeprep."""
    for n in ('XDG_CACHE_HOME', 'XDG_CONFIG_HOME', 'XDG_DATA_HOME'):
        os.environ.pop(n, None)
    os.environ['HOME'] = HOME
    os.environ['TZ'] = 'UTC'
    import time
    time.tzset()
    assert sys.getfilesystemencoding() == 'utf-8', 'run with LC_ALL=C.UTF-8'
    sys.dont_write_bytecode = True
    # third-party and library modules first, on the real system
    import gzip, pickle, shutil, tempfile, glob, uuid, threading  # noqa
    tqdm.tqdm.monitor_interval = 0
    # progress bars of tasks that were cut off are finalised later, outside of any run
    tqdm.tqdm.__del__ = lambda self: None
    real_close = tqdm.tqdm.close

    def close(self):
        from . import kernel
        if kernel.K is not None and self._sim_kernel is kernel.K and hasattr(self, 'pos'):
            real_close(self)
    tqdm.tqdm.close = close
    real_new = tqdm.tqdm.__new__

    def new(cls, *a, **kw):
        # not weakly referenced only: when it disappears must not depend on the garbage collector
        from . import kernel
        self = real_new(cls, *a, **kw)
        self._sim_kernel = kernel.K
        if kernel.K is not None:
            kernel.K.bars.append(self)
        return self
    tqdm.tqdm.__new__ = staticmethod(new)
    if hasattr(sys, 'unraisablehook'):
        sys.unraisablehook = lambda u: None
    import dill, pygments, pygments.lexers, pygments.util, regex, appdirs, docopt_subcommands  # noqa
    import nltk.stem  # noqa  (not used by the checks, but imported lazily by the code under test)
    from . import simfs, simmp
    w = simfs.World()
    w.install()
    simmp.install()
    import shutil as sh
    sh._use_fd_functions = False
    sh._USE_CP_SENDFILE = False
    sh._copyxattr = lambda *a, **kw: None
    sh.rmtree.avoids_symlink_attacks = False
    sh.chown = lambda *a, **kw: None
    tempfile.tempdir = HOME + '/tmp'
    import pathlib
    importlib.reload(pathlib)
    import threading as th
    # lazily imported modules must not be looked for relative to the simulated directory
    sys.path[:] = [repo] + [os.path.abspath(x) for x in sys.path if x]
    logging.disable(logging.CRITICAL)
    import platform
    real_platform = platform.system

    def system():
        from . import kernel
        return real_platform() if kernel.K is None else kernel.K.knobs.get('platform', 'Linux')
    platform.system = system
    names = ['codeprep', 'codeprep.api.common', 'codeprep.api.corpus', 'codeprep.api.text', 'codeprep.cli.impl',
             'codeprep.cli.spec', 'codeprep.pipeline.bpelearner']
    for n in names:
        importlib.import_module(n)
    for root, dirs, files in os.walk(os.path.join(repo, 'codeprep')):
        for f in files:
            if f.endswith('.py') and f not in ('__main__.py', 'stemming.py'):
                rel = os.path.relpath(os.path.join(root, f), repo)[:-3].replace('/', '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                if rel == 'codeprep.cli.vocab' or rel in sys.modules:
                    continue
                try:
                    importlib.import_module(rel)
                except ImportError:
                    pass
    for ext in ('java', 'py', 'js', 'c', 'txt'):
        pygments.lexers.get_lexer_by_name(ext if ext != 'txt' else 'text')
    from . import kernel
    mods = [m for n, m in sorted(sys.modules.items()) if (n == 'codeprep' or n.startswith('codeprep.')) and m is not None]
    repo_file = sys.modules['codeprep'].__file__
    assert os.path.abspath(repo_file).startswith(os.path.abspath(repo)), repo_file
    return World(w, kernel.Memory(mods), mods)


class Sink(io.TextIOBase):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


class RunResult(object):
    def __init__(self, kernel, outcomes):
        self.k = kernel
        self.outcomes = outcomes

    @property
    def status(self):
        return self.outcomes[0]['status']


class World(object):
    def __init__(self, osworld, memory, mods):
        self.w = osworld
        self.memory = memory
        self.mods = mods
        self.stats = {'runs': 0, 'ops': 0, 'sim_ns': 0, 'decisions': 0, 'faults': {}, 'interleavings': set(),
                      'idle_jumps': 0, 'procs': 0}
        self._base0 = list(memory.baseline)
        self._const0 = {}

    # ------------------------------------------------------------ scenario state
    def reset(self, seed, knobs):
        from .simfs import FS
        self.clock = EPOCH * 1000000000 + 123456789
        self.knobs = dict(knobs)
        set_zone(self.knobs)
        self.fs = FS(seed=seed & 0xffffffff, now=self._now)
        self.w.fs = self.fs
        self.w.fds = {}
        self.w.bufsize = self.knobs.get('bufsize', 8192)
        self.w.rbufsize = self.knobs.get('rbufsize', 8192)
        self.fs.mkdirs(HOME.encode())
        self.fs.mkdirs((HOME + '/tmp').encode())
        self.fs.mkdirs(CWD.encode())
        # tuning knobs of the code under test, where they exist
        for (i, n), v in self._const0.items():
            self.mods[i].__dict__[n] = v
        self._const0 = {}
        self.memory.baseline = list(self._base0)
        for name, val in self.knobs.get('const', {}).items():
            for i, m in enumerate(self.mods):
                v = m.__dict__.get(name)
                if isinstance(v, int) and not isinstance(v, bool):
                    self._const0[i, name] = v
                    m.__dict__[name] = val
                    for j, (kind, owner, n) in enumerate(self.memory.slots):
                        if kind == 'g' and n == name and owner is m.__dict__:
                            self.memory.baseline[j] = val

    def _now(self):
        from . import kernel
        k = kernel.K
        if k is not None:
            return k.fs_ns()
        t = self.clock
        return t - t % self.knobs.get('fs_tick_ns', 1)

    def snapshot(self):
        return (self.fs.clone(), self.clock)

    def restore(self, snap):
        fs, clock = snap
        self.fs = fs.clone()
        self.clock = clock
        self.w.fs = self.fs

    def advance(self, secs):
        self.clock += int(secs * 1000000000)

    # ------------------------------------------------------------ running
    def run(self, mains, seed, faults=(), overrides=None, listeners=(), max_ops=400000, knobs=None):
        """mains: list of (name, callable).  One simulated run of whole OS processes."""
        from . import kernel
        kn = dict(self.knobs)
        if knobs:
            kn.update(knobs)
        set_zone(kn)
        k = kernel.Kernel(self.fs, self.memory, seed, self.clock, kn, faults=faults, overrides=overrides,
                          cwd=kn.get('cwd', CWD), max_ops=max_ops)
        self.fs.listeners = list(listeners)
        self.fs.capacity = None
        self.w.bufsize = kn.get('bufsize', 8192)
        self.w.rbufsize = kn.get('rbufsize', 8192)
        self.w.fds = {}
        so, se = sys.stdout, sys.stderr
        sink = Sink()
        gc.disable()
        import tempfile
        tempfile._name_sequence = None
        if hasattr(tqdm.tqdm, '_instances'):
            tqdm.tqdm._instances.clear()
        try:
            sys.stdout = sys.stderr = sink
            outcomes = k.run(mains)
        finally:
            sys.stdout, sys.stderr = so, se
            self.fs.listeners = []
            self.fs.capacity = None
            self.clock = max(self.clock, k.now) + 1000000
        s = self.stats
        s['runs'] += 1
        s['ops'] += len(k.trace)
        s['sim_ns'] += k.now - k.start_ns
        s['decisions'] += k.decisions
        s['idle_jumps'] += k.idle_jumps
        s['procs'] += len(k.procs)
        for f in k.fired:
            s['faults'][f['kind']] = s['faults'].get(f['kind'], 0) + 1
        s['interleavings'].add(k.interleaving())
        k.bars = []
        self.last = k
        if s['runs'] % 20 == 0:
            k.graveyard = []
            gc.collect()
        return RunResult(k, outcomes)
