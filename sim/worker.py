"""A worker process: executes cases of one property, minimises or replays a scenario.

  python -m sim.worker explore REPO PROP SEED START STRIDE SECONDS [LAST]
  python -m sim.worker minimise REPO FILE SECONDS      (FILE: {'property', 'scenario', ...})
  python -m sim.worker replay REPO FILE

Talks to the driver with lines of JSON on the original standard output.
"""
import json
import os
import signal
import sys
import time
import traceback

real_time = time.time
real_monotonic = time.monotonic


class Hung(BaseException):
    """No seam operation for a very long (real) time: the code under test loops forever."""


class Watchdog(object):
    """Raises Hung in the running task if it stops making seam operations (busy loop)."""

    LIMIT = 3          # checks in a row without progress
    PERIOD = 10

    def __init__(self, W):
        from . import model
        self.W = W
        self.memo = model._memo
        self.last = None
        self.same = 0

    def start(self):
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, self.PERIOD, self.PERIOD)

    def tick(self, *a):
        from . import kernel
        k = kernel.K
        now = (id(k), k.nop) if k is not None else (0, self.W.stats['runs'], len(self.memo))
        if now == self.last:
            self.same += 1
            if self.same >= self.LIMIT:
                self.same = 0
                if k is None:
                    raise Hung('no progress outside of the simulation')
                k.stop_spinning()
        else:
            self.same = 0
        self.last = now


def boot(repo):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    from . import world
    return world.boot(repo)


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)

    def say(d):
        out.write(json.dumps(d) + '\n')
        out.flush()
    mode, repo = sys.argv[1], sys.argv[2]
    try:
        t0 = real_monotonic()
        W = boot(repo)
        say({'t': 'boot', 's': real_monotonic() - t0})
        Watchdog(W).start()
        if mode == 'explore':
            explore(W, say, sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7]),
                    int(sys.argv[8]) if len(sys.argv) > 8 else None)
        elif mode == 'minimise':
            from . import minimise
            minimise.main(W, say, sys.argv[3], float(sys.argv[4]), real_monotonic)
        elif mode == 'replay':
            from . import minimise
            minimise.replay_main(W, say, sys.argv[3])
        elif mode == 'hashes':
            hashes(W, say, sys.argv[3], int(sys.argv[4]), [int(x) for x in sys.argv[5].split(',')])
        say({'t': 'end'})
    except BaseException as e:
        say({'t': 'error', 'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]})
        out.flush()
        os._exit(3)
    out.flush()
    os._exit(0)


def explore(W, say, prop, seed, start, stride, seconds, last):
    from . import props
    stats = props.new_stats()
    t0 = real_monotonic()
    deadline = t0 + seconds
    i = start
    errors = 0
    samples = []
    found = None
    while real_monotonic() < deadline and (last is None or i < last):
        try:
            r = props.run_case(W, prop, seed, i, deadline, real_monotonic, stats, samples)
        except props.OutOfTime:
            break
        except Hung:
            r = None
            stats['discards']['the model does not end'] = stats['discards'].get('the model does not end', 0) + 1
        except Exception as e:
            errors += 1
            say({'t': 'harness', 'case': i, 'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-2500:]})
            if errors >= 3:
                break
            r = None
        if r is not None:
            found = dict(r, t='violation', case=i)
            say(found)
            break
        i += stride
    s = dict(stats)
    s['interleavings'] = sorted(s['interleavings'])
    s['nontrivial'] = sorted(s['nontrivial'])
    ws = W.stats
    say({'t': 'stats', 'stats': s, 'samples': samples, 'wall': real_monotonic() - t0, 'next': i,
         'ops': ws['ops'], 'sim_s': ws['sim_ns'] / 1e9, 'decisions': ws['decisions'], 'all_runs': ws['runs'],
         'idle_jumps': ws['idle_jumps'], 'procs': ws['procs'], 'errors': errors})


def hashes(W, say, prop, seed, cases):
    """Event log hashes of whole cases, for the determinism self-test."""
    from . import props
    for i in cases:
        log = []
        r = props.run_case(W, prop, seed, i, None, None, None, None, log)
        say({'t': 'hash', 'case': i, 'runs': len(log), 'log': log, 'viol': None if r is None else r['viols']})


if __name__ == '__main__':
    main()
