"""Replaying and minimising scenarios.

A replay file is {'property', 'scenario', 'class', 'text', 'hashes', ...}.  Running its scenario is
deterministic: the schedule of every step is given by the step's seed, or by the deviations from
the default schedule listed as 'overrides'.
"""
import json

from . import kernel, props, scen


class Result(object):
    def __init__(self):
        self.viols = []
        self.step = None
        self.hashes = []
        self.recorded = {}
        self.fired = {}
        self.spinning = False


def execute(W, scenario, classes, stop=True):
    """Run a scenario; the first violation of one of `classes` ends it."""
    r = Result()
    try:
        ex = scen.Executor(W, scenario['seed'], scenario['knobs'], scenario['setup'])
        for i, st in enumerate(scenario['steps']):
            if isinstance(st, list):
                try:
                    ex.edit(*st)
                except OSError:
                    ex.scenario['steps'].append(st)
                continue
            n = len(ex.viol)
            res = ex.run(st)
            r.hashes.append(res.k.full_hash())
            r.recorded[i] = dict(res.k.recorded)
            r.fired[i] = list(res.k.fired)
            r.spinning = r.spinning or getattr(res.k, 'spinning', False)
            bad = [v for v in ex.viol[n:] if v.cls in classes]
            if bad:
                r.viols = bad
                r.step = i
                return r
    except scen.Discard as e:
        r.discard = str(e)
    return r


def replay_main(W, say, path):
    with open(path, 'rb') as f:
        d = json.loads(f.read().decode('utf8'))
    r = execute(W, d['scenario'], props.CLASSES[d['property']])
    say({'t': 'replay', 'property': d['property'], 'viols': [(v.cls, v.text) for v in r.viols], 'step': r.step,
         'hashes': r.hashes, 'same': [(v.cls, v.text) for v in r.viols][:1] == [(d['class'], d['text'])]
         and r.hashes == d['hashes']})


def main(W, say, path, seconds, clock):
    with open(path, 'rb') as f:
        d = json.loads(f.read().decode('utf8'))
    m = Minimiser(W, d['property'], d['scenario'], clock, seconds)
    ok = m.run()
    if not ok:
        say({'t': 'minimised', 'ok': False})
        return
    v = m.best_result.viols[0]
    say({'t': 'minimised', 'ok': True, 'scenario': m.best, 'class': v.cls, 'text': v.text, 'tried': m.tried,
         'hashes': m.best_result.hashes, 'before': size(d['scenario']), 'after': size(m.best)})


def size(s):
    runs = [x for x in s['steps'] if isinstance(x, dict)]
    return {'setup': len(s['setup']), 'edits': len([x for x in s['steps'] if isinstance(x, list)]), 'runs': len(runs),
            'faults': sum(len(x.get('faults') or ()) for x in runs),
            'schedule deviations': sum(len(x['overrides']) if x.get('overrides') is not None else -1 for x in runs)}


def cp(x):
    return json.loads(json.dumps(x))


class Minimiser(object):
    def __init__(self, W, prop, scenario, clock, seconds):
        self.W = W
        self.classes = props.CLASSES[prop]
        self.best = cp(scenario)
        self.clock = clock
        self.until = clock() + seconds
        self.tried = 0

    def late(self):
        return self.clock() > self.until

    def attempt(self, s):
        """Adopt s if it violates in the same way."""
        if self.late():
            return False
        self.tried += 1
        try:
            r = execute(self.W, s, self.classes)
        except kernel.HarnessError:
            return False
        except Exception:
            return False
        if not r.viols or r.spinning and self.tried > 1 and not self.spin:
            return False
        if r.viols[0].cls != self.cls:
            return False
        if r.step is not None and r.step + 1 < len(s['steps']):
            s = dict(s, steps=s['steps'][:r.step + 1])
        self.best = s
        self.best_result = r
        return True

    def run(self):
        r = execute(self.W, self.best, self.classes)
        if not r.viols:
            return False
        self.cls = r.viols[0].cls
        self.spin = r.spinning
        self.best_result = r
        self.best = dict(self.best, steps=self.best['steps'][:r.step + 1])
        if self.spin:
            return True             # every attempt would take minutes
        # schedules as lists of deviations
        s = cp(self.best)
        for i, st in enumerate(s['steps']):
            if isinstance(st, dict):
                st['overrides'] = {str(k): v for k, v in sorted(r.recorded[i].items())}
        self.attempt(s)
        self.simple_schedules()
        self.sigs()
        while not self.late():
            before = json.dumps(self.best)
            self.steps()
            self.simple_schedules()
            self.faults()
            self.setup()
            self.calls()
            self.knobs()
            self.contents()
            if json.dumps(self.best) == before:
                break
        self.schedule()
        return True

    def runs(self):
        return [i for i, st in enumerate(self.best['steps']) if isinstance(st, dict)]

    def simple_schedules(self):
        todo = [i for i in self.runs() if self.best['steps'][i].get('overrides') != {}]
        if not todo:
            return
        s = cp(self.best)
        for i in todo:
            s['steps'][i]['overrides'] = {}
        if self.attempt(s):
            return
        for i in todo:
            s = cp(self.best)
            if i < len(s['steps']):
                s['steps'][i]['overrides'] = {}
                self.attempt(s)

    def sigs(self):
        """Name the operation that fails rather than its number: survives other changes."""
        r = self.best_result
        for i in self.runs():
            st = self.best['steps'][i]
            fs = st.get('faults')
            if not fs:
                continue
            new = []
            for f in fs:
                g = [x for x in r.fired.get(i, ()) if x['at'] == f.get('at')]
                if not g:
                    continue              # did not fire
                f = dict(f)
                del f['at']
                f['sig'] = g[0]['sig']
                new.append(f)
            s = cp(self.best)
            s['steps'][i]['faults'] = cp(new)
            self.attempt(s)

    def steps(self):
        i = len(self.best['steps']) - 2
        while i >= 0 and not self.late():
            st = self.best['steps'][i]
            if not (isinstance(st, list) and st[0] == 'advance'):
                s = cp(self.best)
                del s['steps'][i]
                self.attempt(s)
            i = min(i, len(self.best['steps']) - 1) - 1
        # needless pauses at the end of it: two in a row become one
        i = 0
        while i + 1 < len(self.best['steps']):
            a, b = self.best['steps'][i:i + 2]
            if isinstance(a, list) and isinstance(b, list) and a[0] == b[0] == 'advance':
                s = cp(self.best)
                s['steps'][i:i + 2] = [['advance', a[1] + b[1]]]
                if self.attempt(s):
                    continue
            i += 1

    def faults(self):
        for i in self.runs():
            if i >= len(self.best['steps']):
                break
            j = len(self.best['steps'][i].get('faults') or ()) - 1
            while j >= 0:
                s = cp(self.best)
                del s['steps'][i]['faults'][j]
                if not self.attempt(s):
                    f = self.best['steps'][i]['faults'][j]
                    for key in ('lasts', 'inodes'):
                        if f.get(key):
                            s = cp(self.best)
                            del s['steps'][i]['faults'][j][key]
                            if self.attempt(s):
                                f = s['steps'][i]['faults'][j]
                    simpler = {'torn': 'crash', 'full': 'enospc', 'edquot': 'enospc', 'emfile': 'eio', 'eacces': 'eio',
                               'enomem': 'eio', 'oom': 'eio'}.get(f['kind'])
                    if simpler:
                        s = cp(self.best)
                        s['steps'][i]['faults'][j]['kind'] = simpler
                        self.attempt(s)
                j -= 1
                if i >= len(self.best['steps']):
                    break
                j = min(j, len(self.best['steps'][i].get('faults') or ()) - 1)

    def setup(self):
        n = len(self.best['setup'])
        size = max(1, n // 2)
        while size >= 1 and not self.late():
            i = 0
            while i < len(self.best['setup']):
                part = self.best['setup'][i:i + size]
                keep = [e for e in part if e[0] in ('advance', 'dev')]
                if len(keep) == len(part):
                    i += size
                    continue
                s = cp(self.best)
                s['setup'][i:i + size] = keep
                if not self.attempt(s):
                    i += size
            size //= 2

    def each_call(self, s):
        for st in s['steps']:
            if isinstance(st, dict):
                for p in st['procs']:
                    for c in p['calls']:
                        yield c

    def calls(self):
        keys = set()
        for c in self.each_call(self.best):
            keys |= {('', k) for k in ('ext', 'vocab', 'load', 'nocache', 'via', 'no_unicode', 'size') if c.get(k)}
            keys |= {('opts', k) for k in (c.get('opts') or {}) if k != 'bpe_codes_id'}
        for where, k in sorted(keys):
            s = cp(self.best)
            for c in self.each_call(s):
                (c.get('opts', {}) if where else c).pop(k, None)
            self.attempt(s)
        s = cp(self.best)
        for c in self.each_call(s):
            if c.get('fn') in ('basic', 'chars', 'bpe') and c['c'] == 'corpus':
                c['fn'] = 'nosplit'
                c['opts'] = {}
        if s != self.best:
            self.attempt(s)
        for i in self.runs():
            if i >= len(self.best['steps']):
                break
            for pi in reversed(range(len(self.best['steps'][i]['procs']))):
                for ci in reversed(range(len(self.best['steps'][i]['procs'][pi]['calls']))):
                    s = cp(self.best)
                    pr = s['steps'][i]['procs']
                    del pr[pi]['calls'][ci]
                    if not pr[pi]['calls']:
                        del pr[pi]
                    if pr:
                        self.attempt(s)
                    if i >= len(self.best['steps']) or pi >= len(self.best['steps'][i]['procs']):
                        break
                if i >= len(self.best['steps']):
                    break

    def knobs(self):
        for k in sorted(self.best['knobs']):
            s = cp(self.best)
            if k == 'const':
                for n in sorted(s['knobs']['const']):
                    s = cp(self.best)
                    s['knobs']['const'].pop(n, None)
                    self.attempt(s)
                continue
            if k == 'cpus':
                if s['knobs'][k] == 1:
                    continue
                s['knobs'][k] = 1
            elif k == 'fs_tick_ns' or k == 'clock_tick_ns':
                if s['knobs'][k] == 1:
                    continue
                s['knobs'][k] = 1
            else:
                del s['knobs'][k]
            self.attempt(s)
        for i in self.runs():
            if i < len(self.best['steps']) and self.best['steps'][i].get('knobs'):
                s = cp(self.best)
                del s['steps'][i]['knobs']
                self.attempt(s)

    def contents(self):
        for where in ('setup', 'steps'):
            for i in range(len(self.best[where])):
                if i >= len(self.best[where]):
                    break
                e = self.best[where][i]
                if isinstance(e, list) and e[0] == 'put' and len(e[2]) > 2:
                    for new in ('', 'a\n', e[2][:len(e[2]) // 2]):
                        if e[1].endswith('.prep') and not new.endswith('\n'):
                            continue        # output files always end like this
                        s = cp(self.best)
                        s[where][i][2] = new
                        if self.attempt(s):
                            break

    def schedule(self):
        """ddmin over the deviations from the default schedule."""
        for i in self.runs():
            if i >= len(self.best['steps']):
                break
            o = self.best['steps'][i].get('overrides')
            if not o:
                continue
            items = sorted(((int(k), v) for k, v in o.items()))
            n = 2
            while len(items) >= 1 and not self.late():
                size = max(1, len(items) // n)
                hit = False
                for a in range(0, len(items), size):
                    rest = items[:a] + items[a + size:]
                    s = cp(self.best)
                    s['steps'][i]['overrides'] = {str(k): v for k, v in rest}
                    if self.attempt(s):
                        items = rest
                        n = max(n - 1, 2)
                        hit = True
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
