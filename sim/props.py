"""Scenario generators and explorers, one per property.

`case(ctx)` of a property builds one random scenario and executes a batch of simulated runs of
it; the first run that violates the property stops the case.  Every choice comes from ctx.r,
which is a function of (seed, property, case index).
"""
import os

from . import gen, kernel, scen

S = '/sim/src'
OUT = '/sim/out'


class Found(Exception):
    def __init__(self, viols, scenario):
        self.viols = viols
        self.scenario = scenario


ROLES = ((b'/sim/src/', 'src'), (b'/sim/elsewhere', 'src'), (b'/sim/out', 'out'), (b'/sim/work', 'out'),
         (b'/sim/mnt', 'out'), (b'/sim/vout', 'vocab'))
SUF = ('.part', '.prep', '.parsed', '.partvocab', '.lastmodif', '.tmp', '.java', '.py', '.js', '.c')
BASE = ('vocab', 'vocabsize', 'ready', 'nonbpe_vocab', 'filelist', 'dirlist', '.name', 'merges.txt', 'merges_cache.txt',
        'vocab_res.txt', 'bpe_vocab_reassembled.txt', 'part_vocab')
_cls = {}


def op_class(kind, path):
    key = (kind, path)
    r = _cls.get(key)
    if r is not None:
        return r
    p = path if isinstance(path, bytes) else scen.enc(path)
    role = ''
    if p.startswith(b'/sim/'):
        role = 'dir'
        for pre, name in ROLES:
            if p.startswith(pre):
                role = name
                break
        else:
            for name in (b'parsed_datasets', b'file_lists', b'corpus_sizes', b'prep_datasets', b'/vocab', b'/bpe', b'/tmp'):
                if name in p:
                    role = name.decode().strip('/')
                    break
        base = scen.dec(p.rpartition(b'/')[2])
        suf = ''
        if base in BASE:
            suf = base
        else:
            for x in SUF:
                if base.endswith(x):
                    suf = x
                    break
            else:
                if '_-_' in base and 'part' in scen.dec(p):
                    suf = 'partmeta'
        role += ':' + suf
    r = kind + ' ' + role
    if len(_cls) > 50000:
        _cls.clear()
    _cls[key] = r
    return r


# with and without summer time; given as rules, so that no database of time zones is needed
ZONES = ['CET-1CEST,M3.5.0,M10.5.0/3', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
         'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'IST-5:30', 'XXX12', 'YYY-14']

MUTATING = {'create', 'write', 'rename', 'unlink', 'mkdir', 'rmdir', 'truncate', 'symlink', 'open_w', 'close'}


class Ctx(object):
    def __init__(self, W, prop, seed, index, deadline=None, clock=None, stats=None):
        self.W = W
        self.prop = prop
        self.seed = seed
        self.index = index
        self.r = kernel.mkrandom('case', prop, seed, index)
        self.deadline = deadline
        self.clock = clock
        self.ex = None
        self.ahead = False      # the corpus has times later than now: what changes now cannot be noticed
        self.zone = self.fold = None
        self.r3 = kernel.mkrandom('zone', prop, seed, index)
        self.r2 = kernel.mkrandom('sample', prop, seed, index)
        self.samples = self.log = None
        self.stats = stats if stats is not None else new_stats()

    # ------------------------------------------------------------ building
    def begin(self, knobs, setup):
        # what several corpora link to is made once: made anew for the second, it would give the first
        # one the second one's time stamp
        setup = [o for i, o in enumerate(setup) if o not in ELSEWHERE or o not in setup[:i]]
        if self.r3.random() < ({'C06': 0.4, 'C15': 0.25}.get(self.prop, 0.12)):
            # somewhere else than in Greenwich, in some cases at the end of summer time
            self.zone = self.r3.choice(ZONES)
            knobs = dict(knobs, tz=self.zone)
            if 'M' in self.zone and self.r3.random() < 0.7 and setup and setup[-1][0] == 'advance' \
                    and not any(o[0] == 'ages' for o in setup):
                self.fold = 1800 if self.zone.startswith('LHST') else 3600
                setup = [['fold', self.r3.random()]] + [o if o[0] != 'advance' else ['advance', min(o[1], 2)] for o in setup]
        self.ex = scen.Executor(self.W, self.r.randint(0, 1 << 30), knobs, setup)
        return self.ex

    def newseed(self):
        return self.r.randint(0, 1 << 40)

    def step(self, calls, **kw):
        st = {'procs': [{'calls': calls}], 'seed': self.newseed()}
        st.update(kw)
        if self.zone and 'seed' not in kw and self.r3.random() < 0.2:
            # a laptop on a journey
            st['knobs'] = dict(st.get('knobs') or {}, tz=self.r3.choice(ZONES + ['UTC']))
        return st

    def run(self, step):
        if self.deadline is not None and self.clock() > self.deadline:
            raise OutOfTime()
        ex = self.ex
        before = len(ex.viol)
        res = ex.run(step)
        self.account(res, step)
        self.check(before)
        return res

    def check(self, before=0):
        bad = [v for v in self.ex.viol[before:] if v.cls in CLASSES[self.prop]]
        if bad:
            raise Found(bad, dict(self.ex.scenario, steps=list(self.ex.scenario['steps'])))
        del self.ex.viol[before:]

    def violate(self, cls, text):
        n = len(self.ex.viol)
        self.ex.violate(cls, text)
        self.check(n)

    def account(self, res, step):
        s = self.stats
        k = res.k
        s['runs'] += 1
        for f in k.fired:
            key = f['kind']
            s['faults'][key] = s['faults'].get(key, 0) + 1
            at = f['kind'] + ' @ ' + op_class(f['op'], f['path'])
            s['fault_sites'][at] = s['fault_sites'].get(at, 0) + 1
        st = res.status
        if k.fired:
            key = '%s after %s' % (st, '+'.join(sorted({f['kind'] for f in k.fired})))
        else:
            key = '%s without fault' % st
        s['outcomes'][key] = s['outcomes'].get(key, 0) + 1
        il = k.interleaving()
        s['interleavings'].add(il)
        if k.fired or k.decisions:
            s['nontrivial'].add(il)
        if self.log is not None:
            self.log.append([k.full_hash(), st, len(k.trace)])
        if self.samples is not None and len(self.samples) < 3 and k.fired and self.r2.random() < 0.2:
            self.samples.append({'case': self.index, 'calls': step_calls(step), 'knobs': self.ex.W.knobs,
                                 'faults': [[f['kind'], f['op'], f['path'], f['at']] for f in k.fired], 'status': st,
                                 'operations': len(k.trace), 'scheduling decisions': k.decisions, 'processes': len(k.procs),
                                 'setup': [e[:2] for e in self.ex.scenario['setup']][:12]})
        for c in step_calls(step):
            n = c['c'] + (':' + c['fn'] if 'fn' in c else '')
            s['calls'][n] = s['calls'].get(n, 0) + 1

    # ------------------------------------------------------------ faults
    def pick_op(self, trace, ok):
        """Index of an operation for which ok(kind, path) holds, classes of operations being equally likely."""
        groups = {}
        for i, (tid, kind, path) in enumerate(trace):
            if ok(kind, path):
                groups.setdefault(op_class(kind, path), []).append(i)
        if not groups:
            return None
        if self.r.random() < 0.2:
            allidx = [i for g in groups.values() for i in g]
            allidx.sort()
            return self.r.choice(allidx)
        return self.r.choice(groups[self.r.choice(sorted(groups))])

    def crash_fault(self, trace, torn=0.35):
        r = self.r
        if r.random() < 0.1:
            at = self.pick_op(trace, lambda k, p: True)
        else:
            at = self.pick_op(trace, lambda k, p: k in MUTATING)
        if at is None:
            return None
        if trace[at][1] == 'write' and r.random() < torn * 2:
            return {'kind': 'torn', 'at': at, 'frac': r.choice([0.0, 0.1, 0.5, 0.9, 0.99])}
        return {'kind': 'crash', 'at': at}

    def kbi_fault(self, trace):
        at = self.pick_op(trace, lambda k, p: True)
        return None if at is None else {'kind': 'kbi', 'at': at}

    def errno_fault(self, trace, want=None, lasting=True):
        r = self.r
        kind = r.choice(['eio', 'eio', 'enospc', 'emfile', 'eacces', 'enomem', 'full', 'edquot'])
        if kind == 'full':
            at = self.pick_op(trace, lambda k, p: k in ('create', 'write') and (want is None or want(k, p)))
            if at is None:
                return None
            f = {'kind': 'full', 'at': at, 'room': r.choice([0, 0, 1, 7, 64, 300])}
            if r.random() < 0.3:
                f['inodes'] = True
            return f
        if r.random() < 0.5:
            # the operation first, then what can happen to it: permissions matter most where directories are listed
            kinds = ('eio', 'enospc', 'emfile', 'eacces', 'enomem', 'edquot')
            at = self.pick_op(trace, lambda k, p: any(kernel.errno_applies(e, k) for e in kinds) and
                              (want is None or want(k, p)))
            if at is None:
                return None
            kind = r.choice([e for e in kinds if kernel.errno_applies(e, trace[at][1])])
        else:
            at = self.pick_op(trace, lambda k, p: kernel.errno_applies(kind, k) and (want is None or want(k, p)))
        if at is None:
            return None
        f = {'kind': kind, 'at': at}
        if lasting and r.random() < 0.35:
            # the error does not go away before the command ends: on this path, or anywhere
            f['lasts'] = r.choice(['path', 'path', 'path', 'all'])
        return f

    def oom_fault(self, trace):
        at = self.pick_op(trace, lambda k, p: k in ('open', 'create', 'read', 'write', 'listdir'))
        return None if at is None else {'kind': 'oom', 'at': at}

    def stall_fault(self, trace):
        at = self.pick_op(trace, lambda k, p: True)
        if at is None:
            return None
        return {'kind': 'stall', 'at': at, 'secs': self.r.choice([0.5, 6, 6, 20, 310, 310, 700, 4000])}

    def fault_pause(self):
        """What passes between a fault and the next attempt."""
        if self.r.random() < 0.5:
            self.ex.edit('advance', self.r.choice([0.01, 0.4, 1.3, 3, 90, 100000]))


class OutOfTime(Exception):
    pass


def new_stats():
    return {'runs': 0, 'faults': {}, 'fault_sites': {}, 'outcomes': {}, 'interleavings': set(), 'nontrivial': set(), 'calls': {},
            'cases': 0, 'discards': {}, 'probes': {}}


def step_calls(step):
    return [c for p in step['procs'] for c in p['calls']]


# ------------------------------------------------------------------ building blocks

ROOTS = ['proj', 'proj', 'dataset', 'a', 'my proj', 'x_1', 'café', 'p.java', '-p', 'Proj[1]', 'n_-_n', '20-01-01']
LONG = ['all_java_projects_of_the_apache_foundation_without_tests_and_generated_code_and_so_on', 'n' * 80, 'x y ' * 10 + 'z']


def corpus_setup(r, root, entries):
    out = [['mkdir', root]]
    for e in entries:
        p = root + '/' + scen.dec(e[1])
        if e[0] == 'f':
            out.append(['put', p, scen.text_of(e[2])])
        elif e[0] == 'd':
            out.append(['mkdir', p])
        else:
            out.append(['ln', p, scen.dec(e[2])])
    return out


LINKED = '/sim/elsewhere/dir'
ELSEWHERE = [['put', '/sim/elsewhere/target.java', 'class T { int viaLink; }\n'],
             ['put', '/sim/elsewhere/dir/in.java', 'int inLinkedDir = 1;\n'],
             ['put', '/sim/elsewhere/dir/sub/deep.py', 'def deep(): pass\n']]


def new_corpus(ctx, nmin=1, nmax=6, single=0.08, links=0.25, exotic=0.1, depth=3, name=None, big=0.02, parent=S, many=0):
    """(path, setup ops, entries)"""
    r = ctx.r
    root = parent + '/' + (name or r.choice(ROOTS))
    if not name and ctx.r2.random() < 0.04:
        root = parent + '/' + ctx.r2.choice(LONG)
    if many:
        ents = gen.many(r, many)
        return root, corpus_setup(r, root, ents), ents
    if r.random() < single:
        f = root + r.choice(['.java', '.py', ''])
        return f, [['put', f, scen.text_of(gen.content(r, big))]], None
    ents = gen.corpus(r, nmin, nmax, exotic, links, depth, big)
    ops = corpus_setup(r, root, ents)
    if any(e[0] == 'l' for e in ents):
        ops = ELSEWHERE + ops
    return root, ops, ents


def exts_of(r, ents, some=0.35):
    if r.random() > some:
        return None
    have = sorted({os.path.splitext(scen.dec(e[1]))[1][1:] for e in (ents or []) if e[0] == 'f'} - {''})
    pool = [x for x in have if x.replace('_', '').isalnum()] + ['java', 'py', 'zz']
    if r.random() < 0.3:
        pool += ['JAVA', 'C', 'c', 'a', 'ava', 'test.java', 'a_b', 'b_c', 'p']
    n = r.randint(1, 3)
    return '|'.join(r.choice(pool) for _ in range(n))


def twist_exts(r, ext):
    """An extension filter that is easily mistaken for `ext`."""
    l = ext.split('|') if ext else []
    k = r.choice(['case', 'drop', 'add', 'regroup', 'regroup', 'regroup', 'order', 'cut', 'none'])
    if k == 'case' and l:
        i = r.randrange(len(l))
        l[i] = l[i].swapcase()
    elif k == 'drop' and len(l) > 1:
        l.pop(r.randrange(len(l)))
    elif k == 'regroup' and len(l) > 1:
        l = sorted(set(l))
        i = r.randrange(len(l))
        l[i:i + 2] = ['_'.join(l[i:i + 2])]
    elif k == 'order' and l:
        l = l[::-1] + l[:1]
    elif k == 'cut' and l:
        i = r.randrange(len(l))
        l[i] = l[i][r.choice([0, 1]):][:r.choice([9, 2])] or 'a'
    elif k == 'none':
        l = []
    else:
        l.append(r.choice(['java', 'py', 'c', 'C', 'js', 'b_c']))
    return '|'.join(x for x in l if x) or None


def corpus_call(ctx, path, ents, out=OUT, via=None, bpe=0.15, vocab=0.0, nocache=0.15):
    r = ctx.r
    fn, opts = gen.options(r, bpe)
    call = {'c': 'corpus', 'fn': fn, 'path': path, 'opts': opts, 'ext': exts_of(r, ents), 'out': out}
    if via is None:
        via = 'cli' if r.random() < 0.25 else 'api'
    if via == 'cli' and cli_ok(call):
        call['via'] = 'cli'
        if ctx.r2.random() < 0.2:
            call['verbose'] = True
    elif r.random() < nocache:
        call['nocache'] = True
    if vocab and r.random() < vocab:
        call['vocab'] = True
        if call.get('via') != 'cli' and r.random() < 0.5:
            call['load'] = True
    return call


def cli_ok(call):
    if call['path'].startswith('-') or (call.get('out') or '').startswith('-'):
        return False
    return True


def vary(call, r):
    """The same request on another number of workers and the like: knobs of one step."""
    return gen.knobs(r)


# how often the corpus has many files
CROWDS = {'C01': 0.012, 'C02': 0.006, 'C03': 0.006, 'C04': 0.004, 'C05': 0.006, 'C07': 0.01, 'C15': 0.01, 'C16': 0.02, 'C18': 0.02, 'C11': 0.01}


def crowd(ctx):
    p = CROWDS.get(ctx.prop, 0)
    return ctx.r3.choice([ctx.r3.randint(97, 140), ctx.r3.randint(97, 140), ctx.r3.randint(200, 270)]) if ctx.r3.random() < p else 0


ROOTLINK = 0.04


def base(ctx, knobs=None, **kw):
    """One corpus set up, ready to run.  Returns (path, entries)."""
    future = kw.pop('future', True)
    path, ops, ents = new_corpus(ctx, many=crowd(ctx), **kw)
    r = ctx.r
    if r.random() < 0.3:
        # any time of day and year
        ops = [['advance', r.randint(0, 400 * 86400)]] + ops
    if r.random() < 0.2:
        # dates of other machines and archives: long ago, or ahead of this machine's clock
        how = r.choice(['old', 'epoch', 'mixed'] + (['ahead', 'farahead', 'ahead'] if future else []))
        ctx.ahead = 'ahead' in how
        ops.append(['ages', path, how])
    if ctx.r2.random() < ROOTLINK:
        # the user speaks of the corpus by a link to it
        link = S + '/' + ctx.r2.choice(['current', 'latest', 'proj_'])
        ops.append(['ln', link, path])
        path = link
    ctx.begin(knobs or gen.knobs(r), ops + [['advance', r.choice([2, 5, 5000])]])
    return path, ents


def relative(ctx, path):
    """A second corpus with a name similar to that of the first: (path, entries)."""
    r = ctx.r
    d, _, n = path.rpartition('/')
    n = n.rstrip('/') or n
    n = r.choice([n + '_two', n + '_two', n + '_' + r.choice(['1', 'java', '20-01-01T00-00-00', '-_-']), n + '2', n + '.java',
                  n + '_-_x', 'my_' + n, n[:-1] or 'q', n.split('_')[0] + '_'])
    if d + '/' + n == path:
        n += '0'
    p, o, e = new_corpus(ctx, name=n, parent=r.choice([d, d, S + '/elsewhere']), nmax=3, single=0.05, exotic=0.02, depth=2, links=False)
    for op in o:
        ctx.ex.edit(*op)
    ctx.ex.edit('advance', r.choice([1.1, 3, 4000]))
    return p, e


# ------------------------------------------------------------------ C01

def c01(ctx):
    r = ctx.r
    path, ents = base(ctx, nmax=7)
    if r.random() < 0.1:
        path = path + '/' if ents is not None else path
    call = corpus_call(ctx, path, ents, vocab=0.05, out=r.choice([OUT, OUT, OUT, None, '/sim/out/deep/er', 'rel/out']))
    if r.random() < 0.08:
        call['path'] = os.path.relpath(path, '/sim/work')
    snap = ctx.ex.snapshot()
    for m in range(5):
        ctx.ex.restore(snap)
        kn = {k: v for k, v in gen.knobs(r).items() if k in ('cpus', 'bufsize', 'rbufsize', 'pipe_cap', 'platform')}
        st = ctx.step([call], knobs=kn)
        if r.random() < 0.2:
            st['faults'] = [{'kind': 'stall', 'at': r.randint(0, 250), 'secs': r.choice([3, 400])} for _ in range(r.randint(1, 3))]
        ctx.run(st)


# ------------------------------------------------------------------ C02, C03, C04: one command, faults, retries

def history(ctx, path, ents, call):
    """Sometimes something happened before the command under test."""
    r = ctx.r
    k = r.random()
    if k < 0.6:
        return
    if k < 0.75:
        other = corpus_call(ctx, path, ents)
        ctx.run(ctx.step([other]))
        ctx.ex.edit('advance', r.choice([0.1, 2, 50]))
    elif k < 0.85:
        ctx.run(ctx.step([call]))
        ctx.ex.edit('advance', r.choice([1.5, 2, 50]))
        tamper(ctx)
    else:
        ctx.run(ctx.step([call]))
        ctx.ex.edit('advance', r.choice([1.5, 2, 50]))
        if ents is not None:
            change_corpus(ctx, path)
            ctx.ex.edit('advance', 3)


def retries(ctx, call, dry, fault_of, more=0.3, m=6, second='crash'):
    r = ctx.r
    ex = ctx.ex
    snap = ex.snapshot()
    for _ in range(m):
        ex.restore(snap)
        f = fault_of(dry)
        if f is None:
            return
        fs = [f]
        # an error that is passed over shows when something else happens later
        forgiven = dry[f['at']][1] in ('unlink', 'rmdir', 'close', 'mkdir') and f['kind'] in kernel.ERRNOS
        if r.random() < (0.6 if forgiven else 0.15):
            if r.random() < 0.5:
                g = fault_of(dry)
            elif r.random() < 0.5:
                g = {'kind': second, 'at': f['at'] + r.randint(1, 40)}
            else:
                g = {'kind': second, 'at': r.randint(f['at'] + 1, max(f['at'] + 1, len(dry) - 1))}
            if g is not None and g['at'] > f['at']:
                fs.append(g)
        ctx.run(ctx.step([call], seed=dry.seed0, faults=fs))
        while r.random() < more:
            ctx.fault_pause()
            g = fault_of(dry)
            if g is not None:
                g = dict(g, at=r.randint(0, g['at'] + 20))
                kn = {'cpus': r.randint(1, 4)} if r.random() < 0.3 else None
                ctx.run(ctx.step([call], faults=[g], knobs=kn))
        ctx.fault_pause()
        ctx.run(ctx.step([call], knobs={'cpus': r.randint(1, 4)} if r.random() < 0.3 else None))


class Trace(list):
    pass


def dry_run(ctx, call, **kw):
    snap = ctx.ex.snapshot()
    st = ctx.step([call], **kw)
    res = ctx.run(st)
    t = Trace(res.k.trace)
    t.seed0 = st['seed']
    ctx.ex.restore(snap)
    return t


def one_command(ctx, vocab=0.1, nmax=5, **kw):
    path, ents = base(ctx, nmax=nmax, **kw)
    call = corpus_call(ctx, path, ents, vocab=vocab)
    history(ctx, path, ents, call)
    return call


def c02(ctx):
    call = one_command(ctx)
    dry = dry_run(ctx, call)
    retries(ctx, call, dry, lambda t: ctx.kbi_fault(t) if ctx.r.random() < 0.25 else ctx.crash_fault(t))


def c03(ctx):
    call = one_command(ctx)
    dry = dry_run(ctx, call)
    retries(ctx, call, dry, ctx.errno_fault)


def any_fault(ctx, t):
    k = ctx.r.random()
    if k < 0.45:
        return ctx.crash_fault(t)
    if k < 0.6:
        return ctx.kbi_fault(t)
    if k < 0.9:
        return ctx.errno_fault(t)
    return ctx.stall_fault(t)


def c04(ctx):
    call = one_command(ctx, vocab=0.03)
    dry = dry_run(ctx, call)
    retries(ctx, call, dry, lambda t: any_fault(ctx, t), m=5)


# ------------------------------------------------------------------ C05

def delete_something(ctx):
    r = ctx.r
    fs = ctx.ex.W.fs
    cands = []
    learned = any(c['id'] for c in scen.list_codes(fs).values())
    for d in ('/sim/home/.cache/codeprep', '/sim/home/.config/codeprep'):
        t = fs.tree(d.encode())
        for k, v in t.items():
            depth = k.count(b'/')
            if learned and '.config' in d and not (b'/vocab/' in k and k + b'/nonbpe_vocab' not in t and b'nonbpe_vocab' not in k and b'EF' not in k):
                continue        # learned codes and what belongs to them are no cache
            if depth <= 3:
                cands.append(d + '/' + scen.dec(k))
    for d in sorted(ctx.ex.outputs):
        cands.append(scen.dec(d))
        cands.append(scen.dec(d.rpartition(b'/')[0]))
    cands = [c for c in cands if c != '/sim/work' and fs.exists(scen.enc(c))]
    if not cands:
        return
    ctx.ex.edit('advance', r.choice([1.2, 3, 100]))
    c = r.choice(cands)
    ctx.ex.edit('rm', c)
    for d in list(ctx.ex.outputs):
        if scen.dec(d).startswith(c):
            del ctx.ex.outputs[d]
    ctx.ex.edit('advance', r.choice([0.01, 1.2, 3]))


def case_twins(corp):
    """(path, extension, the same extension in other letters) for the corpora with files of both sorts."""
    out = []
    for p, ents in corp:
        have = {os.path.splitext(scen.dec(e[1]))[1][1:] for e in ents or [] if e[0] == 'f'} - {''}
        out += [(p, x, y) for x in sorted(have) for y in sorted(have) if x != y and x.lower() == y.lower() and x.isalnum()]
    return out


def c05(ctx):
    r = ctx.r
    names = r.sample(['proj', 'other', 'proj2', 'a', 'x_1'], 2)
    if ctx.r2.random() < 0.08:
        names[0] = ctx.r2.choice(LONG)
        names[1] = names[0] + '2' if ctx.r2.random() < 0.3 else names[1]
    ops = []
    corp = []
    for n in names[:r.choice([1, 1, 2])]:
        p, o, e = new_corpus(ctx, name=n, nmax=4)
        corp.append((p, e))
        ops += o
        if r.random() < 0.7:
            ops += [['advance', r.choice([1.1, 7])]]
    ctx.begin(gen.knobs(r), ops + [['advance', r.choice([2, 5000])]])
    codes = []
    if r.random() < 0.3:
        # codes learned here, several lengths of them in use at the same time
        p, e = corp[0]
        for n in sorted(r.sample([3, 5, 8, 30], r.choice([1, 1, 2]))):
            ctx.run(ctx.step([learn_call(ctx, p, e, n=n, ext=None, id=r.choice([None, None, 'my', 'my-own']), judge=False, lazy=True)]))
            ctx.ex.edit('advance', r.choice([0.3, 2]))
        codes = usable_ids(ctx)
    pool = []
    for _ in range(r.randint(2, 4)):
        p, e = r.choice(corp)
        c = corpus_call(ctx, p, e, out=r.choice([OUT, OUT, '/sim/out2', None]), vocab=0.35, bpe=0.1)
        pool.append(c)
        if codes and r.random() < 0.6:
            c['fn'] = 'bpe'
            c['opts'] = {k: v for k, v in c['opts'].items() if k in ('no_spaces', 'no_com')}
            for x in r.sample(codes, min(len(codes), 2)):
                d = dict(c, opts=dict(c['opts'], bpe_codes_id=x))
                pool.append(d)
            pool.remove(c)
    for _ in range(2):
        if r.random() < 0.4:
            c = r.choice(pool)
            if r.random() < 0.4:
                c['ext'] = r.choice(['java|c|py', 'a_b|c', 'b_c|java', 'java|py', 'c', 'a|b', 'java|c'])
            d = dict(c, ext=twist_exts(r, c['ext']))
            pool += [d, d] if c['ext'] and '|' in c['ext'] else [d]
    if r.random() < 0.4:
        # one option apart
        c = r.choice(pool)
        o = dict(c['opts'])
        k = r.choice(['no_spaces', 'no_unicode', 'no_com', 'no_str', 'max_str_length'])
        if k == 'max_str_length':
            if not o.get('no_str') and not o.get('full_strings') and c['fn'] != 'bpe':
                o[k] = r.choice([0, 2, 4, 14, 20])
        elif o.get(k):
            del o[k]
        elif c['fn'] != 'bpe' and not (k == 'no_str' and (o.get('full_strings') or 'max_str_length' in o)):
            o[k] = True
        pool.append(dict(c, opts=o))
    if r.random() < 0.5:
        c = dict(pool[0], out=r.choice(['/sim/out3', '/sim/out/inner']))
        pool.append(c)
    if r.random() < 0.4:
        c = dict(pool[0])
        if c.get('vocab'):
            c.pop('vocab')
            c.pop('load', None)
        else:
            c['vocab'] = True
        pool.append(c)
    twins = case_twins(corp)
    if twins and ctx.r2.random() < 0.6:
        p, a, b = ctx.r2.choice(twins)
        c = dict(ctx.r2.choice(pool), path=p, ext=a)
        if c['fn'] != 'bpe':
            for x in ctx.r2.choice([[c, dict(c, ext=b)], [c, dict(c, ext=b), c], [c, dict(c, ext='%s|%s' % (a, b)), dict(c, ext=b)]]):
                ctx.run(ctx.step([x], knobs={'cpus': ctx.r2.randint(1, 4)}))
    for _ in range(r.randint(3, 6)):
        k = r.random()
        if k < 0.25 and ctx.ex.outputs:
            delete_something(ctx)
        if r.random() < 0.2:
            calls = [r.choice(pool) for _ in range(2)]
            if r.random() < 0.5 and ctx.ex.outputs:
                calls.insert(1, later(ctx, delete_something))
        else:
            calls = [r.choice(pool)]
        ctx.run(ctx.step(calls, knobs={'cpus': r.randint(1, 4)}))
        if r.random() < 0.5:
            ctx.ex.edit('advance', r.choice([0.2, 1.5, 60]))


def usable_ids(ctx):
    """'id-n' for learned codes with some n, ids that are not unique being left out."""
    r = ctx.r
    out = []
    codes = scen.list_codes(ctx.ex.W.fs)
    cs = [c for d, c in sorted(codes.items()) if c['id'] and c['sets'] and max(c['sets']) > 0]
    ids = [c['id'] for c in codes.values()]
    for c in cs:
        if ids.count(c['id']) == 1:
            m = max(c['sets'])
            out += sorted({'%s-%d' % (c['id'], x) for x in (m, r.randint(1, m), r.randint(1, m))})
    return out


# ------------------------------------------------------------------ C06

class Recorded(object):
    """Stands in for the executor: edits are made at once and noted down, to be made again later."""

    def __init__(self, ex):
        self.W = ex.W
        self.ex = ex
        self.edits = []
        self.outputs = dict(ex.outputs)

    def edit(self, *e):
        self.ex.apply(list(e))
        self.edits.append(list(e))


PERIODS = [60, 3600, 12 * 3600, 12 * 3600, 12 * 3600, 86400, 86400, 7 * 86400, 30 * 86400, 31 * 86400, 365 * 86400, 366 * 86400]


def pause(ctx, path):
    """Time passes; in some cases until the clock looks similar again to what `path` was dated."""
    if ctx.fold and ctx.r3.random() < 0.6:
        ctx.ex.edit('align', path, ctx.fold)
    elif ctx.r.random() < 0.25:
        ctx.ex.edit('align', path, ctx.r.choice(PERIODS))
    else:
        ctx.ex.edit('advance', ctx.r.choice([1.05, 2, 70]))


def later(ctx, fn, *a):
    """The edits `fn` makes, as an 'edit' call for use within a process; nothing is changed now."""
    ex = ctx.ex
    snap = ex.W.snapshot()
    ctx.ex = rec = Recorded(ex)
    try:
        fn(ctx, *a)
    finally:
        ctx.ex = ex
        ex.W.restore(snap)
    return {'c': 'edit', 'edits': [['advance', ctx.r.choice([1.05, 2, 70])]] + rec.edits + [['advance', ctx.r.choice([0.0, 0.3, 2])]]}


def change_corpus(ctx, root):
    r = ctx.r
    if ctx.ahead:
        return
    ex = ctx.ex
    fs = ex.W.fs
    t = fs.tree(root.encode('utf8', 'surrogateescape'))
    files = sorted(k for k, v in t.items() if v[0] == 'f')
    dirs = sorted(k for k, v in t.items() if v[0] == 'd')

    def full(k):
        return root + '/' + scen.dec(k) if k else root
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        kind = r.choice(['edit', 'edit', 'add', 'rm', 'rm', 'mv', 'adddir', 'rmdir', 'tofile', 'todir', 'lnadd'])
        linked = sorted(k for k, v in t.items() if v[0] == 'l' and v[1] == LINKED.encode())
        try:
            if linked and r.random() < 0.6:
                # what is reached through a link to a directory changes
                x = r.random()
                have = sorted(fs.tree(LINKED.encode()))
                if x < 0.5:
                    ex.edit('put', LINKED + r.choice(['/in.java', '/sub/deep.py', '/sub/deep.py', '/sub/new.java']),
                            scen.text_of(gen.content(r)))
                elif x < 0.7 and have:
                    ex.edit('rm', LINKED + '/' + scen.dec(r.choice(have)))
                elif x < 0.8:
                    ex.edit('put', LINKED + '/sub2/sub3/x.java', scen.text_of(gen.content(r)))
                elif x < 0.9:
                    ex.edit('rm', full(r.choice(linked)))
                else:
                    dst = full(r.choice([b''] + dirs)) + '/moved%d' % r.randint(0, 9)
                    if not fs.exists(scen.enc(dst)):
                        ex.edit('mv', full(r.choice(linked)), dst)
            elif kind == 'lnadd' and fs.exists(LINKED.encode()):
                dst = full(r.choice([b''] + dirs)) + '/link%d' % r.randint(0, 9)
                if not fs.exists(scen.enc(dst)):
                    ex.edit('ln', dst, LINKED)
            elif kind == 'edit' and files:
                ex.edit('put', full(r.choice(files)), scen.text_of(gen.content(r)))
            elif kind == 'add':
                d = r.choice([b''] + dirs)
                ex.edit('put', full(d) + '/' + scen.dec(gen.name(r)), scen.text_of(gen.content(r)))
            elif kind == 'rm' and files:
                ex.edit('rm', full(r.choice(files)))
            elif kind == 'mv' and files:
                d = r.choice([b''] + dirs)
                dst = full(d) + '/' + scen.dec(gen.name(r))
                if not fs.exists(dst.encode('utf8', 'surrogateescape')):
                    ex.edit('mv', full(r.choice(files + dirs)), dst)
            elif kind == 'adddir':
                ex.edit('mkdir', full(r.choice([b''] + dirs)) + '/newdir%d' % r.randint(0, 9))
            elif kind == 'rmdir' and dirs:
                ex.edit('rm', full(r.choice(dirs)))
            elif kind == 'tofile' and dirs:
                d = full(r.choice(dirs))
                ex.edit('rm', d)
                ex.edit('put', d, 'int nowAFile;\n')
            elif kind == 'todir' and files:
                f = full(r.choice(files))
                ex.edit('rm', f)
                ex.edit('put', f + '/inner.java', 'int nowADir;\n')
        except OSError:
            pass
        t = fs.tree(root.encode('utf8', 'surrogateescape'))
        files = sorted(k for k, v in t.items() if v[0] == 'f')
        dirs = sorted(k for k, v in t.items() if v[0] == 'd')


def corpus_ok(ctx, root):
    """The edited corpus must still be one the properties speak about (see gen.safe)."""
    t = ctx.ex.W.fs.tree(root.encode('utf8', 'surrogateescape'))
    for k in t:
        if k.endswith((b'.parsed', b'.prep', b'.part')):
            raise scen.Discard('file name with a reserved suffix')


def c06(ctx):
    r = ctx.r
    large = r.random() < 0.03
    if large:
        # every entry counts, not only the first ones found
        path, ents = base(ctx, nmin=300, nmax=930, single=0, big=0, links=False, future=False)
        call = {'c': 'corpus', 'fn': 'nosplit', 'path': path, 'opts': {}, 'ext': None, 'out': OUT}
    else:
        path, ents = base(ctx, nmax=5, single=0.05, links=0.4, future=False)
        call = corpus_call(ctx, path, ents, vocab=0.15)
    if ents is not None and r.random() < 0.4 and not large:
        vanish(ctx, path, call)
        return

    def change(ctx):
        if ents is None:
            ctx.ex.edit('put', path, scen.text_of(gen.content(r)))
        elif large and r.random() < 0.7:
            # no directory looks newer then
            files = sorted(k for k, v in ctx.ex.W.fs.tree(scen.enc(path)).items() if v[0] == 'f')
            ctx.ex.edit('put', path + '/' + scen.dec(r.choice(files)), 'int changed%d;\n' % r.randint(0, 9999))
        else:
            change_corpus(ctx, path)
            corpus_ok(ctx, path)

    if ents is not None and r.random() < 0.15 and not large:
        # what has changed lies in a directory that cannot be listed at first
        inner = sorted(k for k, v in ctx.ex.W.fs.tree(scen.enc(path)).items() if v[0] == 'f' and b'/' in k)
        if inner:
            k = r.choice(inner)
            d = scen.enc(path) + b'/' + k.rpartition(b'/')[0]
            ctx.run(ctx.step([call]))
            pause(ctx, path)
            ctx.ex.edit('put', path + '/' + scen.dec(k), scen.text_of(gen.content(r)))
            dry = dry_run(ctx, call)
            ats = [i for i, (tid, kind, p) in enumerate(dry)
                   if kind == 'listdir' and (scen.enc(p) == d or d.startswith(scen.enc(p) + b'/'))]
            snap = ctx.ex.snapshot()
            for at in ats[:3]:
                ctx.ex.restore(snap)
                f = {'kind': r.choice(['eacces', 'eio', 'emfile', 'enomem']), 'at': at}
                if r.random() < 0.3:
                    f['lasts'] = 'path'
                ctx.run(ctx.step([call], seed=dry.seed0, faults=[f]))
                ctx.run(ctx.step([call]))
            return

    def again():
        return call if r.random() < 0.7 or large else corpus_call(ctx, path, ents, vocab=0.15)
    if r.random() < 0.3 and not large:
        # all in one process
        calls = [call]
        for _ in range(r.randint(1, 3)):
            snap = ctx.ex.W.snapshot()
            for c in calls:
                if c['c'] == 'edit':
                    for e in c['edits']:
                        ctx.ex.apply(e)
            try:
                e = later(ctx, change)
            finally:
                ctx.ex.W.restore(snap)
            calls += [e, again()]
        ctx.run(ctx.step([call]) if r.random() < 0.3 else ctx.step(calls))
        ctx.run(ctx.step(calls))
        return
    ctx.run(ctx.step([call]))
    for _ in range(2 if large else r.randint(1, 3)):
        pause(ctx, path)
        change(ctx)
        if r.random() < 0.3:
            ctx.ex.edit('advance', r.choice([0.2, 2]))
        c = again()
        if r.random() < 0.3 and not large:
            # the corpus cannot be read everywhere at first
            dry = dry_run(ctx, c)
            f = ctx.errno_fault(dry, lambda k, p: k in ('listdir', 'scandir') and ' src' in op_class(k, p))
            if f is not None:
                ctx.run(ctx.step([c], seed=dry.seed0, faults=[f]))
                if r.random() < 0.5:
                    ctx.ex.edit('advance', 2)
        ctx.run(ctx.step([c], knobs={'cpus': r.randint(1, 4)}))


def vanish(ctx, path, call):
    r = ctx.r
    call.pop('vocab', None)
    call.pop('load', None)
    dry = dry_run(ctx, call)
    snap = ctx.ex.snapshot()
    t = ctx.ex.W.fs.tree(path.encode('utf8', 'surrogateescape'))
    names = sorted(k for k, v in t.items() if v[0] in 'fd')
    if not names:
        return
    # in some cases, once the corpus has been listed the last time; in the others, from the start
    first = 0
    if r.random() < 0.5:
        for i, (tid, kind, p) in enumerate(dry):
            if kind in ('listdir', 'scandir') and 'src' in op_class(kind, p):
                first = i + 1
    if first >= len(dry):
        return
    for _ in range(6):
        ctx.ex.restore(snap)
        edits = [['rm', path + '/' + scen.dec(r.choice(names))] for _ in range(r.choice([1, 1, 2]))]
        f = {'kind': 'hook', 'at': r.randint(first, len(dry) - 1), 'edits': edits}
        if r.random() < 0.5:
            at = ctx.pick_op(dry[first:], lambda k, p: 'src' in op_class(k, p))
            if at is not None:
                f['at'] = at + first
        ctx.run(ctx.step([call], seed=dry.seed0, faults=[f]))
        ctx.ex.edit('advance', 3)
        ctx.run(ctx.step([call]))


# ------------------------------------------------------------------ C07

def c07(ctx):
    r = ctx.r
    path, ents = base(ctx, nmax=6, nmin=2)
    call = corpus_call(ctx, path, ents, vocab=0.15, nocache=0)
    other = None
    if r.random() < 0.4:
        # work on other corpora in between makes no difference
        p, e = relative(ctx, path)
        other = corpus_call(ctx, p, e, vocab=0.15, nocache=0, out=call['out'])
        if r.random() < 0.5:
            ctx.run(ctx.step([other], judge=['repeat']))
    if r.random() < 0.5:
        # resumption
        dry = dry_run(ctx, call)
        snap = ctx.ex.snapshot()
        for _ in range(5):
            ctx.ex.restore(snap)
            f = ctx.crash_fault(dry) if r.random() < 0.8 else ctx.kbi_fault(dry)
            if f is None:
                return
            ctx.run(ctx.step([call], seed=dry.seed0, faults=[f], judge=['resume']))
            for _ in range(r.choice([1, 1, 2])):
                ctx.ex.edit('advance', r.choice([0.01, 2, 1000]))
                if other and r.random() < 0.6:
                    ctx.run(ctx.step([other]))
                fs = []
                if r.random() < 0.3:
                    g = ctx.crash_fault(dry)
                    fs = [dict(g, at=r.randint(0, g['at']))] if g else []
                ctx.run(ctx.step([call], faults=fs, judge=['resume']))
        return
    ctx.run(ctx.step([call], judge=['repeat']))
    for _ in range(r.randint(1, 3)):
        ctx.ex.edit('advance', r.choice([0.01, 2, 100000]))
        c2 = dict(call)
        if r.random() < 0.5:
            c2 = corpus_call(ctx, path, ents, vocab=0.15, nocache=0, out=r.choice([OUT, '/sim/out2']))
            c2['ext'] = call['ext']
        if other and r.random() < 0.6:
            ctx.run(ctx.step([other], judge=['repeat']))
        ctx.run(ctx.step([c2], knobs={'cpus': r.randint(1, 4)}, judge=['repeat']))


# ------------------------------------------------------------------ C08, C09, C10: vocabulary

TOK = ['a', 'b', 'c', 'foo', 'bar', '<w>', '</w>', '\\n', '\\t', '<EOF>', '\\xe4', '\\u2028', 'x' * 30, '0', '1', '=', '<non-en>', '"', '\\\\']


def prep_files(ctx, n):
    """A directory of preprocessed files (one line each), as vocabulary calculation reads them."""
    r = ctx.r
    ops = []
    wide = r.random() < 0.2     # partial vocabularies that do not fit into a pipe
    for i in range(n):
        toks = [r.choice(TOK) if r.random() < 0.8 else 'w%d' % r.randint(0, 40) for _ in range(r.randint(0, 12))] + ['<EOF>']
        if wide:
            toks[:0] = ['%s%d' % (r.choice('qrs') * 25, r.randint(0, 999)) for _ in range(r.choice([0, 60, 150, 150]))]
        d = r.choice(['', 's/', 's/t/'])
        ops.append(['put', '/sim/prep/%s%s%d.java.prep' % (d, r.choice(['f', 'g', 'h']), i), ' '.join(toks) + '\n'])
    return ops


def vocab_scene(ctx, nmax=12):
    r = ctx.r
    kn = gen.knobs(r)
    if r.random() < 0.6:
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, nmax, nmax])
        if r.random() < 0.08:
            n = r.choice([r.randint(21, 60), r.randint(21, 60), r.randint(97, 270)])
            kn['cpus'] = r.choice([1, 2, 3, 4, 8])
        ops = prep_files(ctx, n) or [['mkdir', '/sim/prep']]
        if any(len(o) > 2 and len(o[2]) > 2000 for o in ops):
            kn['pipe_cap'] = 4096
        ctx.begin(kn, ops + [['put', '/sim/prep/other.txt', 'not counted\n'], ['advance', 3]])
        return {'c': 'vocabcli', 'path': '/sim/prep', 'out': '/sim/vout', 'ext': '.prep'}
    path, ents = base(ctx, kn, nmax=6)
    call = corpus_call(ctx, path, ents, bpe=0.1)
    call['vocab'] = True
    if call.get('via') != 'cli':
        call['load'] = True
    return call


def c08(ctx):
    r = ctx.r
    call = vocab_scene(ctx)
    if call['c'] == 'corpus' and r.random() < 0.3:
        ctx.run(ctx.step([{k: v for k, v in call.items() if k not in ('vocab', 'load')}]))
    snap = ctx.ex.snapshot()
    for m in range(8 if call['c'] == 'vocabcli' else 4):
        ctx.ex.restore(snap)
        kn = {k: v for k, v in gen.knobs(r).items() if k in ('cpus', 'bufsize', 'pipe_cap', 'platform', 'clock_tick_ns')}
        ctx.run(ctx.step([call], knobs=kn))


def vocab_ready(ctx, call):
    """Vocabulary faults should mostly hit the vocabulary stage."""
    r = ctx.r
    if call['c'] == 'corpus' and r.random() < 0.6:
        ctx.run(ctx.step([{k: v for k, v in call.items() if k not in ('vocab', 'load')}]))
        ctx.ex.edit('advance', 2)


def c09(ctx):
    call = vocab_scene(ctx)
    vocab_ready(ctx, call)
    dry = dry_run(ctx, call)
    retries(ctx, call, dry, lambda t: ctx.kbi_fault(t) if ctx.r.random() < 0.25 else ctx.crash_fault(t), more=0.35,
            m=10 if call['c'] == 'vocabcli' else 5)


def c10(ctx):
    r = ctx.r
    call = vocab_scene(ctx)
    vocab_ready(ctx, call)
    dry = dry_run(ctx, call)
    k = r.random()
    if k < 0.4:
        # slow processes only: every run must succeed
        snap = ctx.ex.snapshot()
        for _ in range(8):
            ctx.ex.restore(snap)
            fs = [f for f in (ctx.stall_fault(dry) for _ in range(r.choice([1, 1, 2, 3, 5]))) if f]
            ctx.run(ctx.step([call], seed=dry.seed0, faults=fs))
    elif k < 0.5:
        snap = ctx.ex.snapshot()
        for _ in range(8):
            ctx.ex.restore(snap)
            at = ctx.pick_op(dry, lambda k, p: True)
            ctx.run(ctx.step([call], seed=dry.seed0, faults=[{'kind': 'kill', 'at': at}], max_ops=60000))
    else:
        def fault(t):
            x = r.random()
            return ctx.stall_fault(t) if x < 0.15 else ctx.oom_fault(t) if x < 0.25 else ctx.errno_fault(t)
        retries(ctx, call, dry, fault, m=10 if call['c'] == 'vocabcli' else 5)


# ------------------------------------------------------------------ C11, C12, C18: BPE codes

def learn_corpus(ctx, nmin=1, nmax=4, name=None, **kw):
    return new_corpus(ctx, nmin=nmin, nmax=nmax, single=0.0, name=name, links=False, big=0.0, many=crowd(ctx), **kw)


def learn_call(ctx, path, ents, **kw):
    r = ctx.r
    c = {'c': 'learn', 'path': path, 'n': r.choice([1, 2, 3, 5, 8, 20, 60, 1000]), 'ext': exts_of(r, ents) if r.random() < 0.5 else None}
    if r.random() < 0.2:
        c['no_unicode'] = True
    if ctx.r2.random() < 0.1:
        c['ext'] = 'java'
        c['legacy'] = ctx.r2.choice(['too', 'only'])
    if ctx.r2.random() < 0.1:
        c['verbose'] = True
    if r.random() < 0.15:
        c['id'] = r.choice(['myid', 'x', 'id-1'])
    c.update(kw)
    return c


def c11(ctx):
    r = ctx.r
    path, ops, ents = learn_corpus(ctx)
    ctx.begin(gen.knobs(r), ops + [['advance', 5]])
    call = learn_call(ctx, path, ents)
    k = r.random()
    if r.random() < 0.3:
        # fewer merges were learned before; ties may be resolved in another way then
        call['judge'] = False
        call['n'] = r.choice([2, 5, 8, 20, 60, 1000])
        for n in sorted(r.sample([1, 2, 3, 5, 8, 20, 60], r.randint(1, 2))):
            if n < call['n'] or r.random() < 0.3:
                ctx.run(ctx.step([dict(call, n=n)]))
                ctx.fault_pause()
    if k < 0.3:
        snap = ctx.ex.snapshot()
        for _ in range(4):
            ctx.ex.restore(snap)
            kn = {k: v for k, v in gen.knobs(r).items() if k in ('cpus', 'bufsize', 'platform', 'pipe_cap')}
            ctx.run(ctx.step([call], knobs=kn))
            if r.random() < 0.5:
                use_codes(ctx, path, ents, call)
        return
    dry = dry_run(ctx, call)
    late = r.random() < 0.5
    if late:
        # only the last stages
        cut = int(len(dry) * r.choice([0.5, 0.8, 0.9]))

        def tail(f):
            t = Trace(dry[cut:])
            g = f(t)
            return None if g is None else dict(g, at=g['at'] + cut)
    else:
        def tail(f):
            return f(dry)

    def fault(t):
        x = r.random()
        if x < 0.5:
            return tail(ctx.crash_fault)
        if x < 0.65:
            return tail(ctx.kbi_fault)
        return tail(ctx.errno_fault)
    retries(ctx, call, dry, fault, m=4)
    if r.random() < 0.3:
        use_codes(ctx, path, ents, call)


def use_codes(ctx, path, ents, call, n=None):
    """Encode the corpus with what was learned; the outcome is compared with the text interface
    using a reference set of codes."""
    r = ctx.r
    codes = scen.list_codes(ctx.ex.W.fs)
    for d, c in sorted(codes.items()):
        if c['id'] and c['sets']:
            m = max(c['sets'])
            if m < 1:
                continue
            k = n or r.choice([m, m, r.randint(1, m)])
            cc = {'c': 'corpus', 'fn': 'bpe', 'path': path, 'opts': {'bpe_codes_id': '%s-%d' % (c['id'], k)},
                  'ext': call.get('ext'), 'out': OUT}
            t = {'c': 'text', 'fn': 'bpe', 'text': 'int i;', 'opts': cc['opts'], 'ext': None}
            ctx.run(ctx.step([t], judge=['usable']))
            ctx.run(ctx.step([cc]))


def c18(ctx):
    r = ctx.r
    path, ops, ents = learn_corpus(ctx, nmin=3, nmax=7, exotic=0.02)
    kn = gen.knobs(r, cpus=r.randint(2, 4))
    kn['platform'] = 'Linux' if r.random() < 0.8 else kn['platform']
    ctx.begin(kn, ops + [['advance', 5]])
    call = learn_call(ctx, path, ents, n=1, id=None)
    if r.random() < 0.5:
        snap = ctx.ex.snapshot()
        for _ in range(4):
            ctx.ex.restore(snap)
            kn = {k: v for k, v in gen.knobs(r).items() if k in ('cpus', 'bufsize', 'clock_tick_ns', 'fs_tick_ns')}
            ctx.run(ctx.step([call], knobs=kn))
        return
    dry = dry_run(ctx, call)

    def fault(t):
        x = r.random()
        if x < 0.4:
            at = ctx.pick_op(dry, lambda k, p: k in MUTATING and ('nonbpe' in scen.dec(p) or '.prep' in scen.dec(p)))
            if at is not None:
                return {'kind': 'crash', 'at': at}
        if x < 0.7:
            return ctx.crash_fault(dry)
        if x < 0.78:
            return ctx.kbi_fault(dry)
        return ctx.errno_fault(dry, r.choice([None, lambda k, p: 'nonbpe' in scen.dec(p)]))
    retries(ctx, call, dry, fault, m=4)


def c12(ctx):
    r = ctx.r
    ops = []
    corp = []
    base_names = r.choice([['proj', 'proj', 'proj'], ['a+b', 'a+b', 'ab'], ['proj', 'proj_1', 'proj'], ['p.q', 'pxq', 'p.q'],
                           ['c++', 'c++', 'c'], ['x', 'x', 'x'], ['proj_nounicode', 'proj', 'proj'], ['p', 'p_1', 'p_2'],
                           ['r(1)', 'r(1)', 'r1'], ['d', 'D', 'd'], ['Proj', 'proj', 'PROJ'], ['proj', 'Proj', 'proj'], ['proj', 'proj_2', 'proj_1'], ['proj_1', 'proj', 'proj'],
                           ['my-own', 'my', 'my-own'], ['proj', 'proj-3', 'proj-2'], ['a b', 'a b', 'a'], ['p_nounicode', 'p', 'p']])
    high = r.choice([9, 9, 99, 19]) if r.random() < 0.15 else None
    if high is not None:
        base_names = base_names[:1] * 3
    for i, n in enumerate((base_names + base_names[:1])[:r.choice([2, 3, 3, 4] if high is None else [3, 4])]):
        # equal names live in different directories and differ in their time stamp
        p, o, e = learn_corpus(ctx, name=n, parent='%s/%d' % (S, i), nmax=3, exotic=0.02, depth=1)
        ops += o + [['advance', r.choice([1.2, 30, 4000])]]
        corp.append((p, e))
    ctx.begin(gen.knobs(r), ops + [['advance', 5]])
    rest = list(corp)
    for i in range(r.randint(3, 5)):
        p, e = r.choice(rest if rest and (high is not None or r.random() < 0.5) else corp)
        if (p, e) in rest:
            rest.remove((p, e))
        call = learn_call(ctx, p, e, judge=False, lazy=True, ext=None)
        call['n'] = r.choice([1, 2, 3, 4, 6, 10, 30])
        call['id'] = None
        if r.random() < 0.2:
            n = os.path.basename(p)
            call['id'] = r.choice(['myid', 'my-own', n, n + '_1', n + '_2', n + '_2', n + '_3', n + '_nounicode', n + '-5', n.swapcase(), n.swapcase() + '_1'])
        if high is not None and i == 0:
            call['id'] = '%s_%d' % (os.path.basename(p), high)     # the next number has one digit more
        fs = []
        if r.random() < (0.4 if high is None else 0.1):
            f = r.choice(['crash', 'crash', 'kbi', 'eio'])
            fs = [{'kind': f, 'at': r.randint(0, 420)}]
        ctx.run(ctx.step([call], faults=fs, judge=['registry']))
        if r.random() < 0.6:
            check_selection(ctx)
        ctx.ex.edit('advance', r.choice([0.1, 2, 500]))


def check_selection(ctx):
    """Codes 'id-n' are the first n merges of the shortest list that has n of them."""
    r = ctx.r
    codes = scen.list_codes(ctx.ex.W.fs)
    choices = [c for d, c in sorted(codes.items()) if c['id'] and c['sets'] and max(c['sets']) > 0]
    # an id the user gave twice himself, even if nothing was learned for one of the two yet, is ambiguous
    ids = [c['id'] for c in codes.values()]
    choices = [c for c in choices if ids.count(c['id']) == 1]
    if not choices:
        return
    c = r.choice(choices)
    n = r.randint(1, max(c['sets']))
    calls = [{'c': 'merges', 'id': '%s-%d' % (c['id'], n)}]
    for _ in range(r.randint(0, 2)):
        ns = sorted(c['sets'])
        k = r.choice([n, r.choice([x for x in ns if x]), r.randint(1, max(ns))])
        words = [''.join(r.sample(gen.WORDS, r.randint(1, 3))) for _ in range(6)]
        t = r.choice([gen.snippet(r, r.randint(2, 8)), ' '.join(words), ' '.join(gen.WORDS)])
        calls.append({'c': 'text', 'fn': 'bpe', 'text': t, 'opts': {'bpe_codes_id': '%s-%d' % (c['id'], k)}, 'ext': 'java'})
    ctx.run(ctx.step(calls, judge=['selection']))


# ------------------------------------------------------------------ C13, C14

def c13(ctx):
    r = ctx.r
    k = r.random()
    if k < 0.55:
        call = vocab_scene(ctx)
        vocab_ready(ctx, call)
    elif k < 0.8:
        call = one_command(ctx, vocab=0.5)
    else:
        path, ops, ents = learn_corpus(ctx)
        ctx.begin(gen.knobs(r), ops + [['advance', 5]])
        call = learn_call(ctx, path, ents, judge=False)
    dry = dry_run(ctx, call)

    def fault(t):
        x = r.random()
        if x < 0.15:
            return ctx.crash_fault(t)
        if x < 0.3:
            return ctx.kbi_fault(t)
        if x < 0.36:
            # no new process, for once or for the rest of the run
            at = ctx.pick_op(t, lambda k, p: k == 'fork')
            if at is not None:
                return dict({'kind': 'enomem', 'at': at}, **({'lasts': 'path'} if r.random() < 0.7 else {}))
        return ctx.errno_fault(t) if x < 0.85 else ctx.stall_fault(t)
    retries(ctx, call, dry, fault, m=6, more=0.1)


def c14(ctx):
    r = ctx.r
    k = r.random()
    if k < 0.5:
        path, ents = base(ctx, nmax=5)
        call = corpus_call(ctx, path, ents, vocab=0.2, out=r.choice([OUT, None, '/sim/mnt/o']))
        if r.random() < 0.3:
            p, e = relative(ctx, path)
            ctx.run(ctx.step([dict(corpus_call(ctx, p, e, vocab=0.2, out=call['out']), fn=call['fn'], opts=call['opts'])]))
        if r.random() < 0.5:
            other = corpus_call(ctx, path, ents, vocab=0.2, out=call['out'])
            ctx.run(ctx.step([other]))
            ctx.ex.edit('advance', 2)
        if r.random() < 0.35:
            # output that will have to be archived
            ctx.run(ctx.step([call]))
            ctx.ex.edit('advance', r.choice([1.05, 2, 50]))
            tamper(ctx)
            if r.random() < 0.5:
                ctx.ex.outputs.clear()      # whatever was changed now belongs to the next run
        elif ents is not None and r.random() < 0.2:
            ctx.run(ctx.step([call]))
            ctx.ex.edit('advance', r.choice([1.05, 2, 50]))
            change_corpus(ctx, path)
        plant_bystanders(ctx)
    elif k < 0.75:
        call = vocab_scene(ctx)
        plant_bystanders(ctx)
    else:
        path, ops, ents = learn_corpus(ctx)
        ctx.begin(gen.knobs(r), ops + [['advance', 5]])
        call = learn_call(ctx, path, ents, judge=False)
        plant_bystanders(ctx)
    dry = dry_run(ctx, call)
    retries(ctx, call, dry, lambda t: any_fault(ctx, t), m=5)


BY = ['/sim/out/readme.txt', '/sim/out/other/x.java.prep', '/sim/work/notes', '/sim/home/.bashrc', '/sim/home/.cache/other/file',
      '/sim/home/.config/codeprep/own.cfg', '/sim/vout/own.txt', '/sim/src/neighbour/a.java', '/sim/home/tmp/t',
      '/sim/home/.cache/codeprep/1.0.5/note', '/sim/mnt/o/mine']
BY_DIRS = ['/sim/out', '/sim/out', '/sim/work', '/sim/mnt/o', '/sim/vout', '/sim/vout/part_vocab_of_mine', '/sim/home', '/sim/src', '/sim',
           '/sim/out/mine', '/sim/out/mine_-_prep', '/sim/home/tmp', '/sim/home/.cache', '/sim/home/.config',
           '/sim/home/.cache/codeprep', '/sim/home/.config/codeprep', '/sim/out/a/b/c']
BY_NAMES = ['download.zip.part', 'x.tmp', 'x.java.prep', 'y.java.prep.part', '.mine.lastmodif', 'vocab', 'vocabsize', 'ready', 'merges.txt',
            'filelist', '.hidden', 'archived', 'proj.archived.20-01-01T00-00-00', 'proj', 'tmp', 'part_vocab', '1_1_1', 'a.parsed', '.part', '.prep',
            '0', 'x.lastmodif', 'z~', '.name', 'prep']


def plant_bystanders(ctx):
    r = ctx.r
    ex = ctx.ex
    for i in range(r.randint(1, 8)):
        if r.random() < 0.4:
            p = r.choice(BY)
        else:
            p = r.choice(BY_DIRS) + '/' + r.choice(BY_NAMES)
            if p.startswith(('/sim/vout/vocab', '/sim/vout/ready', '/sim/vout/part_vocab/', '/sim/home/tmp/tmp')) or p == '/sim/vout/part_vocab':
                continue        # names the vocabulary directory itself uses
        b = p.encode()
        if any(b == s or b.startswith(s + b'/') for s in ex.outputs) or ex.W.fs.exists(b):
            continue
        d = p.rpartition('/')[0]
        while d != '/sim' and not ex.W.fs.exists(d.encode()):
            d = d.rpartition('/')[0]
        if ex.W.fs.lookup(d.encode()).kind != 'd':
            continue
        ex.edit('plant', p, r.choice(['mine', '', 'x' * 300, 'a 1\n']))


# ------------------------------------------------------------------ C15

def tamper(ctx, d=None):
    """Changes something in an existing output directory; returns the directory or None."""
    r = ctx.r
    ex = ctx.ex
    fs = ex.W.fs
    outs = sorted(ex.outputs)
    if not outs:
        return None
    d = d or r.choice(outs)
    t = fs.tree(d)
    files = sorted(k for k, v in t.items() if v[0] == 'f')
    dirs = sorted(k for k, v in t.items() if v[0] == 'd')
    D = scen.dec(d)
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(['edit', 'trunc', 'add', 'rm', 'rmdir', 'rmall', 'mv', 'empty', 'adddir'])
        try:
            if k == 'edit' and files:
                ex.edit('put', D + '/' + scen.dec(r.choice(files)), 'tampered <EOF>\n')
            elif k == 'trunc' and files:
                ex.edit('put', D + '/' + scen.dec(r.choice(files)), '')
            elif k == 'add':
                b = r.choice([b''] + dirs)
                ex.edit('put', D + '/' + (scen.dec(b) + '/' if b else '') +
                        r.choice(['extra.java.prep', 'extra.java.prep', 'x.java.prep.part', 'x.part', '.hidden', 'x.tmp', 'notes.txt', 'vocab',
                                  '.mine.lastmodif', 'x.java.prep~', '__init__.py']), 'extra <EOF>\n')
            elif k == 'adddir':
                ex.edit('mkdir', D + '/' + r.choice(['newdir', 'newdir', '__pycache__', '.git', 'x.prep', 'p.part']))
            elif k == 'rm' and files:
                ex.edit('rm', D + '/' + scen.dec(r.choice(files)))
            elif k == 'rmdir' and dirs:
                ex.edit('rm', D + '/' + scen.dec(r.choice(dirs)))
            elif k == 'mv' and files:
                ex.edit('mv', D + '/' + scen.dec(r.choice(files)), D + '/moved.java.prep')
            elif k == 'rmall':
                ex.edit('rm', D)
            elif k == 'empty':
                for n in list(fs.lookup(d).entries):
                    ex.edit('rm', D + '/' + scen.dec(n))
        except OSError:
            pass
        t = fs.tree(d)
        files = sorted(k for k, v in t.items() if v[0] == 'f')
        dirs = sorted(k for k, v in t.items() if v[0] == 'd')
    return d


def c15(ctx):
    r = ctx.r
    path, ops, ents = new_corpus(ctx, nmax=4)
    out = r.choice([OUT, OUT, '/sim/mnt/o', None])
    if r.random() < 0.4:
        ops = ops + [['dev', '/sim/mnt', 77]]
        out = '/sim/mnt/o'
    ctx.begin(gen.knobs(r), ops + [['advance', r.choice([2, 5000])]])
    call = corpus_call(ctx, path, ents, out=out, vocab=0.1)
    calls = [call]
    if r.random() < 0.3:
        calls.append(dict(call, out='/sim/out9'))
    for c in calls:
        ctx.run(ctx.step([c]))
    for _ in range(r.randint(1, 3)):
        if len(ctx.ex.outputs) and r.random() < 0.3:
            pause(ctx, scen.dec(sorted(ctx.ex.outputs)[0]))
        else:
            ctx.ex.edit('advance', r.choice([1.05, 2, 70]))
        if len(calls) > 1 and r.random() < 0.5:
            # all of them at the same time
            for d in sorted(ctx.ex.outputs):
                tamper(ctx, d)
        else:
            for _ in range(r.choice([1, 1, 2])):
                tamper(ctx)
        if r.random() < 0.3:
            ctx.ex.edit('advance', r.choice([0.3, 2]))
        for c in calls:
            ctx.run(ctx.step([c], knobs={'cpus': r.randint(1, 4)}, judge=['archive']))
        if r.random() < 0.25:
            # all in one process
            c = r.choice(calls)
            ctx.run(ctx.step([c, later(ctx, tamper), c]))


# ------------------------------------------------------------------ C16

def c16(ctx):
    r = ctx.r
    path, ents = base(ctx, nmax=6)
    call = corpus_call(ctx, path, ents, via='api')
    call['size'] = r.choice([1, 1, 2])
    if r.random() < 0.3:
        call['vocab'] = True
    if r.random() < 0.5:
        ctx.run(ctx.step([{k: v for k, v in call.items() if k != 'size'}]))
    if r.random() < 0.35:
        # the same corpus in another form was counted before
        for _ in range(r.choice([1, 1, 2])):
            other = corpus_call(ctx, path, ents, via='api', out=r.choice([OUT, OUT, '/sim/out2']))
            if r.random() < 0.3:
                other = dict(call, ext=twist_exts(r, call['ext']), out=other['out'])
            elif r.random() < 0.2:
                other = dict(call, out='/sim/out2')
            other['size'] = 1
            ctx.run(ctx.step([other, call] if r.random() < 0.5 else [other]))
            if r.random() < 0.3:
                ctx.ex.edit('advance', r.choice([0.5, 2]))
    if r.random() < 0.35:
        snap = ctx.ex.snapshot()
        for _ in range(5):
            ctx.ex.restore(snap)
            kn = {k: v for k, v in gen.knobs(r).items() if k in ('cpus', 'rbufsize', 'platform', 'pipe_cap')}
            ctx.run(ctx.step([call], knobs=kn))
            ctx.run(ctx.step([call], knobs=kn))
        return
    dry = dry_run(ctx, call)
    cut = 0
    if r.random() < 0.6:
        for i, (tid, kind, p) in enumerate(dry):
            if 'corpus_sizes' in scen.dec(p) and kind != 'mkdir':
                cut = max(0, i - r.choice([3, 15, 60]))
    sub = Trace(dry[cut:])

    def fault(t):
        x = r.random()
        f = ctx.crash_fault(sub) if x < 0.5 else ctx.kbi_fault(sub) if x < 0.65 else ctx.errno_fault(sub)
        return None if f is None else dict(f, at=f['at'] + cut)
    retries(ctx, call, dry, fault, m=6)
    if r.random() < 0.3 and ents is not None:
        ctx.ex.edit('advance', 2)
        change_corpus(ctx, path)
        corpus_ok(ctx, path)
        ctx.run(ctx.step([call]))


# ------------------------------------------------------------------ C17

TEXTS = ['int fooBar = parse2Json(naïveCase);', 'public class ABCTest { String s = "hello World"; }', 'def my_fn(x): return x + 0x1F',
         'test_WordUeberraschungPrinter', '', '\n', '// comment here\nint i1;', 'данные = 変数', 'getHTTPServer2x __init__ <EOF>',
         'aaaaaaaa abababab MY_CONST', 'x\ty\n\nz', '@ @@ \\@ a@b']


def text_call(ctx, codes=(), texts=TEXTS, bpe=False):
    r = ctx.r
    fn = 'bpe' if bpe else r.choice(['nosplit', 'chars', 'basic', 'basic', 'bpe', 'bpe', 'bpe', 'bpe'])
    o = {}
    for k in ('no_spaces', 'no_unicode', 'no_com', 'no_str'):
        if r.random() < 0.15:
            o[k] = True
    if fn == 'basic' and r.random() < 0.4:
        o['split_numbers'] = True
    if fn == 'basic' and r.random() < 0.3:
        o['no_case'] = True
    if fn == 'bpe':
        o['bpe_codes_id'] = r.choice(list(codes)) if bpe and codes else r.choice(['1k', '1k', '5k', '10k'] + list(codes) * 3)
    t = r.choice(texts) if r.random() < (0.7 if texts is TEXTS else 0.95) else gen.snippet(r, r.randint(1, 8))
    return {'c': 'text', 'fn': fn, 'text': t, 'opts': o, 'ext': r.choice(['java', 'java', 'py', None]), 'meta': r.random() < 0.4}


def session(ctx, *corpora):
    """Trainings, and texts encoded with the codes learned so far or not yet, in one process."""
    r = ctx.r
    calls = []
    words = ''.join(r.sample(gen.WORDS, 3)) + ' ' + ' '.join(r.sample(gen.WORDS, 6))
    texts = [words, r.choice(TEXTS)]
    if r.random() < 0.5:
        exchanged(ctx, texts, *corpora)
        return
    ns = r.sample([2, 4, 7, 12, 30], r.randint(2, 3))
    names = sorted({p.rpartition('/')[2] for p, e in corpora})
    ids = ['%s%s-%d' % (nm, x, n + d) for nm in names for x in ('', '', '_1') for n in ns for d in (0, 0, -1)]
    for n in ns:
        p, e = r.choice(corpora)
        for _ in range(r.randint(0, 2)):
            calls.append(text_call(ctx, ids, texts, bpe=True))
        again = [c for c in calls if c['c'] == 'text']
        calls.append(learn_call(ctx, p, e, n=n, ext=None, id=None, no_unicode=r.random() < 0.2, judge=False, lazy=True))
        calls += r.sample(again, min(len(again), 2))
        calls.append(text_call(ctx, ids, texts, bpe=True))
    again = [c for c in calls if c['c'] == 'text']
    if r.random() < 0.7:
        # other codes take the place of those which have been used
        for _ in range(r.randint(1, 3)):
            calls += r.sample(again, min(len(again), 2))
            calls.append({'c': 'edit', 'edits': [['codes', r.choice(['swap', 'swap', 'rm']), r.random()]]})
            if r.random() < 0.4:
                p, e = r.choice(corpora)
                calls.append(learn_call(ctx, p, e, n=r.choice(ns), ext=None, id=None, no_unicode=False, judge=False, lazy=True, loose=True))
        calls += again[-6:]
    ctx.run(ctx.step(calls, judge=['session']))


def exchanged(ctx, texts, *corpora):
    """Codes which have been used are put in the place of each other, thrown away and learned again."""
    r = ctx.r
    ns = r.sample([4, 7, 12, 30], r.randint(1, 2))
    calls = []
    ids = []
    names = set()
    for p, e in corpora:
        nm = p.rpartition('/')[2]
        nm += '_1' if nm in names else ''
        names.add(nm)
        for n in sorted(ns):
            calls.append(learn_call(ctx, p, e, n=n, ext=None, id=None, no_unicode=False, judge=False, lazy=True, loose=True))
            ids.append('%s-%d' % (nm, n))
            if r.random() < 0.3:
                ids.append('%s-%d' % (nm, n - 1))
    learns = list(calls)
    texts = [text_call(ctx, [i], texts, bpe=True) for i in ids for _ in range(r.choice([1, 1, 2]))]
    for _ in range(r.randint(2, 5)):
        r.shuffle(texts)
        calls += texts
        x = r.random()
        if x < 0.6:
            calls.append({'c': 'edit', 'edits': [['codes', r.choice(['swap', 'swap', 'rm']), r.random()]]})
        if x > 0.5:
            calls.append(r.choice(learns))
    calls += texts
    ctx.run(ctx.step(calls, judge=['session']))


def c17(ctx):
    r = ctx.r
    path, ops, ents = learn_corpus(ctx, name='proj', nmax=3, exotic=0.0, depth=1)
    path2, ops2, ents2 = learn_corpus(ctx, name=r.choice(['proj', 'other']), nmax=3, exotic=0.0, depth=1, parent=S + '/2')
    ctx.begin(gen.knobs(r), ops + [['advance', 2]] + ops2 + [['advance', 5]])
    if r.random() < 0.15:
        session(ctx, (path, ents), (path2, ents2))
        return
    codes = []
    few = r.random() < 0.6
    if r.random() < (0.9 if few else 0.5):
        ns = sorted(r.sample([2, 4, 7, 12, 30], r.randint(1, 2)))
        for n in ns:
            ctx.run(ctx.step([learn_call(ctx, path, ents, n=n, ext=None, id=None, no_unicode=False, judge=False, lazy=True)]))
        if r.random() < (0.9 if few else 0.4):
            # a second set, often with lists of the same length
            n = r.choice(ns + ns + [3])
            p, e, u = r.choice([(path2, ents2, False), (path2, ents2, False), (path2, ents2, True), (path, ents, True)])
            ctx.run(ctx.step([learn_call(ctx, p, e, n=n, ext=None, id=None, no_unicode=u, judge=False, lazy=True)]))
        for d, c in sorted(scen.list_codes(ctx.ex.W.fs).items()):
            if c['id'] and c['sets'] and max(c['sets']) > 0:
                m = max(c['sets'])
                codes += ['%s-%d' % (c['id'], x) for x in sorted(c['sets']) if x]
                codes.append('%s-%d' % (c['id'], r.randint(1, max(1, m))))
    calls = []
    texts = TEXTS
    # few texts: the same words meet different codes and options
    if few:
        if r.random() < 0.6:
            twins = [(a, b) for a in codes for b in codes if a < b and a.rsplit('-', 1)[1] == b.rsplit('-', 1)[1]]
            codes = list(r.choice(twins)) if twins else codes
        # words made of several ones are mostly not in the files of merged words that come with the codes
        words = [''.join(r.sample(gen.WORDS, r.randint(1, 3))) for _ in range(6)]
        texts = [r.choice([r.choice(TEXTS), gen.snippet(r, r.randint(2, 6)), ' '.join(words), ' = '.join(words)])
                 for _ in range(r.randint(1, 2))]
    for _ in range(r.randint(3, 8) if few else r.randint(2, 7)):
        if r.random() < (0.08 if few else 0.15):
            c = corpus_call(ctx, path, ents, via='api', bpe=0.6, nocache=0.0)
            c['ext'] = None
            calls.append(c)
        else:
            calls.append(text_call(ctx, codes, texts, bpe=few and r.random() < 0.9))
        if r.random() < 0.35 and calls[-1]['c'] == 'text' and calls[-1]['fn'] == 'bpe':
            # the same again, reusing what is loaded
            c = dict(calls[-1], opts=dict(calls[-1]['opts'], force_reinit_bpe_data=False))
            if r.random() < 0.5:
                c['text'] = r.choice(TEXTS)
            calls.append(c)
    if len(set(codes)) > 1 and r.random() < 0.4:
        # other codes, whose loading may fail, and then 'what is loaded'
        a, b = r.sample(sorted(set(codes)), 2)
        t = text_call(ctx, [a], texts, bpe=True)
        u = dict(t, opts=dict(t['opts'], bpe_codes_id=b))
        at = r.randint(0, len(calls))
        calls[at:at] = [t, u, dict(u, opts=dict(u['opts'], force_reinit_bpe_data=False))]
    procs = [{'calls': calls, 'survive_kbi': True}]
    snap = ctx.ex.snapshot()
    st = {'procs': procs, 'seed': ctx.newseed(), 'judge': ['texts']}
    res = ctx.run(st)
    trace = Trace(res.k.trace)
    for _ in range(6):
        ctx.ex.restore(snap)
        fs = []
        for _ in range(r.choice([1, 1, 2])):
            f = ctx.kbi_fault(trace) if r.random() < 0.35 else ctx.errno_fault(trace, lasting=False)
            if f is not None and r.random() < 0.3:
                at = ctx.pick_op(trace, lambda k, p: k in ('open', 'read') and scen.dec(p).endswith(('/merges.txt', '/nonbpe_vocab')))
                if at is not None:
                    f = {'kind': r.choice(['kbi', 'eio', 'enomem']), 'at': at}
                    if not (f['kind'] == 'kbi' or kernel.errno_applies(f['kind'], trace[at][1])):
                        f['kind'] = 'kbi'
            if f is not None and f['kind'] != 'full':
                fs.append(f)
        if fs:
            ctx.run(dict(st, faults=fs))


# ------------------------------------------------------------------ C19

def c19(ctx):
    r = ctx.r
    n = r.choice([2, 2, 2, 3])
    ops = []
    corp = []
    if r.random() < 0.25:
        # equally named corpora; what tells them apart is when they were last modified
        names = [r.choice(['proj', 'a', 'x_1'])] * n
    else:
        names = r.sample(['proj', 'other', 'third', 'a', 'proj_1', 'x.java'], n)
    same = len(set(names)) == 1
    for i, nm in enumerate(names):
        p, o, e = new_corpus(ctx, name=nm, nmax=3, single=0.0 if same else 0.05, exotic=0.03, depth=1,
                             parent='%s/%d' % (S, i) if same else S)
        corp.append((p, e))
        ops += o
        if same:
            ops += [['advance', r.choice([1.2, 30, 4000])]]
    ctx.begin(gen.knobs(r, cpus=r.randint(1, 2)), ops + [['advance', 5]])
    procs = []
    learning = 0
    for p, e in corp:
        if r.random() < 0.25 and e is not None and not (same and learning):
            learning += 1
            procs.append({'calls': [learn_call(ctx, p, e, n=r.choice([1, 3, 6]), id=None)]})
        else:
            c = corpus_call(ctx, p, e, out=r.choice([OUT, OUT, '/sim/out2', None]), vocab=0.3, bpe=0.1)
            if procs and r.random() < 0.3 and procs[-1]['calls'][0]['c'] == 'corpus':
                # as alike as they can be
                c = dict(procs[-1]['calls'][0], path=p)
            calls = [c]
            if c.get('via') != 'cli' and r.random() < 0.25:
                c['size'] = 1
            if r.random() < 0.15:
                calls.append(dict(c, opts=dict(c['opts'], no_spaces=not c['opts'].get('no_spaces'))))
            procs.append({'calls': calls})
    snap = ctx.ex.snapshot()
    first = None
    for m in range(5):
        ctx.ex.restore(snap)
        st = {'procs': procs, 'seed': ctx.newseed(), 'judge': ['registry']}
        res = ctx.run(st)
        if first is None:
            first = Trace(res.k.trace), st['seed']
        if r.random() < 0.3:
            ctx.ex.edit('advance', 2)
            ctx.run({'procs': procs, 'seed': ctx.newseed(), 'judge': ['registry']})
        if r.random() < 0.4:
            # one of them is hit by a fault: the others must not notice, and it must recover
            ctx.ex.restore(snap)
            f = any_fault(ctx, first[0])
            if f is not None:
                f.pop('lasts', None)
            if f is not None and f['kind'] in ('crash', 'torn'):
                f = {'kind': 'killcommand', 'at': f['at']}
            if f is not None:
                ctx.run({'procs': procs, 'seed': first[1], 'faults': [f], 'judge': ['registry', 'alone']})
                ctx.ex.edit('advance', r.choice([0.3, 3]))
                ctx.run({'procs': procs, 'seed': ctx.newseed(), 'judge': ['registry']})


CASES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
         'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18,
         'C19': c19}

RESULT = {'output', 'status', 'vocab', 'size', 'codes', 'nonbpe', 'hang'}
CLASSES = {
    'C01': {'output', 'status', 'hang'},
    'C02': {'output', 'status', 'hang'},
    'C03': {'output', 'status', 'hang'},
    'C04': {'atomic'},
    'C05': {'output', 'status', 'foreign', 'hang', 'vocab'},
    'C06': {'output', 'status', 'hang'},
    'C07': {'rework', 'status'},
    'C08': {'vocab', 'status', 'hang', 'output'},
    'C09': {'vocab', 'status', 'hang', 'output'},
    'C10': {'vocab', 'status', 'output'},
    'C11': {'codes', 'merges', 'status', 'hang', 'output'},
    'C12': {'ids', 'merges', 'status'},
    'C13': {'hang'},
    'C14': {'source', 'outside', 'foreign'},
    'C15': {'output', 'status', 'archive', 'hang'},
    'C16': {'size', 'status', 'hang'},
    'C17': {'text', 'output', 'status', 'hang'},
    'C18': {'nonbpe', 'status', 'hang'},
    'C19': {'output', 'status', 'vocab', 'codes', 'nonbpe', 'hang', 'size', 'ids'},
}


def run_case(W, prop, seed, index, deadline=None, clock=None, stats=None, samples=None, log=None):
    """Returns None or {'viols', 'scenario'}."""
    ctx = Ctx(W, prop, seed, index, deadline, clock, stats)
    ctx.samples = samples
    ctx.log = log
    ctx.stats['cases'] += 1
    try:
        CASES[prop](ctx)
    except Found as f:
        return {'viols': [(v.cls, v.text) for v in f.viols], 'scenario': f.scenario}
    except scen.Discard as e:
        d = ctx.stats['discards']
        k = str(e)[:80]
        d[k] = d.get(k, 0) + 1
    return None
