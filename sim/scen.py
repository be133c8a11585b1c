"""Executes scenarios (plain data) against the code under test and judges every step.

A scenario is {'seed', 'knobs', 'setup': [...], 'steps': [...]}; everything in it is JSON.
Paths are text (surrogateescape), file contents are text standing for latin-1 bytes.
"""
import copy
import gzip
import os
import pickle
import re
import time
import zlib

from . import kernel, model

CACHE = b'/sim/home/.cache/'
CONFIG = b'/sim/home/.config/'
TMP = b'/sim/home/tmp/'
FINAL = (b'.prep', b'.parsed')


class Discard(Exception):
    """The scenario is outside of what the properties promise (not a verdict)."""


def enc(p):
    return p if isinstance(p, bytes) else p.encode('utf-8', 'surrogateescape')


def dec(p):
    return p if isinstance(p, str) else p.decode('utf-8', 'surrogateescape')


def fullpath(path, cwd):
    p = enc(path)
    if not p.startswith(b'/'):
        p = enc(cwd) + b'/' + p
    return os.path.normpath(p)


def text_of(data):
    return data.decode('latin-1')


def bytes_of(s):
    return s.encode('latin-1')


class Viol(object):
    def __init__(self, cls, text, step):
        self.cls = cls
        self.text = text
        self.step = step

    def __repr__(self):
        return '%s @step %s: %s' % (self.cls, self.step, self.text)


def prep_key(call):
    cfg, codes = model.prep_config(call['fn'], call['opts'])
    ext = call.get('ext')
    ext = '|'.join(sorted(set(ext.split('|')))) if ext else ''
    return (call['path'], str(cfg), codes or '', ext, call.get('out') or '')


class Expect(object):
    """What one corpus call must produce, from the corpus as it is when the run starts."""

    def __init__(self, ex, call, lazy=False, cwd=None):
        self.call = call
        p = fullpath(call['path'], cwd or ex.W.knobs.get('cwd', '/sim/work'))
        if not ex.W.fs.exists(p):
            raise Discard('there is no corpus')
        self.sources = model.walk_files(ex.W.fs, p, call.get('ext'))
        self.ex = ex
        self.alts = {}
        if not lazy:
            self.outputs()

    def alt(self, rel):
        a = self.alts.get(rel)
        if a is None:
            if kernel.K is not None:
                raise kernel.HarnessError('the model would run inside the simulation')
            try:
                a = self.ex.model_outputs(self.call, self.sources[rel], rel)
            except model.Untestable as e:
                raise Discard('untestable content: %s' % e)
            self.alts[rel] = a
        return a

    def outputs(self):
        return {rel: self.alt(rel) for rel in self.sources}

    def check_tree(self, tree, optional=()):
        """None or a description of how `tree` ({rel: ('f', data)..}) differs from what is expected."""
        have = {k: v[1] for k, v in tree.items() if v[0] == 'f'}
        other = [k for k, v in tree.items() if v[0] == 'l']
        if other:
            return 'symbolic link in the output: %r' % other[0]
        for rel in sorted(self.sources):
            name = rel + b'.prep'
            if name not in have:
                if rel in optional:
                    continue
                return 'no output file for %r' % dec(rel)
            if have[name] not in self.alt(rel):
                return 'wrong output for %r: got %r, expected %r' % (dec(rel), have[name][:300], self.alt(rel)[0][:300])
        extra = sorted(set(have) - {r + b'.prep' for r in self.sources})
        if extra:
            return 'unexpected file in the output: %r' % dec(extra[0])
        return None


class Executor(object):
    def __init__(self, W, seed, knobs, setup):
        self.W = W
        W.reset(seed, knobs)
        self.scenario = {'seed': seed, 'knobs': knobs, 'setup': setup, 'steps': []}
        for e in setup:
            self.apply(e)
        self.viol = []
        self.outputs = {}       # output directory -> (key, tree) of successful calls
        self.state = {}         # what the judges of a property remember between steps

    # ------------------------------------------------------------ state
    def snapshot(self):
        return (self.W.snapshot(), list(self.scenario['steps']), dict(self.outputs), copy.deepcopy(self.state))

    def restore(self, s):
        self.W.restore(s[0])
        self.scenario['steps'] = list(s[1])
        self.outputs = dict(s[2])
        self.state = copy.deepcopy(s[3])

    def violate(self, cls, text):
        self.viol.append(Viol(cls, text, len(self.scenario['steps']) - 1))

    # ------------------------------------------------------------ harness file operations
    def apply(self, e):
        fs = self.W.fs
        op = e[0]
        if op == 'put':
            fs.put(enc(e[1]), bytes_of(e[2]))
        elif op == 'plant':
            # a file of somebody else, which every run has to leave alone
            fs.put(enc(e[1]), bytes_of(e[2]))
            self.state.setdefault('planted', {})[e[1]] = e[2]
        elif op == 'mkdir':
            fs.mkdirs(enc(e[1]))
        elif op == 'ln':
            fs.mkdirs(enc(e[1]).rpartition(b'/')[0])
            fs.create(enc(e[1]), 'l', 0o777, enc(e[2]))
        elif op == 'rm':
            fs.remove_tree(enc(e[1]))
        elif op == 'mv':
            fs.rename(enc(e[1]), enc(e[2]))
        elif op == 'advance':
            self.W.advance(e[1])
        elif op == 'dev':
            fs.mkdirs(enc(e[1]), dev=e[2])
        elif op == 'align':
            # until the clock shows the same as the newest time below the path, but e.g. hours later
            if not fs.exists(enc(e[1])):
                return
            top = fs.lookup(enc(e[1]))
            n = top.mtime
            if top.kind == 'd':
                n = max([n] + [fs.lookup(enc(e[1]) + b'/' + k, False).mtime for k in fs.tree(enc(e[1])) if k])
            step = int(e[2] * 10**9)
            while n < fs.now() + 1050000000:
                n += step
            self.W.clock += n - fs.now()
        elif op == 'fold':
            # until the hour that, at the end of summer time, is going to be repeated
            now = self.W.clock // 10**9
            for h in range(now - now % 1800, now + 400 * 86400, 1800):
                if time.localtime(h).tm_isdst and not time.localtime(h + 1800).tm_isdst:
                    back = 1800 if time.localtime(h + 1800)[3:5] == time.localtime(h)[3:5] else 3600
                    self.W.advance(max(0, h + 1800 - int(e[1] * back) - now))
                    break
        elif op == 'ages':
            # the times an archive or another machine left on the files
            now = fs.now()
            top = fs.lookup(enc(e[1]))
            todo = [(top, b'')]
            while todo:
                n, rel = todo.pop()
                x = zlib.crc32(rel)
                n.mtime = {'old': now - 10**9 * (86400 + x % 10**8),
                           'epoch': 10**9 * (x % 3),
                           'mixed': now - 10**9 * (x % 4000),
                           'ahead': now + 10**9 * (20000 + x % 4000),
                           'farahead': now + 10**9 * (x % 10**9)}[e[2]]
                if n.kind == 'd':
                    todo += [(c, rel + b'/' + k) for k, c in n.entries.items()]
        elif op == 'codes':
            # the user installs other codes in the place of some, or throws some away
            dirs = [c['path'] for d, c in sorted(list_codes(fs).items()) if c['sets']]
            if e[1] == 'swap' and len(dirs) > 1:
                i = int(e[2] * len(dirs))
                a, b = dirs[i], dirs[i - 1]
                fs.rename(a, a + b'~')
                fs.rename(b, a)
                fs.rename(a + b'~', b)
            elif e[1] == 'rm' and dirs:
                fs.remove_tree(dirs[int(e[2] * len(dirs))])
        else:
            raise kernel.HarnessError('unknown edit %r' % (e,))

    def edit(self, *e):
        e = list(e)
        self.scenario['steps'].append(e)
        if e[0] not in ('advance', 'plant', 'align'):
            self.state.pop('repeat', None)
        self.apply(e)

    # ------------------------------------------------------------ the model side
    def model_outputs(self, call, data, rel):
        opts = dict(call['opts'])
        extra = None
        if call['fn'] == 'bpe' and opts['bpe_codes_id'] not in ('1k', '5k', '10k'):
            extra = self.codes_fingerprint()
        return model.expected_outputs(call['fn'], opts, data, rel, extra, self.model_tokens)

    def model_tokens(self, fn, opts, text, ext):
        a = (fn, opts, text, ext)
        if fn == 'bpe' and opts['bpe_codes_id'] not in ('1k', '5k', '10k'):
            # reads the learned codes: an undisturbed simulated run on the same disk
            W = self.W
            snap = W.snapshot()
            out = []
            try:
                res = W.run([('ref', lambda: out.append(model.text_tokens(*a)))], 5)
            finally:
                W.restore(snap)
            if res.status != 'ok' or not out:
                raise model.Untestable('reference: %s' % res.outcomes[0])
            return out[0]
        self.W.memory.load_image(self.W.memory.fresh_image())
        try:
            return model.text_tokens(*a)
        finally:
            self.W.memory.load_image(self.W.memory.fresh_image())

    def codes_fingerprint(self):
        import hashlib
        h = hashlib.sha1()
        for k, v in sorted(self.W.fs.tree(CONFIG[:-1]).items()):
            if v[0] == 'f' and b'vocab' not in k.rpartition(b'/')[2][:5]:
                h.update(k + b'\0' + v[1] + b'\0')
            elif v[0] == 'f' and k.endswith(b'nonbpe_vocab'):
                h.update(k + b'\0' + v[1] + b'\0')
        return h.hexdigest()

    # ------------------------------------------------------------ runs
    def run(self, step):
        """Execute one run step and judge it.  Returns the RunResult with .calls (records per call)."""
        self.scenario['steps'].append(step)
        W = self.W
        procs = step['procs']
        from .judges import JUDGES
        pending = [(JUDGES[j], JUDGES[j][0](self, step)) for j in step.get('judge', ())]
        ctx = RunCtx(self, step)
        mains = []
        for i, p in enumerate(procs):
            mains.append((p.get('name', 'P%d' % i), ctx.main(i, p)))
        faults = []
        for f in step.get('faults', ()):
            if f['kind'] == 'hook':
                f = dict(f, fn=self.make_hook(f, ctx))
            faults.append(f)
        res = W.run(mains, step['seed'], faults=faults, overrides=step_overrides(step), listeners=[ctx.listen],
                    max_ops=step.get('max_ops', 400000), knobs=step.get('knobs'))
        res.calls = ctx.calls
        res.ctx = ctx
        self.last = res
        ctx.judge(res)
        for j, st in pending:
            j[1](self, step, res, st)
        for p, data in sorted(self.state.get('planted', {}).items()):
            try:
                d = W.fs.get(enc(p))
            except OSError:
                d = None
            if d != bytes_of(data):
                self.violate('outside', 'file %r of somebody else was changed or removed' % p)
        return res

    def make_hook(self, f, ctx):
        def go(k):
            ctx.quiet += 1
            try:
                for e in f['edits']:
                    try:
                        self.apply(e)
                    except OSError:
                        pass
                    if e[0] == 'rm':
                        ctx.vanished.add(enc(e[1]))
            finally:
                ctx.quiet -= 1
        return go


def step_overrides(step):
    o = step.get('overrides')
    if o is None:
        return None
    return {int(k): v for k, v in o.items()}


# ------------------------------------------------------------------ calls (run inside the simulation)

def cli_args(call):
    o = call['opts']
    a = [call['fn']]
    if call['fn'] == 'bpe':
        a.append(o['bpe_codes_id'])
    a += ['-p', call['path']]
    if call.get('out'):
        a += ['-o', call['out']]
    if call.get('ext'):
        a += ['-e', call['ext']]
    for k, flag in (('no_spaces', '--no-spaces'), ('no_unicode', '--no-unicode'), ('no_com', '--no-com'),
                    ('no_str', '--no-str'), ('no_case', '--no-case'), ('split_numbers', '-n'),
                    ('full_strings', '--full-strings')):
        if o.get(k):
            a.append(flag)
    if 'max_str_length' in o:
        a += ['--max-str-length=%d' % o['max_str_length']]
    if call.get('vocab'):
        a.append('--calc-vocab')
    if call.get('verbose'):
        a.append('-v')
    return a


def do_corpus(call, rec):
    if call.get('via') == 'cli':
        from codeprep.cli.spec import parse_and_run
        parse_and_run(cli_args(call))
        rec['cli'] = True
        return
    import codeprep.api.corpus as C
    kw = dict(call['opts'])
    args = []
    if call['fn'] == 'bpe':
        args.append(kw.pop('bpe_codes_id'))
    if call.get('ext'):
        kw['extensions'] = call['ext']
    if call.get('out'):
        kw['output_path'] = call['out']
    if call.get('vocab'):
        kw['calc_vocab'] = True
    if call.get('nocache'):
        kw['suppress_caching'] = True
    c = getattr(C, call['fn'])(call['path'], *args, **kw)
    rec['prep_path'] = c.path_to_prep_dataset
    rec['vocab_path'] = c.path_to_vocab
    if call.get('vocab') and call.get('load'):
        rec['loaded_vocab'] = dict(c.load_vocab())
    sizes = []
    for _ in range(call.get('size', 0)):
        sizes.append(c.get_corpus_size())
        rec['sizes'] = sizes


def do_learn(call, rec):
    from codeprep.cli.spec import parse_and_run
    a = ['learn-bpe', str(call['n']), '-p', call['path']]
    if call.get('ext'):
        a += ['-e', call['ext']]
    if call.get('id'):
        a += ['--id', call['id']]
    if call.get('no_unicode'):
        a.append('--no-unicode')
    if call.get('legacy') and call['ext'] == 'java':
        a.append('--legacy')    # which is for java only
        if call['legacy'] == 'only':
            del a[a.index('-e'):a.index('-e') + 2]
    if call.get('verbose'):
        a.append('-v')
    parse_and_run(a)


def do_text(call, rec):
    import codeprep.api.text as T
    kw = dict(call['opts'])
    args = []
    if call['fn'] == 'bpe':
        args.append(kw.pop('bpe_codes_id'))
    if call.get('meta'):
        kw['return_metadata'] = True
    r = getattr(T, call['fn'])(call['text'], *args, extension=call.get('ext'), **kw)
    if call.get('meta'):
        toks, m = r
        rec['tokens'] = list(toks)
        rec['meta'] = [sorted(m.nonprocessable_tokens), list(m.word_boundaries), [t.__name__ for t in m.token_types]]
    else:
        rec['tokens'] = list(r)


def do_vocabcli(call, rec):
    from codeprep.dirutils import walk
    from codeprep.pipeline.vocab import calc_vocab
    calc_vocab(call['path'], walk(call['path'].encode(), extension=call['ext'].encode()), call['out'])


def do_merges(call, rec):
    """The merges in use after a bpe call with these codes."""
    from codeprep.api import text
    from codeprep.pipeline import to_repr
    text.bpe('x', call['id'])
    try:
        merges = [('%s %s' % (' '.join(m.pair).encode('unicode-escape').decode(), m.freq))
                  for m in to_repr.get_global_bpe_data_if_available().merges]
    except (AttributeError, TypeError):
        merges = None           # kept elsewhere: only the encoding of texts is compared
    rec['merges'] = merges


def do_edit(call, rec):
    """What the user does between two calls of a session."""
    ctx = rec['ctx']
    ctx.judge_so_far(rec)
    for e in call['edits']:
        if e[0] == 'advance':
            kernel.K.sleep(e[1])
            continue
        ctx.quiet += 1
        try:
            ctx.ex.apply(e)
        except OSError:
            pass
        finally:
            ctx.quiet -= 1


CALLS = {'edit': do_edit, 'merges': do_merges, 'corpus': do_corpus, 'learn': do_learn, 'text': do_text, 'vocabcli': do_vocabcli}


class RunCtx(object):
    """One run: starts the calls, watches the file system, judges the outcome."""

    def __init__(self, ex, step):
        self.ex = ex
        self.step = step
        self.calls = []
        self.sessions = []
        self.quiet = 0
        self.vanished = set()
        self.events = []
        self.sources_read = {}
        self.sources = []
        self.allowed = [CACHE, CONFIG, TMP]
        self.final_done = {}
        self.rewritten = []
        self.problems = []
        self.before_home = None
        cwd = ex.W.knobs.get('cwd', '/sim/work')
        before = None
        for p in step['procs']:
            for call in p['calls']:
                rec = {'call': call, 'status': None, 'cwd': p.get('cwd', cwd)}
                if call['c'] == 'edit':
                    # the calls after it have to see the corpus as it is then
                    rec['ctx'] = self
                    if before is None:
                        before = ex.W.snapshot()
                    for e in call['edits']:
                        try:
                            ex.apply(e)
                        except OSError:
                            pass
                if call['c'] in ('corpus', 'learn'):
                    self.sources.append(fullpath(call['path'], rec['cwd']))
                if call['c'] == 'corpus':
                    rec['expect'] = Expect(ex, call, cwd=rec['cwd'])
                    self.allowed.append(fullpath(call.get('out') or '.', rec['cwd']) + b'/')
                if call['c'] == 'learn':
                    rec['expect'] = Expect(ex, learn_as_corpus(call), call.get('lazy'), rec['cwd'])
                if call['c'] == 'vocabcli':
                    self.allowed.append(enc(call['out']).rstrip(b'/') + b'/')
                    if not self.fs.exists(enc(call['path'])):
                        raise Discard('there is no corpus')
                    rec['files'] = [v[1] for k, v in self.fs.tree(enc(call['path'])).items()
                                    if v[0] == 'f' and k.endswith(enc(call['ext']))]
                self.calls.append(rec)
        if before is not None:
            ex.W.restore(before)
        keys = set()
        for rec in self.calls:
            if rec['call']['c'] == 'corpus':
                keys.add(prep_key(rec['call']))
        self.protected = {d: t for d, (k, t) in ex.outputs.items() if k not in keys}
        self.watch_source_links()

    @property
    def fs(self):
        return self.ex.W.fs

    def watch_source_links(self):
        """Directories outside the corpus that it reaches through links are sources as well."""
        if self.fs.exists(b'/sim/elsewhere'):
            self.sources.append(b'/sim/elsewhere')

    def main(self, i, p):
        recs = []
        n = sum(len(q['calls']) for q in self.step['procs'][:i])
        recs = self.calls[n:n + len(p['calls'])]
        self.sessions.append(recs)

        def body():
            k = kernel.K
            if p.get('cwd'):
                k.cur_proc.cwd = p['cwd']
            for rec in recs:
                call = rec['call']
                rec['status'] = 'started'
                rec['op0'] = len(k.trace)
                k.op('call')
                if call['c'] == 'text' and 'session' in self.step.get('judge', ()):
                    rec['disk'] = self.ex.W.snapshot()
                try:
                    CALLS[call['c']](call, rec)
                    rec['status'] = 'ok'
                except kernel.HarnessError:
                    raise
                except Exception as e:
                    rec['status'] = 'exc'
                    rec['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
                    rec['errno'] = getattr(e, 'errno', None)
                    if len(recs) == 1:
                        raise
                except SystemExit as e:
                    if e.code is None or e.code == 0:
                        rec['status'] = 'ok'
                    else:
                        rec['status'] = 'exit'
                        rec['error'] = 'exit(%r)' % (e.code,)
                        if len(recs) == 1:
                            raise
                except KeyboardInterrupt:
                    rec['status'] = 'interrupted'
                    if not p.get('survive_kbi'):
                        raise
        return body

    # ------------------------------------------------------------ monitors
    def in_source(self, path):
        for s in self.sources:
            if path == s or path.startswith(s + b'/'):
                return True
        return False

    def problem(self, cls, text):
        if len(self.problems) < 20:
            self.problems.append((cls, text))

    def listen(self, ev, node, path, extra):
        if self.quiet:
            return
        if path is None:
            return
        if ev == 'readdata':
            if self.in_source(path):
                self.sources_read[path] = self.sources_read.get(path, 0) + 1
            return
        paths = [path]
        if ev == 'rename':
            paths.append(extra[0])
        for p in paths:
            if self.in_source(p):
                self.problem('source', '%s of %r inside the source corpus' % (ev, dec(p)))
            elif not any(p.startswith(a) or p + b'/' == a for a in self.allowed):
                if not (ev == 'create' and node.kind == 'd' and any(a.startswith(p + b'/') for a in self.allowed)):
                    self.problem('outside', '%s of %r' % (ev, dec(p)))
            for d in self.protected:
                if p == d or p.startswith(d + b'/'):
                    self.problem('foreign', '%s of %r, which belongs to another run' % (ev, dec(p)))
        if node.kind == 'f' and path.endswith(FINAL) and ev in ('create', 'write', 'trunc', 'rename'):
            self.final_file(ev, node, path)

    def final_file(self, ev, node, path):
        if path.endswith(b'.prep'):
            role = self.rel_of(path, b'.prep')
            if role is None or path.startswith(CACHE):
                return          # not ours, or an archived output arriving from another file system
            role = [(e, rel) for e, rel in role if rel in e.alts]
            if not role:
                return
            ok = any(bytes(node.data) in e.alt(rel) for e, rel in role)
            if not ok:
                self.problem('atomic', '%s: %r has its final name but holds %r' % (ev, dec(path), bytes(node.data[:200])))
            else:
                self.final_done[path] = self.final_done.get(path, 0) + 1
        else:
            if not path.startswith(CACHE):
                return
            try:
                v = pickle.loads(gzip.decompress(bytes(node.data)))
                ok = isinstance(v, list)
            except Exception as e:
                ok = False
            if not ok:
                self.problem('atomic', '%s: %r has its final name but is incomplete (%d bytes)'
                             % (ev, dec(path), len(node.data)))
            else:
                self.final_done[path] = self.final_done.get(path, 0) + 1

    def rel_of(self, path, suffix):
        out = []
        for rec in self.calls:
            e = rec.get('expect')
            if e is None:
                continue
            for rel in e.sources:
                if path.endswith(b'/' + rel + suffix):
                    out.append((e, rel))
        return out or None

    # ------------------------------------------------------------ judging
    def judge(self, res):
        ex = self.ex
        step = self.step
        k = res.k
        for cls, text in self.problems:
            ex.violate(cls, text)
        for what, path in k.escapes:
            ex.violate('outside', '%s of %r (outside the simulated tree)' % (what, path))
        st = [o['status'] for o in res.outcomes]
        calm = not k.fired or all(f['kind'] in ('stall', 'clockjump', 'hook') for f in k.fired)
        for i, s in enumerate(st):
            if s == 'deadlock':
                ex.violate('hang', 'blocked forever: %s' % res.outcomes[i].get('blocked'))
            elif s == 'stepcap':
                ex.violate('hang', 'did not end within %d operations' % k.max_ops)
        for rec in self.calls:
            if rec.get('judged'):
                pass
            elif rec['status'] == 'ok':
                self.judge_ok(rec, k)
            elif calm and rec['status'] not in (None,) and rec.get('disk') is None and not any(s in ('deadlock', 'stepcap') for s in st):
                if self.legit_failure(rec):
                    continue
                ex.violate('status', 'failed without a fault: %s %s %s' % (
                    rec['status'], rec.get('error', ''), getattr(k, 'child_errors', '')))
        if calm:
            for i, s in enumerate(st):
                if s not in ('ok', 'deadlock', 'stepcap') and all(r['status'] in ('ok',) for r in self.calls):
                    ex.violate('status', 'process ended with %s after all calls succeeded: %s' % (s, res.outcomes[i]))

    def legit_failure(self, rec):
        call = rec['call']
        if call['c'] == 'corpus':
            e = rec['expect']
            if call.get('vocab') and not e.sources:
                return rec['status'] == 'exit'
        if call['c'] == 'learn':
            if not rec['expect'].sources:
                return rec['status'] == 'exit'
            if call.get('loose'):
                return True
        if call['c'] == 'vocabcli':
            return not rec['files'] and rec['status'] == 'exit'
        if call['c'] in ('text', 'edit'):
            return True            # judged by the property's own oracle
        return False

    def judge_so_far(self, until):
        """Judge the calls of a session that came before an edit, while their results are still there."""
        for p in self.sessions:
            if not any(r is until for r in p):
                continue
            for rec in p:
                if rec is until:
                    break
                if rec['status'] == 'ok' and rec['call']['c'] == 'corpus' and not rec.get('judged'):
                    self.judge_ok(rec, kernel.K)
                    rec['judged'] = True

    def judge_ok(self, rec, k):
        call = rec['call']
        if call['c'] == 'corpus':
            self.judge_corpus(rec)
        elif call['c'] == 'vocabcli':
            self.judge_vocab_files(enc(call['out']) + b'/vocab', rec['files'], rec)
        elif call['c'] == 'learn':
            self.judge_learn(rec)

    def judge_corpus(self, rec):
        ex = self.ex
        call = rec['call']
        e = rec['expect']
        optional = set()
        for rel in e.sources:
            full = fullpath(call['path'], rec['cwd']) + b'/' + rel
            if any(full == v or full.startswith(v + b'/') for v in self.vanished):
                optional.add(rel)
        out = dec(fullpath(call.get('out') or '.', rec['cwd']))
        if rec.get('cli'):
            fits, why = [], 'no output directory in %r' % out
            try:
                d = self.fs.lookup(enc(out))
                names = list(d.entries)
            except OSError:
                names = []
            for n in names:
                p = enc(out) + b'/' + n
                if self.fs.lookup(p, False).kind == 'd' and not n.startswith(b'.'):
                    t = self.fs.tree(p)
                    w = e.check_tree(t, optional)
                    if w is None:
                        fits.append((p, t))
                    else:
                        why = w
            if not fits:
                ex.violate('output', 'reported success, but %s' % why)
                return
            if len(fits) > 1:
                # the output with other options looks the same: which one is it?
                if call.get('vocab'):
                    self.judge_cli_vocab(*[[v[1] for v in t.values() if v[0] == 'f'] for p, t in fits])
                return
            rec['prep_path'] = dec(fits[0][0])
        prep = enc(rec['prep_path'])
        prep = fullpath(prep, rec['cwd'])
        if not prep.startswith(enc(out).rstrip(b'/') + b'/'):
            ex.violate('output', 'output is at %r, not in the requested directory %r' % (dec(prep), out))
            return
        tree = self.fs.tree(prep)
        if not self.fs.exists(prep):
            ex.violate('output', 'reported success, but %r does not exist' % dec(prep))
            return
        why = e.check_tree(tree, optional)
        if why is not None:
            ex.violate('output', 'reported success, but %s' % why)
            return
        rec['prep'] = prep
        ex.outputs[prep] = (prep_key(call), tree)
        files = [v[1] for v in tree.values() if v[0] == 'f']
        if call.get('vocab'):
            if rec.get('cli'):
                self.judge_cli_vocab(files)
            else:
                vp = rec.get('vocab_path')
                if not vp:
                    ex.violate('vocab', 'reported success, but gives no vocabulary path')
                else:
                    vp = enc(vp) if vp.startswith('/') else enc(rec['cwd']) + b'/' + enc(vp)
                    self.judge_vocab_files(vp, files, rec)
        for s in rec.get('sizes', ()):
            want = model.size_of(files)
            if s != want:
                ex.violate('size', 'corpus size reported as %r, but the output has %d tokens' % (s, want))
                break

    def vocab_problem(self, vp, files):
        want = model.vocab_of(files)
        try:
            data = self.fs.get(vp)
        except OSError:
            return 'there is no vocabulary at %r' % dec(vp)
        text = data.decode('utf-8', 'replace')
        if want and not text.endswith('\n'):
            return 'vocabulary file is cut off'
        have = []
        for line in text.split('\n')[:-1]:
            w, _, n = line.rpartition('\t')
            try:
                have.append((w, int(n)))
            except ValueError:
                return 'malformed vocabulary line %r' % line
        if len(set(w for w, n in have)) != len(have):
            return 'a token is listed twice'
        d = dict(have)
        if d != dict(want):
            diff = sorted((w, d.get(w), want.get(w)) for w in set(d) | set(want) if d.get(w) != want.get(w))
            return 'wrong vocabulary: (token, listed, actual) %r' % (diff[:5],)
        if any(a[1] < b[1] for a, b in zip(have, have[1:])):
            return 'vocabulary is not ordered by frequency'
        sp = vp.rpartition(b'/')[0] + b'/vocabsize'
        try:
            first = self.fs.get(sp).decode().split('\n')[0]
        except OSError:
            return 'there is no vocabulary size file'
        if first != str(len(want)):
            return 'vocabulary size file says %r, there are %d tokens' % (first, len(want))
        return None

    def judge_vocab_files(self, vp, files, rec):
        why = self.vocab_problem(vp, files)
        if why:
            self.ex.violate('vocab', 'reported success, but %s' % why)
            return
        if 'loaded_vocab' in rec:
            want = {unliteral(w): n for w, n in model.vocab_of(files).items()}
            if rec['loaded_vocab'] != want:
                self.ex.violate('vocab', 'load_vocab() does not give the vocabulary')

    def judge_cli_vocab(self, *alternatives):
        why = 'there is no vocabulary'
        for k, v in self.fs.tree(CONFIG[:-1]).items():
            if k.endswith(b'/vocab') and v[0] == 'f':
                for files in alternatives:
                    why = self.vocab_problem(CONFIG + k, files)
                    if why is None:
                        return
        self.ex.violate('vocab', 'reported success, but %s' % why)

    # ------------------------------------------------------------ BPE learning
    def judge_learn(self, rec):
        ex = self.ex
        call = rec['call']
        codes = list_codes(self.fs)
        ref = reference_codes(ex, call, rec['expect'].sources)
        rec['codes'] = codes
        if ref is None:
            return
        why = refine_codes(codes, call, ref)
        if why:
            ex.violate('merges', 'learn-bpe reported success, but %s' % why)
        if not rec['call'].get('judge', True):
            return
        why = compare_codes(self.fs, codes, call, ref)
        if why:
            ex.violate('codes', 'learn-bpe reported success, but %s' % why)
        why = nonbpe_problem(self.fs, rec['expect'], call)
        if why:
            ex.violate('nonbpe', 'learn-bpe reported success, but %s' % why)


def unliteral(w):
    return w.encode().decode('unicode-escape')


def learn_as_corpus(call):
    opts = {'full_strings': True, 'no_com': True, 'max_str_length': 14}
    if call.get('no_unicode'):
        opts['no_unicode'] = True
    return {'c': 'corpus', 'fn': 'nosplit', 'path': call['path'], 'opts': opts, 'ext': call.get('ext')}


def list_codes(fs):
    """{bpe directory: {'id': text or None, 'sets': {n: {file: data}}}}"""
    out = {}
    t = fs.tree(CONFIG[:-1])
    for k, v in t.items():
        parts = k.split(b'/')
        if len(parts) >= 4 and parts[2] == b'bpe':
            d = out.setdefault(parts[3], {'id': None, 'sets': {}, 'path': CONFIG + b'/'.join(parts[:4])})
            if v[0] == 'f' and len(parts) == 5 and parts[4] == b'.name':
                d['id'] = v[1].decode('utf-8', 'replace')
            if len(parts) >= 5 and parts[4].isdigit():
                s = d['sets'].setdefault(int(parts[4]), {})
                if v[0] == 'f':
                    s[parts[-1]] = v[1]
    return out


def merges_of(fileset):
    data = fileset.get(b'merges.txt')
    if data is None:
        return None
    text = data.decode('utf-8')
    if text and not text.endswith('\n'):
        return None
    return text.split('\n')[:-1]


def reference_codes(ex, call, sources):
    """Merges an undisturbed single-core run learns on an otherwise empty system."""
    key = (call['n'], bool(call.get('no_unicode')), tuple(sorted(sources.items())), call.get('ext'))
    cache = REFS
    if key in cache:
        return cache[key]
    W = ex.W
    snap = W.snapshot()
    knobs = W.knobs
    try:
        W.reset(7, {'cpus': 1})
        W.fs.seed = snap[0].seed
        for rel, data in sorted(sources.items()):
            W.fs.put(b'/sim/ref/corpus/' + rel, data)
        W.advance(5)
        c = {'c': 'learn', 'path': '/sim/ref/corpus', 'n': call['n'], 'ext': call.get('ext'),
             'no_unicode': call.get('no_unicode')}
        res = W.run([('ref', lambda: do_learn(c, {}))], 3)
        if res.status != 'ok':
            raise Discard('the reference training fails: %s' % res.outcomes[0])
        codes = list_codes(W.fs)
        if len(codes) != 1:
            raise Discard('reference training published %d code sets' % len(codes))
        ref = list(codes.values())[0]
        ref['words'] = base_words(W.fs)
    finally:
        W.reset(0, knobs)
        W.restore(snap)
    if len(cache) > 3000:
        cache.clear()
    cache[key] = ref
    return ref


REFS = {}


def base_words(fs):
    """(words to split, words never split), each {word: occurrences}, that a training on an empty system has collected."""
    t = fs.tree(CONFIG[:-1])
    for k, v in t.items():
        if k.endswith(b'/nonbpe_vocab') and v[0] == 'f':
            vocab = t.get(k.rpartition(b'/')[0] + b'/vocab')
            if vocab is not None:
                non = {unliteral(x) for x in v[1].decode().split('\n')[:-1]}
                split, whole = {}, {}
                for line in vocab[1].decode().split('\n')[:-1]:
                    w, _, n = line.rpartition('\t')
                    w = unliteral(w)
                    (whole if w in non else split)[w] = int(n)
                return split, whole
    return None


def cands_of(codes, call):
    base = os.path.basename(enc(call['path']))
    cands = [d for k, d in codes.items() if k.startswith(base + b'_')]
    no = bool(call.get('no_unicode'))
    return [d for d in cands if (b'nounicode' in d['path'].rpartition(b'/')[2]) == no]


REFINED = {}


def refine_codes(codes, call, ref):
    """The merges learned for this corpus, at once or in several trainings, are such as byte pair encoding
    demands: every one is a most frequent pair of the words as split so far; and the files beside the list
    describe the result of these merges."""
    if ref.get('words') is None:
        return None
    why = None
    for d in cands_of(codes, call):
        for n, files in sorted(d['sets'].items(), reverse=True):
            if n > call['n']:
                continue
            key = (tuple(sorted(ref['words'][0].items())), tuple(sorted(files.items())), n == call['n'])
            if key not in REFINED:
                if len(REFINED) > 2000:
                    REFINED.clear()
                REFINED[key] = bpe_problem(ref['words'], files, n == call['n'])
            w = REFINED[key]
            if w is None:
                return None
            if why is None:
                why = 'of %d merges, %s' % (n, w)
    return why


def bpe_problem(words, files, full):
    lines = merges_of(files)
    if lines is None:
        return 'the list is missing or cut off'
    # {symbols: occurrences}
    state = [(['@@' if c == '@' else c for c in w] + ['@'], n) for w, n in sorted(words[0].items())]
    counts = {}
    where = {}
    for i, (s, n) in enumerate(state):
        for p in zip(s, s[1:]):
            counts[p] = counts.get(p, 0) + n
            where.setdefault(p, set()).add(i)
    for k, line in enumerate(lines):
        parts = unliteral(line).split(' ')
        if len(parts) != 3:
            return 'entry %d is malformed: %r' % (k, line)
        pair = parts[0], parts[1]
        best = max(counts.values()) if counts else 0
        if counts.get(pair, 0) != best:
            return 'merge %d is %r, which occurs %d times, while others occur %d times' % (k, pair, counts.get(pair, 0), best)
        if parts[2] != str(best):
            return 'merge %d, %r, is listed with %s occurrences instead of %d' % (k, pair, parts[2], best)
        for i in where.pop(pair):
            s, n = state[i]
            for p in zip(s, s[1:]):
                counts[p] -= n
            new = []
            j = 0
            while j < len(s):
                if j + 1 < len(s) and (s[j], s[j + 1]) == pair:
                    new.append(s[j] + s[j + 1])
                    j += 2
                else:
                    new.append(s[j])
                    j += 1
            state[i] = new, n
            for p in zip(new, new[1:]):
                counts[p] = counts.get(p, 0) + n
                where.setdefault(p, set()).add(i)
        for p in [p for p, c in counts.items() if not c]:
            del counts[p]
    if not full and counts:
        return 'there are more pairs to merge'
    want = {' '.join(s): n for s, n in state}
    want.update({w.replace('@', '@@') + '@': n for w, n in words[1].items()})
    sub = {}
    for w, n in want.items():
        for x in w.split(' '):
            sub[x] = sub.get(x, 0) + n
    for name, exp in ((b'bpe_vocab_reassembled.txt', {w: str(n) for w, n in want.items()}),
                      (b'vocab_res.txt', {w: str(n) for w, n in sub.items()}),
                      (b'merges_cache.txt', {w.replace(' ', ''): w for w in want})):
        data = files.get(name)
        if data is None:
            return '%s is missing' % name.decode()
        have = {}
        for line in data.decode().split('\n')[:-1]:
            a, _, b = line.partition('\t')
            have[unliteral(a)] = unliteral(b)
        if have != exp:
            x = sorted(w for w in set(have) | set(exp) if have.get(w) != exp.get(w))[0]
            return '%s has %r for %r, which should be %r' % (name.decode(), have.get(x), x, exp.get(x))
    return None


def compare_codes(fs, codes, call, ref):
    """The published codes for this corpus against the reference."""
    if len(ref['sets']) != 1:
        return None
    (n, want), = ref['sets'].items()
    wm = merges_of(want)
    if wm is None:
        raise Discard('reference merges unreadable')
    base = os.path.basename(enc(call['path']))
    cands = [d for k, d in codes.items() if k.startswith(base + b'_')]
    if call.get('no_unicode'):
        cands = [d for d in cands if b'nounicode' in d['path'].rpartition(b'/')[2]]
    else:
        cands = [d for d in cands if b'nounicode' not in d['path'].rpartition(b'/')[2]]
    why = 'no set of %d merges was published' % n
    for d in cands:
        s = d['sets'].get(n)
        if s is None:
            continue
        m = merges_of(s)
        if m is None:
            return 'the published merge list is missing or cut off'
        if m != wm:
            i = next((i for i, (a, b) in enumerate(zip(m, wm)) if a != b), min(len(m), len(wm)))
            why = 'merge %d of %d is %r, an undisturbed run learns %r' % (i, len(wm), m[i:i + 1], wm[i:i + 1])
            continue
        for f in want:
            if f not in s:
                return '%s is missing from the published codes' % dec(f)
            if sorted(s[f].split(b'\n')) != sorted(want[f].split(b'\n')):
                return '%s in the published codes differs from that of an undisturbed run' % dec(f)
        if not d['id']:
            return 'the published codes have no id'
        return None
    return why


def nonbpe_problem(fs, expect, call):
    """The collected unsplittable tokens: of the newest vocabulary directory of this corpus."""
    want = expect.ex.nonbpe_model(expect, call)
    if want is None:
        return None
    base = os.path.basename(enc(call['path']))
    why = 'there is no list of unsplittable tokens'
    for k, v in fs.tree(CONFIG[:-1]).items():
        if v[0] == 'f' and k.endswith(b'/nonbpe_vocab') and k.split(b'/')[-2].startswith(base + b'_'):
            lines = v[1].decode('utf-8', 'replace').split('\n')[:-1]
            have = set(unliteral(x) for x in lines)
            if have == want or have - {'\n'} == want:
                return None       # the text interface hides the very last line end
            why = 'the list of unsplittable tokens lacks %r and wrongly has %r' % (
                sorted(want - have)[:5], sorted(have - want)[:5])
    return why


def _nonbpe_model(self, expect, call):
    from codeprep.preprocess.placeholders import placeholders
    out = set(placeholders.values())
    for rel, data in expect.sources.items():
        ext = model.extension_of(rel)
        key = ('nonbpe', data, ext, bool(call.get('no_unicode')))
        r = model._memo.get(key)
        if r is None:
            import codeprep.api.text as T
            self.W.memory.load_image(self.W.memory.fresh_image())
            try:
                toks, meta = T.nosplit(model.decode(data) + '\n', ext, return_metadata=True, append_eof=True,
                                       no_com=True, full_strings=True, max_str_length=14,
                                       no_unicode=bool(call.get('no_unicode')))
            except Exception as e:
                raise Discard('untestable content: %s' % e)
            r = model._memo[key] = set(meta.nonprocessable_tokens)
        out |= r
    return out


Executor.nonbpe_model = _nonbpe_model
