"""Judges: oracles of single properties, attached to a step by name ('judge': [...]).

Each is a pair (pre, post).  pre(ex, step) looks at the simulated disk before the run, post(ex, step,
res, state) judges the run.  What they remember lives in ex.state, which is part of a scenario
snapshot; so a scenario file alone reproduces a verdict.
"""
from . import model, scen

dec = scen.dec
enc = scen.enc


def calls_of(step):
    return [c for p in step['procs'] for c in p['calls']]


def nothing(ex, step):
    return None


# ------------------------------------------------------------------ C07

def resume_post(ex, step, res, st):
    """What an earlier (broken off) run of the command has finished is not done again."""
    done = ex.state.setdefault('done', {})
    now = res.ctx.final_done
    again = sorted(set(done) & set(now))
    if again:
        ex.violate('rework', 'the resumed run wrote %r again, which the earlier run had finished' % dec(again[0]))
    for call in calls_of(step):
        p = scen.fullpath(call['path'], ex.W.knobs.get('cwd', '/sim/work'))
        try:
            rels = [b'/' + rel for rel in model.walk_files(ex.W.fs, p, None)]
        except OSError:
            continue
        parsed = {}      # finished parsed file -> source it belongs to (equally named ones in other directories!)
        for d in done:
            fit = [rel for rel in rels if d.endswith(rel + b'.parsed')]
            if fit:
                parsed[p + max(fit, key=len)] = d
        for src in sorted(res.ctx.sources_read):
            if src in parsed:
                ex.violate('rework', 'the resumed run read %r again, whose parsed form was finished' % dec(src))
    for k, v in now.items():
        done[k] = done.get(k, 0) + v


def parse_key(call):
    return (call['path'], '|'.join(sorted(set((call.get('ext') or '').split('|')))))


def repeat_post(ex, step, res, st):
    """The corpus was processed before and has not changed since: no source is read, and the same
    request writes nothing.  ex.state['repeat'] is forgotten whenever anything is edited."""
    seen = ex.state.setdefault('repeat', {'parse': [], 'prep': []})
    calls = calls_of(step)
    if all(parse_key(c) in seen['parse'] for c in calls) and res.ctx.sources_read:
        ex.violate('rework', 'the repeated run read %r again' % dec(sorted(res.ctx.sources_read)[0]))
    if all(scen.prep_key(c) in seen['prep'] for c in calls) and res.ctx.final_done:
        ex.violate('rework', 'the repeated run wrote %r again' % dec(sorted(res.ctx.final_done)[0]))
    for rec in res.calls:
        if rec['status'] == 'ok' and not rec['call'].get('nocache'):
            seen['parse'].append(parse_key(rec['call']))
            seen['prep'].append(scen.prep_key(rec['call']))


# ------------------------------------------------------------------ C12

def registry_post(ex, step, res, st):
    """Ids of code sets are unique and stay, merge lists stay and are continued."""
    reg = ex.state.setdefault('registry', {'ids': {}, 'lists': {}, 'known': set(), 'from': {}, 'given': set()})
    for c in calls_of(step):
        if c.get('id'):
            reg['given'].add(c['id'])
    codes = scen.list_codes(ex.W.fs)
    ids, lists = reg['ids'], reg['lists']
    seen = {}
    for d, c in sorted(codes.items()):
        i = c['id']
        if not i:
            continue
        if i in seen:
            a, b = seen[i], d
            # an id the user gave himself may be taken; an automatic one never
            if i not in reg['given'] or (not any(c.get('id') for c in calls_of(step)) and not (a in ids and b in ids)):
                ex.violate('ids', 'code sets %r and %r have the same id %r' % (dec(a), dec(b), i))
        seen[i] = d
        if d in ids and ids[d] != i:
            ex.violate('ids', 'the id of code set %r changed from %r to %r' % (dec(d), ids[d], i))
        ids[d] = i
        ns = sorted(c['sets'])
        for n in ns:
            m = scen.merges_of(c['sets'][n])
            if m is None or len(m) != n:
                ex.violate('ids', 'code set %r lists %s merges as %d' % (dec(d), None if m is None else len(m), n))
            old = lists.get((d, n))
            if old is not None and old != m:
                ex.violate('ids', 'merge list %r/%d changed' % (dec(d), n))
            lists[d, n] = m
        for n in ns[1:]:
            m = lists[d, n]
            base = reg['from'].get((d, n))
            if base is None:
                # the longest list that existed when this one appeared
                base = reg['from'][d, n] = max([x for x in ns if x < n and (d, x) in reg['known']], default=0)
            if base and m is not None and m[:base] != lists[d, base]:
                ex.violate('ids', 'training %d merges did not continue the %d learned before in %r: %r / %r'
                           % (n, base, dec(d), lists[d, base], m[:base]))
        reg['known'].update((d, n) for n in ns)
    for (d, n) in list(lists):
        if d not in codes or n not in codes[d]['sets']:
            ex.violate('ids', 'merge list %r/%d disappeared' % (dec(d), n))


def unsplittable(ex, text, ext):
    """The tokens of a text that are never split, and those of all codes on the disk."""
    import codeprep.api.text as T
    from codeprep.preprocess.placeholders import placeholders
    ex.W.memory.load_image(ex.W.memory.fresh_image())
    toks, meta = T.nosplit(text, ext, return_metadata=True)
    out = set(placeholders.values()) | set(meta.nonprocessable_tokens)
    for k, v in ex.W.fs.tree(scen.CONFIG[:-1]).items():
        if k.endswith(b'/nonbpe_vocab') and v[0] == 'f':
            out |= {scen.unliteral(x) for x in v[1].decode('utf-8', 'replace').split('\n')}
    return out


def selection_pre(ex, step):
    """Codes 'id-n' are the first n merges of the shortest list that has n of them."""
    codes = scen.list_codes(ex.W.fs)
    want = {}
    for call in calls_of(step):
        if call['c'] == 'text':
            name = call['opts']['bpe_codes_id']
        elif call['c'] == 'merges':
            name = call['id']
        else:
            continue
        i, _, n = name.rpartition('-')
        n = int(n)
        mine = [c for c in codes.values() if c['id'] == i and c['sets']]
        if len(mine) == 1:
            src = [x for x in mine[0]['sets'] if x >= n]
            if src and n > 0:
                m = scen.merges_of(mine[0]['sets'][min(src)])
                if m is not None:
                    want[name] = m[:n]
    return want


def encode(word, merges):
    """Byte pair encoding of a word: the highest ranking pair is merged everywhere, until there is none."""
    s = ['@@' if c == '@' else c for c in word] + ['@']
    rank = {}
    for i, line in enumerate(merges):
        a, b = scen.unliteral(line).split(' ')[:2]
        rank[a, b] = i
    while True:
        best = min((rank[p] for p in zip(s, s[1:]) if p in rank), default=None)
        if best is None:
            break
        new = []
        j = 0
        while j < len(s):
            if j + 1 < len(s) and rank.get((s[j], s[j + 1])) == best:
                new.append(s[j] + s[j + 1])
                j += 2
            else:
                new.append(s[j])
                j += 1
        s = new
    s[-1] = s[-1][:-1]
    return [x.replace('@@', '@') for x in s]


def encoding_problem(rec, merges, whole):
    """Does the text's encoding apply exactly these merges to each word?"""
    end = '</t>'
    word = []
    for t in rec['tokens']:
        last = t.endswith(end)
        word.append(t[:-len(end)] if last else t)
        if not last:
            continue
        w = ''.join(word)
        if not (len(word) == 1 and w in whole) and not w[:1].isdigit() and word != encode(w, merges):
            return '%r is encoded as %r, its merges give %r' % (w, word, encode(w, merges))
        word = []
    return None


def selection_post(ex, step, res, want):
    if res.k.fired:
        return
    for rec in res.calls:
        call = rec['call']
        if call['c'] == 'text' and call['opts'].get('bpe_codes_id') in want:
            i = call['opts']['bpe_codes_id']
            if rec['status'] != 'ok':
                ex.violate('ids', 'the codes %r cannot be used: %s' % (i, rec.get('error')))
                continue
            why = encoding_problem(rec, want[i], unsplittable(ex, call['text'], call['ext']))
            if why:
                ex.violate('ids', 'with %r, %s' % (i, why))
    for rec in res.calls:
        i = rec['call'].get('id')
        if rec['call']['c'] != 'merges' or i not in want:
            continue
        if rec['status'] != 'ok':
            ex.violate('ids', 'the codes %r cannot be loaded: %s' % (i, rec.get('error')))
        elif rec['merges'] is not None and rec['merges'] != want[i]:
            ex.violate('ids', '%r gives the merges %r instead of %r' % (i, rec['merges'], want[i]))


# ------------------------------------------------------------------ C11

def usable_pre(ex, step):
    ok = set()
    for c in scen.list_codes(ex.W.fs).values():
        if c['id'] and c['sets']:
            for n in range(1, max(c['sets']) + 1):
                ok.add('%s-%d' % (c['id'], n))
    return ok


def usable_post(ex, step, res, ok):
    if res.k.fired:
        return
    for rec in res.calls:
        call = rec['call']
        if call['c'] == 'text' and call['opts'].get('bpe_codes_id') in ok and rec['status'] != 'ok':
            ex.violate('codes', 'the published codes %r cannot be used: %s' % (call['opts']['bpe_codes_id'], rec.get('error')))


# ------------------------------------------------------------------ C15

def find_tree(fs, want, skip):
    """A directory other than `skip` that holds exactly the tree `want`."""
    top = sorted(k for k in want if b'/' not in k)

    def rec(node, path):
        if path == skip or path.startswith(b'/sim/src'):
            return False
        if path and sorted(node.entries) == top and fs.tree(path) == want:
            return True
        for n, c in node.entries.items():
            if c.kind == 'd' and rec(c, path + b'/' + n):
                return True
        return False
    return rec(fs.root, b'/sim')


def archive_pre(ex, step):
    keys = {scen.prep_key(c) for c in calls_of(step) if c['c'] == 'corpus'}
    out = {}
    for d, (key, tree) in ex.outputs.items():
        if key in keys and ex.W.fs.exists(d):
            t = ex.W.fs.tree(d)
            if t and t != tree:
                out[d] = t
    return out


def archive_post(ex, step, res, changed):
    if any(rec['status'] != 'ok' for rec in res.calls):
        return
    for d, t in sorted(changed.items()):
        if not find_tree(ex.W.fs, t, d):
            ex.violate('archive', 'the modified output %r was not moved aside intact' % dec(d))
    kept = ex.state.setdefault('archived', [])
    for d, t in kept:
        if not find_tree(ex.W.fs, t, d):
            ex.violate('archive', 'the modified output %r, moved aside earlier, is not intact any more' % dec(d))
    kept += sorted(changed.items())


# ------------------------------------------------------------------ C17

REF_TEXT = {}


def text_reference(ex, call):
    """The same call as the first one of a fresh process (other state on disk being equal)."""
    c = dict(call, opts={k: v for k, v in call['opts'].items() if k != 'force_reinit_bpe_data'})
    custom = c['opts'].get('bpe_codes_id', '1k') not in ('1k', '5k', '10k')
    key = (repr(sorted((k, repr(v)) for k, v in c.items())), ex.codes_fingerprint() if custom else '')
    if key in REF_TEXT:
        return REF_TEXT[key]
    snap = ex.W.snapshot()
    rec = {}
    try:
        res = ex.W.run([('ref', lambda: scen.do_text(c, rec))], 5)
        ok = res.status == 'ok'
    finally:
        ex.W.restore(snap)
    if len(REF_TEXT) > 20000:
        REF_TEXT.clear()
    REF_TEXT[key] = r = (ok, rec.get('tokens'), rec.get('meta'))
    return r


def texts_pre(ex, step):
    calls = calls_of(step)
    refs = {}
    others = {}
    for i, c in enumerate(calls):
        if c['c'] == 'text':
            refs[i] = text_reference(ex, c)
            if c['opts'].get('force_reinit_bpe_data') is False and i:
                # if the call before fails without getting as far as loading, what is loaded is from an earlier one
                ids = {d['opts']['bpe_codes_id'] for d in calls[:i - 1] if d['fn'] == 'bpe'}
                others[i] = [text_reference(ex, dict(c, opts=dict(c['opts'], bpe_codes_id=x))) for x in sorted(ids)]
    return refs, others


def texts_post(ex, step, res, st):
    refs, others = st
    calls = calls_of(step)
    hit = set()
    loading = set()
    for f in res.k.fired:
        i = -1
        for j, rec in enumerate(res.calls):
            if rec.get('op0') is not None and rec['op0'] <= f['at']:
                i = j
        hit.add(i)
        if f['op'] in ('open', 'read') and f['path'].endswith(('/merges.txt', '/nonbpe_vocab')):
            loading.add(i)
    for i, rec in enumerate(res.calls):
        if i not in refs or rec['status'] is None:
            continue
        c = calls[i]
        j = i
        while j >= 0 and c['opts'].get('force_reinit_bpe_data') is False:
            j -= 1              # the call that was to load what is used now
            if j < 0 or calls[j]['c'] != 'text' or calls[j]['opts'].get('bpe_codes_id') != c['opts']['bpe_codes_id']:
                j = -1
            elif calls[j]['opts'].get('force_reinit_bpe_data') is not False:
                break
        if j < 0:
            continue            # reuses what is loaded, which is not known to be these codes
        ok, toks, meta = refs[i]
        if rec['status'] == 'ok':
            if hit and j in hit and i in others and not (j in loading and res.calls[j]['status'] not in ('ok', None)):
                if any(d['fn'] == 'chars' for d in calls[:i - 1]):
                    continue        # what was loaded for chars may be reused
                if (True, rec['tokens'], rec.get('meta')) in others[i]:
                    continue
            if not ok:
                ex.violate('text', 'call %d (%s) succeeds here, but fails in a fresh process' % (i, describe(c)))
            if rec['tokens'] != toks:
                ex.violate('text', 'call %d (%s) gives %r, in a fresh process %r' % (i, describe(c), rec['tokens'], toks))
            if c.get('meta') and rec['meta'] != meta:
                ex.violate('text', 'call %d (%s) gives metadata %r, in a fresh process %r' % (
                    i, describe(c), rec['meta'], meta))
        elif ok and i not in hit:
            ex.violate('text', 'call %d (%s) fails with %s, but works in a fresh process' % (
                i, describe(c), rec.get('error', rec['status'])))


def session_post(ex, step, res, st):
    """Texts between trainings in one process: each as in a fresh process on the disk as it was then."""
    for i, rec in enumerate(res.calls):
        c = rec['call']
        if c['c'] != 'text' or rec['status'] is None or rec.get('disk') is None:
            continue
        snap = ex.W.snapshot()
        ex.W.restore(rec['disk'])
        try:
            ok, toks, meta = text_reference(ex, c)
        finally:
            ex.W.restore(snap)
        if (rec['status'] == 'ok') != ok:
            ex.violate('text', 'call %d (%s) ends with %s, in a fresh process it %s' % (
                i, describe(c), rec.get('error', rec['status']), 'works' if ok else 'fails'))
        elif ok and rec['tokens'] != toks:
            ex.violate('text', 'call %d (%s) gives %r, in a fresh process %r' % (i, describe(c), rec['tokens'], toks))
        elif ok and c.get('meta') and rec['meta'] != meta:
            ex.violate('text', 'call %d (%s) gives metadata %r, in a fresh process %r' % (i, describe(c), rec['meta'], meta))


def describe(c):
    return '%s(%r, %s)' % (c['fn'], c['text'], c['opts'])


# ------------------------------------------------------------------ C19

def alone_post(ex, step, res, st):
    """Commands that no fault has hit do not notice what happens to the others."""
    hit = {f['command'] for f in res.k.fired if f['kind'] != 'stall'}
    if any(f['kind'] == 'full' for f in res.k.fired):
        return
    n = 0
    for i, p in enumerate(step['procs']):
        recs = res.calls[n:n + len(p['calls'])]
        n += len(p['calls'])
        if p.get('name', 'P%d' % i) in hit:
            continue
        for rec in recs:
            if rec['status'] != 'ok' and not res.ctx.legit_failure(rec):
                ex.violate('status', 'command %d, which no fault has hit, ended with %s %s while %s met %s' % (
                    i, rec['status'], rec.get('error', ''), sorted(hit), [f['kind'] for f in res.k.fired]))


JUDGES = {'alone': (nothing, alone_post), 'resume': (nothing, resume_post), 'repeat': (nothing, repeat_post), 'registry': (nothing, registry_post),
          'selection': (selection_pre, selection_post), 'usable': (usable_pre, usable_post),
          'archive': (archive_pre, archive_post), 'texts': (texts_pre, texts_post),
          'session': (nothing, session_post)}
