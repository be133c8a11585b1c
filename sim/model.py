"""Reference models: which files a corpus consists of, what their output must be."""
import os
import inspect

_memo = {}


def walk_files(fs, path, extensions):
    """{relative path (bytes): content} selected from the corpus at `path` (bytes)."""
    top = fs.lookup(path)
    out = {}
    if top.kind == 'f':
        out[path.rstrip(b'/').rpartition(b'/')[2]] = bytes(top.data)
        return out
    exts = [b'.' + e.encode() for e in extensions.split('|')] if extensions else None

    def rec(node, rel, depth):
        if depth > 40:
            return
        for name, child in node.entries.items():
            r = rel + b'/' + name if rel else name
            if child.kind == 'f':
                if exts is None or any(name.endswith(e) for e in exts):
                    out[r] = bytes(child.data)
            elif child.kind == 'd':
                rec(child, r, depth + 1)
            else:
                t = child.target if child.target.startswith(b'/') else child.parent.path() + b'/' + child.target
                try:
                    target = fs.lookup(t)
                except OSError:
                    continue
                if target.kind == 'd':
                    rec(target, r, depth + 1)
    rec(top, b'', 0)
    return out


def count_entries(fs, path):
    n = fs.lookup(path)
    if n.kind != 'd':
        return 1
    c = 0
    stack = [n]
    while stack:
        d = stack.pop()
        for x in d.entries.values():
            c += 1
            if x.kind == 'd':
                stack.append(x)
    return c


def decode(data):
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        text = data.decode('latin-1')
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    if text.endswith('\n'):
        text = text[:-1]
    return text


def extension_of(rel):
    return os.path.splitext(rel)[1].decode('utf-8', 'surrogateescape')[1:]


class Untestable(Exception):
    """The text interface itself rejects this content: no expectation."""


def prep_config(fn, opts):
    from codeprep.api.common import create_prep_config
    o = dict(opts)
    codes = o.pop('bpe_codes_id', None)
    args = {k: v for k, v in o.items()}
    if fn == 'bpe':
        args['bpe_codes_id'] = codes
    if fn == 'basic':
        args['split_numbers'] = bool(args.get('split_numbers'))
    return create_prep_config(fn, **args), codes


def text_tokens(fn, opts, text, ext):
    """Tokens of the public text interface, with the end-of-file token."""
    import codeprep.api.text as T
    o = dict(opts)
    f = getattr(T, fn)
    codes = o.pop('bpe_codes_id', None)
    known = inspect.signature(f).parameters
    kw = {k: v for k, v in o.items() if k in known}
    if set(o) - set(kw):
        raise Untestable('option not in the text interface: %s' % (set(o) - set(kw)))
    if fn == 'bpe':
        return f(text, codes, ext, append_eof=True, **kw)
    return f(text, ext, append_eof=True, **kw)


def literal(s):
    return s.encode('unicode-escape').decode('ascii')


def expected_outputs(fn, opts, data, rel, key_extra=None, compute=text_tokens):
    """Acceptable contents of the output file for a source file with content `data`:
    the text interface drops one trailing newline token, the corpus pipeline keeps it."""
    ext = extension_of(rel)
    key = (fn, repr(sorted(opts.items())), data, ext, key_extra)
    r = _memo.get(key)
    if r is None:
        try:
            toks = compute(fn, opts, decode(data), ext)
        except Untestable:
            raise
        except Exception as e:
            r = e
        else:
            nl = ['\n'] if not opts.get('no_spaces') else []
            if fn in ('bpe', 'chars') and nl:
                nl = ['\n</t>']
            body, eof = toks[:-1], toks[-1:]
            alts = [' '.join(toks)]
            if nl:
                alts.append(' '.join(body + nl + eof))
            r = tuple((literal(a) + '\n').encode('ascii') for a in alts)
        if len(_memo) > 200000:
            _memo.clear()
        _memo[key] = r
    if isinstance(r, Exception):
        raise Untestable('%s: %s' % (type(r).__name__, r))
    return r


def vocab_of(files):
    """Counter over the actual output files (bytes)."""
    from collections import Counter
    c = Counter()
    for data in files:
        for line in data.decode('utf-8').split('\n')[:-1] if data.endswith(b'\n') else data.decode('utf-8').split('\n'):
            c.update(line.split(' '))
    return c


def size_of(files):
    n = 0
    for data in files:
        t = data.decode('utf-8')
        lines = t.split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        for l in lines:
            n += len(l.split(' '))
    return n
