"""Random corpora, options and knobs."""

WORDS = ['get', 'Set', 'myVar', 'MY_CONST', 'HTTPServer', 'test_WordUeberraschungPrinter', 'x', 'i1', 'parse2Json', 'überraschung',
         'данные', '変数', 'naïveCase', 'snake_case_name', '__init__', 'a1b2', 'ABC', 'fooBarBaz', '_', '$x', 'T0', 'é', 'toString',
         'aaa', 'abab', 'Word', 'wORD', 'long' * 6]
KW = ['if', 'for', 'while', 'return', 'class', 'void', 'int', 'public', 'def', 'import', 'new', 'null', 'None']
OPS = ['=', '==', '+', '->', '(', ')', '{', '}', '[', ']', ';', ',', '.', '!=', '&&', '@', '\\', '#', '?', ':', '~', '%']
NUMS = ['0', '1', '42', '0x1F', '3.14', '1e-5', '100L', '0b11', '.5', '1_000']


def snippet(r, n):
    parts = []
    for _ in range(n):
        k = r.random()
        if k < 0.35:
            parts.append(r.choice(WORDS))
        elif k < 0.5:
            parts.append(r.choice(KW))
        elif k < 0.7:
            parts.append(r.choice(OPS))
        elif k < 0.78:
            parts.append(r.choice(NUMS))
        elif k < 0.84:
            parts.append('"' + ' '.join(r.choice(WORDS) for _ in range(r.randint(0, 4))) + '"')
        elif k < 0.89:
            parts.append('// ' + ' '.join(r.choice(WORDS) for _ in range(r.randint(0, 4))) + '\n')
        elif k < 0.91:
            parts.append('/* ' + r.choice(WORDS) + '\n ' + r.choice(WORDS) + ' */')
        elif k < 0.97:
            parts.append(r.choice(['\n', '\n\n', '\n\t', '\n    ', '\t', '  ']))
        else:
            parts.append(r.choice(['\r\n', '\x0c', '\u2028', '\xa0', '\x85', '<EOF>', '</t>', "'", '"', '\xf7', '<w>', '@@', '\x1c',
                                   '\x00', '\U0001f600', 'x\U0001f600y', '\U00020000', 'e\u0301', '\u200d', '\ufeff', '\x7f', '\v', '\u2029',
                                   'W' * 300, 'aB' * 700]))
    return r.choice([' ', ' ', '']).join(parts)


def content(r, big=0.03):
    k = r.random()
    if k < 0.07:
        return b''
    if k < 0.1:
        return r.choice([b'\n', b'\n\n\n', b' ', b'\t\n', b'\r\n', b'x', b'\xff\xfe', b'\xef\xbb\xbfint a;\n'])
    n = r.randint(1, 25) if r.random() > big else r.randint(200, 500)
    s = snippet(r, n)
    if big and r.random() < 0.002:
        s = (s + '\n') * (70000 // (len(s) + 1))      # larger than any buffer
    if r.random() < 0.6:
        s += '\n'
    if r.random() < 0.05:
        s += '\n'
    if r.random() < 0.08:
        return s.encode('latin-1', 'replace') + b'\xe9'
    if r.random() < 0.03:
        return b'\xef\xbb\xbf' + s.encode('utf-8')      # byte order mark
    if r.random() < 0.02:
        return s.replace('\n', r.choice(['\r', '\r\n'])).encode('utf-8')
    return s.encode('utf-8')


NAMES = [b'a', b'b', b'c', b'Main', b'util', b'with space', b'caf\xc3\xa9', b'b.test', b'.hidden', b'ready', b'vocab', b"q'uote",
         b'x"y', b'back\\slash', b'-dash', b'filelist', b'n_-_n', b'dirlist', b'UPPER', b'long' * 20, b'index', b'\xe5\xa4\x89', b'x.parsed', b'y.prep']
EXOTIC = [b'bad\xff\xfename', b'new\nline', b'tab\there', b'star*', b'semi;colon', b'{brace}', b'%s', b'uni\xe2\x80\xa8sep']
EXTS = [b'java', b'java', b'java', b'java', b'java', b'py', b'py', b'py', b'js', b'c', b'txt', b'', b'', b'C', b'JAVA', b'b_c', b'test.java']
BAD_EXT = [b'ja\xffva']


def name(r, exotic=0.1, ext=True):
    b = r.choice(EXOTIC) if r.random() < exotic else r.choice(NAMES)
    if r.random() < 0.25:
        b = b + b'%d' % r.randint(0, 9)
    if ext:
        e = r.choice(EXTS)
        if e:
            b = b + b'.' + e
    return b


def corpus(r, nmin=1, nmax=8, exotic=0.1, links=0.25, depth=3, big=0.03):
    """[(kind, relative path, payload)] : ('f', path, content) | ('d', path) | ('l', path, target)"""
    n = r.randint(nmin, nmax)
    dirs = [b'']
    out = []
    used = set()
    for _ in range(r.randint(0, 4) if depth else 0):
        base = r.choice(dirs)
        if base.count(b'/') >= depth:
            continue
        nm = name(r, exotic, r.random() < 0.15)
        p = base + b'/' + nm if base else nm
        if p in used:
            continue
        used.add(p)
        dirs.append(p)
        out.append(('d', p))
    if depth and r.random() < 0.03:
        # a deep tree
        p = b''
        for _ in range(r.randint(8, 24)):
            p = (p + b'/' + r.choice([b'd', b'src', b'a.b', b'main'])).lstrip(b'/')
            if p not in used:
                used.add(p)
                out.append(('d', p))
                dirs.append(p)
        dirs += [p] * 5
    same = r.random() < 0.3
    pool = [name(r, exotic) for _ in range(2)]
    i = 0
    tries = 0
    while i < n and tries < 100 + 3 * n:
        tries += 1
        base = r.choice(dirs)
        nm = r.choice(pool) if same else name(r, exotic)
        p = base + b'/' + nm if base else nm
        if p in used:
            continue
        if any(q.startswith(p + b'.') or p.startswith(q + b'.') for q in used):
            pass
        used.add(p)
        out.append(('f', p, content(r, big)))
        i += 1
    if r.random() < 0.2:
        # siblings that differ in their extensions, or in the case of these, only
        for x in r.sample([x for x in out if x[0] == 'f'], min(i, 2)):
            stem, _, e = x[1].rpartition(b'.')
            if stem and b'/' not in e and not stem.endswith(b'/'):
                p = stem + b'.' + (e.swapcase() if r.random() < 0.5 else r.choice(EXTS) or b'h')
                if p not in used:
                    used.add(p)
                    out.append(('f', p, content(r, big)))
    if links and r.random() < links:
        files = [x[1] for x in out if x[0] == 'f']
        k = r.random()
        p = r.choice(dirs)
        ln = b'lnk%d' % r.randint(0, 9)
        lp = p + b'/' + ln if p else ln
        if k < 0.3 and files:
            out.append(('l', lp + b'.java', b'/sim/elsewhere/target.java'))
        elif k < 0.5:
            out.append(('l', lp + b'.java', b'/sim/elsewhere/missing.java'))
        elif k < 0.8:
            out.append(('l', lp, b'/sim/elsewhere/dir'))
        else:
            out.append(('l', lp, b'/sim/elsewhere/nothing'))
    return safe(out)


def many(r, n):
    """A corpus of many small files."""
    dirs = [b'']
    for i in range(r.choice([0, 1, 3, 12])):
        dirs.append((r.choice(dirs) + b'/d%d' % i).lstrip(b'/'))
    texts = [content(r, 0)[:60] for _ in range(4)] + [b'x = 1\n', b'', b'int a;']
    ext = r.sample(EXTS, 3)
    out = [('d', d) for d in dirs[1:]]
    own = r.random() < 0.4   # every file has something of its own
    for i in range(n - len(out)):
        e = r.choice(ext)
        text = r.choice(texts)
        if own:
            text += ' {0} {0} own{1}\n'.format(chr(0x2190 + i), i).encode()
        out.append(('f', (r.choice(dirs) + b'/f%d' % i).lstrip(b'/') + (b'.' + e if e else b''), text))
    return safe(out)


def safe(entries):
    """Drop entries whose output name would coincide with another entry's (a directory called
    'x.parsed' next to a file 'x' and the like): outside of what is promised."""
    paths = {e[1] for e in entries}
    bad = set()
    for p in paths:
        for suf in (b'.parsed', b'.prep', b'.part'):
            if p.endswith(suf):
                bad.add(p)
    return [e for e in entries if e[1] not in bad]


def options(r, bpe=0.2, no_case=True):
    fn = r.choice(['nosplit', 'basic', 'basic', 'chars', 'bpe', 'nosplit']) if r.random() < bpe * 3 else r.choice(['nosplit', 'basic', 'chars'])
    if fn == 'bpe' and r.random() > bpe:
        fn = 'basic'
    o = {}
    for k in ('no_spaces', 'no_unicode', 'no_com', 'no_str'):
        if r.random() < 0.25:
            o[k] = True
    if fn in ('basic',):
        if r.random() < 0.3:
            o['split_numbers'] = True
    if fn == 'basic' and r.random() < 0.3:
        o['no_case'] = True
    if fn == 'nosplit' and r.random() < 0.3 and not o.get('no_str'):
        o['full_strings'] = True
    if r.random() < 0.15 and not o.get('full_strings') and not o.get('no_str'):
        o['max_str_length'] = r.choice([0, 1, 2, 3, 5, 20, 61, 100])
    if fn == 'bpe':
        o['bpe_codes_id'] = r.choice(['1k', '1k', '10k']) if r.random() < 0.9 else '1k'
    return fn, o


def knobs(r, cpus=None):
    k = {
        'cpus': cpus or r.choice([1, 2, 2, 3, 4]),
        'bufsize': r.choice([8192, 8192, 512, 128, 48]),
        'rbufsize': r.choice([8192, 8192, 512, 128]),
        'clock_tick_ns': r.choice([1, 1, 1000, 1000000, 15600000]),
        'fs_tick_ns': r.choice([1, 1, 4000000, 4000000, 1000000000]),
        'pipe_cap': r.choice([65536, 65536, 4096]),
        'first_pid': r.choice([4000, 97, 31000]),
        'platform': r.choice(['Linux'] * 6 + ['Darwin', 'Windows']),
        'const': {},
    }
    c = k['const']
    c['CHUNKSIZE'] = r.choice([1, 1, 2, 3, 24])
    c['N_CHUNKS'] = r.choice([1, 2, 3, 20])
    c['MAX_INIT_PARTIAL_VOCABS'] = r.choice([1, 2, 3, 5, 5120, 5120])
    c['LIMIT_FILES_SCANNING'] = r.choice([50000, 50000, 50000, 2])
    return k
