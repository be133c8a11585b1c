"""In-memory file system behind open/os.*: inodes, directories, symbolic links, several
devices, limited capacity, time stamps from the simulated clock.  Everything under /sim is
simulated; other paths are read-only pass-through to the real file system (package data)."""
import builtins
import errno
import io
import os
import stat as statmod
import zlib

from . import kernel

PREFIX = b'/sim'


def _dec(p):
    return p.decode('utf-8', 'surrogateescape') if isinstance(p, bytes) else p


def _enc(p):
    return p.encode('utf-8', 'surrogateescape') if isinstance(p, str) else p


class Node(object):
    __slots__ = ('ino', 'kind', 'data', 'entries', 'target', 'mode', 'mtime', 'ctime', 'atime',
                 'dev', 'parent', 'name', 'nlink')

    def __init__(self, ino, kind, dev, now, mode):
        self.ino = ino
        self.kind = kind
        self.dev = dev
        self.mode = mode
        self.mtime = self.ctime = self.atime = now
        self.data = bytearray() if kind == 'f' else None
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.parent = None
        self.name = b''
        self.nlink = 2 if kind == 'd' else 1

    def path(self):
        parts = []
        n = self
        while n is not None and n.parent is not None:
            parts.append(n.name)
            n = n.parent
        if n is None or n.name != b'/':
            return None     # detached
        return PREFIX + b''.join(b'/' + p for p in reversed(parts)) if parts else PREFIX


class StatResult(object):
    def __init__(self, n, size):
        self.st_mode = {'f': statmod.S_IFREG, 'd': statmod.S_IFDIR, 'l': statmod.S_IFLNK}[n.kind] | n.mode
        self.st_ino = n.ino
        self.st_dev = n.dev
        self.st_nlink = n.nlink
        self.st_uid = self.st_gid = 0
        self.st_size = size
        self.st_mtime_ns = n.mtime
        self.st_atime_ns = n.atime
        self.st_ctime_ns = n.ctime
        self.st_mtime = n.mtime / 1e9
        self.st_atime = n.atime / 1e9
        self.st_ctime = n.ctime / 1e9
        self.st_blocks = (size + 511) // 512
        self.st_blksize = 4096
        self.st_rdev = 0

    def _tuple(self):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink, 0, 0, self.st_size,
                int(self.st_atime), int(self.st_mtime), int(self.st_ctime))

    def __getitem__(self, i):
        return self._tuple()[i]

    def __len__(self):
        return 10

    def __iter__(self):
        return iter(self._tuple())


def err(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    return OSError(code, os.strerror(code), path)


class FS(object):
    def __init__(self, seed=0, now=lambda: 0):
        self.seed = seed
        self.next_ino = 100
        self.now = now
        self.next_dev = 40
        self.capacity = None       # bytes left on the device, None = plenty
        self.no_inodes = False
        self.root = self._new('d', 30)
        self.root.name = b'/'
        self.listeners = []
        self.nodes_written = 0

    # ----- cloning (snapshots between simulated commands)
    def clone(self):
        other = FS.__new__(FS)
        other.seed = self.seed
        other.next_ino = self.next_ino
        other.now = self.now
        other.next_dev = self.next_dev
        other.capacity = self.capacity
        other.no_inodes = self.no_inodes
        other.listeners = []
        other.nodes_written = 0
        memo = {}

        def cp(n):
            if n.ino in memo:
                return memo[n.ino]
            m = Node.__new__(Node)
            memo[n.ino] = m
            m.ino, m.kind, m.dev, m.mode = n.ino, n.kind, n.dev, n.mode
            m.mtime, m.ctime, m.atime = n.mtime, n.ctime, n.atime
            m.target, m.name, m.nlink = n.target, n.name, n.nlink
            m.parent = None
            m.data = bytearray(n.data) if n.data is not None else None
            m.entries = None
            if n.entries is not None:
                m.entries = {}
                for k, v in n.entries.items():
                    c = cp(v)
                    m.entries[k] = c
                    if v.parent is n and v.name == k:
                        c.parent = m
            return m
        other.root = cp(self.root)
        return other

    def _new(self, kind, dev, mode=None):
        self.next_ino += 1
        return Node(self.next_ino, kind, dev, self.now(), mode if mode is not None else (0o755 if kind == 'd' else 0o644))

    # ----- events
    def emit(self, ev, node, path, extra=None):
        for l in self.listeners:
            l(ev, node, path, extra)

    # ----- path handling
    def split(self, path):
        """bytes path below PREFIX -> list of components (may contain '..')"""
        return [c for c in path[len(PREFIX):].split(b'/') if c and c != b'.']

    def lookup(self, path, follow=True, depth=0):
        """Returns node or raises OSError."""
        node = self._walk(path, follow, depth)
        return node

    def _walk(self, path, follow, depth=0):
        if depth > 40:
            raise err(errno.ELOOP, path)
        comps = self.split(path)
        node = self.root
        i = 0
        n = len(comps)
        while i < n:
            c = comps[i]
            i += 1
            if node.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if c == b'..':
                node = node.parent or node
                continue
            if len(c) > 255:
                raise err(errno.ENAMETOOLONG, path)
            nxt = node.entries.get(c)
            if nxt is None:
                raise err(errno.ENOENT, path)
            if nxt.kind == 'l' and (follow or i < n):
                t = nxt.target
                base = node.path() or PREFIX
                full = t if t.startswith(b'/') else base + b'/' + t
                if not (full == PREFIX or full.startswith(PREFIX + b'/')):
                    raise err(errno.ENOENT, path)
                nxt = self._walk(full, True, depth + 1)
            node = nxt
        if path.endswith(b'/') and node.kind != 'd' and n:
            raise err(errno.ENOTDIR, path)
        return node

    def parent_of(self, path):
        """(directory node, last component); symlinks in the directory part are followed"""
        p = path.rstrip(b'/')
        d, _, last = p.rpartition(b'/')
        if not last or last in (b'.', b'..') or p == PREFIX:
            raise err(errno.EINVAL if last else errno.EEXIST, path)
        if len(last) > 255:
            raise err(errno.ENAMETOOLONG, path)
        node = self._walk(d if d else PREFIX, True)
        if node.kind != 'd':
            raise err(errno.ENOTDIR, path)
        return node, last

    # ----- operations (raw, no scheduling)
    def names(self, node):
        s = self.seed
        return sorted(node.entries, key=lambda k: (zlib.crc32(k, s), k))

    def touch_dir(self, d):
        d.mtime = d.ctime = self.now()

    def attach(self, d, name, node):
        d.entries[name] = node
        node.parent = d
        node.name = name

    def create(self, path, kind='f', mode=None, target=None):
        d, name = self.parent_of(path)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        if d.parent is None and d is not self.root:
            raise err(errno.ENOENT, path)
        if self.capacity is not None and self.capacity <= 0 and (kind != 'f' or self.no_inodes):
            raise err(errno.ENOSPC, path)
        n = self._new(kind, d.dev, mode)
        if target is not None:
            n.target = target
        self.attach(d, name, n)
        self.touch_dir(d)
        self.emit('create', n, n.path())
        return n

    def unlink(self, path):
        d, name = self.parent_of(path)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == 'd':
            raise err(errno.EISDIR, path)
        p = self.child_path(d, name)
        del d.entries[name]
        n.nlink -= 1
        if n.parent is d and n.name == name:
            n.parent = None
        self.touch_dir(d)
        self.emit('unlink', n, p)

    def child_path(self, d, name):
        return (d.path() or b'?') + b'/' + name

    def rmdir(self, path):
        d, name = self.parent_of(path)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != 'd':
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        p = self.child_path(d, name)
        del d.entries[name]
        n.parent = None
        self.touch_dir(d)
        self.emit('rmdir', n, p)

    def rename(self, src, dst, noreplace=False):
        sd, sn = self.parent_of(src)
        n = sd.entries.get(sn)
        if n is None:
            raise err(errno.ENOENT, src, dst)
        dd, dn = self.parent_of(dst)
        if sd.dev != dd.dev or n.dev != sd.dev:
            raise err(errno.EXDEV, src, dst)
        old = dd.entries.get(dn)
        if old is n:
            return
        if n.kind == 'd':
            q = dd
            while q is not None:
                if q is n:
                    raise err(errno.EINVAL, src, dst)
                q = q.parent
        if old is not None:
            if old.kind == 'd':
                if n.kind != 'd':
                    raise err(errno.EISDIR, src, dst)
                if old.entries:
                    raise err(errno.ENOTEMPTY, src, dst)
            elif n.kind == 'd':
                raise err(errno.ENOTDIR, src, dst)
        sp = self.child_path(sd, sn)
        dp = self.child_path(dd, dn)
        del sd.entries[sn]
        if old is not None:
            old.parent = None
        self.attach(dd, dn, n)
        n.ctime = self.now()
        self.touch_dir(sd)
        self.touch_dir(dd)
        self.emit('rename', n, dp, (sp, old))

    def set_full(self, room, inodes=False):
        self.capacity = room
        self.no_inodes = inodes     # not even an empty file can be created then

    def write_at(self, node, pos, data):
        """Returns the number of bytes written (short when the disk fills up)."""
        if self.capacity is not None:
            grow = max(0, pos + len(data) - len(node.data))
            if grow > self.capacity:
                fit = len(data) - (grow - self.capacity)
                if fit <= 0:
                    raise err(errno.ENOSPC, node.path())
                data = data[:fit]
                grow = self.capacity
            self.capacity -= grow
        if pos > len(node.data):
            node.data.extend(b'\0' * (pos - len(node.data)))
        node.data[pos:pos + len(data)] = data
        node.mtime = node.ctime = self.now()
        self.emit('write', node, node.path())
        return len(data)

    def truncate(self, node, size):
        if size == len(node.data):
            node.mtime = node.ctime = self.now()
            self.emit('trunc', node, node.path())
            return
        if size < len(node.data):
            if self.capacity is not None:
                self.capacity += len(node.data) - size
            del node.data[size:]
        else:
            node.data.extend(b'\0' * (size - len(node.data)))
        node.mtime = node.ctime = self.now()
        self.emit('trunc', node, node.path())

    # ----- harness conveniences (no scheduling, no events)
    def mkdirs(self, path, dev=None):
        node = self.root
        for c in self.split(path):
            if node.kind != 'd':
                raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            nxt = node.entries.get(c)
            if nxt is None:
                nxt = self._new('d', node.dev)
                self.attach(node, c, nxt)
                self.touch_dir(node)
            elif nxt.kind == 'l':
                nxt = self.lookup((node.path()) + b'/' + c)
            node = nxt
        if dev is not None:
            self.set_dev(node, dev)
        return node

    def set_dev(self, node, dev):
        node.dev = dev
        if node.entries:
            for c in node.entries.values():
                self.set_dev(c, dev)

    def put(self, path, data):
        d = self.mkdirs(path.rpartition(b'/')[0])
        name = path.rpartition(b'/')[2]
        if d.kind != 'd':
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        n = d.entries.get(name)
        if n is not None and n.kind == 'd':
            raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        if n is None:
            n = self._new('f', d.dev)
            self.attach(d, name, n)
            self.touch_dir(d)
        n.data = bytearray(data)
        n.mtime = n.ctime = self.now()
        return n

    def exists(self, path):
        try:
            self.lookup(path)
            return True
        except OSError:
            return False

    def get(self, path):
        n = self.lookup(path)
        if n.kind != 'f':
            raise err(errno.EISDIR, path)
        return bytes(n.data)

    def remove_tree(self, path):
        d, name = self.parent_of(path)
        n = d.entries.pop(name, None)
        if n is not None:
            n.parent = None
            self.touch_dir(d)

    def tree(self, path):
        """{relative path: ('f', bytes) | ('d',) | ('l', target)} below path, not following links"""
        out = {}
        try:
            top = self.lookup(path)
        except OSError:
            return out

        def rec(n, rel):
            for k in sorted(n.entries):
                c = n.entries[k]
                r = rel + b'/' + k if rel else k
                if c.kind == 'f':
                    out[r] = ('f', bytes(c.data))
                elif c.kind == 'l':
                    out[r] = ('l', c.target)
                else:
                    out[r] = ('d',)
                    rec(c, r)
        if top.kind == 'd':
            rec(top, b'')
        elif top.kind == 'f':
            out[b''] = ('f', bytes(top.data))
        return out


# ------------------------------------------------------------------ files

class SimRaw(io.RawIOBase):
    """Unbuffered handle; used under the real BufferedReader/TextIOWrapper for reading."""

    def __init__(self, of):
        self.of = of

    @property
    def name(self):
        return self.of.name

    def readable(self):
        return self.of.r

    def writable(self):
        return self.of.w

    def seekable(self):
        return True

    def fileno(self):
        return self.of.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        d = self.of.read(len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return self.of.write(bytes(b))

    def seek(self, off, whence=0):
        return self.of.seek(off, whence)

    def tell(self):
        return self.of.pos

    def truncate(self, size=None):
        self.of.truncate(self.of.pos if size is None else size)
        return size

    def close(self):
        if not self.closed:
            try:
                self.of.close()
            finally:
                io.RawIOBase.close(self)

    def __del__(self):
        pass


class OpenFile(object):
    """Kernel-level open file description."""

    def __init__(self, w, node, name, r, wr, append):
        self.w = wr
        self.r = r
        self.world = w
        self.node = node
        self.name = name
        self.append = append
        self.pos = 0
        self.fd = None
        self.closed = False
        self.k0 = k = kernel.K
        self.proc = k.cur_proc if k else None

    def dead(self):
        return self.closed or (self.proc is not None and not self.proc.alive) or kernel.K is not self.k0

    def fileno(self):
        if self.fd is None:
            self.fd = self.world.new_fd(self)
        return self.fd

    def read(self, n):
        k = kernel.K
        if self.dead():
            return b''
        k.op('read', self.name)
        if self.node.kind == 'd':
            raise err(errno.EISDIR, self.name)
        d = bytes(self.node.data[self.pos:self.pos + n])
        self.pos += len(d)
        if self.pos == len(d) and d:
            self.world.fs.emit('readdata', self.node, self.node.path())
        return d

    def write(self, data):
        k = kernel.K
        if self.dead():
            return len(data)
        f = k.op('write', self.name, True)
        fs = self.world.fs
        if self.append:
            self.pos = len(self.node.data)
        if f is not None and f['kind'] == 'torn':
            part = data[:int(len(data) * f['frac'])]
            if part:
                fs.write_at(self.node, self.pos, part)
            k.crash()
        n = fs.write_at(self.node, self.pos, data)
        self.pos += n
        return n

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.node.data) + off
        return self.pos

    def truncate(self, size):
        if self.dead():
            return
        kernel.K.op('truncate', self.name, True)
        self.world.fs.truncate(self.node, size)

    def close(self):
        if self.closed:
            return
        dead = self.dead()
        self.closed = True
        if self.fd is not None:
            self.world.fds.pop(self.fd, None)
        if not dead and self.w:
            kernel.K.op('close', self.name, False)


class Writer(object):
    """Buffered writer, text or binary.  Deliberately has no finalizer: a handle that is dropped
    without being closed loses what it had buffered unless its process exits normally."""

    def __init__(self, of, text, encoding, errors, newline, bufsize, line_buffering=False, mode='w'):
        self.of = of
        self.text = text
        self.encoding = encoding
        self.errors = errors or 'strict'
        self.newline = newline
        self.bufsize = bufsize
        self.buf = bytearray()
        self.closed = False
        self.mode = mode
        self.name = of.name
        self.line_buffering = line_buffering
        if of.proc is not None:
            of.proc.writers.append(self)

    # io protocol
    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return self.of.fileno()

    @property
    def raw(self):
        return SimRaw(self.of)

    @property
    def buffer(self):
        return Writer(self.of, False, None, None, None, 1)

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, s):
        self._check()
        if self.text:
            if not isinstance(s, str):
                raise TypeError('write() argument must be str, not ' + type(s).__name__)
            n = len(s)
            if self.newline not in (None, '', '\n'):
                s = s.replace('\n', self.newline)
            b = s.encode(self.encoding, self.errors)
        else:
            if isinstance(s, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            b = bytes(s)
            n = len(b)
        self.buf += b
        if len(self.buf) >= self.bufsize or (self.line_buffering and b'\n' in b):
            self.flush()
        return n

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        self._check()
        while self.buf:
            n = self.of.write(bytes(self.buf))
            del self.buf[:n]

    def tell(self):
        self._check()
        return self.of.pos + len(self.buf)

    def seek(self, off, whence=0):
        self.flush()
        return self.of.seek(off, whence)

    def truncate(self, size=None):
        self.flush()
        self.of.truncate(self.of.pos if size is None else size)
        return size

    def read(self, *a):
        raise io.UnsupportedOperation('not readable')

    readline = readlines = readinto = read

    def detach(self):
        raise io.UnsupportedOperation('detach')

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            if self.of.proc is not None and self in self.of.proc.writers:
                self.of.proc.writers.remove(self)
            self.of.close()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise io.UnsupportedOperation('not readable')


class DirEntry(object):
    def __init__(self, world, name, path, node, dirpath_b):
        self.name = name
        self.path = path
        self._node = node
        self._world = world

    def inode(self):
        return self._node.ino

    def __fspath__(self):
        return self.path

    def is_symlink(self):
        return self._node.kind == 'l'

    def _target(self):
        return self._world.fs.lookup(self._world.norm(self.path))

    def _is(self, kind, follow):
        if self._node.kind != 'l' or not follow:
            return self._node.kind == kind
        try:
            return self._target().kind == kind
        except OSError:
            return False

    def is_dir(self, *, follow_symlinks=True):
        return self._is('d', follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._is('f', follow_symlinks)

    def stat(self, *, follow_symlinks=True):
        return self._world.os_stat(self.path, follow_symlinks=follow_symlinks)

    def __repr__(self):
        return '<DirEntry %r>' % (self.name,)


class Scandir(object):
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class World(object):
    """Owner of the patched os / open functions.  `fs` is replaced for every scenario."""

    def __init__(self):
        self.fs = FS()
        self.fds = {}
        self.next_fd = 1000000
        self.locks = {}
        self.real = {}
        self.bufsize = 8192
        self.rbufsize = 8192

    # ----- helpers
    def active(self):
        return kernel.K is not None and kernel.K.active

    def norm(self, path):
        """-> absolute bytes path below /sim, or None if it belongs to the real file system"""
        p = os.fspath(path)
        if isinstance(p, str):
            p = p.encode('utf-8', 'surrogateescape')
        if b'\0' in p:
            raise ValueError('embedded null byte')
        if p.startswith(b'/'):
            if p == PREFIX or p.startswith(PREFIX + b'/'):
                return p
            if p.startswith(b'//') and (b'/' + p.lstrip(b'/')).startswith(PREFIX + b'/'):
                return b'/' + p.lstrip(b'/')
            return None
        if not self.active():
            return None
        if p == b'':
            return b'/sim/\xff-nonexistent-empty-path'
        return self.cwd() + b'/' + p

    def cwd(self):
        k = kernel.K
        c = k.cur_proc.cwd if k.cur_proc is not None else k.cwd
        return c.encode('utf-8', 'surrogateescape') if isinstance(c, str) else c

    def new_fd(self, obj):
        self.next_fd += 1
        self.fds[self.next_fd] = obj
        return self.next_fd

    def op(self, kind, path, mutating=False):
        k = kernel.K
        if k is not None and k.active:
            return k.op(kind, path, mutating)
        return None

    def escape(self, what, path):
        """A mutating call outside the simulated tree: recorded and refused."""
        k = kernel.K
        k.escapes.append((what, _dec(os.fspath(path)) if not isinstance(path, int) else str(path)))
        raise err(errno.EACCES, path)

    # ----- open
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not self.active():
            return self.real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(file, int):
            of = self.fds.get(file)
            if of is None:
                return self.real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            return self._wrap(of, mode, buffering, encoding, errors, newline)
        p = self.norm(file)
        if p is None:
            if set(mode) & set('wax+'):
                self.escape('open(%s)' % mode, file)
            return self.real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        core = mode.replace('b', '').replace('t', '').replace('U', '')
        if opener is not None:
            flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                     'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[core[0]]
            if '+' in core:
                flags = (flags & ~os.O_WRONLY) | os.O_RDWR
            fd = opener(file, flags | os.O_CLOEXEC)
            return self.open(fd, mode, buffering, encoding, errors, newline)
        if len(core.replace('+', '')) != 1 or core[0] not in 'rwax':
            raise ValueError('invalid mode: %r' % mode)
        if 'b' in mode and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        of = self._openfile(file, p, core[0], '+' in core)
        return self._wrap(of, mode, buffering, encoding, errors, newline)

    def _openfile(self, file, p, m, plus):
        fs = self.fs
        kind = 'open' if m == 'r' else 'create'
        self.op(kind, p, m != 'r')
        try:
            node = fs.lookup(p)
        except FileNotFoundError:
            node = None
            if m == 'r':
                raise err(errno.ENOENT, file)
        except OSError as e:
            raise err(e.errno, file)
        if node is not None and node.kind == 'd':
            raise err(errno.EISDIR, file)
        if node is not None and m == 'x':
            raise err(errno.EEXIST, file)
        if node is None:
            try:
                # a dangling symlink as last component: create its target
                try:
                    l = fs.lookup(p, follow=False)
                except OSError:
                    l = None
                if l is not None and l.kind == 'l':
                    t = l.target if l.target.startswith(b'/') else l.parent.path() + b'/' + l.target
                    node = fs.create(t)
                else:
                    node = fs.create(p)
            except OSError as e:
                raise err(e.errno, file)
        elif m == 'w':
            fs.truncate(node, 0)
        of = OpenFile(self, node, p, m == 'r' or plus, m != 'r' or plus, m == 'a')
        of.pyname = file
        return of

    def _wrap(self, of, mode, buffering, encoding, errors, newline):
        text = 'b' not in mode
        m = mode.replace('b', '').replace('t', '')
        pyname = getattr(of, 'pyname', of.name)
        if text and encoding is None:
            encoding = 'utf-8'
        if '+' in m:
            raw = SimRaw(of)
            b = io.BufferedRandom(raw, max(1, self.rbufsize))
            if m[0] == 'a':
                b.seek(0, 2)
            return io.TextIOWrapper(b, encoding, errors, newline) if text else b
        if m[0] == 'r':
            raw = SimRaw(of)
            if buffering == 0:
                return raw
            b = io.BufferedReader(raw, max(1, self.rbufsize if buffering <= 1 else buffering))
            return io.TextIOWrapper(b, encoding, errors, newline) if text else b
        size = self.bufsize
        if buffering == 0:
            size = 1
        elif buffering > 1:
            size = buffering
        w = Writer(of, text, encoding, errors, newline, size, buffering == 1 and text, mode)
        w.name = pyname
        if m[0] == 'a':
            of.pos = len(of.node.data)
        return w

    # ----- os functions
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if not self.active():
            return self.real['os.open'](path, flags, mode, dir_fd=dir_fd)
        p = self.norm(path)
        acc = flags & (os.O_WRONLY | os.O_RDWR)
        if p is None:
            if acc or flags & (os.O_CREAT | os.O_TRUNC):
                self.escape('os.open', path)
            return self.real['os.open'](path, flags, mode, dir_fd=dir_fd)
        if dir_fd is not None:
            raise kernel.HarnessError('dir_fd')
        fs = self.fs
        self.op('create' if acc or flags & os.O_CREAT else 'open', p, bool(acc))
        try:
            node = fs.lookup(p)
        except FileNotFoundError:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            node = fs.create(p, mode=mode & 0o755)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if node.kind == 'd' and acc:
                raise err(errno.EISDIR, path)
            if flags & os.O_TRUNC and acc:
                fs.truncate(node, 0)
        of = OpenFile(self, node, p, not (flags & os.O_WRONLY), bool(acc), bool(flags & os.O_APPEND))
        return of.fileno()

    def os_close(self, fd):
        of = self.fds.get(fd)
        if of is None:
            if fd >= 1000000:
                if kernel.K is None:
                    return
                raise err(errno.EBADF)
            return self.real['os.close'](fd)
        of.close()

    def _of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise err(errno.EBADF)
        return of

    def os_read(self, fd, n):
        if fd < 1000000:
            return self.real['os.read'](fd, n)
        return self._of(fd).read(n)

    def os_write(self, fd, data):
        if fd < 1000000:
            return self.real['os.write'](fd, data)
        return self._of(fd).write(bytes(data))

    def os_lseek(self, fd, pos, how):
        if fd < 1000000:
            return self.real['os.lseek'](fd, pos, how)
        return self._of(fd).seek(pos, how)

    def os_fsync(self, fd):
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        if fd < 1000000:
            return self.real['os.fsync'](fd)
        of = self._of(fd)
        self.op('fsync', of.name)

    # ----- advisory locks
    def _lock(self, fd, op, owner_of, kind):
        import fcntl
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        of = self._of(fd)
        owner = owner_of(of)
        excl = bool(op & fcntl.LOCK_EX)
        key = (kind, of.node)
        k = kernel.K

        def others():
            held = self.locks.setdefault(key, [])
            held[:] = [h for h in held if not h[2].dead() and (kind == 'flock' or h[0].alive)]
            return [h for h in held if h[0] is not owner and (excl or h[1])]
        self.op('flock', of.name)
        if op & fcntl.LOCK_UN:
            others()
            self.locks[key][:] = [h for h in self.locks[key] if h[0] is not owner]
            return
        if others():
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            k.block(lambda: not others(), what='flock')
        self.locks[key][:] = [h for h in self.locks[key] if h[0] is not owner]
        self.locks[key].append((owner, excl, of))

    def flock(self, fd, op):
        return self._lock(fd, op, lambda of: of, 'flock')

    def lockf(self, fd, op, *a):
        return self._lock(fd, op, lambda of: kernel.K.cur_proc, 'lockf')

    def os_statvfs(self, path):
        self.op('stat', path)
        free = 10 ** 7 if self.fs.capacity is None else max(0, self.fs.capacity // 4096)
        return os.statvfs_result((4096, 4096, 10 ** 8, free, free, 10 ** 8, 10 ** 6, 10 ** 6, 4096, 255))

    def os_fstat(self, fd):
        if fd < 1000000:
            return self.real['os.fstat'](fd)
        n = self._of(fd).node
        return StatResult(n, len(n.data) if n.data is not None else 4096)

    def os_ftruncate(self, fd, n):
        if fd < 1000000:
            return self.real['os.ftruncate'](fd, n)
        self._of(fd).truncate(n)

    def os_truncate(self, path, n):
        if isinstance(path, int):
            return self.os_ftruncate(path, n)
        p = self._mut('truncate', path)
        node = self.fs.lookup(p)
        self.fs.truncate(node, n)

    def os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.os_fstat(path)
        p = self.norm(path)
        if p is None:
            return self.real['os.stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        self.op('stat', p)
        try:
            n = self.fs.lookup(p, follow_symlinks)
        except OSError as e:
            raise err(e.errno, path)
        return StatResult(n, len(n.data) if n.data is not None else len(n.target) if n.target else 4096)

    def os_lstat(self, path, *, dir_fd=None):
        return self.os_stat(path, dir_fd=dir_fd, follow_symlinks=False)

    def os_access(self, path, mode, **kw):
        p = self.norm(path)
        if p is None:
            return self.real['os.access'](path, mode, **kw)
        self.op('stat', p)
        return self.fs.exists(p)

    def _list(self, path):
        if path is None:
            path = '.'
        p = self.norm(path)
        if p is None:
            return None, None
        self.op('listdir', p)
        try:
            n = self.fs.lookup(p)
        except OSError as e:
            raise err(e.errno, path)
        if n.kind != 'd':
            raise err(errno.ENOTDIR, path)
        return p, n

    def os_listdir(self, path=None):
        if isinstance(path, int):
            return self.real['os.listdir'](path)
        if path is None and not self.active():
            return self.real['os.listdir']()
        p, n = self._list(path)
        if p is None:
            return self.real['os.listdir'](path)
        names = self.fs.names(n)
        if isinstance(path, bytes) or (path is not None and isinstance(os.fspath(path), bytes)):
            return names
        return [x.decode('utf-8', 'surrogateescape') for x in names]

    def os_scandir(self, path=None):
        if isinstance(path, int):
            return self.real['os.scandir'](path)
        if path is None and not self.active():
            return self.real['os.scandir']()
        p, n = self._list(path)
        if p is None:
            return self.real['os.scandir'](path)
        base = '.' if path is None else os.fspath(path)
        isb = isinstance(base, bytes)
        out = []
        for x in self.fs.names(n):
            nm = x if isb else x.decode('utf-8', 'surrogateescape')
            if isb:
                full = base + nm if base.endswith(b'/') else base + b'/' + nm
            else:
                full = base + nm if base.endswith('/') else base + '/' + nm
            out.append(DirEntry(self, nm, full, n.entries[x], p))
        return Scandir(out)

    def _mut(self, kind, path, opname=None):
        p = self.norm(path)
        if p is None:
            if self.active():
                self.escape(kind, path)
            return None
        self.op(opname or kind, p, True)
        return p

    def _wrap_errors(self, fn, path, path2=None):
        try:
            return fn()
        except OSError as e:
            if e.filename is not None:
                raise err(e.errno, path, path2)
            raise

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        p = self._mut('mkdir', path)
        if p is None:
            return self.real['os.mkdir'](path, mode, dir_fd=dir_fd)
        if p.rstrip(b'/') == PREFIX:
            raise err(errno.EEXIST, path)
        self._wrap_errors(lambda: self.fs.create(p, 'd', mode & 0o755), path)

    def os_rmdir(self, path, *, dir_fd=None):
        p = self._mut('rmdir', path)
        if p is None:
            return self.real['os.rmdir'](path, dir_fd=dir_fd)
        self._wrap_errors(lambda: self.fs.rmdir(p), path)

    def os_unlink(self, path, *, dir_fd=None):
        p = self._mut('unlink', path)
        if p is None:
            return self.real['os.unlink'](path, dir_fd=dir_fd)
        self._wrap_errors(lambda: self.fs.unlink(p), path)

    def os_rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        s = self.norm(src)
        d = self.norm(dst)
        if s is None and d is None and not self.active():
            return self.real['os.rename'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        if s is None or d is None:
            self.escape('rename', dst if d is None else src)
        self.op('rename', d, True)
        self._wrap_errors(lambda: self.fs.rename(s, d), src, dst)

    def os_link(self, src, dst, **kw):
        s, d = self.norm(src), self._mut('link', dst, 'create')
        if d is None:
            return self.real['os.link'](src, dst, **kw)
        fs = self.fs

        def go():
            n = fs.lookup(s)
            dd, name = fs.parent_of(d)
            if name in dd.entries:
                raise err(errno.EEXIST, dst)
            if dd.dev != n.dev:
                raise err(errno.EXDEV, dst)
            dd.entries[name] = n
            n.nlink += 1
            if n.parent is None:
                n.parent, n.name = dd, name
            fs.touch_dir(dd)
            fs.emit('create', n, d)
        self._wrap_errors(go, src, dst)

    def os_symlink(self, src, dst, target_is_directory=False, *, dir_fd=None):
        d = self._mut('symlink', dst)
        if d is None:
            return self.real['os.symlink'](src, dst)
        t = _enc(src)
        self._wrap_errors(lambda: self.fs.create(d, 'l', 0o777, t), src, dst)

    def os_readlink(self, path, *, dir_fd=None):
        p = self.norm(path)
        if p is None:
            return self.real['os.readlink'](path, dir_fd=dir_fd)
        self.op('readlink', p)
        n = self._wrap_errors(lambda: self.fs.lookup(p, False), path)
        if n.kind != 'l':
            raise err(errno.EINVAL, path)
        return n.target if isinstance(os.fspath(path), bytes) else _dec(n.target)

    def os_chmod(self, path, mode, **kw):
        if isinstance(path, int) and path >= 1000000:
            self._of(path).node.mode = mode & 0o7777
            return
        p = self._mut('chmod', path)
        if p is None:
            return self.real['os.chmod'](path, mode, **kw)
        n = self._wrap_errors(lambda: self.fs.lookup(p, kw.get('follow_symlinks', True)), path)
        n.mode = mode & 0o7777
        self.fs.emit('chmod', n, n.path())

    def os_utime(self, path, times=None, *, ns=None, **kw):
        if isinstance(path, int) and path >= 1000000:
            n = self._of(path).node
        else:
            p = self._mut('utime', path)
            if p is None:
                return self.real['os.utime'](path, times, **({'ns': ns} if ns is not None else {}), **kw)
            n = self._wrap_errors(lambda: self.fs.lookup(p, kw.get('follow_symlinks', True)), path)
        if ns is not None:
            n.atime, n.mtime = ns
        elif times is not None:
            n.atime, n.mtime = int(times[0] * 1e9), int(times[1] * 1e9)
        else:
            n.atime = n.mtime = self.fs.now()
        self.fs.emit('utime', n, n.path())

    def os_getcwd(self):
        if not self.active():
            return self.real['os.getcwd']()
        return _dec(self.cwd())

    def os_getcwdb(self):
        if not self.active():
            return self.real['os.getcwdb']()
        return self.cwd()

    def os_chdir(self, path):
        if not self.active():
            return self.real['os.chdir'](path)
        p = self.norm(path)
        if p is None:
            raise kernel.HarnessError('chdir out of the simulation')
        n = self.fs.lookup(p)
        if n.kind != 'd':
            raise err(errno.ENOTDIR, path)
        kernel.K.cur_proc.cwd = n.path()

    def install(self):
        r = self.real
        r['open'] = builtins.open
        builtins.open = self.open
        io.open = self.open
        for n in ('open', 'close', 'read', 'write', 'lseek', 'fsync', 'fdatasync', 'fstat', 'ftruncate', 'truncate',
                  'stat', 'lstat', 'access', 'listdir', 'scandir', 'mkdir', 'rmdir', 'unlink', 'rename', 'link',
                  'symlink', 'readlink', 'chmod', 'utime', 'getcwd', 'getcwdb', 'chdir'):
            if hasattr(os, n):
                r['os.' + n] = getattr(os, n)
                impl = 'os_' + {'fdatasync': 'fsync'}.get(n, n)
                setattr(os, n, getattr(self, impl))
        r['os.remove'] = os.remove
        r['os.replace'] = os.replace
        os.remove = self.os_unlink
        os.replace = self.os_rename
        real_statvfs = r['os.statvfs'] = os.statvfs
        os.statvfs = lambda p: self.os_statvfs(p) if self.active() else real_statvfs(p)
        import fcntl
        for n in ('flock', 'lockf'):
            real = r['fcntl.' + n] = getattr(fcntl, n)
            setattr(fcntl, n, lambda *a, _n=n, _r=real: getattr(self, _n)(*a) if self.active() else _r(*a))
        # functions that consult these sets must not use descriptor-relative calls
        os.supports_dir_fd = set()
        os.supports_fd = set()
        os.supports_follow_symlinks = {os.stat, os.chmod, os.utime}
        for n in ('fork', 'forkpty', 'system', 'popen', 'posix_spawn', 'spawnv', 'execv', 'execve', 'mkfifo', 'mknod',
                  'pipe', 'sendfile', 'chown', 'lchown'):
            if hasattr(os, n):
                r['os.' + n] = getattr(os, n)
                setattr(os, n, self._refuse(n))

    def _refuse(self, n):
        real = self.real['os.' + n]

        def f(*a, **kw):
            if self.active():
                raise kernel.HarnessError('os.%s is not simulated' % n)
            return real(*a, **kw)
        return f
