"""Simulated file system seam: open()/io.open()/mmap over files of the run's scratch directory.

Real bytes on a tmpfs, but every open, raw read, raw write and close of the
library goes through here, where the plan's faults decide how many bytes a
transfer moves and whether it fails. Files outside the scratch directory (the
library's own database, python's own files) pass through untouched.
"""
import builtins
import errno
import io
import mmap as _mmap
import os

_real_open = io.open
_real_mmap = _mmap.mmap


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, fd, readable, writable, append):
        super().__init__()
        self.fs = fs
        self.path = path
        self.name = path
        self.mode = 'r' if readable else 'w'
        self.fd = fd
        self.r = readable
        self.w = writable
        self.pos = 0
        fs.live.append(self)

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self.r:
            raise io.UnsupportedOperation('not readable')
        n = self.fs.on_read(self, len(b))
        data = os.read(self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self.w:
            raise io.UnsupportedOperation('not writable')
        b = bytes(b)
        n = self.fs.on_write(self, b)
        if n:
            os.write(self.fd, b[:n])
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            fd, self.fd = self.fd, -1
            if fd >= 0:
                os.close(fd)
        self.fs.on_close(self)


class SimFS:
    """faults: list of dicts, each fires at most ``times`` times (default 1; -1: while present).

    {'k':'open',  'file':name, 'err':'ENOENT'}            n-th open of the file ('nth', default 1)
    {'k':'read',  'file':name, 'at':offset, 'err':'EIO'}  first raw read reaching byte offset
    {'k':'mmap',  'file':name, 'err':'ENOMEM'}
    {'k':'short'} chunks: raw reads move at most ``chunk`` bytes (seeded sizes)
    {'k':'write', 'file':name, 'at':offset, 'err':'ENOSPC'|'EIO'|...,}  bytes before offset are written
    {'k':'wshort','max':n}                                 raw writes move at most n bytes
    {'k':'close', 'file':name, 'err':'EIO'}
    {'k':'wopen', 'file':name, 'err':...}                  opening for writing fails
    {'k':'crash', 'op':n}                                  n-th operation on an output file kills the process ('part': share of that write that reaches the disk)
    """

    def __init__(self, root, faults=(), ctx=None, chunks=None):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f.setdefault('times', 1)
        self.ctx = ctx
        self.live = []
        self.fired = []
        self.chunks = chunks          # callable(n)->bytes to move
        self.opens = {}
        self.wops = 0
        self.dead = False
        self.enabled = True
        self.opened_for_write = []
        self.bytes_read = 0
        self.ops = 0

    # ------------------------------------------------------------ seam
    def __enter__(self):
        self._saved = (builtins.open, io.open, _mmap.mmap, os.remove, os.unlink, os.rename, os.replace)
        builtins.open = self.open
        io.open = self.open
        fs = self

        class SimMmap(_real_mmap):
            def __new__(cls, fileno, *a, **k):
                if fileno >= 0:
                    fs.on_mmap(fileno)
                return super().__new__(cls, fileno, *a, **k)
        _mmap.mmap = SimMmap
        return self

    def __exit__(self, *a):
        builtins.open, io.open, _mmap.mmap = self._saved[:3]
        return False

    def _inside(self, file):
        if isinstance(file, int):
            return None
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        full = os.path.realpath(p)
        if full == self.root or full.startswith(self.root + os.sep):
            return full
        return None

    def _fire(self, f):
        f['times'] -= 1
        self.fired.append(f)
        if self.ctx:
            self.ctx.fault('%s:%s' % (f['k'], f.get('err', '')) if f.get('err') else f['k'])

    def _err(self, f, path):
        self._fire(f)
        e = getattr(errno, f['err'])
        return OSError(e, os.strerror(e), path)

    def _match(self, kind, name):
        for f in self.faults:
            if f['k'] == kind and f['times'] != 0 and f.get('file', name) == name:
                yield f

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        full = self._inside(file)
        if full is None or not self.enabled:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        name = os.path.relpath(full, self.root)
        self.ops += 1
        writing = any(c in mode for c in 'wax+')
        self.opens[name] = self.opens.get(name, 0) + 1
        if writing:
            self.opened_for_write.append(name)
            if self.dead:
                raise SimCrash()
            for f in self._match('wopen', name):
                raise self._err(f, full)
            self._tick_crash('open')
        else:
            for f in self._match('open', name):
                if self.opens[name] >= f.get('nth', 1):
                    raise self._err(f, full)
        binary = 'b' in mode
        flags = os.O_CLOEXEC
        if '+' in mode:
            flags |= os.O_RDWR
        elif 'r' in mode:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        if 'w' in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if 'a' in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if 'x' in mode:
            flags |= os.O_CREAT | os.O_EXCL
        fd = os.open(full, flags, 0o644)
        raw = SimRaw(self, name, fd, '+' in mode or 'r' in mode, writing, 'a' in mode)
        raw.name = file
        raw.path = name
        if buffering == 0:
            return raw
        size = self.bufsize() if buffering in (-1, 1) else buffering
        if raw.r and raw.w:
            buf = io.BufferedRandom(raw, size)
        elif raw.w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        t.mode = mode
        return t

    def bufsize(self):
        return 8192

    def _tick_crash(self, what):
        """An operation on an output file; returns how the crash tears it, or None."""
        if self.dead:
            raise SimCrash()
        self.wops += 1
        for f in self.faults:
            if f['k'] == 'crash' and f['times'] != 0 and self.wops >= f['op']:
                self._fire(f)
                self.dead = True
                raise SimCrash()

    # ------------------------------------------------------------ raw events
    def on_read(self, raw, n):
        self.ops += 1
        off = os.lseek(raw.fd, 0, 1)
        if self.chunks is not None and n > 1:
            m = max(1, min(n, self.chunks(n)))
            if m < n and self.ctx:
                self.ctx.fault('short_read')
            n = m
        if self.enabled:
            for f in self._match('read', raw.path):
                # fails once the read would deliver the byte at 'at' (or at end of file)
                size = os.fstat(raw.fd).st_size
                at = min(f['at'], size)
                if off >= at:
                    raise self._err(f, raw.path)
                n = min(n, at - off)
        self.bytes_read += n
        return n

    def on_mmap(self, fd):
        for raw in self.live:
            if not raw.closed and raw.fd == fd:
                for f in self._match('mmap', raw.path):
                    raise self._err(f, raw.path)

    def on_write(self, raw, b):
        self.ops += 1
        if self.dead:
            return len(b)          # nothing reaches the disk of a dead process
        try:
            self._tick_crash('write')
        except SimCrash:
            part = int(len(b) * self.fired[-1].get('part', 0)) if self.fired else 0
            if part:
                os.write(raw.fd, b[:part])
            raise
        n = len(b)
        off = os.fstat(raw.fd).st_size
        for f in self._match('wshort', raw.path):
            if n > f['max']:
                n = f['max']
                if self.ctx:
                    self.ctx.fault('short_write')
        for f in self._match('write', raw.path):
            if off >= f['at']:
                raise self._err(f, raw.path)
            n = min(n, f['at'] - off)
        return n

    def on_close(self, raw):
        self.ops += 1
        if raw.w and not self.dead:
            for f in self._match('close', raw.path):
                raise self._err(f, raw.path)

    def leaked(self):
        return sorted(set(r.path for r in self.live if not r.closed))
