"""Recording and fault-injecting files.

Two layers:
  RecFile   an in-memory file object handed straight to the *_fp functions and FP sources/sinks
  patched() real files: open() gives Python's own buffered objects over a raw file that counts
            and records every operation, so what is seen is what the kernel would be asked to do

A Plan counts operations; operation number `fail_at` raises OSError.
  mode 'once'  only that one;  'rest'  that one and all later ones;
  mode 'torn'  like once, but a write first stores half of its bytes (of a real file: a partial
               write, then the failure of the operation after it)
`limit` makes every raw read and write transfer at most that many bytes (legal behaviour).
"""
import builtins
import contextlib
import errno
import io
import os


class Plan(object):
    def __init__(self, fail_at=None, mode='once', limit=None, err=errno.EIO, crash_log=False):
        self.fail_at, self.mode, self.limit, self.err = fail_at, mode, limit, err
        self.n = 0
        self.failed = None
        self.ops = []           # (kind, file name) of every operation
        self.log = []           # ('write', name, pos, data) | ('truncate', name, size)
        self.off = False

    def tick(self, kind, name):
        """Returns the fraction of a write to store before failing, or raises."""
        if self.off:
            return
        n = self.n
        self.n += 1
        self.ops.append((kind, name))
        if self.fail_at is not None and (n == self.fail_at or (self.mode == 'rest' and n > self.fail_at)):
            if self.failed is None:
                self.failed = (n, kind, name)
            raise OSError(self.err, 'injected failure of operation %d (%s %s)' % (n, kind, name))


class RecFile(io.BytesIO):
    """A file object whose operations are counted, recorded and can fail."""

    def __init__(self, plan, name, data=b''):
        io.BytesIO.__init__(self, data)
        self.plan, self.label = plan, name

    def read(self, *a):
        self.plan.tick('read', self.label)
        return io.BytesIO.read(self, *a)

    def write(self, b):
        pos = io.BytesIO.tell(self)
        try:
            self.plan.tick('write', self.label)
        except OSError:
            if self.plan.mode == 'torn':
                part = bytes(b)[:len(b) // 2]
                self.plan.log.append(('write', self.label, pos, part))
                io.BytesIO.write(self, part)
            raise
        self.plan.log.append(('write', self.label, pos, bytes(b)))
        return io.BytesIO.write(self, b)

    def seek(self, *a):
        self.plan.tick('seek', self.label)
        return io.BytesIO.seek(self, *a)

    def tell(self):
        self.plan.tick('tell', self.label)
        return io.BytesIO.tell(self)

    def truncate(self, size=None):
        if size is None:
            size = io.BytesIO.tell(self)
        self.plan.tick('truncate', self.label)
        self.plan.log.append(('truncate', self.label, size))
        return io.BytesIO.truncate(self, size)

    def flush(self):
        self.plan.tick('flush', self.label)

    def content(self):
        return io.BytesIO.getvalue(self)


class RawFile(io.RawIOBase):
    def __init__(self, plan, real, name, mode, writer):
        self.plan, self.real, self.label, self.writer = plan, real, name, writer
        self.name, self.mode = name, mode
        self.quiet = True       # Python's buffered objects ignore errors while being set up

    def readable(self):
        return self.real.readable()

    def writable(self):
        return self.real.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.real.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        self.plan.tick('read', self.label)
        m = memoryview(b)
        if self.plan.limit:
            m = m[:self.plan.limit]
        return self.real.readinto(m)

    def write(self, b):
        b = bytes(b)
        pos = self.real.tell()
        plan = self.plan
        if plan.mode == 'torn' and plan.n == plan.fail_at and len(b) > 1 and not plan.off:
            # as the kernel does it: a partial write, and the error for the next operation
            plan.fail_at += 1
            plan.mode = 'once'
            b = b[:len(b) // 2]
        plan.tick('write', self.label)
        if plan.limit:
            b = b[:plan.limit]
        plan.log.append(('write', self.label, pos, b))
        return self.real.write(b)

    def seek(self, pos, whence=0):
        if not self.quiet:
            self.plan.tick('seek', self.label)
        return self.real.seek(pos, whence)

    def tell(self):
        return self.real.tell()         # never fails on a file; Python ignores such failures

    def truncate(self, size=None):
        self.plan.tick('truncate', self.label)
        if size is None:
            size = self.real.tell()
        self.plan.log.append(('truncate', self.label, size))
        return self.real.truncate(size)

    def close(self):
        if not self.closed:
            try:
                if self.writer:
                    self.plan.tick('close', self.label)
            finally:
                self.real.close()
                io.RawIOBase.close(self)


_open, _stat, _io_open = builtins.open, os.stat, io.open


def _make_open(plan):
    def fault_open(file, mode='r', buffering=-1, *a, **kw):
        if not isinstance(file, (str, bytes)) or 'b' not in mode:
            return _open(file, mode, buffering, *a, **kw)
        plan.tick('open', file)
        raw_mode = mode.replace('b', '')
        if raw_mode[0] == 'w' and os.access(file, os.F_OK):
            plan.log.append(('truncate', file, 0))
        real = io.FileIO(file, raw_mode)
        writer = raw_mode != 'r'
        raw = RawFile(plan, real, file, mode, writer)
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            f = raw
        elif '+' in raw_mode:
            f = io.BufferedRandom(raw, size)
        elif raw_mode == 'r':
            f = io.BufferedReader(raw, size)
        else:
            f = io.BufferedWriter(raw, size)
        raw.quiet = False
        return f
    return fault_open


@contextlib.contextmanager
def patched(plan):
    """Route the binary files opened inside, and their getsize, through the plan."""
    def stat(path, *a, **kw):
        if isinstance(path, str):
            plan.tick('stat', path)
        return _stat(path, *a, **kw)
    f = _make_open(plan)
    builtins.open = io.open = f
    os.stat = stat
    try:
        yield plan
    finally:
        builtins.open, io.open, os.stat = _open, _io_open, _stat
        plan.off = True


def crash_states(log, name, initial, torn=True, limit=None):
    """(label, content) of file `name` after every prefix of the log; every write also torn after
    each of its bytes (for a write longer than `limit`: near its ends and at `limit` places)."""
    data = bytearray(initial)
    yield ('start',), bytes(data)
    for i, op in enumerate(log):
        if op[1] != name:
            continue
        if op[0] == 'truncate':
            size = op[2]
            if size <= len(data):
                del data[size:]
            else:
                data.extend(bytes(size - len(data)))
            yield (i, 'truncate', size), bytes(data)
            continue
        _, _, pos, buf = op
        if not buf:
            continue
        if pos > len(data):
            data.extend(bytes(pos - len(data)))
        n = len(buf)
        if not torn:
            cuts = [n]
        elif limit is None or n <= limit:
            cuts = range(1, n + 1)
        else:
            step = max(1, n // limit)
            cuts = sorted(c for c in set(range(1, 50)) | set(range(n - 50, n + 1)) | set(range(1, n, step))
                          if 1 <= c <= n)
        for c in cuts:
            s = bytearray(data)
            s[pos:pos + c] = buf[:c]
            yield (i, 'write', pos, c, n), bytes(s)
        data[pos:pos + n] = buf
