import contextlib
import errno
import io
import itertools
import os
import threading
import time

import numpy as np

from checks.C12 import Case
from mc import bp, hist, spec, vfs
from mc.core import Violation, call, must, require, short

PROPERTY = 'C30'
LEVEL = 'fault_enumeration'
RULE = ('fp-*: every announced size and every number of bytes the input really holds, up to a bound, for pack and append_fp. announced: every number and sizes of chunks announced, '
        'and every number and sizes the source has, for every kind of source. file, command: '
        'schedules of the operation and an environment that changes the input file once: before every operation on files the '
        'library asks the kernel for (open, stat, read, write, ...), the input is cut to, or extended to, each of a list of sizes, cut and '
        'extended again with zeros, deleted, or replaced by another file; thorough: two changes. Oracle: either the call fails (command: a status '
        'other than 0), or the result is complete: an archive made holds a prefix of the input in chunks of exactly the sizes its header '
        'declares, data unpacked are exactly those of the archive. After a failed append the archive is as C12 allows. '
        'same: every operation whose output is its input, named by every pair of ways (relative, absolute, symbolic and hard link, linked folder).'
        'special: inputs whose size is not known beforehand (pipes, /proc, devices), and outputs that are none of the regular kind, for every '
        'operation: refused, or everything the input held is there. '
        'Non-trivial: distinct (operation, schedule).')
ASSUMPTIONS = ['the environment acts between two system calls', 'one change at a time (thorough: two)',
               'an archive is not cut and filled with zeros while being read without checksums']
BLOCK = 1
BA = (8, 0, 0, 'blosclz')
META = {"k": "v"}
CUT = 6


def cases(tier):
    deep = tier == 'thorough'
    for chunk in (1, 2, 3, 4, 5, 7, 8, 16, 40):
        for off in (True, False):
            yield ['fp-pack', chunk, off, 60 if deep else 34]
    for source in SOURCES:
        for n in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5):
            top = 4 if deep and n < 5 else 3
            for size in list(range(1, top + 1)) + [-1]:
                yield ['announced', source, n, top, size]
    for have in (1, 5, 7, 8, 9, 15, 16, 17):
        for ck in ('None', 'crc32', 'sha1') if not deep else spec.CHECKSUMS:
            for meta in (False, True):
                yield ['fp-append', have, 8, ck, meta, 40 if deep else 26]
    for op in sorted(SELF):
        for ck in ('None', 'crc32'):
            yield ['same', op, ck, [0, 1, 15, 16, 17, 50, 1024, 1025, 30000, 70000] + (list(range(2, 130, 5)) if deep else [])]
    for op in sorted(SPECIAL_IN):
        for inp in sorted(INPUTS):
            for ck in ('None', 'crc32'):
                yield ['special', op, inp, ck]
    for op in sorted(SPECIAL_OUT):
        for out in ('null', 'full', 'pipe'):
            for n in (0, 1, 50, 3000, 60000):
                yield ['device', op, out, n]
    for name in sorted(SCENARIOS):
        for ck in ('None', 'adler32', 'sha512') if not deep else spec.CHECKSUMS:
            for n, chunk in ((50, 16), (30000, 7000), (20000, 20000), (16385, 1024)):
                for part in range(CUT):
                    yield ['command' if name.startswith('blpk') else 'file', name, ck, n, chunk, part, 1]
    if deep:
        for name in sorted(SCENARIOS):
            for n, chunk in ((50, 16), (30000, 7000)):
                for part in range(CUT):
                    yield ['two', name, 'crc32', n, chunk, part, 2]


def consistent(archive, sources, what, old=b''):
    """The archive is in the layout, its header agrees with its chunks, and it holds old + a prefix of a source."""
    a = hist.parse(archive, what)
    sizes = a.sizes
    require(all(s == a.chunk_size for s in sizes[:-1]), '%s: the header declares chunks of %d bytes, they have %s', what,
            a.chunk_size, sizes[:20])
    require(sizes[-1] == a.last_chunk, '%s: the header declares a last chunk of %d bytes, it has %d', what, a.last_chunk, sizes[-1])
    got = must(bp.unpack, archive)[0]
    require(got == a.content, '%s: unpacks to something else than its chunks', what)
    if sources is not None:
        require(got.startswith(old) and any(s.startswith(got[len(old):]) for s in sources),
                '%s: content is %s', what, short(got))
    return a


class Env(vfs.Plan):
    """Performs actions[i] just before the library's operation number at[i]."""

    def __init__(self, steps=()):
        vfs.Plan.__init__(self)
        self.steps = dict(steps)
        self.done = 0

    def tick(self, kind, name):
        step = None if self.off else self.steps.get(self.n)
        if step:
            self.off = True
            step()
            self.off = False
            self.done += 1
        vfs.Plan.tick(self, kind, name)


OTHER = spec.payload('text', 80000, salt=5)


def other(n):
    return OTHER[:n]


class Scenario(object):
    """name: the file the environment changes; content: what is in it."""
    name = 'in.bin'
    makes_archive = True

    def __init__(self, ck, n, chunk):
        self.ck, self.n, self.chunk = ck, n, chunk
        self.data = spec.payload('noise', n, salt=1)
        self.files = self.make()
        self.content = self.files[self.name]

    def make(self):
        return {'in.bin': self.data}

    def prepare(self):
        for name in os.listdir('.'):
            if os.path.isfile(name):
                os.unlink(name)
        for name, content in self.files.items():
            bp.write(name, content)

    def sizes(self):
        n, c = len(self.content), self.chunk
        near = [0, c, 2 * c, n // 2, n - 1, n + 1, n + c, n + 10000]
        return sorted({s for q in near for s in (q - 1, q, q + 1) if s >= 0} - {n})

    def actions(self):
        name, n = self.name, len(self.content)
        for s in self.sizes():
            yield 'size %d' % s, lambda s=s: self.resize(s)
        for s in (0, n // 3, n - 1):
            if self.makes_archive or self.ck != 'None':
                yield 'cut to %d and filled up' % s, lambda s=s: (os.path.exists(name) and (os.truncate(name, s), os.truncate(name, n)))
        yield 'deleted', lambda: os.path.exists(name) and os.unlink(name)
        for s in (n // 2, n, n + 100):
            if self.makes_archive:
                yield 'replaced by another of %d bytes' % s, lambda s=s: (bp.write('other', other(s)), os.rename('other', name))

    def resize(self, s):
        if os.path.exists(self.name):
            now = os.path.getsize(self.name)
            if s <= now:
                os.truncate(self.name, s)
            else:
                n = len(self.content)
                with vfs._open(self.name, 'ab') as fp:
                    fp.write((self.content + OTHER[n:s])[now:s])

    def sources(self, label):
        n = len(self.content)
        if 'cut to' in label:
            return None
        out = [self.content + OTHER[n:]]
        if 'replaced' in label:
            out.append(other(n + 100))
        if 'size' in label and 'replaced' in label:
            return None
        return out

    def failed(self, what, ctx):
        pass


class PackFile(Scenario):
    def go(self):
        return bp.file_io.pack_file_to_file('in.bin', 'out.blp', self.chunk, META, bp.blosc_args(BA),
                                            bp.bloscpack_args((True, self.ck, 3)))

    def verify(self, r, label, what):
        a = consistent(bp.read('out.blp'), self.sources(label), what)
        require(a.meta.value == META, '%s: metadata %s', what, short(a.meta.value))


class PackPlain(PackFile):
    def go(self):
        return bp.file_io.pack_file('in.bin', 'out.blp', self.chunk, META, bp.blosc_args(BA),
                                    bp.bloscpack_args((False, self.ck, 0)))


class Compress(PackFile):
    def go(self):
        bp.write('meta', b'{"k": "v"}')
        return command('compress', '-k', self.ck, '-z', str(self.chunk), '-l', '0', '-m', 'meta', 'in.bin', 'out.blp')


class Append(Scenario):
    settings = BA

    def make(self):
        before = hist.Config(self.n, self.chunk, self.ck, 6, META, 40, 8, self.ck, 'None', BA).build()
        self.new = spec.payload('noise', self.chunk + 9 if self.chunk > 5000 else 3 * self.chunk + 9, salt=8)
        self.case = Case(before, self.new, None)
        return {'orig.blp': before, 'in.bin': self.new}

    def go(self):
        return bp.append_file('orig.blp', 'in.bin', hist.settings_arg(BA, 'dict'))

    def verify(self, r, label, what):
        a = consistent(bp.read('orig.blp'), self.sources(label), what, self.data)
        require(a.meta.value == META, '%s: metadata %s', what, short(a.meta.value))

    def failed(self, what, ctx):
        s = bp.read('orig.blp')
        if self.ck == 'None':
            return
        c = self.case
        r = call(bp.unpack, s)
        require(s[32:c.a.offsets_pos] == c.before[32:c.a.offsets_pos], '%s: the metadata changed', what)
        require(s[c.a.chunks_pos:c.protected] == c.before[c.a.chunks_pos:c.protected], '%s: a chunk before the last one changed', what)
        if r.ok:
            require(len(r.value[0]) >= c.kept and r.value[0].startswith(c.old[:c.kept]), '%s: unpacks to %s', what, short(r.value[0]))


class AppendSqueeze(Append):
    def make(self):
        files = Append.make(self)
        room = self.case.a.chunk_size - self.case.a.sizes[-1]
        self.new = files['in.bin'] = self.new[:min(room, 9000)]
        self.case = Case(files['orig.blp'], self.new, None)
        return files


class AppendCommand(Append):
    def go(self):
        return command('append', '-l', '0', 'orig.blp', 'in.bin')


class UnpackFile(Scenario):
    name = 'in.blp'
    makes_archive = False

    def make(self):
        return {'in.blp': hist.Config(self.n, self.chunk, self.ck, 6, META, 40, 8, self.ck, 'None', BA).build()}

    def go(self):
        return bp.file_io.unpack_file_from_file('in.blp', 'out.bin')

    def verify(self, r, label, what):
        got = bp.read('out.bin')
        require(got == self.data, '%s: unpacked %s', what, short(got))
        if r is not NotImplemented:
            require(r == META, '%s: metadata %s', what, short(r))


class UnpackBytes(UnpackFile):
    def go(self):
        return bp.file_io.unpack_bytes_from_file('in.blp')

    def verify(self, r, label, what):
        require(r == (self.data, META), '%s: returned %s', what, short(r))


class UnpackArray(UnpackFile):
    def make(self):
        return {'in.blp': bp.numpy_io.pack_ndarray_to_bytes(np.frombuffer(self.data, 'u1'), self.chunk, bp.blosc_args(BA),
                                                            bp.bloscpack_args((True, self.ck, 1)))}

    def go(self):
        return bp.numpy_io.unpack_ndarray_from_file('in.blp')

    def verify(self, r, label, what):
        require(r.tobytes() == self.data, '%s: returned %s', what, short(r))


class Decompress(UnpackFile):
    def go(self):
        return command('decompress', 'in.blp', 'out.bin')


def command(*argv):
    status, out, err, exc = bp.run_cli(list(argv))
    if status:
        raise exc if isinstance(exc, Exception) else RuntimeError('exit status %s: %s' % (status, err[-200:]))
    return NotImplemented


SCENARIOS = {'pack_file_to_file': PackFile, 'pack_file': PackPlain, 'append': Append, 'append into last chunk': AppendSqueeze,
             'unpack_file_from_file': UnpackFile, 'unpack_bytes_from_file': UnpackBytes, 'unpack_ndarray_from_file': UnpackArray,
             'blpk compress': Compress, 'blpk append': AppendCommand, 'blpk decompress': Decompress}


def paths(name):
    """(what, input, output) for the same file called name in the working directory."""
    os.mkdir('d')
    os.symlink(os.path.join('..', name), 'd/link' + os.path.splitext(name)[1])
    os.symlink(name, 'sym' + os.path.splitext(name)[1])
    os.link(name, 'hard' + os.path.splitext(name)[1])
    os.symlink('.', 'here')
    ext = os.path.splitext(name)[1]
    ways = [name, './' + name, 'd/../' + name, os.path.abspath(name), 'sym' + ext, 'd/link' + ext, 'hard' + ext, 'here/' + name]
    for i, a in enumerate(ways):
        for j, b in enumerate(ways):
            if not i or not j or i == j or (i + j) % 3 == 0:
                yield '%s and %s' % (a if not os.path.isabs(a) else 'absolute', b if not os.path.isabs(b) else 'absolute'), a, b


def self_append(a, b, chunk, ck):
    return bp.append_file(a, b, hist.settings_arg(BA, 'dict'))


SELF = {
    'pack_file_to_file': lambda a, b, chunk, ck: bp.file_io.pack_file_to_file(a, b, chunk, None, bp.blosc_args(BA), bp.bloscpack_args((True, ck, 3))),
    'pack_file': lambda a, b, chunk, ck: bp.file_io.pack_file(a, b, chunk, None, bp.blosc_args(BA), bp.bloscpack_args((False, ck, 0))),
    'unpack_file_from_file': lambda a, b, chunk, ck: bp.file_io.unpack_file_from_file(a, b),
    'unpack_file': lambda a, b, chunk, ck: bp.file_io.unpack_file(a, b),
    'append': self_append,
    'blpk compress': lambda a, b, chunk, ck: command('-f', 'compress', '-k', ck, '-z', str(chunk), '-l', '0', a, b),
    'blpk decompress': lambda a, b, chunk, ck: command('-f', 'decompress', a, b),
    'blpk append': lambda a, b, chunk, ck: command('append', '-l', '0', a, b),
}


def same(op, ck, sizes, ctx):
    """The input is the output: the call is refused and changes nothing, or does it properly."""
    archive = 'pack_file' not in op and 'compress' not in op.split()
    name = 'f.blp' if archive else 'f.bin'
    for n in sizes:
        for chunk in (16, 1024, 20000):
            if not n and archive:
                continue
            data = spec.payload('noise', n, salt=1)
            content = hist.Config(n, chunk, ck, 6, None, None, 8, ck, 'None', BA).build() if archive else data
            old = hist.parse(content, 'before').content if archive else None
            top = os.getcwd()
            os.mkdir('w')
            os.chdir('w')
            try:
                bp.write(name, content)
                for way, a, b in paths(name):
                    r = call(SELF[op], a, b, chunk, ck)
                    after = bp.read(name)
                    what = '%s of a file of %d bytes (%d in chunks of %d, %s) onto itself (%s)' % (op, len(content), n, chunk, ck, way)
                    ctx.count('evaluations')
                    ctx.nontrivial(op, ck, n, chunk, way)
                    ctx.outcome('onto itself: %s' % ('done' if r.ok else type(r.exc).__name__))
                    if not r.ok:
                        require(after == content, '%s: was refused (%s), but the file changed to %s', what, r, short(after))
                    elif op.endswith('append'):
                        require(consistent(after, None, what).content == old + content, '%s: reported success, content is not that of both', what)
                    elif archive:
                        require(after == old, '%s: reported success, but the file is %s', what, short(after))
                    else:
                        require(hist.parse(after, what).content == content, '%s: reported success, but holds other data', what)
                    left = sorted(os.listdir('.'))
                    ext = os.path.splitext(name)[1]
                    require(left == sorted(['d', name, 'sym' + ext, 'hard' + ext, 'here']), '%s: left %s', what, left)
                    bp.write(name, content)
            finally:
                os.chdir(top)
                for sub in ('w/d', 'w'):
                    for f in os.listdir(sub):
                        if not os.path.isdir(os.path.join(sub, f)) or os.path.islink(os.path.join(sub, f)):
                            os.unlink(os.path.join(sub, f))
                    os.rmdir(sub)


@contextlib.contextmanager
def unprivileged():
    """The devices are out of reach of whatever the library does besides writing to them."""
    os.seteuid(65534)
    try:
        yield
    finally:
        os.seteuid(0)


class Pipe(object):
    """A thread at the other end of a named pipe."""

    def __init__(self, name, data=None):
        os.mkfifo(name, 0o666)
        os.chmod(name, 0o666)
        self.name, self.data, self.stop, self.got = name, data, False, b''
        self.thread = threading.Thread(target=self.feed if data is not None else self.drain)
        self.thread.daemon = True
        self.thread.start()

    def feed(self):
        data = self.data
        while not self.stop:
            try:
                fd = os.open(self.name, os.O_WRONLY | os.O_NONBLOCK)
            except OSError as e:
                if e.errno != errno.ENXIO:
                    return
                time.sleep(0.0005)
                continue
            try:
                os.set_blocking(fd, True)
                if data:
                    os.write(fd, data)
            except OSError:
                pass
            finally:
                os.close(fd)
            data = b''

    def drain(self):
        fd = os.open(self.name, os.O_RDONLY | os.O_NONBLOCK)
        while True:
            last = self.stop
            try:
                b = os.read(fd, 1 << 16)
            except BlockingIOError:
                b = b''
            self.got += b
            if not b:
                if last:
                    break
                time.sleep(0.0005)
        os.close(fd)

    def end(self):
        self.stop = True
        self.thread.join(20)
        os.unlink(self.name)
        return self.got


INPUTS = {'pipe 0': b'', 'pipe 1': b'x', 'pipe 50': spec.payload('noise', 50, salt=1), 'pipe 40000': spec.payload('noise', 40000, salt=1),
          '/proc/version': None, '/proc/self/cmdline': None, '/dev/null': None, '/dev/zero': None, 'link': '/proc/filesystems'}
SPECIAL_IN = {
    'pack_file_to_file': lambda i, ck: bp.file_io.pack_file_to_file(i, 'out.blp', 16, META, bp.blosc_args(BA), bp.bloscpack_args((True, ck, 3))),
    'pack_file': lambda i, ck: bp.file_io.pack_file(i, 'out.blp', 1000, None, bp.blosc_args(BA), bp.bloscpack_args((False, ck, 0))),
    'append': lambda i, ck: bp.append_file('orig.blp', i, hist.settings_arg(BA, 'dict')),
    'blpk compress': lambda i, ck: command('compress', '-k', ck, '-l', '0', i, 'out.blp'),
    'blpk append': lambda i, ck: command('append', '-l', '0', 'orig.blp', i),
}
SPECIAL_OUT = {
    'pack_file_to_file': lambda o: bp.file_io.pack_file_to_file('in.bin', o, 1000, META, bp.blosc_args(BA)),
    'pack_bytes_to_file': lambda o: bp.file_io.pack_bytes_to_file(bp.read('in.bin'), o, 1000, META, bp.blosc_args(BA)),
    'pack_ndarray_to_file': lambda o: bp.numpy_io.pack_ndarray_to_file(np.fromfile('in.bin', 'u1'), o, 1000),
    'unpack_file_from_file': lambda o: bp.file_io.unpack_file_from_file('in.blp', o),
    'blpk compress': lambda o: command('-f', 'compress', '-l', '0', 'in.bin', o),
    'blpk decompress': lambda o: command('-f', 'decompress', 'in.blp', o),
}


@contextlib.contextmanager
def scratch(ctx):
    top, d = os.getcwd(), ctx.path('special')
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    os.chdir(d)
    try:
        yield
    finally:
        for name in os.listdir('.'):
            os.unlink(name)
        os.chdir(top)


def special(op, inp, ck, ctx):
    """The size of the input, as the kernel tells it, is 0."""
    appends = op.endswith('append')
    with scratch(ctx):
        for n, chunk in ((1, 8), (8, 8), (20, 8), (50, 1000)):
            data = spec.payload('noise', n, salt=1)
            before = hist.Config(n, chunk, ck, 6, META, 40, 8, ck, 'None', BA).build()
            bp.write('orig.blp', before)
            os.chmod('orig.blp', 0o666)
            if op.startswith('pack') and n % 2:
                bp.write('out.blp', before)
                os.chmod('out.blp', 0o666)
            pipe = None
            name = inp
            if inp.startswith('pipe'):
                name = 'in.fifo'
                pipe = Pipe(name, INPUTS[inp])
                content = INPUTS[inp]
            elif inp == '/dev/zero':
                content = None
            else:
                if inp == 'link':
                    name = 'to_proc'
                    if not os.path.lexists(name):
                        os.symlink(INPUTS[inp], name)
                with open(name, 'rb') as fp:
                    content = fp.read()
            try:
                with unprivileged():
                    r = call(SPECIAL_IN[op], name, ck)
            finally:
                if pipe:
                    pipe.end()
            what = '%s of %s (%s, %d bytes in chunks of %d before)' % (op, inp, ck, n, chunk)
            ctx.count('evaluations')
            ctx.nontrivial(op, inp, ck, n)
            ctx.outcome('input of unknown size: %s' % ('complete' if r.ok else type(r.exc).__name__))
            if not r.ok:
                require(content != b'' or isinstance(r.exc, (IOError, RuntimeError)), '%s: %s', what, r)
                require(bp.read('orig.blp') == before, '%s: was refused (%s) but changed the archive', what, r)
            else:
                got = must(bp.unpack, bp.read('orig.blp' if appends else 'out.blp'))[0]
                require(content is not None, '%s: reported success, content is %s', what, short(got))
                require(got == (data if appends else b'') + content, '%s: reported success, content is %s', what, short(got))
            if os.path.exists('out.blp'):
                os.unlink('out.blp')


def device(op, out, n, ctx):
    """The output is not a regular file."""
    data = spec.payload('noise', n, salt=1)
    with scratch(ctx):
        bp.write('in.bin', data)
        bp.write('in.blp', hist.Config(n, 1000, 'crc32', 6, META, 40, 8, 'crc32', 'None', BA).build())
        os.symlink('/dev/' + out, 'device.blp')
        name, pipe = 'device.blp', None
        if out == 'pipe':
            name = 'out.fifo'
            pipe = Pipe(name)
        try:
            with unprivileged():
                r = call(SPECIAL_OUT[op], name)
        finally:
            got = pipe.end() if pipe else None
        what = '%s of %d bytes to %s' % (op, n, out)
        ctx.count('evaluations')
        ctx.nontrivial(op, out, n)
        ctx.outcome('to %s: %s' % (out, 'done' if r.ok else type(r.exc).__name__))
        if out == 'null':
            require(r.ok, '%s: %s', what, r)
        elif out == 'full':
            require(not r.ok or not n and 'unpack' in op or not n and 'decompress' in op, '%s: reported success', what)
        elif r.ok:
            if 'unpack' in op or 'decompress' in op:
                require(got == data, '%s: reported success, the reader got %s', what, short(got))
            else:
                require(consistent(got, [data], what).content == data, '%s: reported success, the reader got other data', what)
        require(bp.read('in.bin') == data, '%s: changed its input', what)


class Chunks(bp.abstract_io.PlainSource):
    """A source of somebody else's."""

    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        return iter(self.parts)


SOURCES = {
    'list': lambda parts: bp.memory_io.PlainMemorySource(parts),
    'generator': lambda parts: bp.memory_io.PlainMemorySource(x for x in parts),
    'other': Chunks,
    'array': lambda parts: bp.numpy_io.PlainNumpySource(np.frombuffer(b''.join(parts), 'u1')),
    'items': lambda parts: bp.numpy_io.PlainNumpySource(np.frombuffer(b''.join(parts), '<u2')),
    'file': lambda parts: bp.file_io.PlainFPSource(io.BytesIO(b''.join(parts))),
}


def announced(source, n, deep, size, ctx):
    """What is announced and what the source has need not agree: number and sizes of chunks."""
    whole = source in ('list', 'generator', 'other')
    unit = 2 if source == 'items' else 1
    lens = range(1, deep + 1)
    if whole:
        lots = [c for k in range(n + 3) for c in itertools.product(lens, repeat=k)]
    else:
        lots = [(k,) for k in range((n + 1) * deep * unit + 2) if not k % unit]
    known = [x * unit for x in lens]
    if size == -1 and not whole:
        return
    size *= unit if size > 0 else 1
    for lot in lots:
        parts = [spec.payload('noise', k, salt=1 + i) for i, k in enumerate(lot)]
        data = b''.join(parts)
        for last in known + ([-1] if whole else [1]):
            if size != -1 and last > size:
                continue
            for off, ts in itertools.product((True, False), (1, 2, 8)):
                what = 'pack of %d chunks of %d, the last of %d, announced; %s of %s, type size %d' % (n, size, last, source, list(lot), ts)
                out = io.BytesIO()
                sinks = [bp.file_io.CompressedFPSink(out), bp.memory_io.CompressedMemorySink()]
                res = []
                for sink in sinks:
                    res.append(call(bp.abstract_io.pack, SOURCES[source](parts), sink, n, size, last, META,
                                    blosc_args=bp.blosc_args((ts,) + BA[1:]), bloscpack_args=bp.bloscpack_args((off, 'crc32', 2 if off else 0))))
                r = res[0]
                ctx.count('evaluations')
                require(res[0].ok == res[1].ok, '%s: to a file %s, to memory %s', what, res[0], res[1])
                if whole:
                    agree = len(lot) == n and all(e in (-1, k) for e, k in zip([size] * (n - 1) + [last], lot))
                else:
                    # Blosc would take type size times the number of items from memory
                    agree = size * (n - 1) + last <= len(data) and not last % unit and (ts == unit or source == 'file')
                require(r.ok == agree, '%s: %s', what, r)
                ctx.outcome('%s: %s' % ('as announced' if agree else 'not as announced', 'done' if r.ok else type(r.exc).__name__))
                ctx.nontrivial(source, n, lot, size, last, off, ts)
                if not r.ok:
                    continue
                expected = parts if whole else [data[i * size:i * size + (last if i == n - 1 else size)] for i in range(n)]
                a = hist.parse(out.getvalue(), what)
                require(a.sizes == [len(x) for x in expected], '%s: chunks of %s', what, a.sizes)
                require((a.chunk_size, a.last_chunk, a.nchunks) == (size, last, n), '%s: header %s', what, (a.chunk_size, a.last_chunk, a.nchunks))
                require(must(bp.unpack, out.getvalue()) == (b''.join(expected), META), '%s: unpacks to something else', what)
                back = bp.memory_io.PlainMemorySink(n)
                must(bp.abstract_io.unpack, bp.memory_io.CompressedMemorySource(sinks[1]), back)
                require(back.chunks == expected, '%s: from memory %s', what, short(back.chunks))


def attempt(s, steps, label, what, ctx):
    s.prepare()
    with vfs.patched(Env(steps)) as env:
        r = call(s.go)
    ctx.count('evaluations')
    w = '%s; input %s' % (what, label)
    if r.ok:
        s.verify(r.value, label, w)
    else:
        s.failed(w, ctx)
    ctx.outcome('%s: %s' % (label.split(' ')[0] if len(steps) == 1 else 'two changes', 'complete' if r.ok else type(r.exc).__name__))
    if env.done == len(steps):
        ctx.nontrivial(ctx.case[:5], label)


def run(case, ctx):
    g = case[0]
    if g == 'fp-pack':
        _, chunk, off, top = case
        for n in range(top):
            data = spec.payload('noise', n + 20, salt=1)
            chunking = spec.chunking(n, chunk)
            for have in range(n + 12):
                out = io.BytesIO()
                what = 'pack of %d announced bytes in chunks of %d, %d there' % (n, chunk, have)
                src = io.BytesIO(b'skip' + data[:have])
                src.seek(4)
                r = call(bp.abstract_io.pack, bp.file_io.PlainFPSource(src), bp.file_io.CompressedFPSink(out), *chunking,
                         blosc_args=bp.blosc_args(BA), bloscpack_args=bp.bloscpack_args((off, 'crc32', 2 if off else 0)))
                ctx.count('evaluations')
                if have >= n:
                    require(r.ok, '%s: %s', what, r)
                if r.ok:
                    a = consistent(out.getvalue(), [data[:have]], what)
                    require(a.content == data[:min(have, n)], '%s: content is %s', what, short(a.content))
                ctx.nontrivial(chunk, off, n, have)
                ctx.outcome('enough' if have >= n else 'too little: %s' % ('kept consistent' if r.ok else type(r.exc).__name__))
        return
    if g == 'same':
        return same(*(case[1:] + [ctx]))
    if g == 'special':
        return special(*(case[1:] + [ctx]))
    if g == 'announced':
        return announced(*(case[1:] + [ctx]))
    if g == 'device':
        return device(*(case[1:] + [ctx]))
    if g == 'fp-append':
        _, have_before, chunk, ck, meta, top = case
        before = hist.Config(have_before, chunk, ck, 9, META if meta else None, 40 if meta else None, 8, 'adler32', 'None', BA).build()
        a = spec.parse(before)
        room = chunk - a.sizes[-1]
        for n in range(top):
            data = spec.payload('noise', n + 20, salt=8)
            c = Case(before, data[:n], None)
            for have in range(n + 10):
                what = 'append of %d announced bytes to %d in chunks of %d, %d there' % (n, have_before, chunk, have)
                fp, new = io.BytesIO(before), io.BytesIO(b'skip' + data[:have])
                new.seek(4)
                r = call(bp.append_fp, fp, new, n, hist.settings_arg(BA, 'args' if n % 2 else 'dict'))
                after = fp.getvalue()
                ctx.count('evaluations')
                ctx.nontrivial(have_before, ck, meta, n, have)
                if have >= n:
                    require(r.ok, '%s: %s', what, r)
                    hist.check_append(data[:n], a, before, after, r.value, BA, what)
                elif r.ok:
                    b = consistent(after, None, what)
                    require(b.content == a.content + data[:have], '%s: content is %s', what, short(b.content))
                elif have < min(n, room):
                    require(after == before, '%s: was refused (%s) but changed the archive', what, type(r.exc).__name__)
                elif ck != 'None':
                    c.check(after, what, ctx)
                ctx.outcome('enough' if have >= n else 'too little: %s' % ('kept consistent' if r.ok else type(r.exc).__name__))
        return
    _, name, ck, n, chunk, part, depth = case
    s = SCENARIOS[name](ck, n, chunk)
    s.prepare()
    with vfs.patched(Env()) as env:
        r = must(s.go)
    nops = env.n
    s.verify(r, 'left alone', name)
    what = '%s (%s, %d bytes in chunks of %d)' % (name, ck, n, chunk)
    for at in range(part, nops, CUT):
        op = '%s %s' % env.ops[at]
        for label, act in s.actions():
            if depth == 1:
                attempt(s, [(at, act)], '%s before operation %d (%s)' % (label, at, op), what, ctx)
                continue
            for at2 in range(at + 1, nops):
                for label2, act2 in s.actions():
                    if 'replaced' in label + label2 and 'deleted' not in label2:
                        continue
                    attempt(s, [(at, act), (at2, act2)], '%s before operation %d (%s), %s before %d' % (label, at, op, label2, at2), what, ctx)
    ctx.sample({'case': case, 'operations': ['%s %s' % o for o in env.ops[:40]]})
