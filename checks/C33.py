import io
import itertools
import math

import numpy as np

from mc import bp, hist, spec, vfs
from mc.core import call, must, require, short

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('Interleavings of one reader and one writer on the same archive. The writer (an append, a metadata rewrite, several of these in a row, a pack into a '
        'new file) is recorded as the sequence of its writes and truncations, each of them in one piece or (torn, in the middle or before its last byte) in two; the reader (unpack to bytes, to memory, '
        'of an array, one read of the beginning) performs its reads on the same bytes. Every schedule in which the writer proceeds in at most as many bursts between reads as give '
        'no more than 4000 (thorough: 40000) schedules, at least one; small cases: any number. Oracle: the reader fails, or gets metadata the archive has had at one of the '
        'times it was in order, and content which is that of the start or an extension of it towards that of the end. '
        'Non-trivial: distinct (writer, reader, schedule).')
ASSUMPTIONS = ['a read or write call of the library is one step (torn: a write is two)', 'archives with checksums, but for pack', 'one writer']
BLOCK = 1
META, META2, META3 = {"a": 1}, {"b": [2, "x" * 9]}, "other"


class Disk(object):
    def __init__(self, content):
        self.content = bytearray(content)

    def apply(self, step):
        c = self.content
        if step[0] == 'truncate':
            del c[step[2]:]
            c.extend(b'\0' * (step[2] - len(c)))
            return
        _, _, pos, data = step
        if len(c) < pos:
            c.extend(b'\0' * (pos - len(c)))
        c[pos:pos + len(data)] = data


class Reader(io.RawIOBase):
    """Reads the disk; lets the writer go ahead as the schedule says before each read."""

    def __init__(self, disk, steps, schedule):
        self.disk, self.steps, self.schedule = disk, steps, schedule
        self.pos = self.reads = self.done = 0

    def turn(self):
        n = self.schedule.get(self.reads, 0)
        for s in self.steps[self.done:self.done + n]:
            self.disk.apply(s)
        self.done += n
        self.reads += 1

    def read(self, n=-1):
        self.turn()
        end = len(self.disk.content) if n is None or n < 0 else self.pos + n
        b = bytes(self.disk.content[self.pos:end])
        self.pos += len(b)
        return b

    def readinto(self, b):
        got = self.read(len(b))
        b[:len(got)] = got
        return len(got)

    def seek(self, pos, whence=0):
        if whence == 2:
            self.turn()
        self.pos = pos + (0, self.pos, len(self.disk.content))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readable(self):
        return True

    def seekable(self):
        return True


def to_bytes(fp):
    out = io.BytesIO()
    source = bp.file_io.CompressedFPSource(fp)
    bp.abstract_io.unpack(source, bp.file_io.PlainFPSink(out))
    return out.getvalue(), source.metadata


def to_memory(fp):
    source = bp.file_io.CompressedFPSource(fp)
    sink = bp.memory_io.PlainMemorySink(source.nchunks)
    bp.abstract_io.unpack(source, sink)
    return b''.join(sink.chunks), source.metadata


def to_array(fp):
    source = bp.file_io.CompressedFPSource(fp)
    return bp.numpy_io.unpack_ndarray(source).tobytes(), source.metadata


def beginning(fp):
    return None, bp.file_io._read_beginning(fp)[1]


READERS = {'bytes': to_bytes, 'memory': to_memory, 'beginning': beginning, 'array': to_array}


class Writer(object):
    """before: what is on the disk; steps; metas: the metadata of every state in order; start, end: contents."""

    def __init__(self, before, actions, torn):
        plan = vfs.Plan()
        fp = vfs.RecFile(plan, 'f', before or b'')
        self.before = before or b''
        self.metas = []
        self.start = b''
        self.exact = before is None
        if before is not None:
            self.start, m = must(bp.unpack, before)
            self.metas.append(m)
        for a in actions:
            fp.seek(0)
            must(a, fp)
            self.end, m = must(bp.unpack, fp.content())
            self.metas.append(m)
        self.after = fp.content()
        self.steps = []
        for s in plan.log:
            if torn and s[0] == 'write' and len(s[3]) > 1:
                k = len(s[3]) // 2 if torn == 'half' else len(s[3]) - 1
                self.steps += [('write', s[1], s[2], s[3][:k]), ('write', s[1], s[2] + k, s[3][k:])]
            elif s[0] != 'write' or s[3]:
                self.steps.append(s)
        disk = Disk(self.before)
        for s in self.steps:
            disk.apply(s)
        require(bytes(disk.content) == self.after, 'HARNESS: the recorded writes do not lead to the result')


def appending(data, settings=None):
    return lambda fp: bp.append_fp(fp, io.BytesIO(data), len(data), hist.settings_arg(settings, 'dict'))


def rewriting(meta, **kw):
    def go(fp):
        fp.seek(32)
        return bp.rewrite_fp(fp, meta, **kw)
    return go


def packing(data, chunk, ck, meta, off):
    def go(fp):
        bp.abstract_io.pack(bp.file_io.PlainFPSource(io.BytesIO(data)), bp.file_io.CompressedFPSink(fp), *spec.chunking(len(data), chunk),
                            metadata=meta, blosc_args=bp.blosc_args((1, 5, 1, 'lz4')), bloscpack_args=bp.bloscpack_args((off, ck, 3 if off else 0)))
    return go


def packing_array(ck, off):
    a = np.arange(40, dtype='<u2').reshape(5, 8)

    def go(fp):
        bp.numpy_io.pack_ndarray(a, bp.file_io.CompressedFPSink(fp), chunk_size=32, bloscpack_args=bp.bloscpack_args((off, ck, None)))
    return go


def text(n, salt):
    return spec.payload('text', n, salt=salt)


def writers(ck):
    """name -> (archive before or None, actions)"""
    def cfg(size, chunk, meta=META):
        return hist.Config(size, chunk, ck, 9, meta, 60 if meta is not None else None, 8, 'adler32' if ck != 'sha1' else 'sha512').build()
    noise = spec.payload('noise', 60, salt=3)
    w = {}
    for size, chunk in ((20, 8), (24, 8), (5, 40)):
        for add in (1, 4, 13, 40):
            w['append %d to %d in %d' % (add, size, chunk)] = (cfg(size, chunk), [appending(text(add, 4))])
        w['append noise to %d in %d' % (size, chunk)] = (cfg(size, chunk), [appending(noise, (1, 0, 0, 'blosclz'))])
        w['append twice to %d in %d' % (size, chunk)] = (cfg(size, chunk), [appending(text(3, 4)), appending(text(9, 5))])
        w['append, rewrite, append to %d in %d' % (size, chunk)] = (
            cfg(size, chunk), [appending(text(3, 4)), rewriting(META2), appending(text(2, 5))])
    w['append to no metadata'] = (cfg(20, 8, None), [appending(text(13, 4))])
    w['rewrite'] = (cfg(20, 8), [rewriting(META2)])
    w['rewrite twice'] = (cfg(20, 8), [rewriting(META2), rewriting(META3)])
    w['rewrite other options'] = (cfg(20, 8), [rewriting(META2, checksum='crc32' if ck != 'sha1' else 'sha512', codec='zlib', level=9)])
    w['rewrite there and back'] = (cfg(20, 8), [rewriting(META2), rewriting(META)])
    for a, b in ((12, 3456), (3456, 12), (True, [True]), ([], {}), ("x" * 9, "x")):
        w['rewrite %r to %r' % (a, b)] = (cfg(9, 8, a), [rewriting(b)])
        w['rewrite %r to %r and back' % (a, b)] = (cfg(9, 8, a), [rewriting(b, codec='zlib'), rewriting(a)])
    w['rewrite, append'] = (cfg(20, 8), [rewriting(META2), appending(text(5, 4))])
    return w


def packers():
    w = {}
    for ck in ('None', 'crc32', 'sha512'):
        for off in (True, False):
            for meta in (None, META):
                for size, chunk in ((1, 8), (20, 8), (24, 8), (50, 100)):
                    w['pack %d in %d, %s, %s, %s' % (size, chunk, ck, off, meta)] = (None, [packing(spec.payload('noise', size), chunk, ck, meta, off)])
            w['pack an array, %s, %s' % (ck, off)] = (None, [packing_array(ck, off)])
    return w


CHECKSUMS = ('crc32', 'sha1')


BUDGET = {'quick': 4000, 'thorough': 40000}


def cases(tier):
    deep = tier == 'thorough'
    for ck in CHECKSUMS if not deep else spec.CHECKSUMS[1:]:
        for name in sorted(writers(ck)):
            for reader in ('bytes', 'memory', 'beginning'):
                for torn in ('', 'half', 'end'):
                    yield ['update', ck, name, reader, torn, BUDGET[tier]]
    for name in sorted(packers()):
        for reader in ('array' if 'array' in name else 'bytes', 'memory', 'beginning'):
            for torn in ('', 'half', 'end'):
                yield ['pack', '', name, reader, torn, BUDGET[tier]]


def bound(reads, steps, budget):
    """The largest number of bursts for which there are no more schedules than the budget."""
    total = 0
    for k in range(min(reads, steps) + 1):
        total += math.comb(reads, k) * math.comb(steps, k)
        if total > budget and k > 1:
            return k - 1
    return min(reads, steps)


def schedules(reads, steps, bursts):
    """{read: writes before it} for every way of spreading a prefix of the writes over at most `bursts` reads."""
    for k in range(bursts + 1):
        for at in itertools.combinations(range(reads), k):
            for ends in itertools.combinations(range(1, steps + 1), k):
                yield dict(zip(at, [b - a for a, b in zip((0,) + ends, ends)]))


def run(case, ctx):
    g, ck, name, reader, torn, budget = case
    w = Writer(*((writers(ck) if g == 'update' else packers())[name] + (torn,)))
    read = READERS[reader]
    # the number of reads depends on what is read: go by the longer of both ends, later ones change nothing
    reads = 0
    for content in (w.before, w.after):
        fp = Reader(Disk(content), [], {})
        call(read, fp)
        reads = max(reads, fp.reads)
    n = 0
    bursts = bound(reads, len(w.steps), budget)
    for schedule in schedules(reads, len(w.steps), bursts):
        disk = Disk(w.before)
        fp = Reader(disk, w.steps, schedule)
        r = call(read, fp)
        n += 1
        if not r.ok:
            ctx.outcome('%s: %s' % (g, type(r.exc).__name__))
            continue
        content, meta = r.value
        what = '%s (%s) read as %s, writes before the reads %s of %d%s' % (name, ck, reader, schedule, len(w.steps), ', torn at its %s' % torn if torn else '')
        require(any(meta == m and type(meta) is type(m) for m in w.metas), '%s: metadata %s, was %s', what, short(meta), short(w.metas))
        if content is not None:
            if w.exact:
                require(content == w.end, '%s: content is %s', what, short(content))
            else:
                require(w.end.startswith(content) and len(content) >= len(w.start), '%s: content is %s', what, short(content))
        ctx.outcome('%s: %s' % (g, 'content of the start' if content == w.start else 'of the end' if content == w.end else
                               'between' if content is not None else 'metadata'))
    ctx.count('schedules', n)
    ctx.outcome('explored with at most %s' % ('%d bursts' % bursts if bursts < min(reads, len(w.steps)) else 'any number of bursts'))
    ctx.count('evaluations', n)
    for i in range(n):
        ctx.nontrivial(case, i)
    ctx.sample({'case': case, 'reads': reads, 'writes': len(w.steps), 'bursts': bursts, 'schedules': n})
