import builtins
import contextlib
import gc
import io
import os
import struct
import tracemalloc

import numpy as np

from mc import bp, hist, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('every read, write and seek of an operation on instrumented file objects is an event; after each event of every operation of a product '
        '(operation x chunk count x chunk size x last chunk x checksum x offsets x reservation x metadata) the monitor checks: the transfer '
        'is at most 4 chunks; the input is at most 4 chunks ahead of what is in the output; an append or rewrite or info touches only the '
        'ranges of the archive that it may. peak: the traced memory peak of an operation with many chunks exceeds that with few by '
        'less than 4 chunks. inside: an archive that begins at every position of a list in a file object that holds other data, or another '
        'archive, before it: every operation leaves that alone, and does the same as at position 0. Non-trivial: distinct (operation, archive, position) triples of events.')
ASSUMPTIONS = ['memory allocated by Python objects (tracemalloc); the compression library and the kernel are not seen']
BLOCK = 2
AHEAD = 4
CHUNK = 6000
METAS = [None, {"a": 1}, {"k": "x" * 300}]


def cases(tier):
    deep = tier == 'thorough'
    for n in list(range(1, 14)) + [20, 40, 100] + ([300] if deep else []):
        for last in (1, CHUNK // 2, CHUNK):
            for ck in ('None', 'adler32', 'sha512') if not deep else spec.CHECKSUMS:
                for off, app in ((True, 0), (True, 3), (True, None), (False, 0)):
                    yield ['pack', n, last, ck, off, app]
                    yield ['unpack', n, last, ck, off, app]
    for n in list(range(1, 9)) + [30] + ([200] if deep else []):
        for last in (1, CHUNK // 2, CHUNK):
            for ck in ('None', 'sha1'):
                for extra in (0, 1, CHUNK // 2, CHUNK, CHUNK + 1, 7 * CHUNK + 5, 30 * CHUNK):
                    for mi in range(3):
                        yield ['append', n, last, ck, extra, mi]
            for ck in ('None', 'sha1', 'crc32'):
                yield ['rewrite', n, last, ck]
    for n in (1, 2, 3, 10, 40):
        for mi in range(3):
            for off in (True, False):
                yield ['files', n, mi, off]
    for pos in ((1, 4, 31, 32, 33, 200, 5000, 70000) if not deep else list(range(1, 80)) + [200, 5000, 70000]):
        for n in (1, 2, 5):
            for off in (True, False):
                for mi in range(3):
                    yield ['inside', pos, n, off, mi]
    for what in PEAKS:
        for kb in (64, 256) + ((1024,) if deep else ()):
            for off in (True, False):
                yield ['peak', what, kb, off]


class Meter(object):
    """A file object that reports its transfers."""

    def __init__(self, fp, name, monitor):
        self.fp, self.name, self.monitor = fp, name, monitor

    def read(self, *a):
        pos = self.fp.tell()
        r = self.fp.read(*a)
        self.monitor('read', self.name, pos, len(r))
        return r

    def readinto(self, b):
        pos = self.fp.tell()
        n = self.fp.readinto(b)
        self.monitor('read', self.name, pos, n)
        return n

    def write(self, b):
        pos = self.fp.tell()
        n = self.fp.write(b)
        self.monitor('write', self.name, pos, len(b))
        return n

    def truncate(self, *a):
        r = self.fp.truncate(*a)
        self.monitor('truncate', self.name, r, 0)
        return r

    def __getattr__(self, name):
        return getattr(self.fp, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.fp.close()

    def __iter__(self):
        return iter(self.fp)


def setting(n, last, off, app, ck, mi):
    data = spec.payload('text', CHUNK * (n - 1) + last)
    chunks = [spec.compress(data[i * CHUNK:(i + 1) * CHUNK], 8, 3, 1, 'lz4') for i in range(n)]
    meta = METAS[mi]
    sec = None if meta is None else spec.meta_section(meta, 'zlib', 6, 'md5', 700)
    return data, spec.build(chunks, sec, 'set' if off else 'none', ck, app if app is not None else 10 * n, 8, CHUNK if n > 1 else last, last)


class Stream(object):
    """The reader may be ahead of the writer by AHEAD chunks."""

    def __init__(self, what, src_bounds, dst_bounds, src_free, dst_free, largest, ctx):
        self.what, self.sb, self.db = what, src_bounds, dst_bounds      # end positions of the chunks
        self.sf, self.df, self.largest, self.ctx = src_free, dst_free, largest, ctx
        self.r = self.w = self.events = 0

    def __call__(self, kind, name, pos, n):
        self.events += 1
        self.ctx.nontrivial(self.what, kind, name, pos)
        if kind == 'truncate':
            return
        if name == 'src':
            require(kind == 'read' or not n, '%s: writes to its input', self.what)
            require(n <= max(self.largest * AHEAD, self.sf), '%s: reads %d bytes at once', self.what, n)
            self.r = max(self.r, pos + n)
        else:
            require(kind == 'read' or n <= max(self.largest * AHEAD, self.df), '%s: writes %d bytes at once', self.what, n)
            if kind == 'write':
                self.w = max(self.w, pos + n)
        read = sum(1 for b in self.sb if b <= self.r)
        written = sum(1 for b in self.db if b <= self.w)
        require(read - written <= AHEAD, '%s: %d chunks have been read when %d are written', self.what, read, written)


def bounds(data_size, n):
    return [min(CHUNK * (i + 1), data_size) for i in range(n)]


class Ranges(object):
    def __init__(self, what, readable, writable, largest, ctx):
        self.what, self.readable, self.writable, self.largest, self.ctx = what, readable, writable, largest, ctx
        self.events = 0

    def __call__(self, kind, name, pos, n):
        if name != 'archive':
            return
        self.events += 1
        self.ctx.nontrivial(self.what, kind, pos)
        if n and kind in ('read', 'write'):
            ok = any(a <= pos and pos + n <= b for a, b in (self.readable if kind == 'read' else self.writable))
            require(ok, '%s: %ss bytes %d to %d; it may only touch %s', self.what, kind, pos, pos + n,
                    self.readable if kind == 'read' else self.writable)
        elif kind == 'truncate':
            require(any(a <= pos for a, b in self.writable if b >= 1 << 60), '%s: truncates at %d', self.what, pos)


@contextlib.contextmanager
def metered_open(names, monitor):
    old, old_io = builtins.open, io.open

    def opener(file, mode='r', *a, **kw):
        f = old(file, mode, *a, **kw)
        name = names.get(os.path.basename(file)) if isinstance(file, str) and 'b' in mode else None
        return f if name is None else Meter(f, name, monitor)
    builtins.open = io.open = opener
    try:
        yield
    finally:
        builtins.open, io.open = old, old_io


def do_pack(src, dst, n, cs, last, ck, off, app, meta):
    bp.abstract_io.pack(bp.file_io.PlainFPSource(src), bp.file_io.CompressedFPSink(dst), n, cs, last, meta,
                        bp.blosc_args((8, 3, 1, 'lz4')), bp.bloscpack_args((off, ck, app)))


def do_unpack(src, dst):
    bp.abstract_io.unpack(bp.file_io.CompressedFPSource(src), bp.file_io.PlainFPSink(dst))


def run(case, ctx):
    g = case[0]
    if g in ('pack', 'unpack'):
        _, n, last, ck, off, app = case
        mi = (n + last) % 3
        data, _ = setting(n, last, off, app, ck, mi)
        cs = CHUNK if n > 1 else last
        out = io.BytesIO()
        must(do_pack, io.BytesIO(data), out, n, cs, last, ck, off, app, METAS[mi])
        final = out.getvalue()
        f = spec.parse(final)
        ends = chunk_ends(f)
        head = f.chunks_pos
        if g == 'pack':
            what = 'packing %d chunks' % n
            m = Stream(what, bounds(len(data), n), ends, 0, head, CHUNK + 200, ctx)
            src, dst = io.BytesIO(data), io.BytesIO()
            must(do_pack, Meter(src, 'src', m), Meter(dst, 'dst', m), n, cs, last, ck, off, app, METAS[mi])
            require(dst.getvalue() == final, 'packing again gives other bytes')
        else:
            what = 'unpacking %d chunks' % n
            m = Stream(what, ends, bounds(len(data), n), head, 0, CHUNK + 200, ctx)
            dst = io.BytesIO()
            must(do_unpack, Meter(io.BytesIO(final), 'src', m), Meter(dst, 'dst', m))
            require(dst.getvalue() == data, 'unpacks to other data')
        require(m.events >= n, 'harness: only %d events', m.events)
        ctx.count('events', m.events)
        ctx.sample({'case': case, 'events': m.events})
    elif g == 'append':
        _, n, last, ck, extra, mi = case
        if n == 1:
            last = CHUNK
        data, raw = setting(n, last, True, 40, ck, mi)
        f = spec.parse(raw)
        start = f.positions[-1]
        new = spec.payload('ints', extra)
        what = 'appending %d bytes to %d chunks' % (extra, n)
        mr = Ranges(what, [(0, f.chunks_pos), (start, 1 << 62)], [(0, 32), (f.offsets_pos, f.chunks_pos), (start, 1 << 62)], CHUNK, ctx)
        big = []

        def monitor(kind, name, pos, size):
            mr(kind, name, pos, size)
            if size > AHEAD * (CHUNK + 200):
                big.append((kind, name, size))
            if name == 'new':
                require(kind == 'read' or not size, '%s: writes to the new data', what)
                monitor.read = max(monitor.read, pos + size)
            elif kind == 'write':
                monitor.written = max(monitor.written, pos + size)
            # everything but the last chunks read must be in the archive
            require(monitor.read < CHUNK * (AHEAD + 1) or monitor.written > start, '%s: %d bytes are read before any is written', what, monitor.read)
        monitor.read = monitor.written = 0
        fp = io.BytesIO(raw)
        must(bp.append_fp, Meter(fp, 'archive', monitor), Meter(io.BytesIO(new), 'new', monitor), extra, bp.blosc_args((8, 3, 1, 'lz4')))
        require(not big, '%s: transfers at once: %s', what, big)
        require(must(bp.unpack, fp.getvalue())[0] == data + new, '%s: unpacks to other data', what)
        require(mr.events > 3, 'harness: no events')
        # chunk by chunk
        g2 = spec.parse(fp.getvalue())
        ends = chunk_ends(g2)[n - 1:]
        room = CHUNK - last
        src_ends = [min(room + CHUNK * i, extra) for i in range(len(ends))]
        m = Stream(what, src_ends, ends, 0, f.chunks_pos, CHUNK + 200, ctx)

        def second(kind, name, pos, size):
            # the header is read first; only chunk data counts as progress
            m(kind, 'src' if name == 'new' else 'dst', pos, size)
        fp = io.BytesIO(raw)
        must(bp.append_fp, Meter(fp, 'archive', second), Meter(io.BytesIO(new), 'new', second), extra, bp.blosc_args((8, 3, 1, 'lz4')))
        ctx.count('events', m.events)
        ctx.sample({'case': case, 'events': m.events})
    elif g == 'rewrite':
        _, n, last, ck = case
        if n == 1:
            last = CHUNK
        for mi in (1, 2):
            data, raw = setting(n, last, True, 4, ck, mi)
            f = spec.parse(raw)
            what = 'rewriting the metadata of %d chunks' % n
            m = Ranges(what, [(0, f.offsets_pos)], [(32, f.offsets_pos)], CHUNK, ctx)
            for new, kw in (({"b": 2}, {}), ({"z": "y" * 500}, {'codec': 'zlib', 'level': 9}), ([1] * 50, {'codec': 'None'})):
                fp = io.BytesIO(raw)
                fp.seek(32)
                must(bp.rewrite_fp, Meter(fp, 'archive', m), new, **kw)
                require(fp.getvalue()[f.offsets_pos:] == raw[f.offsets_pos:], '%s changes other bytes', what)
            require(m.events > 3, 'harness: no events')
            ctx.count('events', m.events)
    elif g == 'inside':
        inside(*(case[1:] + [ctx]))
    elif g == 'files':
        _, n, mi, off = case
        data, raw = setting(n, CHUNK // 2 if n > 1 else CHUNK, off, 40, 'crc32', mi)
        cs = CHUNK
        f = spec.parse(raw)
        d = ctx.path('files')
        os.makedirs(d, exist_ok=True)
        here = os.getcwd()
        os.chdir(d)
        try:
            for name in os.listdir('.'):
                os.unlink(name)
            bp.write('x', data)
            bp.write('x.blp', raw)
            arr = np.frombuffer(data, 'u1')
            kw = dict(blosc_args=bp.blosc_args((8, 3, 1, 'lz4')), bloscpack_args=bp.bloscpack_args((off, 'crc32', 40)))
            must(bp.file_io.pack_file_to_file, 'x', 'ref', CHUNK, METAS[mi], **kw)
            ref = bp.read('ref')
            fr = spec.parse(ref)
            ends = chunk_ends(fr)
            for what, fn, names, sb, db, sf, df in (
                    ('pack_file_to_file', lambda: bp.file_io.pack_file_to_file('x', 'o', CHUNK, METAS[mi], **kw),
                     {'x': 'src', 'o': 'dst'}, bounds(len(data), n), ends, 0, fr.chunks_pos),
                    ('unpack_file_from_file', lambda: bp.file_io.unpack_file_from_file('ref', 'o'),
                     {'ref': 'src', 'o': 'dst'}, ends, bounds(len(data), n), fr.chunks_pos, 0),
                    ('blpk compress', lambda: bp.run_cli(['c', '-z', str(CHUNK), '-t', '8', '-l', '3', '-c', 'lz4', '-k', 'crc32', 'x', 'o.blp']),
                     {'x': 'src', 'o.blp': 'dst'}, bounds(len(data), n), [], 0, fr.chunks_pos),
                    ('blpk decompress', lambda: bp.run_cli(['d', '-e', 'ref', 'o3']),
                     {'ref': 'src', 'o3': 'dst'}, ends, bounds(len(data), n), fr.chunks_pos, 0)):
                if not db:
                    must(fn)
                    o = bp.read('o.blp')
                    db = chunk_ends(spec.parse(o))
                    os.unlink('o.blp')
                m = Stream(what, sb, db, sf, df, CHUNK + 200, ctx)
                with metered_open(names, m):
                    must(fn)
                require(m.events >= n, 'harness: %s: only %d events', what, m.events)
                ctx.count('events', m.events)
            first = chunk_ends(fr)[0]
            m = Ranges('info', [(0, first + 64)], [], CHUNK, ctx)
            with metered_open({'ref': 'archive'}, m):
                must(bp.run_cli, ['i', 'ref'])
            require(m.events > 1, 'harness: no events')
            if off:
                f = spec.parse(ref)
                start = f.positions[-1]
                bp.write('y', spec.payload('ints', 9 * CHUNK))
                m = Ranges('append', [(0, f.chunks_pos), (start, 1 << 62)], [(0, 32), (f.offsets_pos, f.chunks_pos), (start, 1 << 62)], CHUNK, ctx)
                with metered_open({'ref': 'archive'}, m):
                    must(bp.append_file, 'ref', 'y')
                require(m.events > 3, 'harness: no events')
        finally:
            os.chdir(here)
    else:
        _, what, kb, off = case
        chunk = kb * 1024
        d = ctx.path('peak')
        os.makedirs(d, exist_ok=True)
        here = os.getcwd()
        os.chdir(d)
        try:
            peaks = []
            for n in (6, 6, 60):
                for name in os.listdir('.'):
                    os.unlink(name)
                fn = PEAKS[what](n, chunk, off)
                gc.collect()
                tracemalloc.start()
                try:
                    must(fn)
                    peaks.append(tracemalloc.get_traced_memory()[1])
                finally:
                    tracemalloc.stop()
            ctx.count('evaluations')
            ctx.nontrivial(what, kb, off)
            require(peaks[2] - peaks[1] < AHEAD * chunk, '%s: the peak of memory is %d with 6 and %d with 60 chunks of %d', what, peaks[1], peaks[2], chunk)
            ctx.sample({'case': case, 'peaks': peaks})
            for name in os.listdir('.'):
                os.unlink(name)
        finally:
            os.chdir(here)


def shifted(archive, pos):
    """The archive as it is when it begins at this position: offsets are positions in the file."""
    f = spec.parse(archive)
    if not f.offsets:
        return archive
    raw = b''.join(struct.pack('<q', o + pos) for o in f.positions)
    return archive[:f.offsets_pos] + raw + archive[f.offsets_pos + len(raw):]


def inside(pos, n, off, mi, ctx):
    cs, last, app = 60, 25, 3 if off else 0
    data = spec.payload('noise', cs * (n - 1) + last)
    if n == 1:
        last = cs
        data = spec.payload('noise', last)
    def pack(fp):
        do_pack(io.BytesIO(data), fp, n, cs, last, 'crc32', off, app, METAS[mi])
    for before in (spec.payload('noise', pos, salt=4), b'\x00' * pos, None):
        one = io.BytesIO()
        must(pack, one)
        ref = one.getvalue()
        if before is None:
            before = ref * (1 + pos // len(ref))            # other archives
        what = '%d chunks (%soffsets, metadata %d) at position %d' % (n, '' if off else 'no ', mi, len(before))
        fp = io.BytesIO(before)
        fp.seek(0, 2)
        must(pack, fp)
        got = fp.getvalue()
        require(got[:len(before)] == before, 'packing %s overwrites what precedes it', what)
        require(got[len(before):] == shifted(ref, len(before)), 'packing %s gives another archive than at position 0', what)
        ctx.count('evaluations')
        ctx.nontrivial('inside', pos, n, off, mi)
        base = len(before)

        def back(raw, content, meta, what):
            src, dst = io.BytesIO(raw), io.BytesIO(b'kept')
            src.seek(base)
            dst.seek(0, 2)
            source = must(bp.file_io.CompressedFPSource, src)
            must(bp.abstract_io.unpack, source, bp.file_io.PlainFPSink(dst))
            require(source.metadata == meta, 'unpacking %s: metadata %s', what, short(source.metadata))
            require(dst.getvalue() == b'kept' + content, 'unpacking %s: %s', what, short(dst.getvalue()))
        back(got + b'and more', data, METAS[mi], what)
        if off:
            for extra in (0, 1, 35, 36, 100):
                new = spec.payload('ints', extra)
                f1, f2 = io.BytesIO(ref), io.BytesIO(got)
                f2.seek(base)
                must(bp.append_fp, f1, io.BytesIO(new), extra, bp.blosc_args((8, 3, 1, 'lz4')))
                must(bp.append_fp, f2, io.BytesIO(new), extra, bp.blosc_args((8, 3, 1, 'lz4')))
                require(f2.getvalue()[:base] == before, 'appending %d bytes to %s overwrites what precedes it', extra, what)
                require(f2.getvalue()[base:] == shifted(f1.getvalue(), base), 'appending %d bytes to %s gives another archive than at 0', extra, what)
                back(f2.getvalue(), data + new, METAS[mi], what)
                ctx.count('evaluations')
        if mi:
            f1, f2 = io.BytesIO(ref), io.BytesIO(got + b'and more')
            f1.seek(32)
            f2.seek(base)
            must(bp.seek_to_metadata, f2)
            for f in (f1, f2):
                must(bp.rewrite_fp, f, [1, "n"])
            require(f2.getvalue() == before + shifted(f1.getvalue(), base) + b'and more', 'rewriting the metadata of %s', what)
            ctx.count('evaluations')


def chunk_ends(f):
    return f.positions[1:] + [f.length]


def _noise_file(name, size):
    with open(name, 'wb') as fp:
        for i in range(0, size, 1 << 16):
            fp.write(spec.payload('noise', min(1 << 16, size - i), salt=i >> 16))


def _args(off):
    return dict(blosc_args=bp.blosc_args((8, 1, 1, 'lz4')), bloscpack_args=bp.bloscpack_args((off, 'adler32', 100 if off else 0)))


def _peak_pack(n, chunk, off):
    _noise_file('x', n * chunk)
    return lambda: bp.file_io.pack_file_to_file('x', 'o', chunk, **_args(off))


def _peak_unpack(n, chunk, off):
    _noise_file('x', n * chunk)
    bp.file_io.pack_file_to_file('x', 'o', chunk, **_args(off))
    return lambda: bp.file_io.unpack_file_from_file('o', 'p')


def _peak_append_new(n, chunk, off):
    _noise_file('x', 2 * chunk + 7)
    bp.file_io.pack_file_to_file('x', 'o', chunk, **_args(True))
    _noise_file('y', n * chunk)
    return lambda: bp.append_file('o', 'y')


def _peak_append_old(n, chunk, off):
    _noise_file('x', n * chunk + 7)
    bp.file_io.pack_file_to_file('x', 'o', chunk, **_args(True))
    _noise_file('y', 3 * chunk)
    return lambda: bp.append_file('o', 'y')


def _peak_array(n, chunk, off):
    _noise_file('x', n * chunk)
    a = np.fromfile('x', 'u8')
    return lambda: bp.numpy_io.pack_ndarray_to_file(a, 'o', chunk, **_args(off))


def _peak_command(n, chunk, off):
    _noise_file('x', n * chunk)
    return lambda: bp.run_cli(['c', '-z', str(chunk), 'x', 'o.blp'] + ([] if off else ['-o']))


def _peak_command_back(n, chunk, off):
    _noise_file('x', n * chunk)
    bp.file_io.pack_file_to_file('x', 'o', chunk, **_args(off))
    return lambda: bp.run_cli(['d', '-e', 'o', 'p'])


def _peak_info(n, chunk, off):
    _noise_file('x', n * chunk)
    bp.file_io.pack_file_to_file('x', 'o', chunk, **_args(off))
    return lambda: bp.run_cli(['i', 'o'])


PEAKS = {'pack': _peak_pack, 'unpack': _peak_unpack, 'append much': _peak_append_new, 'append to much': _peak_append_old, 'array': _peak_array,
         'command c': _peak_command, 'command d': _peak_command_back, 'info': _peak_info}
