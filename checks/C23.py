import io
import itertools
import json
import os

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('Explicit-state search: a state is a representation of the data (file pointer, real file, list of chunks in memory, NumPy '
        'array) and its chunking, a transition packs it into one of the compressed kinds (BytesIO, real file, memory) with one '
        'of the option sets and unpacks it into one of the plain kinds (BytesIO, real file, memory with and without a chunk '
        'count, NumPy array). Every path of two (thorough: three) transitions from every initial state. After each step the '
        'compressed chunks, checksums, chunk counts and metadata of the compressed kind, and the chunks or bytes delivered, '
        'are compared with the independent compression of the slices. damage: every byte of every chunk and every digest of '
        'a compressed memory sink and of the file written for the same input: both report a checksum mismatch, or neither. '
        'reuse: a state is what a compressed memory sink holds, transitions pack another input into it (every option set, metadata '
        'and chunk count), every sequence of two (thorough: three); memory sources of both kinds and array sources read again each time.')
ASSUMPTIONS = ['plain sinks and the sources and sinks on file pointers are used once']
BLOCK = 2

COMP = ['bytesio', 'file', 'memory']
PLAIN = ['bytesio', 'file', 'memory n', 'memory', 'numpy']
OPTIONS = [((8, 7, True, 'blosclz'), (True, 'adler32', None)), ((4, 5, False, 'lz4'), (False, 'None', None)),
           ((1, 9, 2, 'zstd'), (True, 'sha512', 0)), ((8, 0, True, 'zlib'), (False, 'crc32', None))]
METAS = [None, {"a": 1}, [], {"nested": {"k": [1, None, "x" * 60]}}]
NPMETA = {'dtype': "'|u1'", 'order': 'C', 'container': 'numpy'}


def cases(tier):
    sizes = (0, 1, 8, 40, 41, 64) if tier == 'quick' else (0, 1, 7, 8, 40, 41, 48, 64, 65, 200)
    for size in sizes:
        for chunk in (8, 16, 24, 100):
            for start in PLAIN:
                yield ['paths', size, chunk, start, 2 if tier == 'quick' else 3]
    for n in (1, 2, 3, 7, 255, 256, 257, 1000):
        for start in PLAIN:
            yield ['many', n, start]
    for lens in itertools.product((0, 1, 5, 16), repeat=3):
        yield ['irregular', list(lens)]
    for dt in ('<f8', '>i4', '|u1', '<u2', 'S5', '<c16', 'struct'):
        for shape in ([0], [1], [12], [3, 4], [2, 0, 3], [], [2, 3, 2]):
            for order in 'CF':
                for k in (1, 2, 5, 1000):
                    yield ['array', dt, shape, order, k]
    for ck in spec.CHECKSUMS:
        for n in (1, 3):
            for i in range(n):
                yield ['damage', ck, n, i]
    yield ['wrong kinds']
    for i in range(len(OPTIONS)):
        for mi in range(len(METAS)):
            for size in (0, 5, 40):
                yield ['reuse', i, mi, size]


class Rep(object):
    """Data at rest in one of the plain kinds."""

    def __init__(self, kind, data, chunking, d):
        self.kind, self.data, self.chunking = kind, data, chunking
        n, cs, last = chunking
        if kind == 'bytesio':
            self.obj = data
        elif kind == 'file':
            self.obj = os.path.join(d, 'plain')
            bp.write(self.obj, data)
        elif kind.startswith('memory'):
            self.obj = slices(data, chunking)
        else:
            self.obj = np.frombuffer(data, 'u1')

    def source(self):
        if self.kind == 'bytesio':
            return bp.file_io.PlainFPSource(io.BytesIO(self.obj))
        if self.kind == 'file':
            return bp.file_io.PlainFPSource(open(self.obj, 'rb'))
        if self.kind.startswith('memory'):
            return bp.memory_io.PlainMemorySource(self.obj)
        return bp.numpy_io.PlainNumpySource(self.obj)


def slices(data, chunking):
    n, cs, last = chunking
    return [data[i * cs:(i + 1) * cs] if i < n - 1 else data[i * cs:] for i in range(n)]


def step(rep, ck, pk, chunking, opts, meta, d, ctx, what):
    """Pack rep into compressed kind ck, unpack into plain kind pk; returns what was delivered."""
    ba, bpa = opts
    if rep.kind == 'numpy':
        ba = (1,) + ba[1:]                      # the item size, as pack_ndarray sets it
    n, cs, last = chunking
    src = rep.source()
    path = os.path.join(d, 'comp')
    if ck == 'bytesio':
        buf = io.BytesIO()
        sink = bp.file_io.CompressedFPSink(buf)
    elif ck == 'file':
        buf = open(path, 'wb')
        sink = bp.file_io.CompressedFPSink(buf)
    else:
        sink = bp.memory_io.CompressedMemorySink()
    must(bp.abstract_io.pack, src, sink, n, cs, last, metadata=meta, blosc_args=bp.blosc_args(ba),
         bloscpack_args=bp.bloscpack_args(bpa), metadata_args=None)
    if hasattr(src, 'input_fp'):
        src.input_fp.close()
    if rep.kind.startswith('memory'):
        require(list(rep.obj) == slices(rep.data, rep.chunking) or cs == -1, '%s: changed the chunks in memory', what)
    want = [spec.compress(s, *ba) for s in (slices(rep.data, chunking) if cs != -1 else rep.obj)]
    digests = [spec.digest(bpa[1], c) for c in want]
    if ck == 'memory':
        require(list(sink.chunks) == want, '%s: the memory sink holds other chunks (%s, not %s)', what,
                short([c and len(c) for c in sink.chunks]), short([len(c) for c in want]))
        if bpa[1] != 'None':
            require(list(sink.checksums) == digests, '%s: the memory sink holds other checksums', what)
        source = bp.memory_io.CompressedMemorySource(sink)
    else:
        if ck == 'file':
            buf.close()
            raw = bp.read(path)
            fp = open(path, 'rb')
        else:
            raw = buf.getvalue()
            fp = io.BytesIO(raw)
        try:
            a = spec.parse(raw)
        except spec.SpecError as e:
            raise Violation('%s: not in the documented layout: %s' % (what, e))
        require(a.chunks == want and a.digests == digests, '%s: the file holds other chunks', what)
        source = must(bp.file_io.CompressedFPSource, fp)
    require(source.nchunks == n, '%s: source has %s chunks, not %d', what, source.nchunks, n)
    require(json.dumps(source.metadata) == json.dumps(meta), '%s: metadata is %s, not %s', what, short(source.metadata), short(meta))
    got = [(bytes(c), g) for c, g in iterate(source)]
    require([c for c, g in got] == want, '%s: the source yields other chunks', what)
    if bpa[1] != 'None':
        require([g for c, g in got] == digests, '%s: the source yields other checksums', what)
    if ck != 'memory':
        fp.seek(0)
        source = must(bp.file_io.CompressedFPSource, fp)
    else:
        source = bp.memory_io.CompressedMemorySource(sink)
    out = None
    if pk == 'bytesio':
        out = io.BytesIO()
        dst = bp.file_io.PlainFPSink(out)
    elif pk == 'file':
        p = os.path.join(d, 'unpacked')
        out = open(p, 'wb')
        dst = bp.file_io.PlainFPSink(out, n)
    elif pk == 'memory n':
        dst = bp.memory_io.PlainMemorySink(n)
    elif pk == 'memory':
        dst = bp.memory_io.PlainMemorySink()
    else:
        dst = must(bp.numpy_io.PlainNumpySink, dict(NPMETA, shape=[len(rep.data)]))
    must(bp.abstract_io.unpack, source, dst)
    if pk == 'bytesio':
        data = out.getvalue()
    elif pk == 'file':
        out.close()
        data = bp.read(p)
    elif pk.startswith('memory'):
        require(list(dst.chunks) == (slices(rep.data, chunking) if cs != -1 else rep.obj), '%s: delivers chunks %s', what,
                short(dst.chunks))
        data = b''.join(dst.chunks)
    else:
        data = dst.ndarray.tobytes()
    require(data == rep.data, '%s: delivers %s, not %s', what, short(data), short(rep.data))
    if ck != 'memory':
        fp.close()
    ctx.count('transitions')
    ctx.outcome('%s > %s > %s' % (rep.kind, ck, pk))


def iterate(source):
    r = call(lambda: list(source))
    require(r.ok, 'iterating over the compressed source fails: %s', r)
    return r.value


def explore(rep, depth, path, ctx):
    if not depth:
        ctx.count('traces')
        return
    k = len(path)
    for ck in COMP:
        for pk in PLAIN:
            # every option set at the first step, one that depends on the path later on
            sets = range(len(OPTIONS)) if k == 0 else [(len(rep.data) + COMP.index(ck) + PLAIN.index(pk) + k) % len(OPTIONS)]
            for oi in sets:
                chunkings = [rep.chunking]
                if not rep.kind.startswith('memory'):
                    chunkings = [rep.chunking, spec.chunking(len(rep.data), 24)] if k else [rep.chunking]
                for chunking in chunkings:
                    meta = METAS[(oi + k + len(path)) % len(METAS)]
                    here = path + [(ck, pk, oi, chunking)]
                    what = '%d bytes, %s via %s' % (len(rep.data), rep.kind if not path else path[-1][1], here)
                    step(rep, ck, pk, chunking, OPTIONS[oi], meta, ctx.tmp, ctx, what)
                    ctx.state(repr((pk, chunking, len(rep.data), ck)).encode())
                    if oi == sets[0] or depth <= 2:
                        explore(Rep(pk, rep.data, chunking, ctx.tmp), depth - 1, here, ctx)


def run(case, ctx):
    g = case[0]
    ctx.sample({'case': case})
    if g == 'paths':
        _, size, chunk, start, depth = case
        ch = spec.chunking(size, chunk)
        explore(Rep(start, spec.payload('ints', size), ch, ctx.tmp), depth, [], ctx)
    elif g == 'many':
        _, n, start = case
        data = spec.payload('noise', n * 8 - 3)
        for ck in COMP:
            for pk in PLAIN:
                ch = spec.chunking(len(data), 8)
                step(Rep(start, data, ch, ctx.tmp), ck, pk, ch, OPTIONS[n % 4], {"n": n}, ctx.tmp, ctx, 'many %s %s %s' % (case, ck, pk))
                ctx.state(repr((pk, ch, ck)).encode())
        ctx.count('traces')
    elif g == 'irregular':
        lens = case[1]
        parts = [spec.payload('text', l, i) for i, l in enumerate(lens)]
        data = b''.join(parts)
        for ck in COMP:
            for pk in PLAIN:
                rep = Rep('memory', data, (len(parts), 0, 0), ctx.tmp)
                rep.obj = parts
                for oi in range(len(OPTIONS)):
                    step(rep, ck, pk, (len(parts), -1, -1), OPTIONS[oi], METAS[oi], ctx.tmp, ctx, 'chunks of %s via %s, %s' % (lens, ck, pk))
                    ctx.state(repr((pk, lens, ck)).encode())
        ctx.count('traces')
    elif g == 'array':
        arrays(case, ctx)
    elif g == 'damage':
        damage(case, ctx)
    elif g == 'reuse':
        reuse(case, ctx)
    else:
        wrong(ctx)


def arrays(case, ctx):
    _, dt, shape, order, k = case
    dtype = np.dtype([('a', '<u2'), ('b', '>f4')]) if dt == 'struct' else np.dtype(dt)
    n = int(np.prod(shape, dtype=int))
    a = np.frombuffer(spec.payload('noise', max(1, n * dtype.itemsize))[:n * dtype.itemsize], dtype).reshape(shape, order=order)
    raw = a.tobytes('A')
    chunk = k * dtype.itemsize
    ch = spec.chunking(len(raw), chunk)
    for ck in COMP:
        what = 'array %s via %s' % (case, ck)
        for (t, lv, sh, cn), bpa in OPTIONS:
            ba = bp.BloscArgs(typesize=3, clevel=lv, shuffle=sh, cname=cn)
            buf = io.BytesIO()
            sink = bp.memory_io.CompressedMemorySink() if ck == 'memory' else bp.file_io.CompressedFPSink(buf)
            must(bp.numpy_io.pack_ndarray, a, sink, chunk_size=chunk, blosc_args=ba, bloscpack_args=bp.bloscpack_args(bpa))
            want = [spec.compress(s, dtype.itemsize, lv, sh, cn) for s in slices(raw, ch)]

            def source():
                if ck == 'memory':
                    return bp.memory_io.CompressedMemorySource(sink)
                return must(bp.file_io.CompressedFPSource, io.BytesIO(buf.getvalue()))
            got = iterate(source())
            require([bytes(c) for c, _ in got] == want, '%s: other chunks', what)
            back = must(bp.numpy_io.unpack_ndarray, source())
            require(back.dtype == a.dtype and back.shape == a.shape and back.tobytes('A') == raw
                    and np.isfortran(back) == np.isfortran(a), '%s: delivers %s %s', what, back.dtype, back.shape)
            # the same archive as plain bytes
            out = io.BytesIO()
            must(bp.abstract_io.unpack, source(), bp.file_io.PlainFPSink(out))
            require(out.getvalue() == raw, '%s: delivers other bytes', what)
            mem = bp.memory_io.PlainMemorySink(ch[0])
            must(bp.abstract_io.unpack, source(), mem)
            require(mem.chunks == slices(raw, ch), '%s: delivers other chunks', what)
            # bytes with the metadata of an array become that array
            sink2 = bp.memory_io.CompressedMemorySink() if ck != 'memory' else bp.file_io.CompressedFPSink(io.BytesIO())
            must(bp.abstract_io.pack, bp.memory_io.PlainMemorySource(mem.chunks), sink2, ch[0], ch[1], ch[2],
                 metadata=source().metadata, blosc_args=bp.blosc_args((1, 1, 0, 'lz4')), bloscpack_args=bp.bloscpack_args(bpa))
            s2 = bp.memory_io.CompressedMemorySource(sink2) if ck != 'memory' else \
                bp.file_io.CompressedFPSource(io.BytesIO(sink2.output_fp.getvalue()))
            back = must(bp.numpy_io.unpack_ndarray, s2)
            require(back.dtype == a.dtype and back.shape == a.shape and back.tobytes('A') == raw
                    and np.isfortran(back) == np.isfortran(a), '%s: after another pass delivers %s %s', what, back.dtype, back.shape)
            ctx.count('transitions', 5)
            ctx.state(repr((dt, shape, order, ch, ck)).encode())
    ctx.count('traces')
    ctx.outcome('array')


def damage(case, ctx):
    _, ck, n, i = case
    chunks = [spec.payload('noise', 30, j + 1) for j in range(n)]
    bpa = (True, ck, 0)

    def packed():
        s = bp.memory_io.CompressedMemorySink()
        must(bp.abstract_io.pack, bp.memory_io.PlainMemorySource(list(chunks)), s, n, 30, 30, metadata={"a": 1},
             bloscpack_args=bp.bloscpack_args(bpa))
        return s
    good = packed()
    raw = spec.build(list(good.chunks), None, 'set', ck, 0, 8)
    pos = spec.parse(raw).positions

    def outcome(source, kind):
        dst = [bp.memory_io.PlainMemorySink(n), bp.memory_io.PlainMemorySink(), bp.file_io.PlainFPSink(io.BytesIO())][kind]
        r = call(lambda: bp.abstract_io.unpack(source(), dst))
        return r

    size = len(good.chunks[i])
    for k in range(size + spec.SIZES[ck]):
        for x in (1, 0x80, 0xff):
            s = packed()
            f = bytearray(raw)
            f[pos[i] + k] ^= x
            if k < size:
                c = bytearray(s.chunks[i])
                c[k] ^= x
                s.chunks[i] = bytes(c)
            else:
                c = bytearray(s.checksums[i])
                c[k - size] ^= x
                s.checksums[i] = bytes(c)
            what = 'chunk %d of %d, byte %d ^ %#x, %s' % (i, n, k, x, ck)
            for kind in range(3):
                m = outcome(lambda: bp.memory_io.CompressedMemorySource(s), kind)
                ctx.count('transitions')
                if ck != 'None':
                    require(not m.ok and isinstance(m.exc, bp.ChecksumMismatch), '%s: from memory: %s', what, m)
                    fr = outcome(lambda: bp.file_io.CompressedFPSource(io.BytesIO(bytes(f))), kind)
                    require(not fr.ok, '%s: from the file: %s', what, fr)
                    ctx.count('transitions')
                ctx.outcome('damage %s' % ('noticed' if not m.ok else 'not noticed'))
    if ck != 'None':
        # a missing or shortened checksum is no match either
        for bad in (b'', None, good.checksums[i][:-1], good.checksums[i] + b'\0'):
            s = packed()
            s.checksums[i] = bad
            m = outcome(lambda: bp.memory_io.CompressedMemorySource(s), 1)
            require(not m.ok, 'chunk %d of %d with checksum %r: %s', i, n, bad, m)
    # swapped chunks
    if n > 1 and ck != 'None':
        s = packed()
        j = (i + 1) % n
        s.chunks[i], s.chunks[j] = s.chunks[j], s.chunks[i]
        m = outcome(lambda: bp.memory_io.CompressedMemorySource(s), 1)
        require(not m.ok, 'chunks %d and %d swapped: %s', i, j, m)
    ctx.count('traces')
    ctx.state(repr(case).encode())


def reuse(case, ctx):
    M = bp.memory_io
    plains = {}
    for size in (0, 5, 40):
        data = spec.payload('ints', size)
        ch = spec.chunking(size, 16)
        plains[size] = data, ch, [M.PlainMemorySource(slices(data, ch)), bp.numpy_io.PlainNumpySource(np.frombuffer(data, 'u1'))]

    def into(sink, oi, mi, size, k, what):
        data, ch, sources = plains[size]
        ba, bpa = OPTIONS[oi]
        ba = (1,) + ba[1:]
        meta = METAS[mi]
        must(bp.abstract_io.pack, sources[k % 2], sink, ch[0], ch[1], ch[2], metadata=meta, blosc_args=bp.blosc_args(ba),
             bloscpack_args=bp.bloscpack_args(bpa), metadata_args=bp.metadata_args(('zlib', 6, 'adler32', None)) if k % 3 else None)
        want = [spec.compress(s, *ba) for s in slices(data, ch)]
        digests = [spec.digest(bpa[1], c) for c in want]
        source = M.CompressedMemorySource(sink)
        require(source.nchunks == ch[0], '%s: %s chunks, not %d', what, source.nchunks, ch[0])
        require(json.dumps(source.metadata) == json.dumps(meta), '%s: metadata is %s, not %s', what, short(source.metadata), short(meta))
        for again in range(2):
            got = [(bytes(c), g) for c, g in iterate(source)]
            require([c for c, g in got] == want, '%s: the source yields other chunks', what)
            if bpa[1] != 'None':
                require([g for c, g in got] == digests, '%s: the source yields other checksums', what)
            dst = M.PlainMemorySink(ch[0] if again else None)
            must(bp.abstract_io.unpack, source, dst)
            require(dst.chunks == slices(data, ch), '%s: delivers %s', what, short(dst.chunks))
        out = io.BytesIO()
        must(bp.abstract_io.unpack, source, bp.file_io.PlainFPSink(out))
        require(out.getvalue() == data, '%s: delivers other bytes', what)
        ctx.count('transitions')
        ctx.state(repr((oi, mi, size, k % 2)).encode())

    _, oi, mi, size = case
    alphabet = list(itertools.product(range(len(OPTIONS)), range(len(METAS)), (0, 5, 40)))
    for x, b in enumerate(alphabet):
        for c in [()] if ctx.tier == 'quick' else alphabet[x % 7::7]:
            sink = M.CompressedMemorySink()
            into(sink, oi, mi, size, x, 'first use of a sink')
            into(sink, b[0], b[1], b[2], x + 1, 'sink used for %s before, now for %s' % (case[1:], b))
            if c:
                into(sink, c[0], c[1], c[2], x + 2, 'sink used for %s and %s before, now for %s' % (case[1:], b, c))
    ctx.count('traces')
    ctx.outcome('reuse')


def wrong(ctx):
    """An object of another kind is refused with a TypeError before anything is written."""
    def objects():
        full = bp.memory_io.CompressedMemorySink()
        must(bp.abstract_io.pack, bp.memory_io.PlainMemorySource([b'abc']), full, 1, 3, 3)
        raw = spec.build([spec.compress(b'abc')])
        return {'plain source': [bp.memory_io.PlainMemorySource([b'abc']), bp.file_io.PlainFPSource(io.BytesIO(b'abc')),
                                 bp.numpy_io.PlainNumpySource(np.frombuffer(b'abc', 'u1'))],
                'compressed sink': [bp.memory_io.CompressedMemorySink(), bp.file_io.CompressedFPSink(io.BytesIO())],
                'compressed source': [bp.memory_io.CompressedMemorySource(full), bp.file_io.CompressedFPSource(io.BytesIO(raw))],
                'plain sink': [bp.memory_io.PlainMemorySink(), bp.memory_io.PlainMemorySink(1), bp.file_io.PlainFPSink(io.BytesIO()),
                               bp.numpy_io.PlainNumpySink(dict(NPMETA, shape=[3]))],
                'other': [None, b'abc', io.BytesIO(b'abc'), [b'abc'], np.frombuffer(b'abc', 'u1')]}
    shape = {k: len(v) for k, v in objects().items()}
    names = [(k, i) for k in shape for i in range(shape[k])]
    for (ka, ia), (kb, ib) in itertools.product(names, names):
        o = objects()
        r = call(lambda: bp.abstract_io.pack(o[ka][ia], o[kb][ib], 1, 3, 3, blosc_args=bp.BloscArgs(typesize=1)))
        if (ka, kb) == ('plain source', 'compressed sink'):
            require(r.ok, 'packing %s %d into %s %d: %s', ka, ia, kb, ib, r)
        else:
            require(not r.ok and isinstance(r.exc, TypeError), 'packing %s %d into %s %d: %s', ka, ia, kb, ib, r)
        o = objects()
        r = call(lambda: bp.abstract_io.unpack(o[ka][ia], o[kb][ib]))
        if (ka, kb) == ('compressed source', 'plain sink'):
            require(r.ok, 'unpacking %s %d into %s %d: %s', ka, ia, kb, ib, r)
        else:
            require(not r.ok and isinstance(r.exc, TypeError), 'unpacking %s %d into %s %d: %s', ka, ia, kb, ib, r)
        ctx.count('transitions', 2)
        ctx.outcome('wrong kinds refused')
    ctx.count('traces')
