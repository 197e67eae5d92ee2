import io

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C09'
LEVEL = 'fault_enumeration'
RULE = ('Fault model: the archive is cut off. Every proper prefix (for large archives: every prefix ending within 40 '
        'bytes of a section, chunk or checksum boundary) of every archive of the list is handed to every unpacking '
        'entry point; a normal return is a violation. Every prefix is a distinct non-trivial evaluation.')
BLOCK = 1

METAS = [None, {"a": 1}, {"k": "x" * 120}]


def cases(tier):
    deep = tier == 'thorough'
    for ck in spec.CHECKSUMS:
        for ba in ((8, 7, 1, 'blosclz'), (1, 0, 0, 'lz4'), (4, 9, 2, 'zstd')):
            for off in ('none', 'set', 'unset'):
                for n, size, tail in ((1, 30, 30), (1, 0, 0), (2, 24, 1), (3, 17, 17), (5, 40, 3)) + (((9, 300, 7),) if deep else ()):
                    for mi in range(3):
                        yield ['prefix', ck, list(ba), off, n, size, tail, mi]
        for mck in spec.CHECKSUMS:
            for extra in (0, 40):
                for off in ('none', 'set'):
                    yield ['meta', ck, mck, extra, off]
        yield ['numpy', ck]
        yield ['appended', ck]
        yield ['packed', ck]
        for n in (256, 1000):
            yield ['boundaries', ck, n, 3]
        yield ['boundaries', ck, 3, 70000]


def readers(data, files=True):
    yield 'unpack_bytes_from_bytes', lambda: bp.file_io.unpack_bytes_from_bytes(data)

    def mem():
        src = bp.file_io.CompressedFPSource(io.BytesIO(data))
        sink = bp.memory_io.PlainMemorySink()
        bp.abstract_io.unpack(src, sink)
        return b''.join(sink.chunks)
    yield 'memory sink', mem
    if files:
        bp.write('t.blp', data)
        yield 'unpack_bytes_from_file', lambda: bp.file_io.unpack_bytes_from_file('t.blp')
        yield 'unpack_file_from_file', lambda: bp.file_io.unpack_file_from_file('t.blp', 't.out')


def cut_all(archive, ctx, lengths=None, numpy=False, files=True):
    for n in (lengths if lengths is not None else range(len(archive))):
        d = archive[:n]
        rs = list(readers(d, files))
        if numpy:
            rs.append(('unpack_ndarray_from_bytes', lambda: bp.numpy_io.unpack_ndarray_from_bytes(d)))
            if files:
                rs.append(('unpack_ndarray_from_file', lambda: bp.numpy_io.unpack_ndarray_from_file('t.blp')))
        for name, f in rs:
            r = call(f)
            ctx.count('evaluations')
            require(not r.ok, '%s accepted the first %d of %d bytes: %s', name, n, len(archive), r)
            ctx.outcome(type(r.exc).__name__)
        ctx.nontrivial(n, *[str(x) for x in ctx.case])


def boundaries(a, limit=None):
    s = {0, 1, 4, 31, 32, 33, a.offsets_pos, a.chunks_pos, a.length}
    if a.meta:
        s |= {64, a.meta.end - len(a.meta.digest)}
    picks = range(a.nchunks) if limit is None else sorted(set(list(range(limit)) + list(range(a.nchunks - limit, a.nchunks))
                                                              + [254, 255, 256]) & set(range(a.nchunks)))
    for i in picks:
        s |= {a.positions[i], a.positions[i] + 16, a.positions[i] + len(a.chunks[i])}
    return sorted(n for n in {b + d for b in s for d in range(-40, 41)} if 0 <= n < a.length)


def run(case, ctx):
    g, ck = case[0], case[1]
    if g == 'prefix':
        _, ck, ba, off, n, size, tail, mi = case
        chunks = [spec.compress(spec.payload('noise' if ba[1] == 0 else 'ints', tail if i == n - 1 else size, salt=i + 1), *ba)
                  for i in range(n)]
        msec = spec.meta_section(METAS[mi], max_size=None if mi == 1 else 150) if mi else None
        archive = spec.build(chunks, msec, off, ck, 0 if off == 'none' else 2)
        must(bp.unpack, archive)
        cut_all(archive, ctx, files=mi != 1)
    elif g == 'meta':
        _, ck, mck, extra, off = case
        sec = spec.meta_section({"meta": "data"}, 'zlib', 6, mck)
        sec = spec.meta_section({"meta": "data"}, 'zlib', 6, mck, len(sec) - 32 - spec.SIZES[mck] + extra)
        archive = spec.build([spec.compress(b'', 8, 7, 1, 'blosclz')] if extra else
                             [spec.compress(b'abc', 8, 7, 1, 'blosclz')], sec, off, ck, 0)
        must(bp.unpack, archive)
        cut_all(archive, ctx, files=False)
    elif g == 'numpy':
        for arr in (np.arange(30, dtype='<u4'), np.asfortranarray(np.arange(24.).reshape(4, 6)), np.zeros((0, 3)),
                    np.array(7, 'u1'), np.arange(12, dtype=[('a', 'u1'), ('b', '>f8')][1][1])):
            archive = must(bp.numpy_io.pack_ndarray_to_bytes, arr, chunk_size=48,
                           bloscpack_args=bp.BloscpackArgs(checksum=ck, max_app_chunks=1))
            must(bp.numpy_io.unpack_ndarray_from_bytes, archive)
            cut_all(archive, ctx, numpy=True)
    elif g == 'appended':
        state = must(bp.pack, spec.payload('noise', 20), 8, None, [True, ck, 3], {"a": 1})
        fp = io.BytesIO(state)
        for i, n in enumerate((3, 9, 0, 1)):
            fp.seek(0)
            must(bp.append_fp, fp, io.BytesIO(spec.payload('noise', n, salt=i + 2)), n)
            cut_all(fp.getvalue(), ctx, files=i == 3)
    elif g == 'packed':
        for size in (0, 1, 100, 2000):
            for meta in (None, {"a": 1}):
                archive = must(bp.pack, spec.payload('noise', size), 700, None, [True, ck, None], meta)
                a = spec.parse(archive)
                cut_all(archive, ctx, boundaries(a))
    elif g == 'boundaries':
        _, ck, n, size = case
        comp = [spec.compress(spec.payload('noise', size, salt=j + 1), 8, 1, 1, 'blosclz') for j in range(3)]
        archive = spec.build([comp[i % 3] for i in range(n)], None, 'set', ck, 3)
        a = spec.parse(archive, decompress=False)
        cut_all(archive, ctx, boundaries(a, None if n < 300 and ctx.tier == 'thorough' else 2), files=False)
    ctx.sample({'case': case})
