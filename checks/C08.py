import io
import json
import struct

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C08'
LEVEL = 'fault_enumeration'
RULE = ('Fault model: one byte of a stored chunk, chunk checksum, metadata or metadata checksum is changed. Every such '
        'byte of every archive of the list is changed by every mask, and the archive handed to every unpacking entry '
        'point; a normal return is a violation, and outside the length field of a chunk the error must be the '
        'checksum mismatch. several: every burst (flipped, zeroes, ones), pair, swap and shift of bytes within one unit of data and checksum, and other '
        'checksums in place of its own. Every evaluation damages a checked byte, so every distinct one is non-trivial.')
ASSUMPTIONS = ['damage which the checksum itself, computed independently, can not tell from the original is left out']
BLOCK = 2
MASKS = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff]
KINDS = [('noise', (8, 0, 0, 'blosclz')), ('ints', (8, 9, 1, 'zstd')), ('text', (1, 5, 0, 'lz4')), ('zero', (4, 7, 2, 'blosclz'))]


def cases(tier):
    deep = tier == 'thorough'
    for ck in ('adler32', 'sha256'):
        for p in (0, 1, 255, 256, 257, 511, 512, 1023, 1024, 1029):
            yield ['very-many', ck, 1030, [p]]
        for p in (0, 255, 65534, 65535, 65536, 65537, 65539):
            yield ['very-many', ck, 65540, [p]]
    for ck in spec.CHECKSUMS[1:]:
        for ki in range(len(KINDS)):
            for off in ('set', 'none'):
                for n, size in ((1, 40), (3, 24), (7, 9)) + (((2, 300), (12, 17)) if deep else ()):
                    for c in range(n):
                        yield ['chunk', ck, ki, off, n, size, c]
        for co, lv in (('None', 0), ('zlib', 6)):
            for extra in (0, 37):
                for cck in ('None', 'adler32', 'sha512'):
                    for mi in range(4):
                        yield ['meta', ck, co, lv, extra, cck, mi]
        for n in (70, 300) + ((2000,) if deep else ()):
            for lo in range(0, n, 10):
                yield ['many', ck, n, lo, min(n, lo + 10)]
        for part in range(4):
            yield ['large', ck, part]
        for order in 'CF':
            for src in ('bytes', 'file'):
                yield ['numpy', ck, order, src]
        for c in range(5):
            yield ['memory', ck, c]
        yield ['memory-equal', ck]
        yield ['appended', ck]
        for meta in (0, 1):
            yield ['holes', ck, meta]
        for where in ('first', 'last', 'metadata'):
            for how in ('flip', 'zero', 'ones', 'pairs', 'swap', 'shift', 'other digest'):
                yield ['several', ck, where, how]


METAS = [{"a": 1}, "m", {"k": "x" * 200}, {"container": "numpy", "dtype": "'<i4'", "shape": [24], "order": "C"}]


def readers(data, files):
    yield 'unpack_bytes_from_bytes', lambda: bp.file_io.unpack_bytes_from_bytes(data)

    def mem():
        src = bp.file_io.CompressedFPSource(io.BytesIO(data))
        sink = bp.memory_io.PlainMemorySink()
        bp.abstract_io.unpack(src, sink)
        return b''.join(sink.chunks)
    yield 'memory sink', mem
    if files:
        bp.write('d.blp', data)
        yield 'unpack_bytes_from_file', lambda: bp.file_io.unpack_bytes_from_file('d.blp')
        yield 'unpack_file_from_file', lambda: bp.file_io.unpack_file_from_file('d.blp', 'd.out')
        yield 'unpack_file', lambda: bp.file_io.unpack_file('d.blp', 'd.out')
        yield 'unpack_bytes_file', lambda: bp.file_io.unpack_bytes_file('d.blp')


def expect_error(fs, what, boundary, ctx):
    for name, f in fs:
        r = call(f)
        ctx.count('evaluations')
        require(not r.ok, '%s: %s returned %s', what, name, short(r.value))
        if not boundary:
            require(isinstance(r.exc, bp.ChecksumMismatch), '%s: %s %s', what, name, r)
        ctx.outcome('%s%s' % ('boundary damage: ' if boundary else '', type(r.exc).__name__))


def damage(archive, pos, mask):
    b = bytearray(archive)
    b[pos] ^= mask
    return bytes(b)


def damage_chunk(archive, a, c, masks, files, ctx, positions=None):
    start, length = a.positions[c], len(a.chunks[c])
    end = start + length + len(a.digests[c])
    for pos in (positions if positions is not None else range(start, end)):
        boundary = start + 12 <= pos < start + 16
        for m in masks:
            d = damage(archive, pos, m)
            what = 'byte %d of chunk %d of %d (%s, %d bytes) changed by %#x' % (
                pos - start, c, a.nchunks, a.checksum, length, m)
            expect_error(readers(d, files and m in (0x01, 0xff)), what, boundary, ctx)
            ctx.nontrivial(archive[:40], pos, m)


def run(case, ctx):
    g = case[0]
    if g == 'chunk':
        _, ck, ki, off, n, size, c = case
        kind, ba = KINDS[ki]
        chunks = [spec.compress(spec.payload(kind, size - (i == n - 1), salt=i + 1), *ba) for i in range(n)]
        archive = spec.build(chunks, spec.meta_section({"a": 1}) if n == 3 else None, off, ck, 2 if off == 'set' else 0)
        a = spec.parse(archive)
        require(must(bp.unpack, archive)[0] == a.content, 'the undamaged archive does not unpack')
        damage_chunk(archive, a, c, MASKS, True, ctx)
    elif g == 'meta':
        _, ck, co, lv, extra, cck, mi = case
        sec = spec.meta_section(METAS[mi], co, lv, ck)
        size = len(sec) - 32 - spec.SIZES[ck]
        sec = spec.meta_section(METAS[mi], co, lv, ck, size + extra)
        archive = spec.build([spec.compress(spec.payload('ints', 96), 4, 0, 0, 'blosclz')], sec, 'set', cck, 1)
        a = spec.parse(archive)
        require(must(bp.unpack, archive)[1] == METAS[mi], 'the undamaged archive does not unpack')
        for pos in list(range(64, 64 + size)) + list(range(a.meta.end - spec.SIZES[ck], a.meta.end)):
            for m in MASKS:
                d = damage(archive, pos, m)
                fs = list(readers(d, m in (1, 0xff)))
                if mi == 3:
                    fs.append(('unpack_ndarray_from_bytes', lambda: bp.numpy_io.unpack_ndarray_from_bytes(d)))
                expect_error(fs, 'metadata byte %d (%s) changed by %#x' % (pos - 64, ck, m), False, ctx)
                ctx.nontrivial(archive[:110], pos, m)
    elif g in ('many', 'very-many'):
        ck, n = case[1], case[2]
        comp = [spec.compress(spec.payload('noise', 4, salt=j + 1), 1, 0, 0, 'blosclz') for j in range(5)]
        archive = spec.build([comp[i % 5] for i in range(n)], None, 'set', ck, 0)
        a = spec.parse(archive, decompress=False)
        require(len(must(bp.unpack, archive)[0]) == 4 * n, 'the undamaged archive does not unpack')
        for c in (range(case[3], case[4]) if g == 'many' else case[3]):
            s, e = a.positions[c], a.positions[c] + 20 + spec.SIZES[ck]
            for pos in (s + 4, s + 16, s + 19, s + 20, e - 1):
                d = damage(archive, pos, 0x10)
                expect_error(list(readers(d, n < 200 and pos == e - 1))[:None if n < 5000 else 1],
                             'byte %d of chunk %d of %d (%s) changed' % (pos - s, c, n, ck), False, ctx)
                ctx.nontrivial(ck, n, pos)
    elif g == 'large':
        _, ck, part = case
        size = 2 ** 20 + 5000
        archive = spec.build([spec.compress(spec.payload('noise', size), 8, 0, 0, 'blosclz'),
                              spec.compress(spec.payload('noise', 200000, salt=1), 8, 0, 0, 'blosclz')], None, 'set', ck, 0)
        a = spec.parse(archive, decompress=False)
        require(must(bp.unpack, archive)[0] == spec.payload('noise', size) + spec.payload('noise', 200000, salt=1),
                'the undamaged archive does not unpack')
        for c in (0, 1):
            s, L = a.positions[c], len(a.chunks[c])
            ps = [s + p for p in range(16, L, 40009 if ctx.tier == 'quick' else 4001)]
            ps += [s + p for k in range(5, 21) for p in ((1 << k) - 1, 1 << k, (1 << k) + 16) if 16 <= p < L]
            ps += [s + L - 1, s + L - 2, s + L, s + L + len(a.digests[c]) - 1]
            damage_chunk(archive, a, c, [0x80], False, ctx, sorted(ps)[part::4])
    elif g == 'numpy':
        _, ck, order, src = case
        arr = np.array(np.arange(60, dtype='<u4').reshape(5, 12) * 0x01010101, order=order)
        archive = bp.numpy_io.pack_ndarray_to_bytes(arr, chunk_size=96, blosc_args=bp.BloscArgs(clevel=0, shuffle=False),
                                                    bloscpack_args=bp.BloscpackArgs(checksum=ck))
        a = spec.parse(archive)

        def f(d):
            if src == 'bytes':
                return bp.numpy_io.unpack_ndarray_from_bytes(d)
            bp.write('n.blp', d)
            return bp.numpy_io.unpack_ndarray_from_file('n.blp')
        require((f(archive) == arr).all(), 'the undamaged archive does not unpack')
        for c in range(a.nchunks):
            s = a.positions[c]
            for pos in range(s, s + len(a.chunks[c]) + len(a.digests[c])):
                for m in (0x01, 0x80, 0xff):
                    d = damage(archive, pos, m)
                    expect_error([('unpack_ndarray_from_' + src, lambda: f(d))],
                                 'byte %d of chunk %d (%s) changed' % (pos - s, c, ck), s + 12 <= pos < s + 16, ctx)
                    ctx.nontrivial(pos, m, ck, order, src)
    elif g == 'memory':
        _, ck, c = case
        data = spec.payload('noise', 100)

        def packed():
            n, cs, last = spec.chunking(100, 20)
            sink = bp.memory_io.CompressedMemorySink()
            bp.abstract_io.pack(bp.file_io.PlainFPSource(io.BytesIO(data)), sink, n, cs, last,
                                blosc_args=bp.BloscArgs(clevel=0), bloscpack_args=bp.BloscpackArgs(checksum=ck))
            return sink
        sink = must(packed)
        out = bp.memory_io.PlainMemorySink()
        must(bp.abstract_io.unpack, bp.memory_io.CompressedMemorySource(sink), out)
        require(b''.join(out.chunks) == data, 'the undamaged chunks do not unpack')
        for which, lst in (('chunks', sink.chunks), ('checksums', sink.checksums)):
            good = lst[c]
            for pos in range(len(good)):
                for m in MASKS:
                    lst[c] = damage(good, pos, m)

                    def f():
                        out = bp.memory_io.PlainMemorySink()
                        bp.abstract_io.unpack(bp.memory_io.CompressedMemorySource(sink), out)
                        return b''.join(out.chunks)
                    expect_error([('memory source', f)], 'byte %d of in-memory %s[%d] (%s) changed' % (pos, which, c, ck),
                                 False, ctx)
                    ctx.nontrivial(which, pos, m, ck, c)
            lst[c] = good
    elif g == 'memory-equal':
        # equal chunks, whose digests may be one and the same object
        _, ck = case
        data = b'abcd' * 5
        for share in (False, True):
            sink = bp.memory_io.CompressedMemorySink()
            must(bp.abstract_io.pack, bp.memory_io.PlainMemorySource([data] * 4), sink, 4, 20, 20,
                 blosc_args=bp.BloscArgs(clevel=0), bloscpack_args=bp.BloscpackArgs(checksum=ck))
            if share:
                sink.checksums[:] = [sink.checksums[0]] * 4
            for c in range(4):
                good = sink.chunks[c]
                for pos in range(len(good)):
                    for m in MASKS:
                        sink.chunks[c] = damage(good, pos, m)

                        def f():
                            out = bp.memory_io.PlainMemorySink()
                            bp.abstract_io.unpack(bp.memory_io.CompressedMemorySource(sink), out)
                            return b''.join(out.chunks)
                        expect_error([('memory source', f)], 'byte %d of in-memory chunk %d of equal ones (%s) changed' % (pos, c, ck), False, ctx)
                        ctx.nontrivial(pos, m, ck, c, share)
                sink.chunks[c] = good
    elif g == 'appended':
        ck = case[1]
        state = must(bp.pack, spec.payload('noise', 20), 8, None, [True, ck, 5], {"a": "b" * 30})
        fp = io.BytesIO(state)
        must(bp.append_fp, fp, io.BytesIO(spec.payload('noise', 13, salt=2)), 13)
        fp.seek(0)
        must(bp.append_fp, fp, io.BytesIO(spec.payload('noise', 9, salt=3)), 9)
        fp.seek(32)
        must(bp.rewrite_fp, fp, {"c": "d" * 20})
        archive = fp.getvalue()
        a = spec.parse(archive)
        require(must(bp.unpack, archive)[0] == a.content, 'the undamaged archive does not unpack')
        for c in range(a.nchunks):
            damage_chunk(archive, a, c, [0x01, 0x40], False, ctx)
        for pos in list(range(64, 64 + a.meta.comp_size)) + list(range(a.meta.end - 4, a.meta.end)):
            for m in MASKS:
                expect_error(readers(damage(archive, pos, m), False), 'metadata byte %d changed' % (pos - 64), False, ctx)
                ctx.nontrivial(pos, m, ck)
    elif g == 'holes':
        holes(case, ctx)
    elif g == 'several':
        several(case, ctx)
    ctx.sample({'case': case, 'masks': ['%#x' % m for m in MASKS]})


def holes(case, ctx):
    """Any range of bytes from the first chunk on reads as zeros (a block that never reached the disk)."""
    _, ck, with_meta = case
    arr = np.frombuffer(spec.payload('noise', 40), '<u2').reshape(4, 5)
    npmeta = {'dtype': "'<u2'", 'shape': [4, 5], 'order': 'C', 'container': 'numpy'}
    sec = spec.meta_section(npmeta, 'zlib', 6, ck) if with_meta else None
    archive = spec.build([spec.compress(arr.tobytes()[i:i + 14], 2, 0, 0, 'blosclz') for i in (0, 14, 28)], sec, 'set', ck, 1)
    a = spec.parse(archive)
    require(must(bp.unpack, archive)[0] == a.content, 'the undamaged archive does not unpack')
    start, end = a.positions[0], len(archive)
    bounds = sorted(set(a.positions + [p + k for p in a.positions for k in (4, 8, 16, 20)] + list(range(start, end, 3)) + [end]))
    for i in range(start, end):
        for j in range(i + 1, end + 1) if ctx.tier == 'thorough' else [b for b in bounds if b > i]:
            d = archive[:i] + bytes(j - i) + archive[j:]
            if d == archive:
                continue
            fs = list(readers(d, False))[:1]
            if with_meta and (i in bounds or j == end):
                fs.append(('unpack_ndarray_from_bytes', lambda: bp.numpy_io.unpack_ndarray_from_bytes(d)))
            expect_error(fs, 'zeros from %d to %d of %d (%s)' % (i - start, j - start, end - start, ck), True, ctx)
            ctx.nontrivial(ck, with_meta, i, j)


def several(case, ctx):
    """Several bytes of one checked unit (its data and checksum): every burst, pair, swap and shift which the checksum, computed
    independently, does not match afterwards."""
    _, ck, where, how = case
    chunks = [spec.compress(spec.payload('noise', 18, salt=i + 1), 8, 0, 0, 'blosclz') for i in range(2)]
    section = spec.meta_section({"key": "value", "n": [1, 2, 3]}, 'None', 0, ck, 40)
    archive = spec.build(chunks, section, 'set', ck, 1)
    a = spec.parse(archive)
    require(must(bp.unpack, archive)[0] == a.content, 'the undamaged archive does not unpack')
    ds = spec.SIZES[ck]
    if where == 'metadata':
        start, n, dpos = 64, a.meta.comp_size, a.meta.end - ds
    else:
        c = 0 if where == 'first' else 1
        start, n = a.positions[c], len(a.chunks[c])
        dpos = start + n
    cells = list(range(start, start + n)) + list(range(dpos, dpos + ds))
    unit = bytes(archive[p] for p in cells)
    deep = ctx.tier == 'thorough'
    new = []
    N = len(unit)
    if how in ('flip', 'zero', 'ones'):
        for i in range(N):
            for j in range(i + 2, N + 1):
                if not deep and j - i > 12 and j != N and i != 0 and i != n and j != n and (j - i) % 8:
                    continue
                mid = bytes(x ^ 0xff for x in unit[i:j]) if how == 'flip' else (b'\0' if how == 'zero' else b'\xff') * (j - i)
                new.append(('bytes %d to %d: %s' % (i, j, how), unit[:i] + mid + unit[j:]))
    elif how == 'pairs':
        for i in range(N):
            for j in range(i + 1, N):
                for x, y in ((1, 1), (0x80, 0x80), (1, -1)) if deep or j < n or (i + j) % 5 == 0 else ((1, 1),):
                    b = bytearray(unit)
                    if y == -1:
                        b[i], b[j] = (b[i] + 1) & 255, (b[j] - 1) & 255
                    else:
                        b[i] ^= x
                        b[j] ^= y
                    new.append(('bytes %d and %d: %d, %d' % (i, j, x, y), bytes(b)))
    elif how == 'swap':
        for i in range(N):
            for j in range(i + 1, N):
                b = bytearray(unit)
                b[i], b[j] = b[j], b[i]
                new.append(('bytes %d and %d swapped' % (i, j), bytes(b)))
    elif how == 'shift':
        for i in range(N):
            for k in (1, 2, 4):
                new.append(('bytes from %d on moved by %d' % (i, k), unit[:i] + unit[i:][k:] + unit[i:][:k]))
    else:
        other = [spec.digest(ck, d) for d in (a.chunks + [b'', unit[:n][:16], a.content, section, section[32:72], section[:32 + 40]])]
        for d in other + [b'\0' * ds, b'\xff' * ds, b' ' * ds, spec.digest(ck, unit[:n])[::-1]]:
            new.append(('checksum %r' % d, unit[:n] + d))
        for name in spec.CHECKSUMS[1:]:
            if name != ck and spec.SIZES[name] >= ds:
                new.append(('checksum of %s' % name, unit[:n] + spec.digest(name, unit[:n])[:ds]))
        new += [('data %d of another unit' % k, o[:n].ljust(n, b'\0') + unit[n:]) for k, o in enumerate(a.chunks + [section[32:]])]
    for what, u in new:
        if u == unit or spec.digest(ck, u[:n]) == u[n:]:
            continue
        boundary = where != 'metadata' and u[12:16] != unit[12:16]
        b = bytearray(archive)
        for p, x in zip(cells, u):
            b[p] = x
        expect_error(list(readers(bytes(b), False))[:1], '%s, %s, %s' % (where, ck, what), boundary, ctx)
        ctx.nontrivial(ck, where, u)
