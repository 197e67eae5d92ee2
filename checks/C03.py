import json
import zlib

import blosc

from mc import bp, far, packcases, spec
from mc.core import Violation, must, require, short

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('Every archive written for the case space (packcases.py) is parsed by an independent parser '
        'of the documented format that accounts for every byte, and every section is compared with '
        'what the options call for; digest-*: chunks and metadata whose digests take special values (all zero, high bit, white space, '
        'forged for CRC and Adler), and thousands of distinct digests of every kind, and all inputs of up to two bytes; non-trivial: more than one chunk, or metadata present.')
ASSUMPTIONS = ['blosc.compress with one thread is deterministic and is the reference for chunk contents',
               'README.rst is the format definition, with the JSON magic padded by nulls as written by all releases']
BLOCK = 4
DEFAULT_META = ('zlib', 6, 'adler32', 'f:10:0')
ROUTES = ('bytes', 'file', 'bytes-file')


def cases(tier):
    for i, c in enumerate(packcases.cases(tier)):
        yield c
    for size in (0, 1, 16, 33, 700):
        for oi, ba in enumerate((None, [2, 9, 2, 'zstd'])):
            for bpa in (None, [True, 'sha224', 2], [False, 'crc32', 2]):
                for meta in (None, {"a": "b"}):
                    for route in ROUTES[1:]:
                        yield ['route-' + route, 'ints', size, 16, ba, bpa, meta, None]
    for ck in spec.CHECKSUMS:
        yield ['digest-values', ck]
        for part in range(8):
            yield ['digest-many', ck, part]
        for part in range(4):
            yield ['digest-meta', ck, part]
    for part in range(8):
        yield ['digest-small', part]
    for ck, app in (('None', 3), ('crc32', 0), ('sha1', 3)):
        yield ['far', ck, app]


def forge_crc(data, target):
    """Four bytes which, behind data, make the CRC the target."""
    table = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        table.append(c)
    top = {t >> 24: i for i, t in enumerate(table)}
    want, path = target ^ 0xffffffff, []
    for _ in range(4):
        i = top[want >> 24]
        path.append(i)
        want = ((want ^ table[i]) << 8) & 0xffffffff
    state, out = zlib.crc32(data) ^ 0xffffffff, bytearray()
    for i in reversed(path):
        out.append((state ^ i) & 255)
        state = (state >> 8) ^ table[i]
    out = bytes(out)
    assert zlib.crc32(data + out) == target, 'forging'
    return out


def forge_adler(head, a, b, n=1200):
    """n bytes which, behind head, give the Adler sums a and b."""
    d = bytearray([128]) * n
    now = lambda: zlib.adler32(head + bytes(d))
    need = (a - (now() & 0xffff)) % 65521
    for i in range(n):
        step = min(need, 127)
        d[i] += step
        need -= step
    # moving a unit from place i to place j > i lowers b by j - i and leaves a
    need = ((now() >> 16) - b) % 65521
    i, j = 0, n - 1
    while need:
        k = min(j - i, need)
        while d[i] == 0:
            i += 1
        j2 = i + min(n - 1 - i, need)
        while d[j2] == 255:
            j2 -= 1
        if j2 <= i:
            i += 1
            continue
        d[i] -= 1
        d[j2] += 1
        need -= j2 - i
    assert now() == b << 16 | a, 'forging'
    return bytes(d)


CRC = [0, 1, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 0x20202020, 0x0a0a0a0a, 0x00ffffff, 0xffffff00, 0x00000080, 0x0000000a]
ADLER = [(0, 0), (1, 0), (0, 1), (65520, 65520), (1, 1), (0, 0x8000), (0x8000, 0), (0x2020, 0x2020), (0x0a, 0x0a00), (256, 255)]
STORED = (1, 0, 0, 'blosclz')


def digests(case, ctx):
    g = case[0]
    if g == 'digest-small':
        for name in spec.CHECKSUMS:
            impl = bp.checksums.CHECKSUMS_LOOKUP[name]
            require(impl.size == spec.SIZES[name], '%s: size %d', name, impl.size)
            for n in range(case[1], 65536 + 257, 8):
                data = b'' if n == 0 else bytes([n - 1]) if n < 257 else bytes(divmod(n - 257, 256))
                got = impl(data)
                require(got == spec.digest(name, data), '%s of %r is %r', name, data, got)
            ctx.count('digests', 65536 // 8)
            ctx.nontrivial(*case, name)
        return
    ck = case[1]
    if g == 'digest-meta':
        for k in range(case[2], 1200, 4):
            value = [k, str(k * k)]
            archive = must(bp.pack, b'x', None, None, None, value, ['zlib' if k % 3 else 'None', k % 10, ck, None])
            check_archive(archive, b'x', None, None, None, value, ['zlib' if k % 3 else 'None', k % 10, ck, None])
            require(must(bp.unpack, archive) == (b'x', value), 'metadata %s with digest %s', value, ck)
            ctx.nontrivial(*case, k)
        return
    if g == 'digest-values':
        chunks = []
        if ck == 'crc32':
            for t in CRC:
                head = spec.compress(b'1234' + bytes(4), *STORED)[:-4]
                chunks.append(b'1234' + forge_crc(head, t))
        elif ck == 'adler32':
            for a, b in ADLER:
                head = spec.compress(bytes(1200), *STORED)[:-1200]
                chunks.append(forge_adler(head, a, b))
        else:
            chunks = [b'%08d' % i for i in range(600)]
    else:
        chunks = [b'%08d' % i for i in range(case[2] * 1000, case[2] * 1000 + (1000 if ctx.tier == 'thorough' else 200))]
    data = b''.join(chunks)
    for bpa in ([True, ck, 1], [False, ck, 0]):
        archive = must(bp.pack, data, len(chunks[0]), STORED, bpa)
        a = check_archive(archive, data, len(chunks[0]), STORED, bpa, None, None)
        if g == 'digest-values' and ck in ('crc32', 'adler32'):
            require(spec.digest(ck, a.chunks[0]) == b'\0' * 4, 'harness: digest not forged')
        r = must(bp.unpack, archive)
        require(r == (data, None), 'unpacked %s', short(r))
    ctx.count('chunks_recompressed', 2 * len(chunks))
    ctx.nontrivial(*case)


def check_archive(archive, data, chunk, ba, bpa, meta, ma, value=True):
    try:
        a = spec.parse(archive, decompress=False)
    except spec.SpecError as e:
        raise Violation('archive is not in the documented layout: %s' % e)
    if isinstance(chunk, str):
        chunk = int(float(chunk[:-1]) * {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30}[chunk[-1]])
    n, cs, last = spec.chunking(len(data), chunk if chunk is not None else 2 ** 20)
    ba = ba or [8, 7, True, 'blosclz']
    off, checksum, app = bpa or [True, 'adler32', None]
    require((a.nchunks, a.chunk_size, a.last_chunk) == (n, cs, last),
            'header says chunks %s, expected %s', (a.nchunks, a.chunk_size, a.last_chunk), (n, cs, last))
    require(a.typesize == ba[0], 'header says typesize %d instead of %d', a.typesize, ba[0])
    require(a.checksum == checksum, 'header says checksum %s instead of %s', a.checksum, checksum)
    require(a.offsets_on == off, 'offsets flag')
    want_app = bp.apply_number(app, n, lambda x: 10 * x) if off else 0
    require(a.max_app_chunks == want_app, 'max_app_chunks %d instead of %d', a.max_app_chunks, want_app)
    require(a.metadata_on == (meta is not None), 'metadata flag')
    for i, c in enumerate(a.chunks):
        ref = spec.compress(data[i * cs:(i + 1) * cs], *ba)
        require(c == ref, 'chunk %d is not the Blosc compression of its slice with %s', i, ba)
    if meta is not None:
        check_meta(a.meta, meta, ma)
    return a


def check_meta(m, meta, ma):
    co, lv, ck, mx = ma or DEFAULT_META
    if mx is None:
        mx = 'f:10:0'
    require(json.dumps(m.value, sort_keys=True) == json.dumps(meta, sort_keys=True), 'metadata %s stored as %s',
            short(meta), short(m.value))
    require(m.checksum == ck, 'metadata checksum %s instead of %s', m.checksum, ck)
    if co == 'zlib' and len(zlib.compress(m.raw, lv)) <= len(m.raw):
        require(m.codec == 'zlib' and m.level == lv, 'metadata codec %s level %d, asked for zlib %d',
                m.codec, m.level, lv)
        require(m.stored == zlib.compress(m.raw, lv), 'stored metadata is not compressed with level %d', lv)
    else:
        require(m.codec == 'None', 'metadata codec %s', m.codec)
    require(m.max_size == bp.apply_number(mx, m.size, None), 'metadata reservation %d', m.max_size)


def beyond(case, ctx):
    """More than four gigabytes of incompressible data."""
    _, ck, app = case
    p = far.piece()
    for tail in (b'', b'tail!'):
        out = far.Far([far.stored(p)])
        source = bp.file_io.PlainFPSource(far.plain(p, far.N, tail))
        try:
            must(bp.abstract_io.pack, source, bp.file_io.CompressedFPSink(out), far.N + bool(tail), far.PIECE, len(tail) or far.PIECE, None,
                 far.args(), bp.BloscpackArgs(checksum=ck, max_app_chunks=app))
        except Violation as v:
            if 'Unsupported' in str(v):
                ctx.outcome('unsupported')
                return
            raise
        diff = far.differ(out, far.archive(p, far.N, tail, ck, app))
        require(diff is None, 'packing %d pieces of %d bytes and %r: %s', far.N, far.PIECE, tail, diff)
        ctx.nontrivial('far', ck, app, tail)
        ctx.count('evaluations')
    ctx.outcome('far held')


def run(case, ctx):
    if case[0].startswith('digest-'):
        return digests(case, ctx)
    if case[0] == 'far':
        return beyond(case, ctx)
    group, kind, size, chunk, ba, bpa, meta, ma = case
    data = spec.payload(kind, size)
    if group == 'route-file':
        bp.write('in', data)
        must(bp.file_io.pack_file_to_file, 'in', 'out', chunk_size=chunk, metadata=meta,
             blosc_args=bp.blosc_args(ba), bloscpack_args=bp.bloscpack_args(bpa))
        archive = bp.read('out')
    elif group == 'route-bytes-file':
        must(bp.file_io.pack_bytes_to_file, data, 'out', chunk_size=chunk, metadata=meta,
             blosc_args=bp.blosc_args(ba), bloscpack_args=bp.bloscpack_args(bpa))
        archive = bp.read('out')
    else:
        archive = must(bp.pack, data, chunk, ba, bpa, meta, ma)
    a = check_archive(archive, data, chunk, ba, bpa, meta, ma)
    ctx.count('evaluations')
    ctx.count('bytes_accounted_for', len(archive))
    ctx.count('offset_entries_checked', len(a.offsets or ()))
    ctx.count('chunks_recompressed', a.nchunks)
    ctx.outcome('%s offsets, %s metadata, %s chunk' % (
        'with' if a.offsets_on else 'no', a.meta.codec if a.meta else 'no',
        'one' if a.nchunks == 1 else 'several'))
    if a.nchunks > 1 or meta is not None:
        ctx.nontrivial(*case)
    ctx.sample({'case': case, 'header': [a.nchunks, a.chunk_size, a.last_chunk, a.max_app_chunks],
                'positions': a.positions[:4], 'length': len(archive)})
