import io
import json

from mc import bp, hist, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C10'
LEVEL = 'fault_enumeration'
RULE = ('Fault model: one byte of an archive is changed or the archive is cut off, then it is appended to. Every byte of the '
        'last chunk, its checksum and the metadata under every mask, and every cut inside the last chunk or its checksum: '
        'the append must fail and change nothing. Every byte of every other chunk: every sequence of two appends, and '
        'unpacking must still fail. Each evaluation is one damaged archive, which makes it non-trivial.')
ASSUMPTIONS = ['single-byte damage or truncation only']
BLOCK = 1
MASKS = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff]
C = hist.Config
# (size, chunk, reservation, metadata, maximum, blosc settings)
SHAPES = [
    (20, 8, 3, None, None, (8, 0, 0, 'blosclz')), (24, 8, 3, {"a": 1}, 60, (8, 9, 1, 'zstd')),
    (5, 40, 2, [1, "x"], 30, (1, 5, 0, 'lz4')), (40, 40, 1, None, None, (4, 7, 1, 'blosclz')),
    (100, 30, 4, "m" * 50, 300, (4, 5, 2, 'zlib')), (9, 1, 9, None, None, (1, 0, 0, 'lz4')),
    (700, 256, 2, {"k": None}, 80, (8, 5, 1, 'lz4hc')),
]
ADDS = [0, 1, 3, 8, 30]         # bytes appended, besides those relative to the room left


def config(si, ck):
    size, chunk, app, meta, mx, ba = SHAPES[si]
    return C(size, chunk, ck, app, meta, mx, ba[0], 'sha1' if si % 2 else 'adler32', 'zlib' if si == 4 else 'None', ba)


def cases(tier):
    deep = tier == 'thorough'
    for ck in spec.CHECKSUMS[1:]:
        for si in range(len(SHAPES)):
            for ai in range(4):
                yield ['last', ck, si, ai]
                yield ['cut', ck, si, ai]
                yield ['metadata', ck, si, ai]
            yield ['other', ck, si, deep]
        yield ['files', ck]
        yield ['history', ck]
    for ck in ('adler32', 'sha256'):
        for n in (255, 256, 257, 600):
            yield ['many', ck, n]
        yield ['large', ck]


def new_data(a, ai):
    room = a.chunk_size - a.sizes[-1]
    n = [1, room, room + 1, room + a.chunk_size * a.max_app_chunks][ai]
    return spec.payload('noise', n, salt=7)


def refused(damaged, data, what, ctx, files=False):
    for j, settings in enumerate((None, (8, 0, False, 'lz4'))):
        r, after = hist.do_append(damaged, data, settings, ('dict', 'obj')[j])
        ctx.count('evaluations')
        require(not r.ok, '%s: append of %d bytes was accepted', what, len(data))
        require(after == damaged, '%s: append of %d bytes failed (%s) but changed the archive', what, len(data), r)
        ctx.outcome(type(r.exc).__name__)
        if files:
            r, after = hist.do_append_file(damaged, data, settings)
            ctx.count('evaluations')
            require(not r.ok, '%s: append of a file of %d bytes was accepted', what, len(data))
            require(after == damaged, '%s: append of a file failed (%s) but changed the archive', what, r)


def detected(fp_bytes, what, ctx):
    r = call(bp.unpack, fp_bytes)
    ctx.count('evaluations')
    require(not r.ok, '%s: unpacks to %s', what, short(r.value))
    ctx.outcome('unpack: ' + type(r.exc).__name__)


def flip(b, pos, mask):
    b = bytearray(b)
    b[pos] ^= mask
    return bytes(b)


def run(case, ctx):
    g, ck = case[0], case[1]
    if g in ('last', 'cut', 'metadata'):
        _, ck, si, ai = case
        archive = config(si, ck).build()
        a = spec.parse(archive)
        data = new_data(a, ai)
        r, after = hist.do_append(archive, data)
        require(r.ok, 'append to the undamaged archive: %s', r)
        s = a.positions[-1]
        if g == 'last':
            for pos in range(s, len(archive)):
                for m in MASKS:
                    refused(flip(archive, pos, m), data, 'byte %d of the last chunk (%s, %d bytes) changed by %#x'
                            % (pos - s, ck, len(a.chunks[-1]), m), ctx, m == 0x01 and ai == 2)
                    ctx.nontrivial(ck, si, ai, pos, m)
        elif g == 'cut':
            for n in range(s, len(archive)):
                refused(archive[:n], data, 'cut off %d bytes into the last chunk (%s, %d bytes)'
                        % (n - s, ck, len(a.chunks[-1])), ctx, ai == 1)
                ctx.nontrivial(ck, si, ai, n)
            for n in sorted({0, 3, 31, 32, 33, a.offsets_pos, a.offsets_pos + 8, a.chunks_pos - 1, a.chunks_pos}):
                if n < s:
                    refused(archive[:n], data, 'cut off after %d bytes' % n, ctx)
                    ctx.nontrivial(ck, si, ai, n)
        elif a.meta:
            ds = spec.SIZES[a.meta.checksum]
            for pos in list(range(64, 64 + a.meta.comp_size)) + list(range(a.meta.end - ds, a.meta.end)):
                for m in MASKS:
                    refused(flip(archive, pos, m), data, 'byte %d of the metadata changed by %#x' % (pos - 64, m), ctx,
                            m == 0x80)
                    ctx.nontrivial(ck, si, ai, pos, m)
    elif g == 'other':
        _, ck, si, deep = case
        archive = config(si, ck).build()
        a = spec.parse(archive)
        room = a.chunk_size - a.sizes[-1]
        adds = sorted({0, 1, room, room + 1, room + a.chunk_size})
        for c in range(a.nchunks - 1):
            s, e = a.positions[c], a.positions[c] + len(a.chunks[c]) + len(a.digests[c])
            step = 1 if a.nchunks < 6 and e - s < 150 else 7
            for pos in range(s, e, step):
                for m in (0x01, 0x80) if not deep else MASKS:
                    d = flip(archive, pos, m)
                    for n1 in adds:
                        r, d1 = hist.do_append(d, spec.payload('noise', n1, salt=3))
                        what = 'byte %d of chunk %d changed by %#x, then append of %d' % (pos - s, c, m, n1)
                        detected(d1, what, ctx)
                        ctx.nontrivial(ck, si, pos, m, n1)
                        for n2 in (adds if deep else adds[1:4:2]):
                            r, d2 = hist.do_append(d1, spec.payload('noise', n2, salt=4))
                            detected(d2, what + ' and of %d' % n2, ctx)
    elif g == 'files':
        archive = config(1, ck).build()
        a = spec.parse(archive)
        bp.write('m.json', b'{"new": 1}')
        for pos in list(range(a.positions[-1], len(archive))) + [64, a.meta.end - 1]:
            d = flip(archive, pos, 0x10)
            refused(d, b'0123456789abc', 'byte %d (%s) changed' % (pos, ck), ctx, True)
            # the append command, with and without new metadata
            for extra in ([], ['-m', 'm.json']):
                bp.write('c.blp', d)
                bp.write('new.bin', b'0123456789abc')
                r = cli(['append'] + extra + ['c.blp', 'new.bin'])
                ctx.count('evaluations')
                require(r != 0, 'byte %d (%s) changed: the append command succeeded', pos, ck)
                require(bp.read('c.blp') == d, 'byte %d (%s) changed: the append command %s changed the archive',
                        pos, ck, extra)
            ctx.nontrivial(ck, pos)
    elif g == 'history':
        # damage at any point of a history of appends stays visible to the end of it
        sizes = [3, 9, 1, 0, 14, 8, 2]
        state = must(bp.pack, spec.payload('noise', 13), 8, None, [True, ck, 12], {"a": 1})
        for i in range(len(sizes)):
            a = spec.parse(state)
            for c in range(a.nchunks - 1):
                s = a.positions[c]
                for pos in (s + 4, s + 16, s + len(a.chunks[c]) - 1, s + len(a.chunks[c]), a.positions[c + 1] - 1):
                    d = flip(state, pos, 0x04)
                    for n in sizes[i:]:
                        r, d = hist.do_append(d, spec.payload('noise', n, salt=n + 1))
                        detected(d, 'chunk %d damaged after %d appends' % (c, i), ctx)
                    ctx.nontrivial(ck, i, c, pos - s)
            for pos in range(a.positions[-1], len(state)):
                refused(flip(state, pos, 0x20), b'z' * 9, 'last chunk damaged after %d appends' % i, ctx)
                ctx.nontrivial(ck, i, 'last', pos)
            r, state = hist.do_append(state, spec.payload('noise', sizes[i], salt=i + 1))
            require(r.ok, 'append: %s', r)
    elif g == 'many':
        _, ck, n = case
        comp = [spec.compress(spec.payload('noise', 4, salt=j + 1), 1, 0, 0, 'blosclz') for j in range(5)]
        archive = spec.build([comp[i % 5] for i in range(n)], None, 'set', ck, 300, chunk_size=4, last_chunk=4)
        a = spec.parse(archive)
        for pos in range(a.positions[-1], len(archive)):
            refused(flip(archive, pos, 0x08), b'12345', 'byte %d of chunk %d changed' % (pos - a.positions[-1], n), ctx)
            ctx.nontrivial(ck, n, pos)
        for c in (0, 1, 127, 254, 255, 256, n - 2):
            if c < n - 1:
                d = flip(archive, a.positions[c] + 17, 0x08)
                for m in (1, 5, 300):
                    r, d = hist.do_append(d, spec.payload('noise', m))
                    detected(d, 'chunk %d of %d changed, then append of %d' % (c, n, m), ctx)
                ctx.nontrivial(ck, n, c)
    elif g == 'large':
        size = 2 ** 20 + 70000
        data = spec.payload('noise', size)
        archive = must(bp.pack, data, None, (8, 0, 0, 'blosclz'), [True, ck, 3])
        a = spec.parse(archive)
        s = a.positions[-1]
        for pos in sorted(set(range(s, len(archive), 3001)) | set(range(s, s + 40)) | set(range(len(archive) - 70, len(archive)))):
            refused(flip(archive, pos, 0x80), b'12345', 'byte %d of a large last chunk changed' % (pos - s), ctx)
            ctx.nontrivial(ck, pos)
        for n in sorted(set(range(s, len(archive), 3001)) | set(range(len(archive) - 70, len(archive)))):
            refused(archive[:n], b'12345', 'large last chunk cut off after %d' % (n - s), ctx)
            ctx.nontrivial(ck, 'cut', n)
    ctx.sample({'case': case})


def cli(argv):
    return bp.run_cli(argv)[0]
