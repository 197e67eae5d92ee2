import io
import itertools
import json

from mc import bp, far, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('Archives are assembled by an independent writer of the documented format (never by bloscpack) over '
        'every combination of a bounded space of sections and read back through every unpacking entry point; '
        'non-trivial: more than one chunk, metadata, or a refused header.')
ASSUMPTIONS = ['an archive has at least one chunk and a known chunk count', 'python-blosc makes the chunks']
BLOCK = 8

# (payload kind, bytes, typesize, clevel, shuffle, codec)
CHUNKS = [('noise', 16, 8, 7, 1, 'blosclz'), ('ints', 16, 4, 9, 2, 'lz4'), ('zero', 16, 1, 1, 0, 'zlib'),
          ('ints', 640, 8, 5, 1, 'zstd'), ('noise', 5, 3, 0, 0, 'lz4hc'), ('text', 0, 8, 7, 1, 'blosclz')]
METAS = [{"a": 1}, {}, [], "", 0, False, {"k": "x" * 500}, "\u00fc\u4e2d", [1, [2, {"b": None}]], list(range(20000))]
TEXTS = ['{"a" : 1 }', ' [1,\n 2]\t', '"\u00fc\u4e2d\U0001f600"', '1E5', 'null', '{"a":1,"b":{"c":[true,false,null]}}',
         '"\\u00e9"', '[]', '12345678901234567890']


def cases(tier):
    deep = tier == 'thorough'
    for ck, off in (('None', False), ('adler32', True)):
        yield ['far', ck, off]
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for combo in itertools.product(range(len(CHUNKS)), repeat=n):
            for cs in (spec.CHECKSUMS if n < 3 or deep else ('None', 'adler32', 'sha384')):
                for off in ('none', 'set', 'unset'):
                    yield ['chunks', list(combo), cs, off, 0 if off == 'none' else (0, 1, 7)[sum(combo) % 3],
                           (None, 0, 1, 6)[sum(combo) % 4]]
    for combo in ([0], [0, 1], [3, 3, 0], [0, 1, 2, 1, 4]):
        for cs in spec.CHECKSUMS:
            for off in ('none', 'set', 'unset'):
                for app in ((0,) if off == 'none' else (0, 1, 2, 3, 255, 256, 1000)):
                    for mi in (None, 0, 5):
                        yield ['reservation', combo, cs, off, app, mi]
    for mi in range(len(METAS)):
        for co in ('None', 'zlib'):
            for lv in (range(10) if co == 'zlib' else (0,)):
                for ck in spec.CHECKSUMS:
                    for extra in (0, 1, 33, 1000, 70000) if lv in (0, 6) else (0, 33):
                        for pre in (0, 0x7b):
                            yield ['metadata', mi, co, lv, ck, extra, pre]
    for ti in range(len(TEXTS)):
        for co in ('None', 'zlib'):
            for ck in ('None', 'sha1'):
                yield ['json-text', ti, co, ck]
    for n in (254, 255, 256, 257, 1000, 65535, 65536, 70001):
        for off in ('none', 'set', 'unset'):
            for cs in ('None', 'sha512', 'crc32') if n < 2000 else ('crc32',):
                yield ['many', n, cs, off]
    for size in (2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 20, 2 ** 24 + 3):
        for kind in ('noise', 'ints', 'zero'):
            yield ['large', size, kind]
    for v in range(256):
        if v != 3:
            yield ['version', v]
    for pos in range(4):
        for b in range(256):
            if spec.MAGIC[pos] != b:
                yield ['magic', pos, b]
    for ts in range(256):
        yield ['typesize', ts]


_mk = {}


def chunk(i):
    if i not in _mk:
        kind, n, ts, lv, sh, cn = CHUNKS[i]
        plain = spec.payload(kind, n, salt=i)
        _mk[i] = (plain, spec.compress(plain, ts, lv, sh, cn))
    return _mk[i]


def readers(archive):
    yield 'unpack_bytes_from_bytes', lambda: bp.file_io.unpack_bytes_from_bytes(archive)
    bp.write('r.blp', archive)
    yield 'unpack_bytes_from_file', lambda: bp.file_io.unpack_bytes_from_file('r.blp')

    def ff():
        meta = bp.file_io.unpack_file_from_file('r.blp', 'r.out')
        return bp.read('r.out'), meta
    yield 'unpack_file_from_file', ff

    def manual():
        src = bp.file_io.CompressedFPSource(io.BytesIO(archive))
        sink = bp.memory_io.PlainMemorySink(src.nchunks)
        bp.abstract_io.unpack(src, sink)
        return b''.join(sink.chunks), src.metadata
    yield 'memory sink', manual


def check_reads(archive, content, meta, ctx, all_readers=True):
    for i, (name, f) in enumerate(readers(archive)):
        if i and not all_readers:
            break
        got, gotmeta = must(f)
        require(bytes(got) == content, '%s returned %s instead of %s', name, short(got), short(content))
        require(json.dumps(gotmeta) == json.dumps(meta), '%s returned metadata %s instead of %s',
                name, short(gotmeta), short(meta))
        ctx.count('evaluations')


def check_refused(archive, what, ctx):
    for name, f in readers(archive):
        bp.write('r.out', b'')
        r = call(f)
        require(not r.ok, '%s accepted an archive with %s: %s', name, what, r)
        require(bp.read('r.out') == b'', '%s wrote data from an archive with %s', name, what)
        ctx.count('evaluations')
        ctx.outcome('refused: ' + type(r.exc).__name__)


def beyond(case, ctx):
    _, ck, off = case
    p = far.piece()
    for tail in (b'', b'tail!'):
        source = far.archive(p, far.N, tail, ck, 2, off)
        out = far.Far([p])
        try:
            src = must(bp.file_io.CompressedFPSource, source)
            must(bp.abstract_io.unpack, src, bp.file_io.PlainFPSink(out, far.N + bool(tail)))
        except Violation as v:
            if 'Unsupported' in str(v):
                ctx.outcome('unsupported')
                return
            raise
        diff = far.differ(out, far.plain(p, far.N, tail))
        require(diff is None, 'unpacking %d pieces of %d bytes and %r: %s', far.N, far.PIECE, tail, diff)
        ctx.nontrivial('far', ck, off, tail)
        ctx.count('evaluations')
    ctx.outcome('far held')


def run(case, ctx):
    g = case[0]
    if g == 'far':
        return beyond(case, ctx)
    if g in ('chunks', 'reservation'):
        _, combo, cs, off, app, mi = case
        parts = [chunk(i) for i in combo]
        meta = None if mi is None else METAS[mi]
        msec = None if mi is None else spec.meta_section(meta, max_size=None if mi else 200)
        content = b''.join(p for p, _ in parts)
        lens = [len(p) for p, _ in parts]
        uniform = len(set(lens[:-1])) <= 1 and lens[-1] <= lens[0]
        for known in ((True, False) if uniform else (False,)):
            kw = {} if known else dict(chunk_size=-1, last_chunk=-1)
            archive = spec.build([c for _, c in parts], msec, off, cs, app, **kw)
            if known:
                spec.parse(archive, strict=off != 'unset')
            check_reads(archive, content, meta, ctx, g == 'reservation' or len(combo) < 3)
        ctx.outcome('%s, %s' % ('uniform' if uniform else 'mixed chunk lengths', off))
        if len(combo) > 1 or mi is not None:
            ctx.nontrivial(*case)
    elif g == 'metadata':
        _, mi, co, lv, ck, extra, pre = case
        stored = spec.meta_section(METAS[mi], co, lv, ck)
        size = len(stored) - 32 - spec.SIZES[ck]
        msec = spec.meta_section(METAS[mi], co, lv, ck, size + extra, prealloc_byte=bytes([pre]))
        p, c = chunk(3)
        archive = spec.build([c, c], msec, 'set', 'md5', 2)
        check_reads(archive, p + p, METAS[mi], ctx, extra < 100)
        ctx.nontrivial(*case)
    elif g == 'json-text':
        _, ti, co, ck = case
        msec = spec.meta_section(None, co, 6, ck, text=TEXTS[ti])
        p, c = chunk(3)
        check_reads(spec.build([c], msec), p, json.loads(TEXTS[ti]), ctx)
        ctx.nontrivial(*case)
    elif g == 'many':
        _, n, cs, off = case
        abc = [spec.payload('noise', 3, salt=j + 1) for j in range(7)]
        comp = [spec.compress(x, 1, 0, 0, 'blosclz') for x in abc]
        order = [(i * i + i // 7) % 7 for i in range(n)]
        archive = spec.build([comp[j] for j in order], None, off, cs, 5 if off != 'none' else 0, typesize=1)
        check_reads(archive, b''.join(abc[j] for j in order), None, ctx, n < 2000)
        ctx.nontrivial(*case)
    elif g == 'large':
        _, size, kind = case
        d = spec.payload(kind, size)
        archive = spec.build([spec.compress(d, 8, 1, 1, 'lz4'), spec.compress(d[:size // 3], 8, 1, 1, 'lz4')])
        check_reads(archive, d + d[:size // 3], None, ctx)
        ctx.nontrivial(*case)
    elif g == 'version':
        p, c = chunk(3)
        for msec in (None, spec.meta_section({"a": 1})):
            check_refused(spec.build([c, c], msec, version=case[1]), 'format version %d' % case[1], ctx)
        ctx.nontrivial(*case)
    elif g == 'magic':
        p, c = chunk(3)
        m = bytearray(spec.MAGIC)
        m[case[1]] = case[2]
        check_refused(spec.build([c], None, magic=bytes(m)), 'magic %r' % bytes(m), ctx)
        ctx.nontrivial(*case)
    elif g == 'typesize':
        p, c = chunk(3)
        check_reads(spec.build([c, c], typesize=case[1]), p + p, None, ctx)
        ctx.nontrivial(*case)
    ctx.sample({'case': case})
