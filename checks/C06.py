import io
import json
import os
import struct

from mc import bp, far, hist, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('Explicit-state search: a state is the complete archive (its bytes); transitions run the real append_fp, '
        'append and metadata rewriting on it, and each successor is parsed by the independent parser and compared '
        'with the concatenation model. Every sequence of operations up to the stated depth from each initial '
        'archive; spine-*: long single-operation histories.')
ASSUMPTIONS = ['initial archives have offsets and a last chunk of at most the chunk size',
               'blosc.compress with one thread is deterministic']
BLOCK = 1

C = hist.Config
NOISE = {"k": [(i * 7919) % 10007 for i in range(12)]}
CONFIGS = [
    C(5, 8, 'adler32', 4), C(8, 8, 'None', 3), C(20, 8, 'sha384', 5, {"a": 1}, 120),
    C(1, 1, 'crc32', 6, ba=(1, 0, 0, 'blosclz')), C(33, 16, 'md5', 2, [1, 2], 60, 4, 'sha256', 'zlib'),
    C(300, 300, 'sha512', 2, None, None, 2, ba=(2, 0, 0, 'lz4')), C(24, 8, 'sha1', 0, {}, 40, 255, 'None'),
    C(17, 40, 'None', 1, "x" * 50, 300, 1, 'md5', 'zlib'),
    C(700, 256, 'sha224', 3, {"b": None}, 64, 3, 'adler32'), C(64, 64, 'sha256', 1, None, None, 16, ba=(16, 9, 2, 'zstd')),
    C(9, 4, 'crc32', 7, hist.NULL, 30, 2),
]
SETTINGS = [None, (8, 0, False, 'blosclz'), (1, 9, 2, 'zlib'), (None, None, None, 'zstd')]
METAS = [{"a": 2}, {"z": "y" * 90}, NOISE, [], None]


def ops_of(c, depth, deep):
    """The alphabet: sizes relative to what fits, Blosc settings, metadata values."""
    ops = []
    for si in range(len(SETTINGS)):
        for rel in (('abs', 0), ('abs', 1), ('room', -1), ('room', 0), ('room', 1), ('chunk', 0), ('chunk', 1),
                    ('two', 0), ('two', 3)):
            if si > 1 and not deep and rel[0] in ('two',):
                continue
            ops.append(['append', rel[0], rel[1], si])
    if c.meta is not None:
        for mi in range(len(METAS)):
            ops.append(['meta', mi])
    return ops


def cases(tier):
    deep = tier == 'thorough'
    for ci, c in enumerate(CONFIGS):
        ops = ops_of(c, 0, deep)
        for o1 in range(len(ops)):
            for o2 in range(len(ops)):
                yield ['bfs', ci, [o1, o2], 2 if deep and c.chunk < 100 else 1]
    for ci in range(len(CONFIGS)):
        yield ['files', ci]
        yield ['unknown last', ci]
    for ck in spec.CHECKSUMS:
        for chunk in (1, 2, 3, 7):
            yield ['spine', ck, chunk, 300 if chunk < 3 else 120]
    for total in (250, 65530):
        for step in (1, 3):
            yield ['spine-wide', total, step]
    for ck in ('None', 'adler32', 'sha512'):
        yield ['beyond', ck]
        yield ['far', ck, 2 ** 31 - 200]
        yield ['far', ck, 2 ** 32 - 1]
    for n in (2 ** 20 - 3, 2 ** 20, 2 ** 20 + 1, 2 * 2 ** 20 + 17):
        for m in (0, 1, 3, 2 ** 20 - 1, 2 ** 20, 3 * 2 ** 20 + 1):
            yield ['default-chunk', n, m]
    for ts in range(1, 256):
        yield ['typesize', ts]
    yield ['app-exact', 1]
    for size in (1, 5, 8, 9, 64):
        yield ['packed', size]


def new_size(a, rel, d):
    room = a.chunk_size - a.sizes[-1]
    base = {'abs': 0, 'room': room, 'chunk': room + a.chunk_size, 'two': room + 2 * a.chunk_size}[rel]
    return max(0, base + d)


def step(state, a, op, level, ctx, file_level=False):
    """Returns (new state, its parse) or None if the operation was rightly refused."""
    ctx.count('transitions')
    if op[0] == 'append':
        n = new_size(a, op[1], op[2])
        data = spec.payload('noise', n, salt=level + 2)
        settings = SETTINGS[op[3]]
        what = 'append of %d bytes with %s to %d bytes in chunks of %d' % (n, settings, len(a.content), a.chunk_size)
        if file_level:
            r, after = hist.do_append_file(state, data, settings, ('dict', 'obj')[level % 2])
        else:
            r, after = hist.do_append(state, data, settings, ('dict', 'obj')[level % 2], b'not to be read')
        k = hist.new_chunks(a, n)
        if k > a.max_app_chunks:
            require(not r.ok, '%s: accepted with %d new chunks but room for %d', what, k, a.max_app_chunks)
            require(after == state, '%s: refused but the archive changed', what)
            ctx.outcome('append refused')
            return None
        require(r.ok, '%s: %s', what, r)
        b = hist.check_append(data, a, state, after, NotImplemented if file_level else r.value, settings, what)
        ctx.outcome('append adding %s chunks' % (k if k < 3 else 'many'))
    else:
        value = METAS[op[1]]
        what = 'rewriting metadata to %s' % short(value)
        r, after = (hist.do_rewrite_file if file_level else hist.do_rewrite)(state, value, {})
        ok, b = hist.check_rewrite(state, a, value, {}, r, after, what)
        if not ok:
            ctx.outcome('rewrite refused')
            return None
        require(b.content == a.content, '%s: changed the content', what)
        ctx.outcome('rewrite')
    # what the library itself reads
    got, meta = must(bp.unpack, after)
    require(got == b.content, '%s: unpacks to %s', what, short(got))
    require(json.dumps(meta) == json.dumps(b.meta.value if b.meta else None), '%s: metadata %s', what, short(meta))
    ctx.state(after)
    return after, b


def initial(c, ctx):
    s = c.build()
    a = spec.parse(s)
    ctx.state(s)
    return s, a


def search(state, a, ops, level, depth, ctx, seen):
    if depth == 0:
        return
    for op in ops:
        nxt = step(state, a, op, level, ctx)
        if nxt is None or nxt[0] in seen:
            continue
        seen.add(nxt[0])
        search(nxt[0], nxt[1], ops, level + 1, depth - 1, ctx, seen)


def run(case, ctx):
    g = case[0]
    if g == 'beyond':
        return beyond(case[1], ctx)
    if g == 'bfs':
        c = CONFIGS[case[1]]
        ops = ops_of(c, 0, ctx.tier == 'thorough')
        state, a = initial(c, ctx)
        for level, oi in enumerate(case[2]):
            nxt = step(state, a, ops[oi], level, ctx)
            if nxt is None:
                return
            state, a = nxt
        search(state, a, ops, len(case[2]), case[3], ctx, set())
        ctx.count('traces')
        ctx.sample({'config': vars(c), 'first operations': [ops[i] for i in case[2]], 'further depth': case[3],
                    'chunks': a.nchunks, 'bytes': len(a.content)})
    elif g == 'files':
        c = CONFIGS[case[1]]
        ops = ops_of(c, 0, True)
        for o1 in ops:
            state, a = initial(c, ctx)
            nxt = step(state, a, o1, 0, ctx, True)
            for o2 in ops:
                if nxt is not None:
                    step(nxt[0], nxt[1], o2, 1, ctx, True)
        ctx.count('traces')
    elif g == 'unknown last':
        # the header does not say how long the last chunk is, which the format allows
        c = CONFIGS[case[1]]
        ops = ops_of(c, 0, True)
        s = c.build()
        s = s[:12] + struct.pack('<i', -1) + s[16:]
        a = spec.parse(s)
        ctx.state(s)
        for i, o1 in enumerate(ops):
            nxt = step(s, a, o1, 0, ctx, i % 2 == 0)
            for o2 in ops:
                if nxt is not None:
                    step(nxt[0], nxt[1], o2, 1, ctx)
        ctx.count('traces')
    elif g == 'spine':
        _, ck, chunk, n = case
        state, a = initial(C(chunk, chunk, ck, n * 2, {"a": 1}, 80), ctx)
        for i in range(n):
            size = (1, chunk, 0, chunk + 1, 2 * chunk)[i % 5] if chunk > 2 else 1
            data = spec.payload('noise', size, salt=i % 5)
            r, after = hist.do_append(state, data, SETTINGS[i % 4], ('dict', 'obj')[i % 2])
            ctx.count('transitions')
            if hist.new_chunks(a, size) > a.max_app_chunks:
                require(not r.ok and after == state, 'append %d of the history: should be refused', i)
                break
            require(r.ok, 'append %d of the history: %s', i, r)
            a = hist.check_append(data, a, state, after, r.value, SETTINGS[i % 4], 'append %d of the history' % i)
            state = after
            ctx.state(state)
            if i % 50 == 7:
                nxt = step(state, a, ['meta', (i // 50) % len(METAS)], 0, ctx)
                if nxt:
                    state, a = nxt
        ctx.count('traces')
        ctx.sample({'case': case, 'final chunks': a.nchunks})
    elif g == 'spine-wide':
        _, total, each = case
        state, a = initial(C(total * 2, 2, 'adler32', 40, ba=(1, 0, 0, 'blosclz')), ctx)
        for i in range(12):
            data = spec.payload('noise', each * 2 - 1, salt=i + 3)
            r, after = hist.do_append(state, data, (1, 0, False, 'lz4'))
            ctx.count('transitions')
            require(r.ok, 'append %d: %s', i, r)
            a = hist.check_append(data, a, state, after, r.value, (1, 0, False, 'lz4'), 'append %d' % i)
            state = after
            ctx.state(state)
        ctx.count('traces')
    elif g == 'far':
        run_far(case, ctx)
    elif g == 'default-chunk':
        _, n, m = case
        data, more = spec.payload('ints', n), spec.payload('ints', m, salt=9)
        bp.write('o', data)
        must(bp.file_io.pack_file_to_file, 'o', 'o.blp')
        before = bp.read('o.blp')
        a = hist.parse(before, 'packing %d bytes' % n)
        r, after = hist.do_append_file(before, more)
        ctx.count('transitions')
        require(r.ok, 'append of %d bytes to %d: %s', m, n, r)
        hist.check_append(more, a, before, after, NotImplemented, None, 'append of %d bytes to %d' % (m, n))
        ctx.state(after)
        ctx.count('traces')
    elif g == 'typesize':
        ts = case[1]
        state, a = initial(C(600, 512, 'crc32', 3, typesize=ts), ctx)
        for i, (n, s) in enumerate(((100, None), (400, None), (700, (None, 3, 2, 'lz4')))):
            data = spec.payload('ints', n, salt=i)
            r, after = hist.do_append(state, data, s)
            ctx.count('transitions')
            require(r.ok, 'append to an archive with typesize %d: %s', ts, r)
            a = hist.check_append(data, a, state, after, r.value, s, 'append, typesize %d' % ts)
            state = after
            ctx.state(state)
        ctx.count('traces')
    elif g == 'app-exact':
        # one append that uses up a reservation of every size
        for app in list(range(0, 40)) + [255, 256, 257, 1000]:
            state, a = initial(C(3, 2, 'adler32', app), ctx)
            data = spec.payload('noise', 1 + 2 * app, salt=4)
            r, after = hist.do_append(state, data)
            ctx.count('transitions')
            require(r.ok, 'append of exactly %d chunks: %s', app, r)
            hist.check_append(data, a, state, after, r.value, None, 'append of exactly %d chunks' % app)
            ctx.state(after)
        ctx.count('traces')
    elif g == 'packed':
        # from archives the library packed, for every checksum, default reservation
        size = case[1]
        for ck in spec.CHECKSUMS:
            for chunk in (4, 8, 64, 1000):
                for meta in (None, {"a": "b" * 20}):
                    state = must(bp.pack, spec.payload('noise', size), chunk, None, [True, ck, None], meta)
                    a = hist.parse(state, 'pack')
                    for i in range(4):
                        nxt = step(state, a, ['append', ('room', 'abs', 'chunk', 'two')[i], 1, i], i, ctx)
                        if nxt:
                            state, a = nxt
                        if meta:
                            nxt = step(state, a, ['meta', i], i, ctx)
                            if nxt:
                                state, a = nxt
        ctx.count('traces')


def beyond(ck, ctx):
    """Appends to more than four gigabytes of stored chunks."""
    p = far.piece()
    f = far.archive(p, far.N, b'', ck, 3)
    tail = b''
    for n, size in enumerate((9, 0, 70000, 1)):
        more = spec.payload('noise', size, salt=n)
        try:
            must(bp.append_fp, f, io.BytesIO(more), size, far.args())
        except Violation as v:
            if 'Unsupported' in str(v):
                ctx.outcome('unsupported')
                return
            raise
        tail += more
        diff = far.differ(f, far.archive(p, far.N, tail, ck, 2))
        require(diff is None, 'append of %d bytes beyond %d pieces of %d bytes: %s', size, far.N, far.PIECE, diff)
        ctx.count('transitions')
        ctx.state(('beyond %s %d' % (ck, n)).encode())
    ctx.count('traces')


class Far(object):
    """A sparse archive file whose chunk area starts beyond a huge metadata preallocation."""


def run_far(case, ctx):
    _, ck, prealloc = case
    stored = json.dumps({"a": 1}, separators=(',', ':')).encode()
    data = spec.payload('noise', 20, salt=1)
    chunks = [spec.compress(data[i:i + 8], 8, 5, 1, 'lz4') for i in (0, 8, 16)]
    app = 3
    sec = struct.pack('<8sBBBBIII8s', b'JSON\0\0\0\0', 0, 1, 0, 0, len(stored), prealloc, len(stored), b'')
    base = 32 + 32 + prealloc + 4
    pos = base + 8 * (len(chunks) + app)
    start = pos
    offs, body = [], b''
    for c in chunks:
        offs.append(pos)
        body += c + spec.digest(ck, c)
        pos += len(c) + spec.SIZES[ck]
    head = spec.header(True, True, ck, 8, 8, 4, 3, app)
    with open('far.blp', 'wb') as fp:
        fp.write(head + sec + stored)
        fp.seek(32 + 32 + prealloc)
        fp.write(spec.digest('adler32', stored))
        fp.write(struct.pack('<3q', *offs) + b'\xff' * (8 * app) + body)
    content = data
    for i, n in enumerate((1, 9, 0, 12)):
        more = spec.payload('noise', n, salt=i + 5)
        bp.write('new.bin', more)
        r = call(bp.append_file, 'far.blp', 'new.bin', None)
        ctx.count('transitions')
        require(r.ok, 'append to an archive with offsets beyond %d: %s', prealloc, r)
        content += more
        with open('far.blp', 'rb') as fp:
            head = fp.read(64 + len(stored))
            fp.seek(32 + 32 + prealloc)
            tail = fp.read()
        a = spec.parse_header(head)
        require(head[32:] == sec + stored and tail[:4] == spec.digest('adler32', stored), 'the metadata section changed')
        # move the tail of the archive to position 32 and parse it there
        cut = bytearray(struct.pack('<4sBBBBiiqq', b'blpk', 3, 1, spec.CHECKSUMS.index(ck), a.typesize, a.chunk_size,
                                    a.last_chunk, a.nchunks, a.max_app_chunks) + tail[4:])
        shift = base - 32
        total = a.nchunks + a.max_app_chunks
        require(total == 6, 'total number of chunks changed to %d', total)
        for j, o in enumerate(struct.unpack_from('<%dq' % total, cut, 32)):
            struct.pack_into('<q', cut, 32 + 8 * j, o - shift if o >= 0 else o)
        b = hist.parse(bytes(cut), 'append beyond %d' % prealloc)
        require(b.content == content, 'append beyond %d: content %s', prealloc, short(b.content))
        got, meta = must(bp.file_io.unpack_bytes_from_file, 'far.blp')
        require(got == content and meta == {"a": 1}, 'unpacks to %s', short(got))
        ctx.state(bytes(cut) + ck.encode())
    os.unlink('far.blp')
    ctx.count('traces')
    ctx.sample({'case': case, 'first offset': offs[0]})
