import array
import ctypes
import io
import json
import mmap
import os

import numpy as np

from mc import bp, packcases, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('Every case of a bounded product of input sizes, chunk sizes, Blosc, Bloscpack and metadata '
        'settings is packed and unpacked by the real code and compared with the input; non-trivial: '
        'the input is not empty (distinct by all parameters). Groups pairs-*: every pairing of '
        'packing and unpacking entry points, through real files. buffers: every kind of object with a buffer, of every item size and '
        'number of items, given to every function that takes bytes: it is refused, or all its bytes are packed.')
ASSUMPTIONS = ['python-blosc compresses and decompresses correctly', 'payload bytes are taken from a fixed alphabet of five kinds']
BLOCK = 4

PAIR_OPTIONS = [
    (None, None, None, None, None),
    (16, None, None, None, None),
    (16, [4, 9, 2, 'zstd'], [True, 'sha512', 3], {"a": [1]}, None),
    (7, [1, 0, False, 'lz4'], [False, 'None', None], "", ['None', 0, 'None', None]),
    ('0.5K', [8, 5, True, 'zlib'], [True, 'None', 0], None, None),
    (100, None, [False, 'sha384', 0], {}, ['zlib', 9, 'md5', 500]),
]
PACKERS = ['pack_file_to_file', 'pack_file', 'pack_bytes_to_file', 'pack_bytes_file', 'pack_bytes_to_bytes']
UNPACKERS = ['unpack_file_from_file', 'unpack_file', 'unpack_bytes_from_file', 'unpack_bytes_file',
             'unpack_bytes_from_bytes']
PAIR_SIZES = list(range(0, 36)) + [63, 64, 65, 255, 256, 257, 1023, 1024, 4097, 70000]


def cases(tier):
    for size in PAIR_SIZES + ([2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21 + 5]):
        for oi in range(len(PAIR_OPTIONS)):
            if size > 5000 and oi in (1, 3) or size > 100000 and oi:
                continue
            yield ['pairs', size, oi]
    for kind in sorted(BUFFERS):
        yield ['buffers', kind, 41 if tier == 'quick' else 200]
    for c in packcases.cases(tier):
        yield c


def _mmap(b):
    m = mmap.mmap(-1, len(b))
    m[:] = b
    return m


def _shaped(b, order):
    n = len(b) // 8
    return np.array(np.frombuffer(b[:n * 8], '<i4').reshape(2, n), order=order)


BUFFERS = {
    'bytes': bytes,
    'bytearray': bytearray,
    'memoryview': memoryview,
    'memoryview of chars': lambda b: memoryview(b).cast('c'),
    'writable memoryview': lambda b: memoryview(bytearray(b)),
    'every other byte': lambda b: memoryview(b)[::2],
    'backwards': lambda b: memoryview(b)[::-1],
    'mmap': lambda b: _mmap(b) if b else None,
    'BytesIO buffer': lambda b: io.BytesIO(b).getbuffer(),
    'ctypes': lambda b: (ctypes.c_uint32 * (len(b) // 4))(*range(len(b) // 4)),
    'numpy 2d': lambda b: _shaped(b, 'C'),
    'numpy 2d F': lambda b: _shaped(b, 'F'),
    'numpy bool': lambda b: np.frombuffer(b, 'u1') > 100,
    'numpy records': lambda b: np.zeros(len(b) // 7, 'i4,u1,i2'),
    'numpy 0d': lambda b: np.array(len(b) * 1.5),
    'numpy strided': lambda b: np.arange(len(b))[::3],
    'str': lambda b: b.decode('latin-1'),
    'list': list,
    'none': lambda b: None,
}
for _t in 'bBhHiIlLqQfd':
    BUFFERS['array ' + _t] = lambda b, t=_t: array.array(t, b[:len(b) // array.array(t).itemsize * array.array(t).itemsize])
    BUFFERS['view of array ' + _t] = lambda b, f=BUFFERS['array ' + _t]: memoryview(f(b))
for _t in ('h', 'i', 'q', 'd'):
    BUFFERS['view cast to ' + _t] = lambda b, t=_t: memoryview(b[:len(b) // 8 * 8]).cast(t)


def run_buffers(case, ctx):
    _, kind, top = case
    for n in range(top):
        data = spec.payload('noise', n, salt=3)
        obj = BUFFERS[kind](data)
        try:
            expected = bytes(memoryview(obj))
        except TypeError:
            expected = None
        for chunk in (1, 5, 8, 24, 1000):
            for fn in ('pack_bytes_to_bytes', 'pack_bytes_to_file', 'pack_bytes_file'):
                out = ctx.path('buffer.blp')
                args = (obj,) if fn.endswith('bytes') else (obj, out)
                r = call(getattr(bp.file_io, fn), *args, chunk_size=chunk, blosc_args=bp.blosc_args([1, 0, 0, 'blosclz']))
                what = '%s(%s of %d bytes, chunk_size=%d)' % (fn, kind, n if expected is None else len(expected), chunk)
                ctx.count('evaluations')
                ctx.outcome('buffer %s' % ('packed' if r.ok else type(r.exc).__name__))
                if not r.ok:
                    require(not isinstance(obj, (bytes, bytearray)) and kind != 'memoryview', '%s: %s', what, r)
                    continue
                require(expected is not None, '%s: accepts an object without bytes', what)
                archive = r.value if fn.endswith('bytes') else bp.read(out)
                got = must(bp.unpack, archive)[0]
                require(got == expected, '%s: unpacks to %s instead of %s', what, short(got), short(expected))
                ctx.nontrivial('buffers', kind, n, chunk, fn)
        # and the archive itself in such an object
        archive = must(bp.pack, data, 16, [1, 0, 0, 'blosclz'], None, None, None)
        if kind in ('bytearray', 'memoryview', 'writable memoryview', 'memoryview of chars', 'mmap', 'BytesIO buffer'):
            got = must(bp.file_io.unpack_bytes_from_bytes, BUFFERS[kind](archive))
            require(got == (data, None), 'unpack_bytes_from_bytes of a %s gives %s', kind, short(got))


def do_pack(name, data, inp, out, opt):
    cs, ba, bpa, meta, ma = opt
    kw = dict(metadata=meta, blosc_args=bp.blosc_args(ba), bloscpack_args=bp.bloscpack_args(bpa),
              metadata_args=bp.metadata_args(ma))
    if cs is not None:
        kw['chunk_size'] = cs
    f = getattr(bp.file_io, name)
    if name in ('pack_file_to_file', 'pack_file'):
        must(f, inp, out, **kw)
        return bp.read(out)
    if name in ('pack_bytes_to_file', 'pack_bytes_file'):
        must(f, data, out, **kw)
        return bp.read(out)
    return must(f, data, **kw)


def do_unpack(name, archive, arc, out):
    f = getattr(bp.file_io, name)
    if name in ('unpack_file_from_file', 'unpack_file'):
        meta = must(f, arc, out)
        return bp.read(out), meta
    if name in ('unpack_bytes_from_file', 'unpack_bytes_file'):
        return must(f, arc)
    return must(f, archive)


def same_value(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) and type(a) is type(b)


def run(case, ctx):
    if case[0] == 'pairs':
        return run_pairs(case, ctx)
    if case[0] == 'buffers':
        return run_buffers(case, ctx)
    group, kind, size, chunk, ba, bpa, meta, ma = case
    data = spec.payload(kind, size)
    archive = must(bp.pack, data, chunk, ba, bpa, meta, ma)
    got, gotmeta = must(bp.unpack, archive)
    require(got == data, 'unpacked %s instead of %s', short(got), short(data))
    require(same_value(gotmeta, meta), 'metadata %s came back as %s', short(meta), short(gotmeta))
    ctx.count('evaluations')
    ctx.count('bytes_roundtripped', size)
    if size:
        ctx.nontrivial(*case)
    ctx.sample({'case': case, 'archive_bytes': len(archive)})


def run_pairs(case, ctx):
    _, size, oi = case
    data = spec.payload('noise' if oi % 2 else 'ints', size)
    opt = PAIR_OPTIONS[oi]
    inp, out, arc, dst = (ctx.path(n) for n in ('in', 'out.blp', 'arc.blp', 'dst'))
    bp.write(inp, data)
    first = None
    for p in PACKERS:
        if os.path.exists(out):
            os.unlink(out)
        archive = do_pack(p, data, inp, out, opt)
        require(bp.read(inp) == data, '%s changed its input file', p)
        if first is None:
            first = archive
            bp.write(arc, archive)
        require(archive == first, '%s and %s give different archives', p, PACKERS[0])
        ctx.count('evaluations')
    for u in UNPACKERS:
        # an older, longer file at the destination must be replaced completely
        bp.write(dst, b'\xaa' * (size + 100))
        got, meta = do_unpack(u, first, arc, dst)
        require(got == data, '%s returned %s instead of %s', u, short(got), short(data))
        require(same_value(meta, opt[3]), '%s: metadata %s came back as %s', u, short(opt[3]), short(meta))
        require(bp.read(arc) == first, '%s changed the archive', u)
        ctx.count('evaluations')
        ctx.count('pairings', len(PACKERS))
        if size:
            ctx.nontrivial(size, oi, u)
    ctx.sample({'case': case, 'options': opt, 'packers': PACKERS, 'unpackers': UNPACKERS})
