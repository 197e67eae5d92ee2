import io
import os

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('Exhaustive product of dtypes x shapes x memory layouts x chunk sizes (multiples of the item size from one item '
        'to more than the array, and sizes around them which are not) x targets. The archive is read by the independent '
        'parser as well. scalar: NumPy scalars and sub-classes of arrays, with other arrays of the same size made and dropped between any two steps of the call. '
        'Non-trivial: distinct archives; empty arrays count too, as they are a special case of the code.')
ASSUMPTIONS = ['dtypes whose .descr NumPy itself refuses to build (overlapping or out-of-order fields) are outside']
BLOCK = 4

PLAIN = (['?', 'b', 'B', 'S1', 'S3', 'S255', 'V1', 'V7', 'V255']
         + [e + t for e in '<>' for t in ('i2', 'i4', 'i8', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'f16', 'c8', 'c16', 'c32',
                                          'U1', 'U5', 'U63', 'M8[s]', 'M8[25us]', 'm8[ns]', 'M8', 'M8[D]', 'm8')])
STRUCT = [
    [('a', '<i4'), ('b', '<f8')],
    [('x', '>u2'), ('y', 'S3'), ('z', '>f4'), ('u', '<U2')],
    [('a', 'u1'), ('s', '<i2', (2, 3))],
    [('a', '<i2'), ('n', [('p', '>f8'), ('q', [('r', 'u1'), ('t', 'M8[us]')])])],
    [('m', [('k', '<u4', (2,)), ('l', 'V3')], (2,)), ('e', '?')],
    [(('a title', 'a'), '<i4'), ('b', 'u1')],
    [('', '<i4'), ('b c', '<f4'), ("it's", 'u1'), ('\u00e4\u4e2d', 'i1'), ('back\\slash"', 'i1')],
    [('one', '<c16')],
    [('f%d' % i, 'u1') for i in range(200)],
    [('big', 'V254'), ('x', 'u1')],
    {'align': [('a', 'u1'), ('b', '<f8'), ('c', 'u1')]},
    {'align': [('a', 'u1'), ('n', [('p', 'u1'), ('q', '<i4')]), ('d', '<i2')]},
    {'names': ['a', 'b'], 'formats': ['<i4', 'u1'], 'offsets': [3, 11], 'itemsize': 20},
    {'names': ['a'], 'formats': ['>f8'], 'offsets': [0], 'itemsize': 9},
    {'names': ['p', 'q'], 'formats': ['u1', [('r', '<i2'), ('s', 'S5')]], 'offsets': [1, 4], 'itemsize': 12},
    {'names': ['n'], 'formats': ['u1'], 'offsets': [254], 'itemsize': 255},
]
SHAPES = [(), (0,), (1,), (7,), (24,), (0, 3), (3, 0), (2, 0, 4), (1, 1), (5, 1), (1, 6), (4, 6), (2, 3, 4), (1, 5, 1),
          (2, 1, 2, 1, 3), (1,) * 20]
LAYOUTS = ['C', 'F', 'stride', 'reverse', 'reverse all', 'transpose', 'broadcast', 'readonly', 'unaligned', 'cut',
           'F stride', 'middle', 'F readonly', 'swap']


def make_dtype(d):
    if isinstance(d, dict) and 'align' in d:
        return np.dtype([tuple(x) for x in d['align']], align=True)
    return np.dtype(d)


DTYPES = PLAIN + STRUCT


def cases(tier):
    for di in range(len(DTYPES)):
        for si in range(len(SHAPES)):
            for li in range(len(LAYOUTS)):
                yield ['array', di, si, li]
    for ck in spec.CHECKSUMS:
        for bi in range(6):
            for app in (0, 1, None):
                yield ['options', ck, bi, app]
    for di in (0, 1, 12, 30, len(PLAIN) + 1, len(PLAIN) + 10):
        for n in (2 ** 20 // 8 - 1, 2 ** 20 // 8 + 1, 300000):
            yield ['large', di, n]
    for i in range(6):
        yield ['object', i]
    for size in range(1, 256):
        yield ['itemsize', size]
    for di in range(len(DTYPES)):
        yield ['scalar', di]
    for n in range(1, 70) if tier == 'quick' else range(1, 400):
        yield ['lengths', n]


def noise(dt, n, salt=0):
    raw = np.frombuffer(bytearray(spec.payload('noise', n * dt.itemsize, salt=salt)), 'u1')
    a = np.frombuffer(raw.tobytes(), dtype=dt).copy() if n else np.zeros(0, dt)
    fix_plain(a)
    return a


def fix_plain(a):
    dt = a.dtype
    if dt.kind == 'b':
        a.view('u1')[...] &= 1
    elif dt.kind == 'U':
        a.view(dt.str[0] + 'u4')[...] %= 0xd000
    elif dt.names:
        for n in dt.names:
            sub = dt.fields[n][0]
            if sub.kind in 'bU' or sub.subdtype and sub.subdtype[0].kind in 'bU':
                a[n] = np.zeros((), a[n].dtype) if a[n].dtype.kind == 'U' else (np.arange(a[n].size) % 2).reshape(a[n].shape)


def layout(dt, shape, name):
    """An array of this dtype and shape with the given memory layout, or None."""
    n = int(np.prod(shape, dtype=int))
    flat = noise(dt, n, salt=n % 5)
    a = flat.reshape(shape)
    nd = len(shape)
    if name == 'C':
        return a
    if name == 'F':
        return np.array(a, order='F')
    if name == 'readonly':
        a.flags.writeable = False
        return a
    if name == 'F readonly':
        a = np.array(a, order='F')
        a.flags.writeable = False
        return a
    if nd == 0:
        return None
    if name == 'stride':
        big = noise(dt, 2 * n).reshape(shape[:-1] + (2 * shape[-1],))
        return big[..., ::2]
    if name == 'F stride':
        big = np.array(noise(dt, 3 * n).reshape((3 * shape[0],) + shape[1:]), order='F')
        return big[::3]
    if name == 'reverse':
        return a[::-1]
    if name == 'reverse all':
        return a[tuple(slice(None, None, -1) for _ in shape)]
    if name == 'transpose':
        return flat.reshape(shape[::-1]).T
    if name == 'swap':
        if nd < 3:
            return None
        return flat.reshape((shape[1], shape[0]) + shape[2:]).swapaxes(0, 1)
    if name == 'broadcast':
        return np.broadcast_to(noise(dt, shape[-1]), shape)
    if name == 'unaligned':
        buf = np.zeros(n * dt.itemsize + 1, 'u1')
        v = buf[1:].view(dt).reshape(shape)
        v[...] = a
        return v
    if name == 'cut':
        if nd > 8:
            return None
        big = noise(dt, int(np.prod([s + 2 for s in shape]))).reshape([s + 2 for s in shape])
        return big[tuple(slice(1, -1) for _ in shape)]
    if name == 'middle':
        big = noise(dt, n + 5)
        return big[3:3 + n].reshape(shape)


def leaves(a):
    """Byte strings of all elements, without padding."""
    if a.dtype.names is not None:
        out = []
        for n in a.dtype.names:
            out.extend(leaves(a[n]))
        return out
    return [np.ascontiguousarray(a).tobytes()]


def same(a, b, what):
    if not isinstance(b, np.ndarray):
        raise Violation('%s: returned %s' % (what, short(b)))
    require(a.dtype == b.dtype and b.dtype.descr == a.dtype.descr and a.dtype.str == b.dtype.str,
            '%s: dtype %s instead of %s', what, b.dtype, a.dtype)
    require(a.dtype.fields is None or dict(a.dtype.fields) == dict(b.dtype.fields), '%s: fields %s', what, b.dtype)
    require(a.shape == b.shape, '%s: shape %s instead of %s', what, b.shape, a.shape)
    require(leaves(a) == leaves(b), '%s: elements differ', what)
    require(not a.flags.f_contiguous or b.flags.f_contiguous, '%s: not Fortran-contiguous any more', what)


def targets(ctx):
    ni = bp.numpy_io

    def memory(a, chunk, ba, bpa, ma):
        sink = bp.memory_io.CompressedMemorySink()
        ni.pack_ndarray(a, sink, chunk, ba, bpa, ma)
        return ni.unpack_ndarray(bp.memory_io.CompressedMemorySource(sink)), None

    def fp(a, chunk, ba, bpa, ma):
        f = io.BytesIO()
        ni.pack_ndarray(a, bp.file_io.CompressedFPSink(f), chunk, ba, bpa, ma)
        f.seek(0)
        return ni.unpack_ndarray(bp.file_io.CompressedFPSource(f)), f.getvalue()

    def file(a, chunk, ba, bpa, ma):
        ni.pack_ndarray_to_file(a, 'a.blp', chunk, ba, bpa, ma)
        return ni.unpack_ndarray_from_file('a.blp'), bp.read('a.blp')

    def old_file(a, chunk, ba, bpa, ma):
        ni.pack_ndarray_file(a, 'a.blp', chunk, ba, bpa, ma)
        return ni.unpack_ndarray_file('a.blp'), bp.read('a.blp')

    def bytes_(a, chunk, ba, bpa, ma):
        d = ni.pack_ndarray_to_bytes(a, chunk, ba, bpa, ma)
        return ni.unpack_ndarray_from_bytes(d), d
    return [bytes_, file, fp, memory, old_file]


def snapshot(a):
    base = a
    while isinstance(base.base, np.ndarray):
        base = base.base
    return (a.tobytes(), base.tobytes(), a.shape, a.strides, str(a.flags), a.dtype)


def roundtrip(a, chunk, ctx, what, tgts, ba=None, bpa=None, ma=None):
    size = a.size * a.dtype.itemsize
    c = 2 ** 20 if chunk == '1M' else chunk
    refused = size and c < size and c % a.dtype.itemsize
    ctx.count('evaluations')
    for t in tgts:
        before = snapshot(a)
        r = call(t, a, chunk, ba, bpa, ma)
        w = '%s through %s in chunks of %s' % (what, t.__name__, chunk)
        require(snapshot(a) == before, '%s: the array was modified', w)
        if refused:
            require(not r.ok and isinstance(r.exc, bp.ChunkSizeTypeSizeMismatch), '%s: %s', w, r)
            ctx.outcome('chunk size refused')
            continue
        require(r.ok, '%s: %s', w, r)
        back, blob = r.value
        same(a, back, w)
        ctx.outcome('round trip')
        if blob is not None:
            p = spec.parse(blob)
            order = 'F' if a.flags.f_contiguous and not a.flags.c_contiguous else 'C'
            require(p.typesize == a.dtype.itemsize, '%s: typesize %d in the header', w, p.typesize)
            require(len(p.content) == size, '%s: archive holds %d bytes', w, len(p.content))
            stored = np.ndarray(a.shape, a.dtype, p.content or b'\0' * 300, order=order)
            require(leaves(stored) == leaves(a), '%s: archive holds other elements', w)
            m = p.meta.value
            require(m['container'] == 'numpy' and list(a.shape) == m['shape'] and m['order'] == order,
                    '%s: metadata %s', w, short(m))
            ctx.state(blob)


class Churn(object):
    """A sink or source which makes and drops arrays of some size at every step."""

    def __init__(self, inner, nbytes):
        self.__dict__.update(inner=inner, nbytes=nbytes)

    def churn(self):
        kept = [np.full(self.nbytes, 0xA5, 'u1') for _ in range(12)]
        kept += [np.full((1,), 0x5A, 'V%d' % self.nbytes) for _ in range(2)]
        del kept

    def read(self, *a):
        self.churn()
        return self.inner.read(*a)

    def write(self, b):
        self.churn()
        return self.inner.write(b)

    def tell(self):
        self.churn()
        return self.inner.tell()

    def seek(self, *a):
        self.churn()
        return self.inner.seek(*a)


def others(a):
    """The array as what else NumPy has."""
    yield 'ndarray', a
    for i in range(min(a.size, 3)):
        yield 'element %d' % i, a.reshape(-1)[i]
    yield 'item', a.reshape(-1)[-1]
    yield 'array of no dimension', a.reshape(-1)[1:2].reshape(())
    if a.dtype.names:
        yield 'recarray', a.view(np.recarray)
        for n in a.dtype.names:
            yield 'field %s' % n, a[n]
            yield 'field %s of a record' % n, a[1][n]
    else:
        yield 'matrix', a.view(np.matrix)
        yield 'maximum', a.reshape(-1)[:1].repeat(3)[2]
    if a.dtype.kind in 'SU':
        yield 'chararray', a.view(np.chararray)
    m = np.memmap('map.bin', a.dtype, 'w+', shape=a.shape)
    m[...] = a
    yield 'memmap', m
    yield 'slice of a memmap', m[::2]


def run_scalar(di, ctx):
    dt = make_dtype(DTYPES[di])
    for what, x in others(noise(dt, 6)):
        x = x if hasattr(x, 'dtype') else np.asarray(x)
        if x.dtype.itemsize > 255:
            continue
        expected = np.array(x, copy=True)
        for chunk in (x.dtype.itemsize, 100 * x.dtype.itemsize):
            f = Churn(io.BytesIO(), x.dtype.itemsize)
            w = '%s of %s' % (what, dt)
            r = call(bp.numpy_io.pack_ndarray, x, bp.file_io.CompressedFPSink(f), chunk)
            ctx.count('evaluations')
            if not isinstance(x, np.ndarray) and not r.ok:
                ctx.outcome('scalar refused')
                continue
            require(r.ok, '%s: %s', w, r)
            ctx.outcome('round trip')
            f.inner.seek(0)
            b = must(bp.numpy_io.unpack_ndarray, bp.file_io.CompressedFPSource(f))
            if not isinstance(x, np.ndarray) and x.dtype.char in 'gG':
                # the padding of a long double is not part of it
                require(b.dtype == expected.dtype and b.shape == () and np.array_equal(expected, b, True), '%s: %s', w, b)
            else:
                same(expected, b, w)
            ctx.state(f.inner.getvalue())


def run(case, ctx):
    if case[0] == 'scalar':
        return run_scalar(case[1], ctx)
    g = case[0]
    ts = targets(ctx)
    if g == 'array':
        _, di, si, li = case
        dt, shape = make_dtype(DTYPES[di]), SHAPES[si]
        a = layout(dt, shape, LAYOUTS[li])
        if a is None:
            return
        what = 'array of %s, shape %s, layout %s' % (DTYPES[di] if di < 50 else dt, shape, LAYOUTS[li])
        require(a.shape == shape and a.dtype == dt, 'harness: %s', what)
        w = dt.itemsize
        size = a.size * w
        chunks = sorted({w, 2 * w, 5 * w, max(size, w), size + w} | {c for c in (w + 1, 2 * w - 1, size - 1, size + 1, 1)
                                                                      if c >= 1})
        for k, c in enumerate(chunks):
            # every target for one chunk size, then alternating
            roundtrip(a, c, ctx, what, ts if ctx.tier == 'thorough' or k == (di + si + li) % len(chunks) else [ts[k % 5]])
        ctx.sample({'case': case, 'dtype': str(dt), 'shape': shape, 'layout': LAYOUTS[li], 'chunk sizes': chunks})
    elif g == 'options':
        _, ck, bi, app = case
        a = noise(np.dtype('<f8'), 30).reshape(5, 6)
        ba = [None, bp.BloscArgs(typesize=3), bp.BloscArgs(clevel=0), bp.BloscArgs(8, 9, False, 'zstd'),
              bp.BloscArgs(1, 5, 2, 'lz4'), bp.BloscArgs(255, 1, True, 'zlib')][bi]
        kw = {} if app is None else {'max_app_chunks': app}
        for off in (True, False):
            for ma in (None, bp.MetadataArgs(meta_checksum=ck), bp.MetadataArgs(meta_codec='None', max_meta_size=1000)):
                roundtrip(a, 80, ctx, 'options %s' % case, ts, ba, bp.BloscpackArgs(offsets=off, checksum=ck, **kw), ma)
    elif g == 'large':
        _, di, n = case
        dt = make_dtype(DTYPES[di])
        a = noise(dt, n)
        for t in ts:
            roundtrip(a, '1M', ctx, 'large array of %s' % dt, [t])
            roundtrip(a, 2 ** 20 // dt.itemsize * dt.itemsize, ctx, 'large array of %s' % dt, [t])
    elif g == 'object':
        a = [np.array([1, None], 'O'), np.zeros((), 'O'), np.zeros((2, 0), 'O'), np.zeros(3, [('a', '<i4'), ('b', 'O')]),
             np.zeros(2, [('n', [('m', 'O', (2,))])]), np.asfortranarray(np.zeros((2, 3), 'O'))][case[1]]
        for t in ts:
            r = call(t, a, 8, None, None, None)
            require(not r.ok and isinstance(r.exc, bp.ObjectNumpyArrayRejection), 'object array %s: %s', a.dtype, r)
            ctx.outcome('object rejected')
            ctx.nontrivial(case[1], t.__name__)
        ctx.count('evaluations')
    elif g == 'itemsize':
        w = case[1]
        for kind in ('V', 'S', None):
            dt = np.dtype('%s%d' % (kind, w)) if kind else np.dtype([('a', 'V%d' % (w // 2 + 1)), ('b', 'S%d' % (w - w // 2 - 1))]) \
                if w > 2 else np.dtype('u1')
            a = noise(dt, 11)
            for i, c in enumerate((dt.itemsize, 3 * dt.itemsize, dt.itemsize + 1)):
                roundtrip(a, c, ctx, 'array of %d-byte items' % w, [ts[(w + i) % 5]])
    elif g == 'lengths':
        n = case[1]
        a = noise(np.dtype('<i4'), n)
        for c in range(1, 4 * n + 9):
            roundtrip(a, c, ctx, 'array of %d integers' % n, [ts[0]])
