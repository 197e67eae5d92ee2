import io
import itertools
import json

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('All dtype descriptions up to a bound: every plain type (with every byte order and its other spellings), every record of '
        'up to three fields whose types are plain, sub-arrays, nested records, nested records with sub-arrays, sub-arrays of '
        'nested records, or records nested up to five deep, and padded records; with every combination of shape, order, chunk '
        'size and reader. For each an archive is written by the independent encoder with the older form of the metadata, with '
        'the current form, and by the library itself, and all three must unpack to the same array. Non-trivial: distinct '
        'metadata texts.')
ASSUMPTIONS = ['the older form is the JSON text of the dtype\'s descr (or its plain type string), as written before release 0.7.2']
BLOCK = 16

LEAFS = ['|u1', '<u2', '>i4', '<f8', '|S3', '<U2', '|b1', '<M8[s]', '|V4', '>c16', '|i1']
SUBS = [(2,), (2, 3), (1,), (3, 1, 2)]
SHAPES = [[], [0], [1], [5], [2, 3], [3, 0], [2, 2, 2]]
SPELLINGS = {'<f8': ['f8', 'float64', 'd', '<d', '=f8'], '<i4': ['i4', 'int32', 'i', '<i'], '|u1': ['u1', 'uint8', 'B', '>u1', '<u1', '=u1'],
             '|S5': ['S5', 'a5', '<S5', '>S5'], '<U2': ['U2'], '|b1': ['b1', 'bool', '?'], '<M8[ns]': ['M8[ns]', 'datetime64[ns]'],
             '<m8[25s]': ['m8[25s]', 'timedelta64[25s]'], '<c8': ['c8', 'complex64', 'F'], '|V7': ['V7'], '<f2': ['f2', 'float16', 'e'],
             '<u8': ['u8', 'uint64'], '>i2': ['>h'], '>U3': [], '>M8[D]': [], '>c16': [], '<f4': ['f4', 'single'], '|i1': ['i1', 'int8']}
NAMES = [('a', 'b', 'c'), ('f0', 'f1', 'f2'), ('x y', '\u00e9', 'f8'), ("'", '"', '\\'), ('dtype', '[', '1')]


def nested(depth, leaf='<i2'):
    d = [['in', leaf]]
    for i in range(depth):
        d = [['n%d' % i, d], ['v', '|u1']] if i % 2 else [['n%d' % i, d]]
    return d


def field_types(tier):
    """JSON forms of the type of a field, with its optional sub-array shape: [type] or [type, shape]."""
    for t in LEAFS:
        yield [t]
    for t in LEAFS[:4] + ['|S3']:
        for s in SUBS:
            yield [t, list(s)]
    for k in range(4):
        t, u = LEAFS[k], LEAFS[k + 4]
        yield [[['p', t]]]
        yield [[['p', t], ['q', u]]]
        yield [[['p', t, [2]], ['q', u]]]
        yield [[['p', t], ['q', u]], [2]]
        yield [[['p', t, [2, 2]], ['q', u]], [2, 1]]
    for d in (1, 2, 3, 4):
        yield [nested(d)]
    yield [nested(2, '<f8'), [2]]


def cases(tier):
    for t in sorted(SPELLINGS):
        for s in [t] + SPELLINGS[t]:
            yield ['plain', t, s]
    types = list(field_types(tier))
    few = types[::6] if tier == 'quick' else types
    for i, a in enumerate(types):
        for j in range(len(NAMES)):
            yield ['record', [[NAMES[j][0]] + a]]
        for b in types:
            yield ['record', [['a'] + a, ['b'] + b]]
        for b, c in itertools.product(few, few):
            yield ['record', [['a'] + a, ['b'] + b, ['c'] + c]]
    for names in NAMES:
        yield ['record', [[n, t] for n, t in zip(names, LEAFS[2:])]]
        yield ['record', [[names[0], [[n, t] for n, t in zip(names, LEAFS)]], [names[1], '<f8', [2]]]]
    yield ['record', [['f%d' % i, LEAFS[i % len(LEAFS)]] for i in range(12)]]
    for i in range(12):
        yield ['padded', i]
    yield ['convert']


def build_dtype(form):
    """The dtype a JSON form means, made field by field without the code under test."""
    if isinstance(form, str):
        return np.dtype(form)
    return np.dtype([(f[0], build_dtype(f[1])) if len(f) == 2 else (f[0], build_dtype(f[1]), tuple(f[2])) for f in form])


def fill(dtype, shape, order):
    n = int(np.prod(shape, dtype=int))
    raw = bytearray(spec.payload('noise', max(1, n * dtype.itemsize))[:n * dtype.itemsize])
    a = np.frombuffer(bytes(raw), dtype)
    return a.reshape(shape, order=order)


def archive(a, form, order, chunk_items, ck):
    raw = a.tobytes('A') if order == 'C' or a.ndim < 2 else a.tobytes('F')
    chunk = chunk_items * a.dtype.itemsize
    n, cs, last = spec.chunking(len(raw), chunk)
    chunks = [spec.compress(raw[i * cs:(i + 1) * cs] if cs else b'', a.dtype.itemsize) for i in range(n)]
    meta = {'dtype': form, 'shape': list(a.shape), 'order': order, 'container': 'numpy'}
    return spec.build(chunks, spec.meta_section(meta), 'set', ck, 0, a.dtype.itemsize, cs, last), raw


def expect_array(data, a, order, raw, what, ctx):
    bp.write('n.blp', data)
    for name, f in (('bytes', lambda: bp.numpy_io.unpack_ndarray_from_bytes(data)),
                    ('file', lambda: bp.numpy_io.unpack_ndarray_from_file('n.blp')),
                    ('file pointer', lambda: bp.numpy_io.unpack_ndarray(bp.file_io.CompressedFPSource(io.BytesIO(data))))):
        b = must(f)
        require(b.dtype == a.dtype, '%s from %s: dtype is %s, not %s', what, name, b.dtype, a.dtype)
        require(b.dtype.itemsize == a.dtype.itemsize and b.dtype.fields == a.dtype.fields, '%s from %s: fields are %s, not %s',
                what, name, b.dtype.fields, a.dtype.fields)
        require(b.shape == a.shape, '%s from %s: shape is %s, not %s', what, name, b.shape, a.shape)
        require((b.tobytes('F') if order == 'F' else b.tobytes('C')) == raw, '%s from %s: other elements', what, name)
        require(not (order == 'F' and b.size) or b.flags.f_contiguous, '%s from %s: not in Fortran order', what, name)
        ctx.count('evaluations')


def run(case, ctx):
    g = case[0]
    ctx.sample({'case': short(case)})
    if g == 'plain':
        _, t, s = case
        dt = np.dtype(t)
        for shape in SHAPES:
            for order in 'CF':
                for k in (1, 3, 100):
                    a = fill(dt, shape, order)
                    data, raw = archive(a, s, order, k, 'adler32')
                    expect_array(data, a, order, raw, 'plain type string %r, %s %s' % (s, shape, order), ctx)
                    data, raw = archive(a, repr(s), order, k, 'None')
                    expect_array(data, a, order, raw, 'quoted type string %r, %s %s' % (s, shape, order), ctx)
        ctx.nontrivial(s)
    elif g == 'record':
        form = case[1]
        dt = build_dtype(form)
        text = repr(dt.descr)
        h = sum(map(ord, json.dumps(form)))
        shapes = SHAPES if len(form) == 1 or ctx.tier == 'thorough' else [SHAPES[h % len(SHAPES)], SHAPES[3 + h % 2]]
        for i, shape in enumerate(shapes):
            order = 'FC'[(h + i) % 2]
            k = (1, 2, 7)[(h + i) % 3]
            a = fill(dt, shape, order)
            what = '%s, %s %s' % (json.dumps(form), shape, order)
            data, raw = archive(a, form, order, k, spec.CHECKSUMS[h % 9])
            expect_array(data, a, order, raw, 'older form ' + what, ctx)
            data, raw = archive(a, text, order, k, 'crc32')
            expect_array(data, a, order, raw, 'current form ' + what, ctx)
            if dt.itemsize <= 255 and a.dtype.itemsize:
                mine = must(bp.numpy_io.pack_ndarray_to_bytes, a, chunk_size=k * dt.itemsize)
                expect_array(mine, a, 'F' if np.isfortran(a) else 'C', a.tobytes('F') if np.isfortran(a) else a.tobytes(),
                             'packed ' + what, ctx)
        ctx.nontrivial(json.dumps(form))
    elif g == 'padded':
        i = case[1]
        dts = [np.dtype([('x', 'u1'), ('y', '<f8')], align=True), np.dtype([('x', '<i4'), ('y', 'u1')], align=True),
               np.dtype({'names': ['a'], 'formats': ['<i2'], 'offsets': [3], 'itemsize': 9}),
               np.dtype({'names': ['a', 'b'], 'formats': ['<i2', '|S3'], 'offsets': [0, 5], 'itemsize': 8}),
               np.dtype([('n', np.dtype([('x', 'u1'), ('y', '<i4')], align=True)), ('z', 'u1')], align=True),
               np.dtype([('n', np.dtype([('x', 'u1'), ('y', '<i4')], align=True), (2,)), ('z', '<u2', (3,))])]
        dt = dts[i % 6]
        for shape in SHAPES:
            order = 'CF'[i // 6]
            a = np.zeros(shape, dt, order)
            flat = a.reshape(-1, order='A')
            for k, name in enumerate(dt.names):
                v = flat[name]
                if v.dtype.names is None:
                    v[...] = (np.arange(v.size).reshape(v.shape) + k).astype(v.dtype)
            form = json.loads(json.dumps(dt.descr))
            for f in (form, repr(dt.descr)):
                data, raw = archive(a, f, order, 2, 'adler32')
                expect_array(data, a, order, raw, 'padded %s %s' % (json.dumps(f), shape), ctx)
        ctx.nontrivial(i)
    else:
        for form, want in (([['a', 'f8']], [('a', 'f8')]), ([['a', 'f8', 2]], [('a', 'f8', 2)]), ([['a', [['b', 'f8']]]], [('a', [('b', 'f8')])]),
                           ('f8', 'f8'), ([['a', 'f8', [2, 3]], ['b', 'i4']], [('a', 'f8', (2, 3)), ('b', 'i4')])):
            if not hasattr(bp.numpy_io, '_conv'):
                break                           # a helper, checked through arrays elsewhere
            got = must(bp.numpy_io._conv, form)
            require(got == want and type(got) is type(want), 'conversion of %s gives %s, not %s', form, got, want)
            ctx.count('evaluations')
        # a count instead of a shape
        for c in (1, 2, 5):
            dt = np.dtype([('a', '<f8', (c,)), ('b', 'u1')])
            a = fill(dt, [4], 'C')
            data, raw = archive(a, [['a', '<f8', c], ['b', '|u1']], 'C', 3, 'md5')
            if c > 1:
                expect_array(data, a, 'C', raw, 'a count of %d as sub-array shape' % c, ctx)
    ctx.outcome(g)
