import io
import itertools
import json
import os

import numpy as np

from mc import bp, spec
from mc.core import Violation, must, require, short
from checks import C03

PROPERTY = 'C31'
LEVEL = 'exploration'
RULE = ('Every documented function, under its name in the package, in its module and under its older name, is called with every choice '
        'of its optional arguments (omitted, None, the documented default given, an object made without arguments, an object with some '
        'arguments, other values) and with every number of the arguments given by position and the others by their documented names. '
        'Oracle: the parser of the documented format and the documented defaults. classes: the same for the constructors of the option '
        'objects. large: inputs of more than a default chunk. Non-trivial: distinct calls.')
ASSUMPTIONS = ['documented names and their order are those of the docstrings and the README']
BLOCK = 8

DATA = spec.payload('ints', 300)
ARR = np.arange(75, dtype='<i4').reshape(15, 5)
ARR_META = {'dtype': "'<i4'", 'shape': [15, 5], 'order': 'C', 'container': 'numpy'}
OMIT = 'omit'

# what is given, and what it means in the terms of C03.check_archive
CHUNK = [(OMIT, 2 ** 20), ('1M', 2 ** 20), (2 ** 20, 2 ** 20), (64, 64), ('0.0625K', 64), (None, None)][:5]
METAS = [(OMIT, None), (None, None), ({"a": "b" * 30}, {"a": "b" * 30}), ({}, {})]
BA = [(OMIT, [8, 7, True, 'blosclz']), (None, [8, 7, True, 'blosclz']), ({}, [8, 7, True, 'blosclz']),
      (dict(typesize=4, clevel=5, shuffle=False, cname='lz4'), [4, 5, False, 'lz4']), (dict(clevel=0), [8, 0, True, 'blosclz']),
      (dict(shuffle=False), [8, 7, False, 'blosclz']), (dict(cname='zlib'), [8, 7, True, 'zlib']), (dict(typesize=2), [2, 7, True, 'blosclz'])]
BPA = [(OMIT, [True, 'adler32', None]), (None, [True, 'adler32', None]), ({}, [True, 'adler32', None]),
       (dict(offsets=False, checksum='md5', max_app_chunks=0), [False, 'md5', 0]), (dict(checksum='None'), [True, 'None', None]),
       (dict(offsets=False), [False, 'adler32', 0]), (dict(max_app_chunks=3), [True, 'adler32', 3])]
MA = [(OMIT, None), (None, None), ({}, None), (dict(meta_codec='None', meta_checksum='sha1'), ['None', 6, 'sha1', None]),
      (dict(meta_level=1), ['zlib', 1, 'adler32', None]), (dict(max_meta_size=500), ['zlib', 6, 'adler32', 500])]
PACKS = [(n, where) for n in ('pack_file_to_file', 'pack_file', 'pack_bytes_to_file', 'pack_bytes_file', 'pack_bytes_to_bytes')
         for where in ('package', 'module') if not (n == 'none')]
ARRAYS = [(n, where) for n in ('pack_ndarray_to_file', 'pack_ndarray_file', 'pack_ndarray_to_bytes', 'pack_ndarray_str')
          for where in ('package', 'module')]
NAMES = {'pack_file_to_file': ['in_file', 'out_file'], 'pack_file': ['in_file', 'out_file'], 'pack_bytes_to_file': ['bytes_', 'out_file'],
         'pack_bytes_file': ['bytes_', 'out_file'], 'pack_bytes_to_bytes': ['bytes_'], 'pack_ndarray_to_file': ['ndarray', 'filename'],
         'pack_ndarray_file': ['ndarray', 'filename'], 'pack_ndarray_to_bytes': ['ndarray'], 'pack_ndarray_str': ['ndarray'],
         'pack_ndarray': ['ndarray', 'sink'], 'pack': ['source', 'sink', 'nchunks', 'chunk_size', 'last_chunk']}
OPTIONAL = ['chunk_size', 'metadata', 'blosc_args', 'bloscpack_args', 'metadata_args']


def function(name, where):
    mod = bp.numpy_io if 'ndarray' in name else bp.abstract_io if name in ('pack', 'unpack') else bp.file_io
    return getattr(bp.bloscpack if where == 'package' else mod, name)


def cases(tier):
    deep = tier == 'thorough'
    full = list(itertools.product(range(len(CHUNK)), range(len(METAS)), range(len(BA)), range(len(BPA)), range(len(MA))))
    for i, name in enumerate(PACKS):
        for k in range(0, len(full), 56):
            if deep or (k // 56) % 2 == i % 2:
                yield ['pack', i, k, 56]
    for i in range(len(ARRAYS)):
        for c in range(len(CHUNK)):
            for b in range(len(BA)):
                yield ['array', i, c, b]
    for b in range(len(BA)):
        for p in range(len(BPA)):
            yield ['streams', b, p]
    for i in range(len(UNPACKS)):
        yield ['unpack', i]
    for what in ('append', 'append_fp'):
        for b in range(len(BA)):
            yield ['append', what, b]
    for i in range(len(CLASSES)):
        yield ['class', i]
    yield ['nchunks']
    for size in (2 ** 20 - 4, 2 ** 20, 2 ** 20 + 4, 5 * 2 ** 19):
        yield ['large', size]


UNPACKS = [('unpack_file_from_file', ['in_file', 'out_file']), ('unpack_file', ['in_file', 'out_file']),
           ('unpack_bytes_from_file', ['compressed_file']), ('unpack_bytes_file', ['compressed_file']), ('unpack_bytes_from_bytes', ['bytes_']),
           ('unpack_ndarray_from_file', ['filename']), ('unpack_ndarray_file', ['filename']), ('unpack_ndarray_from_bytes', ['bytes_']),
           ('unpack_ndarray_str', ['bytes_'])]
TEN = 'ten times'
CLASSES = [('BloscArgs', [('typesize', 8, (1, 255)), ('clevel', 7, (0, 9)), ('shuffle', True, (False,)), ('cname', 'blosclz', ('lz4', 'zlib'))]),
           ('BloscpackArgs', [('offsets', True, (False,)), ('checksum', 'adler32', ('None', 'sha512')), ('max_app_chunks', TEN, (0, 7))]),
           ('MetadataArgs', [('magic_format', b'JSON', ()), ('meta_checksum', 'adler32', ('None', 'md5')), ('meta_codec', 'zlib', ('None',)),
                             ('meta_level', 6, (0, 9)), ('max_meta_size', TEN, (0, 300))])]


def made(x, cls):
    return cls(**x) if isinstance(x, dict) else x


def forms(required, names, values):
    """Every way of writing the call: (description, args, kwargs). values: of the optional arguments, OMIT to leave out."""
    known = [(n, v) for n, v in required] + list(zip(names, values))
    for k in range(len(known) + 1):
        if any(v is OMIT for _, v in known[:k]):
            break
        yield ('%d by position' % k, [v for _, v in known[:k]], {n: v for n, v in known[k:] if v is not OMIT})


def is_omit(v):
    return isinstance(v, str) and v == OMIT


def ways(required, names, values):
    return forms(required, names, [OMIT if is_omit(v) else v for v in values])


def attempt(what, fn, args, kw):
    try:
        return must(fn, *args, **kw)
    except Violation as v:
        raise Violation('%s: %s' % (what, v))


def judge(what, archive, data, chunk, ba, bpa, meta, ma):
    try:
        return C03.check_archive(archive, data, chunk, ba, bpa, meta, ma)
    except Violation as v:
        raise Violation('%s: %s' % (what, v))


def run(case, ctx):
    g = case[0]
    with bp.quiet():
        {'pack': packs, 'array': arrays, 'streams': streams, 'unpack': unpacks, 'append': appends, 'class': classes, 'nchunks': nchunks, 'large': large}[g](case, ctx)
    ctx.outcome('%s held' % g)
    ctx.sample({'case': case})


def required_of(name):
    first = NAMES[name][0]
    out = [(first, {'in_file': 'in', 'bytes_': DATA, 'ndarray': ARR}[first])]
    if len(NAMES[name]) > 1:
        out.append((NAMES[name][1], 'out'))
    return out


def packs(case, ctx):
    _, i, start, n = case
    name, where = PACKS[i]
    fn = function(name, where)
    bp.write('in', DATA)
    full = itertools.islice(itertools.product(CHUNK, METAS, BA, BPA, MA), start, start + n)
    seen = {}
    for (c, cm), (m, mm), (b, bm), (p, pm), (a, am) in full:
        for desc, args, kw in ways(required_of(name), OPTIONAL,
                                   [c, m, made(b, bp.BloscArgs), made(p, bp.BloscpackArgs), made(a, bp.MetadataArgs)]):
            what = '%s.%s(%s): chunk_size %r, metadata %r, blosc_args %r, bloscpack_args %r, metadata_args %r' % (
                where, name, desc, c, m, b, p, a)
            r = attempt(what, fn, args, kw)
            archive = bp.read('out') if 'out' in [v for _, v in required_of(name)] else r
            # equal archives for equal meaning are judged once
            key = json.dumps([cm, mm, bm, pm, am], sort_keys=True)
            if seen.get(key) != archive:
                judge(what, archive, DATA, cm, bm, pm, mm, am)
                seen[key] = archive
            ctx.count('evaluations')
        ctx.nontrivial(name, where, c, m, b, p, a)


def arrays(case, ctx):
    _, i, ci, bi = case
    name, where = ARRAYS[i]
    fn = function(name, where)
    (c, cm), (b, bm) = CHUNK[ci], BA[bi]
    for (p, pm), (a, am) in itertools.product(BPA, MA):
        for desc, args, kw in ways(required_of(name), ['chunk_size', 'blosc_args', 'bloscpack_args', 'metadata_args'],
                                   [c, made(b, bp.BloscArgs), made(p, bp.BloscpackArgs), made(a, bp.MetadataArgs)]):
            what = '%s.%s(%s): chunk_size %r, blosc_args %r, bloscpack_args %r, metadata_args %r' % (where, name, desc, c, b, p, a)
            r = attempt(what, fn, args, kw)
            archive = bp.read('out') if 'file' in name else r
            judge(what, archive, ARR.tobytes(), cm, [4] + bm[1:], pm, ARR_META, am)
            ctx.count('evaluations')
        ctx.nontrivial(name, where, c, b, p, a)


def streams(case, ctx):
    (b, bm), (p, pm) = BA[case[1]], BPA[case[2]]
    for (m, mm), (a, am) in itertools.product(METAS, MA):
        for name in ('pack', 'pack_ndarray'):
            count = 0
            while True:
                out = io.BytesIO()
                sink = bp.file_io.CompressedFPSink(out)
                tail = [made(b, bp.BloscArgs), made(p, bp.BloscpackArgs), made(a, bp.MetadataArgs)]
                if name == 'pack':
                    req = [('source', bp.file_io.PlainFPSource(io.BytesIO(DATA))), ('sink', sink), ('nchunks', 5), ('chunk_size', 64), ('last_chunk', 44)]
                    w = list(ways(req, OPTIONAL[1:], [m] + tail))
                else:
                    req = [('ndarray', ARR), ('sink', sink)]
                    w = list(ways(req, ['chunk_size', 'blosc_args', 'bloscpack_args', 'metadata_args'], [64] + tail))
                if count == len(w):
                    break
                desc, args, kw = w[count]
                count += 1
                what = '%s(%s): metadata %r, blosc_args %r, bloscpack_args %r, metadata_args %r' % (name, desc, m, b, p, a)
                attempt(what, bp.abstract_io.pack if name == 'pack' else bp.numpy_io.pack_ndarray, args, kw)
                judge(what, out.getvalue(), DATA if name == 'pack' else ARR.tobytes(), 64, bm if name == 'pack' else [4] + bm[1:], pm,
                      mm if name == 'pack' else ARR_META, am)
                ctx.count('evaluations')
        ctx.nontrivial('streams', b, p, m, a)


def unpacks(case, ctx):
    name, params = UNPACKS[case[1]]
    is_array = 'ndarray' in name
    for meta, ck, off in itertools.product((None, {"k": [1]}), ('None', 'adler32', 'sha256'), ('set', 'none', 'unset')):
        content = ARR.tobytes() if is_array else DATA
        section = spec.meta_section(ARR_META if is_array else meta) if meta is not None or is_array else None
        archive = spec.build([spec.compress(content[k:k + 64], 4) for k in range(0, len(content), 64)], section, off, ck, 0, 4, 64, len(content) % 64 or 64)
        bp.write('x.blp', archive)
        for where in ('package', 'module'):
            fn = function(name, where)
            for desc, args, kw in ways([(q, {'bytes_': archive, 'out_file': 'out'}.get(q, 'x.blp')) for q in params], [], []):
                what = '%s.%s(%s)' % (where, name, desc)
                r = attempt(what, fn, args, kw)
                if is_array:
                    require(isinstance(r, np.ndarray) and r.dtype == ARR.dtype and r.shape == ARR.shape and (r == ARR).all(), '%s: %s', what, short(r))
                elif len(params) == 2:
                    require(bp.read('out') == content and r == meta, '%s: %s', what, short(r))
                    os.unlink('out')
                else:
                    require(r == (content, meta), '%s: %s', what, short(r))
                ctx.count('evaluations')
        ctx.nontrivial(name, meta, ck, off)


def appends(case, ctx):
    _, what, bi = case
    b, bm = BA[bi]
    old, new = DATA[:100], DATA[100:]
    for typesize in (1, 4, 8):
        archive = spec.build([spec.compress(old[k:k + 64], typesize) for k in (0, 64)], None, 'set', 'crc32', 6, typesize, 64, 36)
        results = []
        for k in range(4):
            bp.write('x.blp', archive)
            bp.write('new', new)
            fp = io.BytesIO(archive)
            if what == 'append':
                fn, req = bp.append_file, [('orig_file', 'x.blp'), ('new_file', 'new')]
            else:
                fn, req = bp.append_fp, [('original_fp', fp), ('new_content_fp', io.BytesIO(new)), ('new_size', len(new))]
            w = list(ways(req, ['blosc_args'], [made(b, bp.BloscArgs)]))
            if k >= len(w):
                break
            desc, args, kw = w[k]
            attempt('%s(%s), blosc_args %r' % (what, desc, b), fn, args, kw)
            results.append(bp.read('x.blp') if what == 'append' else fp.getvalue())
            ctx.count('evaluations')
        require(len(set(results)) == 1, '%s: forms of the call with blosc_args %r differ', what, b)
        a = spec.parse(results[0])
        require(a.content == DATA, '%s: content %s', what, short(a.content))
        # the archive's type size unless one is given
        t = typesize if b in (OMIT, None) else bm[0]
        for i, c in enumerate(a.chunks[1:], 1):
            require(c == spec.compress(DATA[i * 64:i * 64 + 64], t, *bm[1:]), '%s: chunk %d is not compressed with %s', what, i, [t] + bm[1:])
        ctx.nontrivial(what, b, typesize)


def classes(case, ctx):
    name, params = CLASSES[case[1]]
    cls = getattr(bp.bloscpack, name)
    require(getattr(bp.args, name) is cls, '%s: two classes of that name', name)
    for values in itertools.product(*[(OMIT, d) + o for _, d, o in params]):
        if any(v == TEN for v in values):
            continue            # the default function is not documented by a name
        want = {n: d if is_omit(v) else v for (n, d, _), v in zip(params, values)}
        for desc, args, kw in ways([], [n for n, _, _ in params], values):
            o = must(cls, *args, **kw)
            what = '%s(%s) %s' % (name, desc, values)
            got = dict(o)
            for n, w in want.items():
                v = getattr(o, n)
                require(got[n] is v or got[n] == v, '%s: %s', what, got)
                if w == TEN:
                    require(callable(v) and [v(x) for x in (0, 1, 3, 10 ** 6)] == [0, 10, 30, 10 ** 7], '%s: %s is %s', what, n, v)
                else:
                    require(v == w and type(v) is type(w), '%s: %s is %r', what, n, v)
            require(list(got) == [n for n, _, _ in params], '%s: %s', what, list(got))
            ctx.count('evaluations')
        ctx.nontrivial(name, values)


def large(case, ctx):
    # more than a chunk of the default size
    data = spec.payload('ints', case[1])
    array = np.frombuffer(data, '<i4')
    meta = {'dtype': "'<i4'", 'shape': [len(array)], 'order': 'C', 'container': 'numpy'}
    bp.write('in', data)
    given = {'in_file': 'in', 'bytes_': data, 'ndarray': array}
    for name, where in PACKS + ARRAYS:
        fn = function(name, where)
        for c in (OMIT, '1M', 2 ** 20):
            req = [given[NAMES[name][0]]] + ['out'] * (len(NAMES[name]) - 1)
            what = '%s.%s of %d bytes with chunk_size %r' % (where, name, len(data), c)
            r = attempt(what, fn, req, {} if c is OMIT else {'chunk_size': c})
            archive = bp.read('out') if len(req) > 1 else r
            judge(what, archive, data, 2 ** 20, [4 if 'ndarray' in name else 8, 7, True, 'blosclz'], [True, 'adler32', None], meta if 'ndarray' in name else None, None)
            ctx.count('evaluations')
            ctx.nontrivial(name, where, c, len(data))


def nchunks(case, ctx):
    for size in (0, 1, 100, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 5 * 2 ** 20):
        for c, cm in CHUNK + [('1K', 1024), (1000, 1000)]:
            for desc, args, kw in ways([('in_file_size', size)], ['chunk_size'], [c]):
                got = must(bp.calculate_nchunks, *args, **kw)
                require(tuple(got) == spec.chunking(size, cm), 'calculate_nchunks(%s) %s, %s: %s', desc, size, c, got)
                ctx.count('evaluations')
            ctx.nontrivial(size, c)
