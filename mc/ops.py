"""A closed set of library operations on a pool of shared option objects (used by C17, C18, C22).

make_pool() builds fresh option objects and inputs; OPS[name](pool, d) runs one operation in the
scratch directory d and returns a JSON-able description of everything it produced.
"""
import hashlib
import io
import json
import os
import re

import numpy as np

from mc import bp, spec


class Pool(object):
    pass


def app_function(n):
    return 2 * n + 1


def meta_function(n):
    return 3 * n + 20


def same(n):
    return n


def make_pool():
    p = Pool()
    p.args = {
        'ba1': bp.BloscArgs(), 'ba2': bp.BloscArgs(typesize=4, clevel=9, shuffle=False, cname='zlib'),
        'ba_none': bp.BloscArgs(typesize=None, clevel=None, shuffle=None, cname=None),
        'ba_part': bp.BloscArgs(typesize=None, clevel=1, shuffle=None, cname='lz4'),
        'ba_bad': bp.BloscArgs(clevel=11), 'ba_bad2': bp.BloscArgs(cname='nothing'),
        'd_none': {'typesize': None, 'clevel': None, 'shuffle': None, 'cname': None},
        'd_part': {'typesize': 2, 'clevel': None, 'shuffle': None, 'cname': None},
        'd_full': {'typesize': 8, 'clevel': 3, 'shuffle': 2, 'cname': 'zstd'},
        'bpa1': bp.BloscpackArgs(), 'bpa2': bp.BloscpackArgs(offsets=False, checksum='sha256', max_app_chunks=5),
        'bpa3': bp.BloscpackArgs(offsets=True, checksum=None, max_app_chunks=app_function),
        'bpa_bad': bp.BloscpackArgs(max_app_chunks=-3), 'bpa_bad2': bp.BloscpackArgs(checksum='nothing'),
        'ma1': bp.MetadataArgs(), 'ma2': bp.MetadataArgs(meta_codec='None', meta_checksum='md5', max_meta_size=200),
        'ma3': bp.MetadataArgs(meta_level=0, max_meta_size=meta_function), 'ma_small': bp.MetadataArgs(max_meta_size=3),
        'ma_tight': bp.MetadataArgs(max_meta_size=same),
        'ma_bad': bp.MetadataArgs(meta_checksum='nothing'),
    }
    p.meta = {'mid': {"k": "x" * 40}, 'short': {"a": 1}, 'long': {"k": "x" * 200, "l": [1, [2, {"m": None}]]}, 'list': [1, 2, 3], 'empty': {},
              'not json': {"s": {1, 2}}}
    p.data = {'text': spec.payload('text', 100), 'ints': spec.payload('ints', 1003), 'empty': b'', 'one': b'q',
              'bytearray': bytearray(spec.payload('noise', 70))}
    base = np.frombuffer(spec.payload('ints', 960), '<u8')
    p.arrays = {'f8': np.arange(60.0), 'u1': np.arange(200, dtype='u1'), 'i2 F': np.asfortranarray(np.arange(60, dtype='>i2').reshape(6, 10)),
                'struct': base.view([('a', '<u4'), ('b', '<f8'), ('c', '<u4')]), 'strided': np.arange(90, dtype='i4')[::3],
                'object': np.array([None, 1], dtype=object), 'empty': np.zeros((0, 3)), 'wide': np.zeros(3, 'S300'),
                'padded': np.zeros(5, np.dtype([('x', 'u1'), ('y', '<f8')], align=True))}
    for a in p.arrays.values():
        a.flags.writeable = a.flags.writeable
    chunks = [spec.compress(spec.payload('text', 20, i), 8, 5) for i in range(4)]
    sec = spec.meta_section({"old": "v" * 30}, 'zlib', 6, 'adler32', 90)
    p.archives = {'plain': spec.build(chunks, None, 'none', 'None'), 'full': spec.build(chunks, sec, 'set', 'sha1', 3),
                  'tight': spec.build(chunks, None, 'set', 'adler32', 0)}
    p.archives['damaged'] = p.archives['full'][:-30] + b'\x55' + p.archives['full'][-29:]
    p.archives['cut'] = p.archives['full'][:-3]
    p.archives['magic'] = b'xlpk' + p.archives['full'][4:]
    p.archives['version'] = p.archives['full'][:4] + b'\x02' + p.archives['full'][5:]
    arr = np.arange(12, dtype='<i4')
    am = {'dtype': "'<i4'", 'shape': [3, 4], 'order': 'C', 'container': 'numpy'}
    p.archives['array'] = spec.build([spec.compress(arr.tobytes(), 4)], spec.meta_section(am), 'set', 'crc32', 1)
    am = {'dtype': "<i4", 'shape': [4, 3], 'order': 'F', 'container': 'numpy'}
    p.archives['array old'] = spec.build([spec.compress(arr.tobytes(), 4)], spec.meta_section(am), 'none', 'None')
    am = {'dtype': "'<i4'", 'shape': [5], 'order': 'C', 'container': 'numpy'}
    p.archives['array long'] = spec.build([spec.compress(arr.tobytes(), 4)], spec.meta_section(am), 'none', 'None')
    p.memo = {}
    return p


def plain(x):
    if isinstance(x, (bytes, bytearray)):
        return 'bytes %d %s' % (len(x), hashlib.sha1(bytes(x)).hexdigest()[:16])
    if isinstance(x, np.ndarray):
        order = 'F' if np.isfortran(x) else 'C'
        body = x.tobytes() if not x.dtype.hasobject else repr(x.tolist()).encode()
        return 'array %s %s %s %s' % (x.dtype.descr if x.dtype.names else x.dtype.str, x.shape, order,
                                      hashlib.sha1(body).hexdigest()[:16])
    if callable(x):
        return 'function %s' % getattr(x, '__name__', '?')
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return 'set %s' % sorted(x)
    if x is None or isinstance(x, (int, float, str)):
        return '%s %r' % (type(x).__name__, x)
    return type(x).__name__


def snapshot(pool):
    """Everything the caller owns and an operation must not change."""
    s = {}
    for k, v in pool.args.items():
        d = dict(v)
        d.update({a: b for a, b in getattr(v, '__dict__', {}).items() if not a.startswith('_')})
        s['option object %s' % k] = plain(d)
    for kind in ('meta', 'data', 'arrays', 'archives'):
        for k, v in getattr(pool, kind).items():
            s['%s %s' % (kind, k)] = plain(v)
    for k, a in pool.arrays.items():
        s['flags of array %s' % k] = str(a.flags)
    s['the process'] = bp.process_state()
    return s


def guarded(fn):
    """Result or exception as a JSON-able value."""
    try:
        return ['ok', plain(fn())]
    except (KeyboardInterrupt, GeneratorExit, MemoryError):
        raise
    except BaseException as e:
        e.__traceback__ = None
        msg = re.sub(r'0x[0-9a-f]+', '0x', str(e))
        msg = re.sub(r"'[^']*/([^/']*)'", r"'\1'", msg)
        return ['raised', type(e).__name__, msg[:200]]


OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def _pack(entry, data, chunk, ba, bpa, meta, ma):
    def f(p, d):
        x = p.data[data]
        kw = dict(blosc_args=p.args.get(ba), bloscpack_args=p.args.get(bpa), metadata_args=p.args.get(ma),
                  metadata=p.meta.get(meta))
        if chunk is not None:
            kw['chunk_size'] = chunk
        out = os.path.join(d, 'out')
        if entry == 'bb':
            return bp.file_io.pack_bytes_to_bytes(bytes(x), **kw)
        if entry == 'bf':
            bp.file_io.pack_bytes_to_file(bytes(x), out, **kw)
        else:
            src = os.path.join(d, 'in')
            bp.write(src, x)
            bp.file_io.pack_file_to_file(src, out, **kw)
            if bp.read(src) != x:
                raise AssertionError('the input file was changed')
        return bp.read(out)
    return f


for _i, _a in enumerate([
        ('bb', 'ints', 64, None, None, None, None), ('bb', 'ints', 64, 'ba1', 'bpa1', 'short', 'ma1'),
        ('bb', 'text', '0.5K', 'ba2', 'bpa3', 'long', 'ma1'), ('bf', 'ints', 100, 'ba2', 'bpa2', 'short', 'ma1'),
        ('ff', 'text', 7, 'ba1', 'bpa1', 'empty', 'ma1'), ('bb', 'empty', None, 'ba1', 'bpa1', 'list', 'ma3'),
        ('bb', 'one', None, 'ba1', 'bpa3', 'long', 'ma2'), ('bb', 'text', 16, 'ba_bad', 'bpa1', 'short', 'ma1'),
        ('bf', 'text', 16, 'ba_bad2', 'bpa1', None, None), ('bb', 'text', 16, 'ba1', 'bpa_bad', None, None),
        ('bb', 'text', 16, 'ba1', 'bpa_bad2', None, None), ('bb', 'text', 0, 'ba1', 'bpa1', None, None),
        ('bb', 'text', 16, 'ba1', 'bpa1', 'long', 'ma_small'), ('bb', 'text', 16, 'ba1', 'bpa1', 'not json', 'ma1'),
        ('bb', 'text', 16, 'ba1', 'bpa1', 'short', 'ma_bad'), ('bb', 'text', 3, None, 'bpa3', 'list', None)]):
    OPS['pack %d' % _i] = _pack(*_a)


def _array(name, chunk, ba, bpa, ma, target):
    def f(p, d):
        a = p.arrays[name]
        kw = dict(blosc_args=p.args.get(ba), bloscpack_args=p.args.get(bpa), metadata_args=p.args.get(ma))
        if chunk is not None:
            kw['chunk_size'] = chunk
        if target == 'bytes':
            return bp.numpy_io.pack_ndarray_to_bytes(a, **kw)
        out = os.path.join(d, 'arr')
        bp.numpy_io.pack_ndarray_to_file(a, out, **kw)
        return bp.read(out)
    return f


for _i, _a in enumerate([
        ('f8', None, None, None, None, 'bytes'), ('u1', 50, 'ba1', 'bpa1', 'ma1', 'bytes'),
        ('i2 F', 24, 'ba1', 'bpa2', 'ma1', 'file'), ('struct', 160, 'ba2', 'bpa3', 'ma3', 'bytes'),
        ('strided', 40, 'ba2', 'bpa1', 'ma2', 'bytes'), ('object', None, 'ba1', None, None, 'bytes'),
        ('f8', 20, 'ba1', 'bpa1', 'ma1', 'bytes'), ('empty', None, 'ba1', 'bpa1', 'ma1', 'bytes'),
        ('wide', None, 'ba1', 'bpa1', 'ma1', 'bytes'), ('padded', 32, 'ba2', 'bpa1', 'ma1', 'file')]):
    OPS['array %d' % _i] = _array(*_a)


def _append(archive, data, settings, level):
    def f(p, d):
        new = p.data[data]
        if level == 'fp':
            fp = io.BytesIO(p.archives[archive])
            r = guarded(lambda: bp.append_fp(fp, io.BytesIO(bytes(new)), len(new), p.args.get(settings)))
            return [r, fp.getvalue()]
        a, b = os.path.join(d, 'a.blp'), os.path.join(d, 'b')
        bp.write(a, p.archives[archive])
        bp.write(b, new)
        r = guarded(lambda: bp.append_file(a, b, p.args.get(settings)))
        return [r, bp.read(a), bp.read(b)]
    return f


for _i, _a in enumerate([
        ('full', 'one', None, 'fp'), ('full', 'bytearray', 'ba_none', 'fp'), ('full', 'one', 'd_none', 'fp'),
        ('full', 'bytearray', 'd_part', 'file'), ('full', 'empty', 'ba_part', 'fp'), ('tight', 'one', 'd_full', 'fp'),
        ('plain', 'one', None, 'fp'), ('full', 'text', 'ba_bad', 'fp'), ('cut', 'one', 'ba_none', 'fp'),
        ('array', 'one', 'ba_none', 'file'), ('full', 'one', 'ba1', 'file')]):
    OPS['append %d' % _i] = _append(*_a)


def _unpack(archive, level):
    def f(p, d):
        if level == 'bytes':
            return bp.unpack(p.archives[archive])
        a, b = os.path.join(d, 'u.blp'), os.path.join(d, 'u')
        bp.write(a, p.archives[archive])
        if level == 'file':
            return bp.file_io.unpack_bytes_from_file(a)
        m = bp.file_io.unpack_file_from_file(a, b)
        return [m, bp.read(b)]
    return f


for _a in (('full', 'bytes'), ('plain', 'file'), ('tight', 'files'), ('damaged', 'bytes'), ('cut', 'file'), ('magic', 'bytes'),
           ('version', 'files')):
    OPS['unpack %s %s' % _a] = _unpack(*_a)
for _a in ('array', 'array old', 'array long', 'full', 'plain'):
    OPS['unpack as array: %s' % _a] = lambda p, d, a=_a: bp.numpy_io.unpack_ndarray_from_bytes(p.archives[a])


def _unpack_array_file(name):
    def f(p, d):
        a = os.path.join(d, 'n.blp')
        bp.write(a, p.archives[name])
        return bp.numpy_io.unpack_ndarray_from_file(a)
    return f


for _a in ('array', 'array long', 'full', 'plain'):
    OPS['unpack file as array: %s' % _a] = _unpack_array_file(_a)


def _rewrite(meta, kw):
    def f(p, d):
        fp = io.BytesIO(p.archives['full'])
        fp.seek(32)
        r = guarded(lambda: bp.rewrite_fp(fp, p.meta[meta], **kw))
        return [r, fp.getvalue()]
    return f


for _i, _a in enumerate([('short', {}), ('list', {'codec': 'None', 'level': 3}), ('long', {'codec': 'None'}), ('short', {'checksum': 'crc32'}),
                         ('short', {'checksum': 'sha1'}), ('not json', {})]):
    OPS['rewrite %d' % _i] = _rewrite(*_a)


@op('memory')
def _memory(p, d):
    sink = bp.memory_io.CompressedMemorySink()
    chunks = [spec.payload('text', 30, i) for i in range(3)]
    before = list(chunks)
    bp.abstract_io.pack(bp.memory_io.PlainMemorySource(chunks), sink, 3, 30, 30, metadata=p.meta['long'],
                        blosc_args=p.args['ba2'], bloscpack_args=p.args['bpa2'], metadata_args=p.args['ma1'])
    out = bp.memory_io.PlainMemorySink(3)
    src = bp.memory_io.CompressedMemorySource(sink)
    bp.abstract_io.unpack(src, out)
    return [chunks == before, out.chunks, sink.chunks, sink.checksums, src.metadata]


@op('memory default')
def _memory2(p, d):
    sink = bp.memory_io.CompressedMemorySink()
    bp.numpy_io.pack_ndarray(p.arrays['f8'], sink, chunk_size=80, blosc_args=p.args['ba1'])
    return [bp.numpy_io.unpack_ndarray(bp.memory_io.CompressedMemorySource(sink)), sink.chunks]


class Full(io.BytesIO):
    def __init__(self, n):
        io.BytesIO.__init__(self)
        self.n = n

    def write(self, b):
        self.n -= 1
        if self.n < 0:
            raise OSError(28, 'no space')
        return io.BytesIO.write(self, b)


def _fail(n):
    def f(p, d):
        sink = bp.file_io.CompressedFPSink(Full(n))
        bp.numpy_io.pack_ndarray(p.arrays['u1'], sink, chunk_size=50, blosc_args=p.args['ba1'],
                                 bloscpack_args=p.args['bpa1'], metadata_args=p.args['ma1'])
        return 'packed'
    return f


for _n in (0, 1, 2, 500, 2000):
    OPS['failing write %d' % _n] = _fail(_n)


def _cli(argv):
    def f(p, d):
        old = os.getcwd()
        os.chdir(d)
        try:
            bp.write('c', bytes(p.data['ints']))
            bp.write('m', json.dumps(p.meta['long']).encode())
            bp.write('d.blp', p.archives['full'])
            if os.path.exists('c.blp'):
                os.remove('c.blp')
            st, out, err, exc = bp.run_cli(argv)
            return [st, bp.read('c.blp') if os.path.exists('c.blp') else None, bp.read('d.blp')]
        finally:
            os.chdir(old)
    return f


OPS['cli compress'] = _cli(['c', '-z', '100', '-k', 'md5', '-t', '4', '-m', 'm', 'c'])
OPS['cli append -d'] = _cli(['-d', 'a', 'd.blp', 'c'])
OPS['cli info'] = _cli(['i', 'd.blp'])


def run_op(name, pool, d):
    return guarded(lambda: OPS[name](pool, d))


# Families: operations of one kind that leave things to their defaults, on inputs that differ in what those
# defaults are derived from (C17 runs all pairs of a family one after the other, C18 one inside the other).

def _fresh_archives(p):
    """Archives that differ in type size, level, shuffle, codec, checksum, reservation and metadata."""
    if 'fresh' not in p.memo:
        out = {}
        spec_ = [(8, 7, 1, 'blosclz', 'adler32', 4, None), (4, 1, 0, 'lz4', 'None', 5, {"old": 1}), (2, 9, 1, 'zlib', 'sha256', 3, None),
                 (1, 5, 2, 'zstd', 'crc32', 9, [1, 2]), (16, 3, 1, 'lz4hc', 'md5', 4, {"k": "z" * 60}), (3, 0, 1, 'blosclz', 'sha512', 20, None)]
        for i, (ts, lv, sh, cn, ck, app, meta) in enumerate(spec_):
            data = spec.payload('ints', 150 + 10 * i)
            cs = 48
            n, ecs, last = spec.chunking(len(data), cs)
            chunks = [spec.compress(data[k * cs:(k + 1) * cs], ts, lv, sh, cn) for k in range(n)]
            sec = None if meta is None else spec.meta_section(meta, 'zlib' if i % 2 else 'None', 6, CKS[i], 100 + 30 * i)
            out[i] = spec.build(chunks, sec, 'set', ck, app, ts, ecs, last)
        p.memo['fresh'] = out
    return p.memo['fresh']


CKS = ['adler32', 'md5', 'None', 'sha1', 'crc32', 'sha512']
FAMILIES = {}


def _fam_append(i, settings, size):
    def f(p, d):
        raw = _fresh_archives(p)[i]
        new = spec.payload('ints', size, 2)
        s = settings() if callable(settings) else p.args.get(settings)
        fp = io.BytesIO(raw)
        r = guarded(lambda: bp.append_fp(fp, io.BytesIO(new), len(new), s) if s is not None else bp.append_fp(fp, io.BytesIO(new), len(new)))
        return [r, fp.getvalue()]
    return f


FAMILIES['append'] = {}
for _i in range(6):
    for _n, _s in (('nothing', None), ('None values', 'ba_none'), ('dict of None', 'd_none'), ('some values', 'ba_part'),
                   ('own object', lambda: bp.BloscArgs(typesize=None, clevel=None, shuffle=None, cname=None))):
        FAMILIES['append']['append %s to archive %d' % (_n, _i)] = _fam_append(_i, _s, (30, 90)[_i % 2])

DTYPES = ['<f8', '<u2', '|u1', '<c16', '|S5', '>i4']


def _fam_array(dt, target, ba=None, chunk=None):
    def f(p, d):
        a = np.frombuffer(spec.payload('ints', 240), dt)
        kw = {}
        if ba is not None:
            kw['blosc_args'] = p.args[ba]
        if chunk is not None:
            kw['chunk_size'] = chunk
        if target == 'bytes':
            return bp.numpy_io.pack_ndarray_to_bytes(a, **kw)
        if target == 'file':
            out = os.path.join(d, 'fam')
            bp.numpy_io.pack_ndarray_to_file(a, out, **kw)
            return bp.read(out)
        sink = bp.memory_io.CompressedMemorySink()
        bp.numpy_io.pack_ndarray(a, sink, **kw)
        return [sink.chunks, sink.checksums, sink.metadata, bp.numpy_io.unpack_ndarray(bp.memory_io.CompressedMemorySource(sink))]
    return f


FAMILIES['array'] = {}
for _dt in DTYPES:
    for _t in ('bytes', 'file', 'memory'):
        FAMILIES['array']['array %s to %s' % (_dt, _t)] = _fam_array(_dt, _t)
    FAMILIES['array']['array %s with options' % _dt] = _fam_array(_dt, 'bytes', 'ba2', 80)


def _fam_pack(size, kind, entry, kw):
    def f(p, d):
        x = spec.payload(kind, size)
        k = {a: p.args[v] if a.endswith('_args') else v for a, v in kw.items()}
        if entry == 'bytes':
            return bp.file_io.pack_bytes_to_bytes(x, **k)
        out = os.path.join(d, 'fam')
        if entry == 'file':
            bp.file_io.pack_bytes_to_file(x, out, **k)
        else:
            bp.write(out + '.in', x)
            bp.file_io.pack_file_to_file(out + '.in', out, **k)
        return bp.read(out)
    return f


FAMILIES['pack'] = {}
for _i, (_size, _kind, _entry, _kw) in enumerate([
        (100, 'text', 'bytes', {}), (1000, 'ints', 'bytes', {}), (100, 'noise', 'file', {}), (0, 'text', 'files', {}), (77, 'text', 'files', {}),
        (300, 'ints', 'bytes', {'chunk_size': 100}), (300, 'ints', 'bytes', {'chunk_size': 30}), (300, 'ints', 'bytes', {'chunk_size': 1000}),
        (300, 'ints', 'file', {'chunk_size': 'max'}), (300, 'ints', 'bytes', {'chunk_size': '50B'}), (100, 'text', 'bytes', {'metadata': {"a": 1}}),
        (100, 'text', 'bytes', {'metadata': {}}), (100, 'text', 'bytes', {'metadata': {"k": "v" * 90}}),
        (100, 'text', 'files', {'metadata': [1]}), (100, 'text', 'bytes', {'metadata': {"a": 1}, 'metadata_args': 'ma2'}),
        (100, 'text', 'bytes', {'metadata': {"k": "v" * 90}, 'metadata_args': 'ma_tight'}), (100, 'text', 'bytes', {'blosc_args': 'ba2'}),
        (100, 'text', 'file', {'blosc_args': 'ba_bad'}), (100, 'text', 'bytes', {'bloscpack_args': 'bpa2'}),
        (100, 'text', 'bytes', {'bloscpack_args': 'bpa3'}), (100, 'text', 'bytes', {'bloscpack_args': 'bpa_bad'}),
        (300, 'text', 'bytes', {'bloscpack_args': 'bpa3', 'chunk_size': 40}), (100, 'text', 'bytes', {'metadata': {"s": {1}}}),
        (100, 'text', 'bytes', {'metadata': {"a": 1}, 'metadata_args': 'ma_bad'})]):
    FAMILIES['pack']['pack %d %d %s %s %s' % (_i, _size, _kind, _entry, sorted(_kw))] = _fam_pack(_size, _kind, _entry, _kw)


def _fam_unpack(i, level, damage):
    def f(p, d):
        raw = _fresh_archives(p)[i]
        if damage:
            raw = raw[:-damage] + bytes([raw[-damage] ^ 0x10]) + raw[len(raw) - damage + 1:]
        if level == 'bytes':
            return bp.unpack(raw)
        a = os.path.join(d, 'fam')
        bp.write(a, raw)
        if level == 'files':
            m = bp.file_io.unpack_file_from_file(a, a + '.out')
            return [m, bp.read(a + '.out')]
        with open(a, 'rb') as fp:
            src = bp.file_io.CompressedFPSource(fp)
            sink = bp.memory_io.PlainMemorySink()
            bp.abstract_io.unpack(src, sink)
            return [src.metadata, sink.chunks]
    return f


FAMILIES['unpack'] = {}
for _i in range(6):
    for _l in ('bytes', 'files', 'memory'):
        FAMILIES['unpack']['unpack archive %d %s' % (_i, _l)] = _fam_unpack(_i, _l, 0)
    FAMILIES['unpack']['unpack damaged archive %d' % _i] = _fam_unpack(_i, 'bytes', 3)


def _fam_rewrite(i, meta, kw):
    def f(p, d):
        fp = io.BytesIO(_fresh_archives(p)[i])
        fp.seek(32)
        r = guarded(lambda: bp.rewrite_fp(fp, meta, **kw))
        return [r, fp.getvalue()]
    return f


FAMILIES['rewrite'] = {}
for _i in (1, 3, 4):
    for _j, (_m, _kw) in enumerate([({"a": 2}, {}), ([1, 2, 3], {'codec': None, 'level': None, 'checksum': None}), ({"b": "y" * 40}, {'codec': 'None'}),
                                    ({"b": "y" * 40}, {'codec': 'zlib'}), ({"b": 1}, {'level': 1}), ({"s": {1}}, {})]):
        FAMILIES['rewrite']['rewrite %d archive %d' % (_j, _i)] = _fam_rewrite(_i, _m, _kw)


def _fam_info(i, what):
    def f(p, d):
        raw = _fresh_archives(p)[i]
        fp = io.BytesIO(raw)
        h, m, mh, off = bp.file_io._read_beginning(fp)
        if what == 'beginning':
            return [dict(h), m, None if mh is None else dict(mh), off]
        return [list(bp.args._handle_max_apps(*z) for z in ((True, h.nchunks, 5), (True, h.nchunks, lambda n: n + i))),
                bp.calculate_nchunks(1000 + i, 100 + i)]
    return f


FAMILIES['beginning'] = {'%s %d' % (_w, _i): _fam_info(_i, _w) for _i in range(6) for _w in ('beginning', 'numbers')}


def _cli_family(argv):
    def f(p, d):
        old = os.getcwd()
        os.chdir(d)
        try:
            for n in os.listdir('.'):
                if os.path.isfile(n):
                    os.remove(n)
            bp.write('c', bytes(p.data['ints']))
            bp.write('m', json.dumps(p.meta['short']).encode())
            bp.write('s', b'ab')
            for i in range(3):
                bp.write('d%d.blp' % i, _fresh_archives(p)[i])
            st, out, err, exc = bp.run_cli(argv)
            return [st, out, err, {n: bp.read(n) for n in sorted(os.listdir('.')) if os.path.isfile(n)}]
        finally:
            os.chdir(old)
    return f


FAMILIES['cli'] = {' '.join(_a): _cli_family(_a) for _a in [
    ['c', 'c'], ['c', '-z', '50', 'c', 'o'], ['c', 's'], ['-v', 'c', '-t', '2', '-s', '-z', '99', 'c'], ['c', '-o', '-k', 'None', 'c'], ['c', '-c', 'zlib', '-l', '1', 'c'],
    ['c', '-m', 'm', 'c'], ['-f', 'c', 'c', 's'], ['c', 'c', 's'], ['d', 'd0.blp'], ['d', 'd1.blp', 'o'], ['-v', 'd', 'd2.blp', 'o'], ['d', 'd0.blp', 's'],
    ['-f', 'd', 'd1.blp', 's'], ['d', '-e', 'd1.blp', 'o'], ['d', 'c'], ['a', 'd0.blp', 's'], ['a', 'd1.blp', 's'], ['a', 'd2.blp', 'c'],
    ['a', '-t', '2', 'd2.blp', 's'], ['a', '-m', 'm', 'd1.blp', 's'], ['i', 'd0.blp'], ['i', 'd1.blp'], ['i', 'c'], ['-d', 'i', 'd2.blp'],
    ['-n', '1', 'c', 'c'], ['-n', '2', 'd', 'd1.blp', 'o'], ['nonsense']]}


def run_family(family, name, pool, d):
    return guarded(lambda: FAMILIES[family][name](pool, d))
