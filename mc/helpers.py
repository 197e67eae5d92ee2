"""The library's small functions, called with values that resemble each other (C17)."""
import collections.abc
import itertools
import zlib

from mc import bp
from mc.core import in_child
from mc.ops import plain

H, A, P = bp.headers, bp.args, bp.pretty
HEAD = [dict(), dict(checksum='crc32', typesize=8, chunk_size=100, last_chunk=20, nchunks=3, max_app_chunks=5),
        dict(offsets=False, metadata=True, checksum='sha512', typesize=255, chunk_size=1, last_chunk=1, nchunks=1)]
META = [dict(), dict(magic_format=b'JSON', meta_options='00000001', meta_checksum='md5', meta_codec='zlib', meta_level=9, meta_size=5,
                     max_meta_size=9, meta_comp_size=7, user_codec=b'abc')]


def _mapping(cls, kw, then):
    def f():
        o = cls(**kw)
        for k, v in then:
            o[k] = v
        return o
    return f


def table():
    out = []

    def add(label, fn):
        out.append((label, fn))
    for s in ('1K', '1k', '1.0K', '1M', '1m', '2.5G', '2.5g', '10B', '10b', '10', '', 'B', '1KK', ' 1K', '1K ', 'nanK', '1e3B', '1E3B'):
        add('reverse_pretty(%r)' % s, lambda s=s: P.reverse_pretty(s))
    for n in (0, 0.0, 1, 1.0, True, 1023, 1024, 1024.0, 2 ** 20, 2 ** 30, -1, '1'):
        add('pretty_size(%r)' % (n,), lambda n=n: P.pretty_size(n))
    for n in (5, 5.0, 2048):
        add('double_pretty_size(%r)' % n, lambda n=n: P.double_pretty_size(n))
    for size, chunk in itertools.product((0, 1, 9, 10, 100), ('1K', 3, 3.0, None, '10B', 10, 0)):
        add('calculate_nchunks(%r, %r)' % (size, chunk), lambda size=size, chunk=chunk: A.calculate_nchunks(size, chunk))
    for o in ('00000000', '00000001', '00000010', '00000011', '00000100', '0000000', b'00000001', '0000000a'):
        add('decode_options(%r)' % o, lambda o=o: H.decode_options(o))
    for off, meta in itertools.product((True, False, 1, 0), (True, False, 1)):
        add('create_options(%r, %r)' % (off, meta), lambda off=off, meta=meta: H.create_options(off, meta))
    for b in (b'\x00', b'\x01', b'\x21', b'\x60', b'\xff', b'', b'\x01\x02'):
        add('decode_blosc_flags(%r)' % b, lambda b=b: H.decode_blosc_flags(b))
        add('decode_uint8(%r)' % b, lambda b=b: H.decode_uint8(b))
        add('decode_bitfield(%r)' % b, lambda b=b: H.decode_bitfield(b))
    for n in (-1, 0, 1, 1.0, True, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 63 - 1, 2 ** 63):
        for name in ('encode_uint8', 'encode_int32', 'encode_int64', 'encode_uint32'):
            add('%s(%r)' % (name, n), lambda n=n, name=name: getattr(H, name)(n))
        add('check_range(%r)' % n, lambda n=n: H.check_range('n', n, 0, 255))
    for i, kw in enumerate(HEAD):
        add('BloscpackHeader(%d)' % i, lambda kw=kw: H.BloscpackHeader(**kw))
        add('BloscpackHeader(%d).encode()' % i, lambda kw=kw: H.BloscpackHeader(**kw).encode())
        raw = in_child(lambda: H.BloscpackHeader(**kw).encode())
        for cut in (raw, raw[:4] + b'\x02' + raw[5:], raw[:-1], raw[:6] + b'\x7f' + raw[7:], bytearray(raw), b'\0' + raw[1:]):
            add('BloscpackHeader.decode(%r)' % cut, lambda cut=cut: H.BloscpackHeader.decode(cut))
    for i, kw in enumerate(META):
        add('MetadataHeader(%d)' % i, lambda kw=kw: H.MetadataHeader(**kw))
        raw = in_child(lambda: H.MetadataHeader(**kw).encode())
        for cut in (raw, raw[:-1], b'NOSJ' + raw[4:], raw[:9] + b'\x7f' + raw[10:]):
            add('MetadataHeader.decode(%r)' % cut, lambda cut=cut: H.MetadataHeader.decode(cut))
    blosc = b'\x02\x01\x21\x08' + b'\x10\0\0\0' * 3
    for raw in (blosc, blosc[:15], b'\x01' + blosc[1:], blosc[:2] + b'\x01' + blosc[3:], blosc[:4] + b'\xff\xff\xff\xff' + blosc[8:]):
        add('decode_blosc_header(%r)' % raw, lambda raw=raw: H.decode_blosc_header(raw))
    for cls, then in ((bp.BloscArgs, ((), (('typesize', 1),), (('clevel', 9), ('cname', 'lz4')))),
                      (bp.BloscpackArgs, ((), (('checksum', 'md5'),), (('offsets', False), ('max_app_chunks', 0)))),
                      (bp.MetadataArgs, ((), (('meta_codec', 'None'),), (('meta_level', 9), ('max_meta_size', 50))))):
        for t in then:
            add('%s%r' % (cls.__name__, t), _mapping(cls, {}, t))
            add('%s%r copied' % (cls.__name__, t), lambda cls=cls, t=t: _mapping(cls, {}, t)().copy())
            add('%s%r printed' % (cls.__name__, t), lambda cls=cls, t=t: [str(_mapping(cls, {}, t)()), repr(_mapping(cls, {}, t)()),
                                                                         _mapping(cls, {}, t)().pformat()])
    for n in (1, 5, 10, 10.0):
        for m in (n, 0, lambda x: 2 * x, '5', -1, 2 ** 31, None):
            add('_handle_max_apps(%r, %s)' % (n, 'function' if callable(m) else repr(m)),
                lambda n=n, m=m: A._handle_max_apps(True, n, m))
    for n in (0, 10, 50, 100):
        for m in (50, 50.0, lambda x: 3 * x, -1, '9'):
            add('effective_max_meta_size(%r, %s)' % (n, 'function' if callable(m) else repr(m)),
                lambda n=n, m=m: bp.MetadataArgs(max_meta_size=m).effective_max_meta_size(n))
    data = b'some text, some text, some text'
    packed = zlib.compress(data, 6)
    for name in ('None', 'zlib'):
        for level in (0, 1, 6, 9, 10):
            add('%s level %r' % (name, level), lambda name=name, level=level: bp.metacodecs.CODECS_LOOKUP[name].compress(data, level))
        for d in (data, b'', packed, bytearray(packed)):
            add('%s back %r' % (name, d), lambda name=name, d=d: bp.metacodecs.CODECS_LOOKUP[name].decompress(type(d)(d)))
    for o in ({}, [], 1, 1.0, True, None, {"a": 1}, {"a": 1.0}, {"a": True}, {1: "a"}, {"1": "a"}, "a", set()):
        add('dumps(%r)' % (o,), lambda o=o: bp.serializers.SERIALIZERS_LOOKUP['JSON'].dumps(o))
    for t in ('{}', '[]', '1', '1.0', 'true', '{"a": [1, 2]}', '{"a": 1, "a": 2}', '{', '', b'{}'):
        add('loads(%r)' % (t,), lambda t=t: bp.serializers.SERIALIZERS_LOOKUP['JSON'].loads(t))
    for ck in bp.CHECKSUM_NAMES:
        for d in (b'', b'a', bytearray(b'a'), b'ab'):
            add('%s(%r)' % (ck, d), lambda ck=ck, d=d: bp.checksums.CHECKSUMS_LOOKUP[ck](d))
    for what in ('', 'zlib', 'ZLIB', 'None', None, 'crc32', 'CRC32', 'JSON', 'json', 'md5'):
        for mod, f in (('metacodecs', 'check_valid_codec'), ('checksums', 'check_valid_checksum'), ('serializers', 'check_valid_serializer')):
            add('%s(%r)' % (f, what), lambda mod=mod, f=f, what=what: getattr(getattr(bp, mod), f)(what))
    return out


def spoil(x):
    """The caller does as it likes with what it was given."""
    if isinstance(x, list):
        x.append('spoiled')
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = 'spoiled'
        x['spoiled'] = 1
    elif isinstance(x, bytearray):
        x += b'spoiled'
    elif isinstance(x, collections.abc.Mapping):
        for k in list(x):
            setattr(x, k, 'spoiled')


def shown(x):
    if isinstance(x, collections.abc.Mapping):
        return ['%s of type %s' % (dict(x), type(x).__name__)]
    return ['%s of type %s' % (x, type(x).__name__)] if isinstance(x, (int, float, str, bytes, bytearray, list, tuple)) else plain(x)


def result(fn, then_spoil=False):
    try:
        x = fn()
    except Exception as e:
        return ['raised', type(e).__name__, str(e)[:200]]
    out = shown(x)
    if then_spoil:
        try:
            spoil(x)
        except Exception:
            pass
    return out
