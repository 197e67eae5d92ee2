import itertools
import struct

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('encode: every combination of boundary values of all header fields is encoded and compared with an '
        'independent struct encoding, decoded again and compared field by field; decode: from base headers '
        'every single byte is set to all 256 values and every pair of bytes to all pairs of boundary values, '
        'and the outcome compared with an independent validity predicate; lengths 0..80. Non-trivial: the '
        'header differs from the default one.')
BLOCK = 2
MAXB = bp.blosc.BLOSC_MAX_BUFFERSIZE
MAXN = 2 ** 63 - 1
BYTES = [0, 1, 2, 3, 4, 8, 9, 10, 127, 128, 254, 255]

SIZES = [-1, 0, 1, 255, 256, 65535, 65536, 2 ** 24, MAXB - 1, MAXB]
COUNTS = [-1, 0, 1, 2, 255, 256, 65536, 2 ** 31, 2 ** 32, 2 ** 53 + 1, MAXN - 1, MAXN]
BAD_SIZES = [-2, -2 ** 31, MAXB + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32]
BAD_COUNTS = [-2, -2 ** 63, MAXN + 1, 2 ** 64]

BASES = [
    spec.header(True, False, 'adler32', 8, 2 ** 20, 5, 3, 30),
    spec.header(False, True, 'None', 0, -1, -1, -1, 0),
    spec.header(True, True, 'sha512', 255, MAXB, MAXB, MAXN - 1, 1),
    spec.header(False, False, 'md5', 1, 0x01020304, 0x01020303, 0x0102030405060708, 0x0807060504030201 & MAXN >> 8),
    spec.header(True, False, 'crc32', 4, 7, 7, 0, 0),
    spec.header(True, True, 'sha224', 127, 256, 0, 255, MAXN - 255),
]


def mheader(magic=b'JSON', options=0, ck=1, co=1, lv=6, size=10, mx=100, comp=9, user=b''):
    return struct.pack('<8sBBBBIII8s', magic, options, ck, co, lv, size, mx, comp, user)


MBASES = [mheader(), mheader(b'', 0, 0, 0, 0, 0, 0, 0, b''),
          mheader(b'ABCDEFGH', 0, 8, 1, 9, 2 ** 32 - 1, 2 ** 32 - 1, 2 ** 32 - 1, b'12345678'),
          mheader(b'BSON', 0, 4, 0, 0, 0x01020304, 0x05060708, 0x090a0b0c, b'xy')]


def cases(tier):
    deep = tier == 'thorough'
    for v in (0, 1, 3, 255):
        for ck in spec.CHECKSUMS:
            for ts in (0, 1, 8, 127, 128, 255):
                yield ['encode', v, ck, ts]
    for lv in range(10):
        for ck in range(9):
            for co in range(2):
                yield ['meta-encode', ck, co, lv]
    for b in range(len(BASES)):
        for pos in range(32):
            yield ['byte', b, pos]
            for pos2 in range(pos + 1, 32):
                if deep or b < 4:
                    yield ['pair', b, pos, pos2]
    for b in range(len(MBASES)):
        for pos in range(32):
            yield ['meta-byte', b, pos]
            for pos2 in range(pos + 1, 32):
                if deep or b < 3:
                    yield ['meta-pair', b, pos, pos2]
    for n in range(0, 81):
        yield ['length', n]
    yield ['bad-fields']
    for b in range(256):
        yield ['blosc', b]


FIELDS = ('format_version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size', 'last_chunk',
          'nchunks', 'max_app_chunks')
MFIELDS = ('magic_format', 'meta_options', 'meta_checksum', 'meta_codec', 'meta_level', 'meta_size',
           'max_meta_size', 'meta_comp_size', 'user_codec')


def expected(raw):
    """Fields of a valid 32 byte header, or None."""
    if len(raw) != 32 or raw[:4] != b'blpk':
        return None
    v, opt, ck, ts, cs, lc, n, app = struct.unpack('<BBBBiiqq', raw[4:])
    if opt & ~3 or ck > 8:
        return None
    if not (-1 <= cs <= MAXB and -1 <= lc <= MAXB and -1 <= n and 0 <= app):
        return None
    if n == -1 and app != 0 or n + app > MAXN:
        return None
    if cs != -1 and lc != -1 and lc > cs:
        return None
    return dict(zip(FIELDS, (v, bool(opt & 1), bool(opt & 2), spec.CHECKSUMS[ck], ts, cs, lc, n, app)))


def mexpected(raw):
    if len(raw) != 32:
        return None
    magic, opt, ck, co, lv, size, mx, comp, user = struct.unpack('<8sBBBBIII8s', raw)
    if ck > 8 or co > 1 or lv > 9:
        return None
    return dict(zip(MFIELDS, (magic.rstrip(b'\0'), format(opt, '08b'), spec.CHECKSUMS[ck], spec.CODECS[co], lv,
                              size, mx, comp, user.rstrip(b'\0'))))


def decode_check(cls, raw, want, ctx):
    r = call(cls.decode, raw)
    ctx.count('evaluations')
    if want is None:
        require(not r.ok, '%s.decode(%r) %s instead of failing', cls.__name__, raw, r)
        require(isinstance(r.exc, Exception), '%s.decode(%r) %s', cls.__name__, raw, r)
        ctx.outcome('rejected')
    else:
        require(r.ok, '%s.decode(%r) %s', cls.__name__, raw, r)
        got = dict(r.value)
        require(got == want,
                '%s.decode(%r) gave %s, expected %s', cls.__name__, raw, got, want)
        enc = must(r.value.encode)
        require(enc == raw, '%s.decode(%r) encodes to %r', cls.__name__, raw, enc)
        # bytes-like inputs other than bytes give the same header
        ctx.outcome('accepted')
    if raw not in (BASES[0], MBASES[0]):
        ctx.nontrivial(cls.__name__, raw)


def encode_check(kw, raw, ctx):
    valid = expected(raw) if raw is not None else None
    r = call(bp.headers.BloscpackHeader, **kw)
    ctx.count('evaluations')
    if valid is None:
        require(not r.ok, 'BloscpackHeader(%s) was accepted', kw)
        ctx.outcome('refused to construct')
        return
    require(r.ok, 'BloscpackHeader(%s) %s', kw, r)
    enc = must(r.value.encode)
    require(enc == raw, 'BloscpackHeader(%s) encodes to %r, expected %r', kw, enc, raw)
    back = must(bp.headers.BloscpackHeader.decode, enc)
    require(dict(back) == dict(r.value) == kw and back == r.value, 'BloscpackHeader(%s) decodes to %s', kw, dict(back))
    ctx.outcome('encoded')
    ctx.nontrivial(raw)


def run(case, ctx):
    g = case[0]
    H, M = bp.headers.BloscpackHeader, bp.headers.MetadataHeader
    if g == 'encode':
        _, v, ck, ts = case
        for off, md in itertools.product((False, True), repeat=2):
            for cs in SIZES:
                for lc in SIZES:
                    for n in COUNTS if (cs + lc) % 3 == 0 else COUNTS[::4]:
                        for app in (0, 1, 255, 2 ** 32, MAXN - 1, MAXN, MAXN - n if n >= 0 else 0,
                                    MAXN - n + 1 if n > 0 else 0):
                            kw = dict(zip(FIELDS, (v, off, md, ck, ts, cs, lc, n, app)))
                            encode_check(kw, spec.header(off, md, ck, ts, cs, lc, n, app, v), ctx)
    elif g == 'meta-encode':
        _, ck, co, lv = case
        for magic in (b'', b'J', b'JSON', b'ABCDEFGH'):
            for user in (b'', b'u', b'12345678'):
                for size in (0, 1, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1):
                    for mx in (0, 1, 2 ** 16, 2 ** 32 - 1):
                        for comp in (0, 7, 2 ** 24, 2 ** 32 - 1):
                            kw = dict(zip(MFIELDS, (magic, '00000000', spec.CHECKSUMS[ck], spec.CODECS[co], lv,
                                                    size, mx, comp, user)))
                            raw = mheader(magic, 0, ck, co, lv, size, mx, comp, user)
                            h = must(M, **kw)
                            enc = must(h.encode)
                            require(enc == raw, 'MetadataHeader(%s) encodes to %r, expected %r', kw, enc, raw)
                            back = must(M.decode, enc)
                            require(dict(back) == kw and back == h, 'MetadataHeader(%s) decodes to %s', kw, dict(back))
                            ctx.count('evaluations')
                            ctx.nontrivial(raw)
    elif g in ('byte', 'meta-byte'):
        base = (BASES if g == 'byte' else MBASES)[case[1]]
        for b in range(256):
            raw = base[:case[2]] + bytes([b]) + base[case[2] + 1:]
            if g == 'byte':
                decode_check(H, raw, expected(raw), ctx)
            else:
                decode_check(M, raw, mexpected(raw), ctx)
    elif g in ('pair', 'meta-pair'):
        base = bytearray((BASES if g == 'pair' else MBASES)[case[1]])
        for x in BYTES:
            for y in BYTES:
                base[case[2]], base[case[3]] = x, y
                raw = bytes(base)
                if g == 'pair':
                    decode_check(H, raw, expected(raw), ctx)
                else:
                    decode_check(M, raw, mexpected(raw), ctx)
    elif g == 'length':
        n = case[1]
        for base in BASES[:3]:
            raw = (base * 3)[:n]
            decode_check(H, raw, expected(raw), ctx)
        for base in MBASES[:3]:
            raw = (base * 3)[:n]
            decode_check(M, raw, mexpected(raw), ctx)
    elif g == 'bad-fields':
        good = dict(zip(FIELDS, (3, True, False, 'adler32', 8, 100, 50, 3, 30)))
        encode_check(good, BASES and spec.header(True, False, 'adler32', 8, 100, 50, 3, 30), ctx)
        for k, bads in (('format_version', (-1, 256, 'x', None, 1.0)), ('typesize', (-1, 256, 1000, None, '8', 8.0)),
                        ('checksum', ('', 'none', 'md4', 'ADLER32', None, 1)),
                        ('chunk_size', BAD_SIZES + [None, '1M', 1.5]), ('last_chunk', BAD_SIZES + [None, 101, 50.0]),
                        ('nchunks', BAD_COUNTS + [None, MAXN, 1.0]),
                        ('max_app_chunks', [-1, MAXN, MAXN + 1, MAXN - 2, None, lambda n: n, 3.0])):
            for b in bads:
                kw = dict(good)
                kw[k] = b
                encode_check(kw, None, ctx)
        mgood = dict(zip(MFIELDS, (b'JSON', '00000000', 'None', 'None', 0, 1, 2, 1, b'')))
        must(M, **mgood)
        for k, bads in (('magic_format', (b'123456789', 5, None)), ('user_codec', (b'123456789', 5, None)),
                        ('meta_options', ('0', '', '000000002', '0000000x', 0, None)),
                        ('meta_checksum', ('x', None, 0)), ('meta_codec', ('gzip', None, 1)),
                        ('meta_level', (-1, 10, None, '6')), ('meta_size', (-1, 2 ** 32, None)),
                        ('max_meta_size', (-1, 2 ** 32, None)), ('meta_comp_size', (-1, 2 ** 32, None))):
            for b in bads:
                kw = dict(mgood)
                kw[k] = b
                r = call(M, **kw)
                require(not r.ok, 'MetadataHeader(%s=%r) was accepted', k, b)
                ctx.count('evaluations')
                ctx.nontrivial(k, repr(b))
    elif g == 'blosc':
        b = case[1]
        for pos in range(16):
            raw = bytearray(range(1, 17))
            raw[pos] = b
            raw = bytes(raw)
            want = struct.unpack('<BBBBIII', raw)
            for buf in (raw, raw + b'rest', bytearray(raw), memoryview(raw)):
                got = must(bp.headers.decode_blosc_header, buf)
                require(tuple(got.values()) == want and list(got) == ['version', 'versionlz', 'flags', 'typesize',
                                                                     'nbytes', 'blocksize', 'ctbytes'],
                        'decode_blosc_header(%r) = %s', raw, dict(got))
                ctx.count('evaluations')
            ctx.nontrivial(raw)
        if b >> 5 <= 4:
            f = must(bp.headers.decode_blosc_flags, b)
            want = {'byte_shuffle': bool(b & 1), 'pure_memcpy': bool(b & 2), 'bit_shuffle': bool(b & 4),
                    'split_blocks': bool(b & 16), 'codec': ['blosclz', 'lz4', 'snappy', 'zlib', 'zstd'][b >> 5]}
            require(dict(f) == want, 'decode_blosc_flags(%d) = %s, expected %s', b, dict(f), want)
    ctx.sample({'case': case})
