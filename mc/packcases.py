"""The bounded space of (input, options) shared by the packing checks C01 and C03.

case = [group, kind, size, chunk_size or None, blosc args or None, bloscpack args or None,
        metadata, metadata args or None]
"""
from mc import spec

METAS = [None, {}, [], "", 0, False, True, 1.5, -1, {"a": 1},
         {"dtype": "float64", "shape": [1024], "others": []},
         "\u00fcn\u00ef-\u4e2d\U0001f600\u0000\u2028", {"k": "x" * 300}, {"": {"": [None, {"a": [[]]}]}},
         10 ** 20, list(range(3000)), "\"\\/\b\n", 1e308, -0.0, 5e-324,
         {"container": "numpy", "dtype": "'<f8'", "shape": [3], "order": "C"},
         {"n": [1, 2.25, "three", None, True, {"four": 5}]}]
CN = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']
CS = spec.CHECKSUMS


def cases(tier):
    deep = tier == 'thorough'
    # every size x chunk size of a small square, default options
    for size in range(0, 201 if deep else 97):
        for chunk in range(1, 210 if deep else 66):
            yield ['dense', 'noise', size, chunk, None, None, None, None]
    # sizes and chunk sizes next to powers of two
    edges = sorted({max(1, (1 << k) + d) for k in (4, 5, 7, 8, 12, 15, 16) for d in (-1, 0, 1)})
    for size in edges:
        for chunk in edges:
            if size // chunk <= 300:
                yield ['edges', 'ints', size, chunk, None, None, None, None]
                yield ['edges', 'noise', size, chunk, None, [True, 'crc32', 0], None, None]
    # chunk counts next to the limits of one and two bytes
    for n in (254, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096) + ((65535, 65536, 65537) if 1 else ()):
        yield ['many-chunks', 'ramp', n, 1, [1, 1, False, 'lz4'], [True, 'adler32', 0 if n > 5000 else None], None, None]
        if n < 5000:
            yield ['many-chunks', 'noise', n * 3 - 1, 3, [1, 0, False, 'blosclz'], [True, 'sha512', 7], {"a": 1}, None]
            yield ['many-chunks', 'noise', n * 3 - 2, 3, None, [False, 'md5', None], None, None]
    # around the default chunk size, and larger chunks than any 16 or 24 bit count
    for size in (2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21, 3 * 2 ** 20 + 5):
        for kind in ('ints', 'noise', 'zero'):
            yield ['default-chunks', kind, size, None, None, None, None, None]
    for size, chunk in ((2 ** 24 + 1, 2 ** 24), (2 ** 24 + 1, 2 ** 25), (2 ** 24 - 1, '16M'),
                        (5 * 2 ** 20, '1M'), (5 * 2 ** 20 + 3, '2.5M'), (3000, '1K'), (3000, '0.5K'),
                        (3000, '100B'), (3000, '1G'), (10, 2 ** 31 - 1 - 16), (10, '1.99G')):
        yield ['big-chunks', 'ramp', size, chunk, [8, 1, True, 'lz4'], None, None, None]
        yield ['big-chunks', 'zero', size, chunk, None, [True, 'crc32', None], None, None]
    # chunks whose compressed form is next to and beyond the sizes hashes are fed in, with every checksum
    for cs in CS:
        for size in (4096, 8192, 16384, 32768, 65519, 65520, 65521, 65535, 65536, 65537, 131072 - 16, 131072, 200001, 2 ** 20 - 16, 2 ** 20 - 15):
            yield ['digests', 'noise', size, None, [8, 0, False, 'lz4'], [True, cs, 1], None, None]
            if size > 60000:
                yield ['digests', 'noise', 2 * size - 7, size, [1, 5, True, 'blosclz'], [False, cs, 0], {"k": spec.payload('noise', 40000).hex()[:size // 2]},
                       [('None', 'zlib')[size % 2], 6, cs, None]]
    # every type size
    for ts in range(1, 256):
        for size, chunk in ((0, 16), (1, 1), (700, 256), (1000, 1000)):
            yield ['typesize', 'ints', size, chunk, [ts, 7, True, 'blosclz'], None, None, None]
            yield ['typesize', 'ints', size, chunk, [ts, 5, 2, 'zstd'], [False, 'None', None], None, None]
    # full product of the Blosc settings
    for size in (0, 1, 7, 16, 17, 130, 1025, 5000) if deep else (0, 1, 17, 130, 1025):
        for chunk in (1, 16, 64, 512):
            if size / chunk > 70:
                continue
            for ts in (range(1, 256, 2) if deep else (1, 2, 3, 4, 8, 16, 127, 128, 255)):
                for lv in range(10):
                    for sh in (0, 1, 2, False, True):
                        for cn in CN:
                            if not deep and lv not in (0, 1, 5, 7, 9):
                                continue
                            yield ['blosc-args', 'ints', size, chunk, [ts, lv, sh, cn], None, None, None]
    # full product of the Bloscpack settings with metadata
    for size in (0, 5, 64, 100):
        for chunk in (16, 33, 100):
            for off in (True, False):
                for cs in CS:
                    for app in (None, 0, 1, 5, 300, 'f:0:0', 'f:2:1', 'f:10:0'):
                        for mi in (range(len(METAS)) if deep else (0, 1, 3, 4, 5, 9, 10, 12)):
                            yield ['bloscpack-args', 'text', size, chunk, None, [off, cs, app], METAS[mi], None]
    # full product of the metadata settings
    for mi in range(len(METAS)):
        for co in ('None', 'zlib'):
            for lv in range(10):
                for cs in CS:
                    for mx in (None, 'f:1:40', 'f:3:7', 70000):
                        if not deep and (lv not in (0, 1, 6, 9) and cs != 'crc32'):
                            continue
                        if isinstance(mx, int) and lv != 6:
                            continue
                        yield ['metadata-args', 'text', 40, 16, None, [True, 'adler32', 2], METAS[mi],
                               [co, lv, cs, mx]]
                        if mi < 4:
                            yield ['metadata-args', 'text', 40, 16, None, [False, 'sha1', 2], METAS[mi],
                                   [co, lv, cs, mx]]
    # payload kinds: incompressible, constant, structured
    for kind in ('zero', 'noise', 'text', 'ints', 'ramp'):
        for size in (1, 15, 16, 127, 128, 129, 4000, 70000):
            for chunk in (16, 128, 1000, 65536):
                if size / chunk <= 600:
                    for ba in (None, [4, 9, 2, 'lz4hc'], [2, 0, 1, 'zlib'], [1, 3, 0, 'zstd']):
                        yield ['payloads', kind, size, chunk, ba, [True, 'sha256', None], None, None]


def is_nontrivial(case):
    return case[2] > 0
