import ast
import io
import json
import os
import re
import struct
from collections import OrderedDict

from mc import bp, clim, hist, spec
from mc.core import Violation, call, must, require, short
from checks import C19

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('info: every combination of checksum, offsets, reservation, metadata (values, codec, checksum), number of chunks, chunk '
        'codec, level and shuffle, and every header field at and next to the limits of its type, printed by the real command and '
        'parsed back; each printed field is compared with the independent parse of the file. flags and blosc-header: every '
        'byte value. verbose: packs, unpacks and appends of every size in a range with every entry point, each printed number '
        'compared with the actual file. Non-trivial: distinct archives.')
ASSUMPTIONS = ['the wording of messages is not part of the claim: lines that are not printed are only required of info',
               'the ratio printed by append and the debug level messages are not covered']
BLOCK = 8

METAS = [None, hist.NULL, {"a": 1}, [], {}, "x", 0, False, list(range(40)), {"k": "y" * 150, "l": [{"m": None}]},
         {"\u4e2d\u00e9": "two\nlines", "q": "'\"\\"}, {"f": [1.5, -0.0, 1e300], "b": [True, None]}]
CODEC_OF_FLAGS = {0: 'blosclz', 1: 'lz4', 2: 'snappy', 3: 'zlib', 4: 'zstd'}


def cases(tier):
    for ck in spec.CHECKSUMS:
        for off in ('none', 'set', 'unset'):
            for mi in range(len(METAS)):
                for n in (1, 2, 4, 5, 6, 300) if tier == 'quick' else range(1, 30):
                    yield ['info', ck, off, mi, n]
    for cn in ('blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd'):
        for lv in range(10):
            for sh in (0, 1, 2):
                for ts in (1, 2, 3, 4, 8, 16, 100, 255):
                    yield ['chunk', cn, lv, sh, ts]
    for mc in spec.CHECKSUMS:
        for co in spec.CODECS:
            for lv in range(10):
                yield ['meta', mc, co, lv]
    for f in ('chunk_size', 'last_chunk', 'nchunks', 'max_app'):
        for k in range(64):
            yield ['fields', f, k]
    for b in range(256):
        yield ['flags', b]
    for i in range(64):
        yield ['blosc-header', i]
    for n in list(range(0, 70)) + [1000, 1023, 1024, 1025, 10239, 1 << 20, (1 << 20) + 1, 3 << 20]:
        yield ['verbose', n]
    for i in range(20):
        yield ['not readable', i]


def pretty(n):
    if n == 0:
        return '0B'
    for k in (4, 3, 2, 1, 0):
        if n >= 1024 ** k:
            return '%s%s' % (round(n / 1024 ** k, 2), 'BKMGT'[k])
    return None


def value(text, what):
    """A printed value: a literal, or a size with the number of bytes in brackets."""
    m = re.match(r'^(\S+) \((-?\d+)B\)$', text)
    if m:
        n = int(m.group(2))
        require(m.group(1) == pretty(n), '%s: prints %r for %d bytes', what, m.group(1), n)
        return n
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        raise Violation('%s: prints %r' % (what, text))


def info(data, ctx, what):
    """Runs info on the archive, returns the sections it prints."""
    bp.write('i.blp', data)
    status, out, err, exc = bp.run_cli(['info', 'i.blp'])
    require(bp.read('i.blp') == data, '%s: info changed the file', what)
    require(status == 0 and exc is None, '%s: info fails: %s %s', what, exc and repr(exc), short(out))
    lines = []
    for l in out.splitlines():
        require(l.startswith('blpk: '), '%s: prints %r', what, l)
        lines.append(l[6:])
    text = '\n'.join(lines)
    m = re.match(r"^BloscpackHeader:\n((?:    \w+: .*\n)+)(?:'offsets':\n(\[.*\])\n)?"
                 r"(?:Metadata:\n((?:.*\n)+?)MetadataHeader:\n((?:    \w+: .*\n)+))?"
                 r"First chunk blosc header:\n(.*)\nFirst chunk blosc flags: *\n(.*)$", text)
    require(m, '%s: report has another form: %s', what, short(text, 800))
    header, offsets, meta, mheader, bheader, flags = m.groups()
    ctx.count('evaluations')
    return (fields(header, what), offsets, meta, fields(mheader, what) if mheader else None, odict(bheader), odict(flags))


def fields(text, what):
    d = {}
    for l in text.splitlines():
        k, v = l.strip().split(': ', 1)
        require(k not in d, '%s: prints %s twice', what, k)
        d[k] = value(v, '%s, field %s' % (what, k))
    return d


def odict(text):
    m = re.match(r'^OrderedDict\((.*)\)$', text)
    v = ast.literal_eval(m.group(1) if m else text)
    return OrderedDict(v)


def flags_of(b):
    return {'byte_shuffle': bool(b & 1), 'pure_memcpy': bool(b & 2), 'bit_shuffle': bool(b & 4), 'split_blocks': bool(b & 16),
            'codec': CODEC_OF_FLAGS[b >> 5]}


def blosc_header_of(c):
    v, lz, fl, ts, nb, bs, ct = struct.unpack('<BBBBIII', c[:16])
    return {'version': v, 'versionlz': lz, 'flags': fl, 'typesize': ts, 'nbytes': nb, 'blocksize': bs, 'ctbytes': ct}


def compare(data, ctx, what, a=None):
    """a: what the independent parser says (given for archives that are not complete)."""
    if a is None:
        a = spec.parse(data, strict=False)
    h, offsets, meta, mh, bh, fl = info(data, ctx, what)
    want = {'format_version': 3, 'offsets': a.offsets_on, 'metadata': a.metadata_on, 'checksum': a.checksum, 'typesize': a.typesize,
            'chunk_size': a.chunk_size, 'last_chunk': a.last_chunk, 'nchunks': a.nchunks, 'max_app_chunks': a.max_app_chunks}
    for k in want:
        require(k in h and h[k] == want[k] and type(h[k]) is type(want[k]), '%s: prints %s as %r, it is %r', what, k, h.get(k), want[k])
    require(set(h) == set(want), '%s: prints fields %s', what, sorted(h))
    if a.offsets_on:
        m = re.match(r'^\[([-\d, ]*?),?(?:\.\.\.)?\]$', offsets or '')
        require(m, '%s: prints offsets as %r', what, offsets)
        got = [int(x) for x in m.group(1).split(',') if x.strip()]
        require(got == a.offsets[:min(5, a.nchunks)], '%s: prints offsets %s, they are %s', what, got, a.offsets[:min(5, a.nchunks)])
    else:
        require(offsets is None, '%s: prints offsets %s', what, offsets)
    if a.meta is not None:
        require(meta is not None, '%s: does not print the metadata', what)
        got = ast.literal_eval(meta.replace('\n', ' ') if '\n' in meta else meta)
        require(json.dumps(got, sort_keys=True) == json.dumps(a.meta.value, sort_keys=True), '%s: prints metadata %s, it is %s', what, short(got), short(a.meta.value))
        want = {'magic_format': b'JSON', 'meta_options': '00000000', 'meta_checksum': a.meta.checksum, 'meta_codec': a.meta.codec,
                'meta_level': a.meta.level, 'meta_size': a.meta.size, 'max_meta_size': a.meta.max_size,
                'meta_comp_size': a.meta.comp_size, 'user_codec': b''}
        for k in want:
            require(k in mh and mh[k] == want[k], '%s: prints %s as %r, it is %r', what, k, mh.get(k), want[k])
        require(set(mh) == set(want), '%s: prints metadata fields %s', what, sorted(mh))
    else:
        require(meta is None, '%s: prints metadata %s', what, meta)
    want = blosc_header_of(a.chunks[0])
    require(dict(bh) == want, '%s: prints the blosc header %s, it is %s', what, dict(bh), want)
    want = flags_of(want['flags'])
    require(dict(fl) == want, '%s: prints the flags %s, they are %s', what, dict(fl), want)
    ctx.nontrivial(data[:4096], len(data))


def chunk_list(n, size, kind='text', *ba):
    return [spec.compress(spec.payload(kind, size, i % 5), *ba) for i in range(n)]


def run(case, ctx):
    g = case[0]
    what = 'info %s' % (case,)
    ctx.sample({'case': case})
    if g == 'info':
        _, ck, off, mi, n = case
        value = None if METAS[mi] is hist.NULL else METAS[mi]
        sec = None if METAS[mi] is None else spec.meta_section(value, max_size=len(json.dumps(value)) * 10)
        for app in (0, 3, 1000) if off != 'none' else (0,):
            compare(spec.build(chunk_list(n, 20), sec, off, ck, app, 4), ctx, what)
    elif g == 'chunk':
        _, cn, lv, sh, ts = case
        for kind in ('ints', 'noise'):
            for size in (1, 100, 5000):
                compare(spec.build(chunk_list(2, size, kind, ts, lv, sh, cn), None, 'set', 'crc32', 0, ts), ctx, what)
    elif g == 'meta':
        _, mc, co, lv = case
        for m in METAS[1:]:
            compare(spec.build(chunk_list(1, 10), spec.meta_section(None if m is hist.NULL else m, co, lv, mc, 3000)), ctx, what)
    elif g == 'fields':
        _, f, k = case
        chunk = spec.compress(b'content')
        for d in (-1, 0, 1):
            v = 2 ** k + d
            kw = dict(chunk_size=20, last_chunk=7, nchunks=5, max_app_chunks=0, offsets=False)
            kw.update({f if f != 'max_app' else 'max_app_chunks': v})
            if f in ('chunk_size', 'last_chunk') and not 0 <= v <= spec.MAX_BUFFER:
                continue
            if f == 'chunk_size':
                kw['last_chunk'] = min(7, v)
            if f == 'last_chunk':
                kw['chunk_size'] = spec.MAX_BUFFER
            if f == 'nchunks' and not 1 <= v <= spec.MAX_CHUNKS:
                continue
            data = spec.header(**dict(kw, max_app_chunks=0)) + chunk + spec.digest('adler32', chunk)
            if f == 'max_app':
                if v < 0 or v > 5000:
                    continue
                kw['offsets'] = True
                data = spec.header(**kw) + struct.pack('<5q', 300, 301, 302, 303, 304) + b'\xff' * 8 * v + chunk + spec.digest('adler32', chunk)
            a = spec.parse_header(data)
            a.meta, a.chunks, a.offsets = None, [chunk], [300, 301, 302, 303, 304] if kw['offsets'] else None
            compare(data, ctx, '%s with %s = %d' % (what, f, v), a)
        if f in ('chunk_size', 'last_chunk', 'nchunks') and k == 0:
            # unknown values
            kw = dict(chunk_size=20, last_chunk=7, nchunks=5, offsets=False)
            if f == 'chunk_size':
                kw['last_chunk'] = -1
            kw[f] = -1
            data = spec.header(**kw) + chunk + spec.digest('adler32', chunk)
            r = call(info, data, ctx, what)
            require(r.ok, '%s: unset %s: %s', what, f, r)
            name = f
            require(r.value[0][name] == -1, '%s: prints unset %s as %r', what, f, r.value[0][name])
    elif g == 'flags':
        b = case[1]
        r = call(bp.headers.decode_blosc_flags, b)
        if b >> 5 in CODEC_OF_FLAGS:
            require(r.ok and dict(r.value) == flags_of(b), 'flags %#x decode to %s, not %s', b, r, flags_of(b))
            # and in a report
            chunk = bytearray(spec.compress(b'content'))
            chunk[2] = b
            data = spec.build([bytes(chunk)], None, 'set', 'adler32', 1)
            a = spec.parse(data, decompress=False)
            compare(data, ctx, what, a)
        else:
            require(not r.ok, 'flags %#x with an unknown codec decode to %s', b, r)
        ctx.nontrivial(b)
    elif g == 'blosc-header':
        i = case[1]
        for j in range(16):
            for x in (0, 1, 127, 128, 255):
                for fill in (0, 255, i, 4 * i):
                    c = bytearray([fill & 255] * 16)
                    c[j] = x
                    c[(j + i) % 16] ^= 0x5a
                    for form in (bytes(c), bytes(c) + b'rest'):
                        got = must(bp.headers.decode_blosc_header, form)
                        require(dict(got) == blosc_header_of(bytes(c)), 'blosc header %s decodes to %s', c.hex(), got)
                    ctx.nontrivial(bytes(c))
    elif g == 'verbose':
        verbose(case[1], ctx)
    elif g == 'not readable':
        good = spec.build(chunk_list(2, 30), spec.meta_section({"a": 1}), 'set', 'sha1', 1)
        i = case[1]
        data = [b'', b'x', good[:20], good[:31], good[:32], good[:40], good[:70], b'xlpk' + good[4:], good[:4] + b'\x01' + good[5:],
                good[:5] + b'\x83' + good[6:], good[:6] + b'\x09' + good[7:], good[:36], good[:32] + b'YAML' + good[36:],
                good[:64] + b'\x00' + good[65:], good[:90], b'\0' * 100, b'blpk', good[::-1], spec.compress(b'only blosc'), b'\xff' * 64][i]
        bp.write('i.blp', data)
        status, out, err, exc = bp.run_cli(['info', 'i.blp'])
        require(status != 0, 'info on unreadable file %d reports success: %s', i, short(out))
        require(bp.read('i.blp') == data, 'info changed the file')
        if data[:4] != b'blpk':
            clim.oneline('info on a file that is no archive', {'sub': 'i'}, status, out, err, exc)
        ctx.nontrivial(i)
    ctx.outcome(g)


PATTERNS = [('input (?:file|bytes) size: (.*)$', 'in'), ('output (?:file|bytes) size: (.*)$', 'out'),
            (r'^nchunks: (.*)$', 'nchunks'), (r'^chunk_size: (.*)$', 'chunk_size'), (r'^last_chunk_size: (.*)$', 'last_chunk'),
            ('orig file size before append: (.*)$', 'before'), ('orig file size after append: (.*)$', 'after'),
            ('new file size: (.*)$', 'new'), (r'^compression ratio: (.*)$', 'ratio'), ('decompression ratio: (.*)$', 'unratio'),
            (r"read (?:un)?compressed metadata of size: '(.*)'$", 'meta')]


def check_lines(out, want, what, ctx):
    seen = 0
    for l in out.splitlines():
        l = l.split(': ', 1)[1] if ': ' in l else l
        for p, k in PATTERNS:
            m = re.search(p, l)
            if not m:
                continue
            require(k in want, '%s: prints %r', what, l)
            t, exp = m.group(1), want[k]
            if isinstance(exp, float):
                require(abs(float(t) - exp) <= 1e-5 * max(1, exp), '%s: prints %r, it is %f', what, l, exp)
            elif re.match(r'^-?\d+$', t):
                require(int(t) == exp, '%s: prints %r, it is %d', what, l, exp)
            else:
                mm = re.match(r'^(\S+)(?: \((\d+)B\))?$', t)
                require(mm and mm.group(1) == pretty(exp) and (mm.group(2) is None or int(mm.group(2)) == exp),
                        '%s: prints %r, it is %d (%s)', what, l, exp, pretty(exp))
            seen += 1
    ctx.count('numbers compared', seen)
    ctx.count('evaluations')
    return seen


def loud(fn, level):
    old = bp.log.LEVEL
    bp.log.LEVEL = level
    try:
        with bp.quiet() as (out, err):
            fn()
    finally:
        bp.log.LEVEL = old
    return out.getvalue()


def verbose(n, ctx):
    F = bp.file_io
    data = spec.payload('text', n)
    bp.write('in', data)
    for cs in sorted({1, 7, 16, 64, 1000, 1 << 20}):
        if n // cs > 200:
            continue
        for meta, bpa in ((None, None), ({"a": 1}, None), ({"k": "z" * 99}, None), (None, (False, 'None', None)), ({"a": 1}, (False, 'sha512', None)),
                          (None, (True, 'None', 0))):
            nch, ecs, last = spec.chunking(n, cs)
            packed = bp.pack(data, cs, None, bpa, meta)
            opts = dict(metadata=meta, bloscpack_args=bp.bloscpack_args(bpa))
            base = {'in': n, 'nchunks': nch, 'chunk_size': ecs, 'last_chunk': last, 'out': len(packed), 'ratio': n / len(packed)}
            msize = spec.parse(packed).meta.comp_size if meta is not None else None
            for level in (bp.log.VERBOSE, bp.log.DEBUG):
                what = 'packing %d bytes in chunks of %d (%s)' % (n, cs, level)
                dbg = level == bp.log.DEBUG
                packs = [('file', lambda: F.pack_file_to_file('in', 'o', cs, **opts)),
                         ('bytes to file', lambda: F.pack_bytes_to_file(data, 'o', cs, **opts)),
                         ('bytes', lambda: F.pack_bytes_to_bytes(data, cs, **opts))]
                for name, f in packs:
                    out = loud(f, level)
                    lines = out if not dbg else '\n'.join(l for l in out.splitlines() if '    ' not in l)
                    check_lines(lines, base, '%s: %s' % (what, name), ctx)
                bp.write('o', packed)
                want = {'in': len(packed), 'out': n, 'unratio': n / len(packed)}
                if meta is not None:
                    want['meta'] = msize
                for name, f in (('file', lambda: F.unpack_file_from_file('o', 'b')), ('bytes from file', lambda: F.unpack_bytes_from_file('o')),
                                ('bytes', lambda: F.unpack_bytes_from_bytes(packed))):
                    out = loud(f, level)
                    lines = out if not dbg else '\n'.join(l for l in out.splitlines() if '    ' not in l)
                    check_lines(lines, want, 'unpacking: %s, %s' % (what, name), ctx)
                if n and not dbg and (bpa is None or bpa[0]):
                    for m in (0, 1, 10, 100):
                        a = spec.parse(packed)
                        if hist.new_chunks(a, m) > a.max_app_chunks:
                            continue
                        bp.write('a.blp', packed)
                        bp.write('new', data[:1] * m)
                        out = loud(lambda: bp.append_file('a.blp', 'new'), level)
                        after = bp.read('a.blp')
                        want = {'before': len(packed), 'after': len(after), 'new': m, 'meta': msize}
                        k = hist.new_chunks(a, m)
                        if k:
                            room = a.chunk_size - a.sizes[-1]
                            want.update(nchunks=k, chunk_size=min(a.chunk_size, m - room), last_chunk=(m - room - 1) % a.chunk_size + 1)
                        check_lines(out, want, 'appending %d bytes after %s' % (m, what), ctx)
            ctx.nontrivial(n, cs, json.dumps(meta), bpa)
