import io
import itertools
import json
import zlib

from mc import bp, hist, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('write: every value x codec x level x checksum x reservation next to every boundary of the stored size, the '
        'section parsed by the independent parser. values: every JSON tree up to a size over a leaf alphabet, every '
        'code point, numbers next to powers of two. rewrite: explicit-state search, a state is the section with the '
        'bytes around it, transitions are in-place rewrites by the real code, every sequence up to the depth, each '
        'successor compared byte for byte with the model section.')
ASSUMPTIONS = ['a rewrite to a value that Python compares equal to the stored one (1 and True) counts as no change',
               'zlib.compress is deterministic']
BLOCK = 8

BORDER = []         # values whose zlib form is shorter, as long, and longer than the plain one


def borders():
    if not BORDER:
        for level in (1, 6, 9):
            want = {-2: None, -1: None, 0: None, 1: None, 2: None}
            for n in range(1, 60):
                for k in range(0, 40):
                    v = 'a' * k + spec.payload('noise', n).hex()[:n]
                    raw = json.dumps(v).encode()
                    d = len(zlib.compress(raw, level)) - len(raw)
                    if d in want and want[d] is None:
                        want[d] = v
            assert None not in want.values()
            for v in want.values():
                if v not in BORDER:
                    BORDER.append(v)
    return BORDER


VALUES = [None, {}, [], "", 0, False, True, {"a": 1}, list(range(60)), {"k": "x" * 300},
          "\u00fc\u4e2d\U0001f600\x00\u2028" * 6, {"n": [1, 2.25, "three", None, True, {"four": 5}]}]


def all_values():
    return VALUES + borders()


KW = [{}, {'codec': 'None'}, {'codec': None}, {'codec': None, 'level': None}, {'level': 0}, {'level': 9},
      {'level': None}, {'checksum': 'same'}, {'checksum': 'same', 'codec': 'None'}, {'magic_format': b'JSON', 'level': 1}]
RV = [{"a": 1}, [], "z" * 64, "z" * 200, spec.payload('noise', 16).hex(), spec.payload('noise', 32).hex(), 7,
      {"\u4e2d": [None, 1.5]}]
CFG = [(0, 40, 'adler32', 'None'), (2, 64, 'crc32', 'zlib'), (1, 66, 'None', 'zlib'), (3, 250, 'sha512', 'None'),
       (0, 35, 'md5', 'None'), (6, 30, 'sha256', 'None'), (4, 34, 'sha1', 'None'), (5, 100, 'sha384', 'zlib'),
       (7, 48, 'sha224', 'None')]


def trees(n, leaves, keys):
    """Every JSON value of exactly n nodes."""
    if n == 1:
        for l in leaves:
            yield l
        yield []
        yield {}
        return
    for parts in compositions(n - 1):
        for items in itertools.product(*[list(trees(p, leaves, keys)) for p in parts]):
            yield list(items)
            if len(items) <= len(keys):
                yield dict(zip(keys, items))


def compositions(n):
    if n == 0:
        yield ()
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def cases(tier):
    deep = tier == 'thorough'
    for vi in range(len(all_values())):
        for co in ('None', 'zlib'):
            for lv in range(10):
                yield ['write', vi, co, lv]
    for start in range(0, 0x110000, 0x400):
        yield ['codepoints', start]
    for n in range(1, 5 if not deep else 6):
        yield ['trees', n]
    for k in range(0, 200):
        yield ['numbers', k]
    for d in (1, 2, 10, 100, 300):
        yield ['depth', d]
    for n in sorted({(1 << k) + d for k in range(4, 21) for d in (-1, 0, 1)}):
        yield ['length', n]
    yield ['callables']
    for ci in range(len(CFG)):
        for a in range(len(RV)):
            for b in range(len(KW)):
                yield ['rewrite', ci, [a, b], 2 if deep else 1]
    for ci in range(len(CFG)):
        yield ['rewrite-archive', ci]
    for mx in (128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 65535, 65536, 70000):
        for vi in range(7):
            for codec in ('None', 'zlib'):
                yield ['rewrite-large', mx, vi, codec, 2 if deep else 1]


def args(codec, level, checksum, mx):
    return bp.MetadataArgs(meta_codec=codec, meta_level=level, meta_checksum=checksum, max_meta_size=mx)


def write_read(value, codec, level, checksum, mx, ctx, what):
    """mx: int or function of the plain size."""
    raw = json.dumps(value, separators=(',', ':')).encode()
    z = zlib.compress(raw, level)
    use = codec == 'zlib' and len(z) <= len(raw)
    stored = z if use else raw
    eff = mx(len(raw)) if callable(mx) else mx
    fp = io.BytesIO(b'head' + b'T' * 40)
    fp.seek(4)
    ctx.count('transitions')
    r = call(bp.file_io._write_metadata, fp, value, args(codec, level, checksum, mx))
    out = fp.getvalue()
    if len(stored) > eff:
        require(isinstance(r.exc, bp.MetadataSectionTooSmall), '%s: needs %d bytes of %d, but %s', what, len(stored), eff, r)
        require(out == b'head' + b'T' * 40, '%s: was refused but wrote', what)
        ctx.outcome('too small')
        return
    require(r.ok, '%s: needs %d bytes of %d, but %s', what, len(stored), eff, r)
    try:
        m = spec.parse_meta(out, 4)
    except spec.SpecError as e:
        raise Violation('%s: %s' % (what, e))
    require(r.value == m.end - 4, '%s: returned %r for a section of %d bytes', what, r.value, m.end - 4)
    require(out[:4] == b'head', '%s: overwrote what is in front', what)
    if m.end < 44:
        require(out[m.end:] == b'T' * (44 - m.end), '%s: overwrote what follows', what)
    else:
        require(len(out) == m.end, '%s: wrote %d bytes too many', what, len(out) - m.end)
    require(json.dumps(m.value) == json.dumps(value), '%s: stored %s', what, short(m.value))
    require((m.codec == 'zlib') == use, '%s: codec %s, plain %d zlib %d', what, m.codec, len(raw), len(z))
    require(m.checksum == checksum and m.max_size == eff, '%s: header has %s, %d', what, m.checksum, m.max_size)
    require(m.level == (level if use else 0), '%s: level %d', what, m.level)
    require(m.comp_size == len(stored), '%s: stored size %d', what, m.comp_size)
    fp.seek(4)
    got, header = must(bp.file_io._read_metadata, fp)
    require(json.dumps(got) == json.dumps(value) and type(got) is type(value), '%s: read back as %s', what, short(got))
    require(fp.tell() == m.end, '%s: reader stops at %d of %d', what, fp.tell(), m.end)
    want = dict(meta_codec=m.codec, meta_level=m.level, meta_checksum=checksum, meta_size=len(raw),
                meta_comp_size=len(stored), max_meta_size=eff)
    have = {k: header[k] for k in want}
    require(have == want, '%s: metadata header read as %s, expected %s', what, have, want)
    ctx.state(out)
    ctx.outcome('compressed' if use else 'plain')


def roundtrip(value, ctx, what):
    n = len(json.dumps(value, separators=(',', ':')))
    for codec in ('None', 'zlib'):
        write_read(value, codec, 6, 'adler32', lambda x: 3 * x, ctx, what)
    write_read(value, 'None', 0, 'None', n, ctx, what)


def run(case, ctx):
    g = case[0]
    if g == 'write':
        value = all_values()[case[1]]
        codec, level = case[2], case[3]
        raw = json.dumps(value, separators=(',', ':')).encode()
        z = zlib.compress(raw, level)
        s = len(z) if codec == 'zlib' and len(z) <= len(raw) else len(raw)
        for ck in spec.CHECKSUMS:
            for mx in sorted({0, 1, s - 1, s, s + 1, len(raw) - 1, len(raw), len(raw) + 1, len(z), 10 * len(raw),
                              70000 if ck == 'md5' else s}):
                write_read(value, codec, level, ck, max(0, mx), ctx, 'writing %s (%s, %d, %s, %d)' % (
                    short(value, 60), codec, level, ck, mx))
            for name, f in (('plain size', lambda n: n), ('half', lambda n: n // 2), ('plain-1', lambda n: n - 1),
                            ('constant', lambda n: 45), ('x10', lambda n: 10 * n)):
                write_read(value, codec, level, ck, f, ctx, 'writing %s (%s, %d, %s, reservation function %s)' % (
                    short(value, 60), codec, level, ck, name))
    elif g == 'callables':
        from checks.C26 import callables
        for m, c in ((1, 0), (2, 0), (1, 5), (10, 0), (0, 40), (0, 1)):
            for mx in callables(m, c):
                for value in ({"a": 1}, "z" * 60, [1, 2, 3]):
                    for codec in ('None', 'zlib'):
                        write_read(value, codec, 6, 'adler32', mx, ctx, '%s of %s, reservation by %s (%d, %d)' % (codec, short(value, 40), type(mx).__name__, m, c))
    elif g == 'codepoints':
        chars = [chr(c) for c in range(case[1], case[1] + 0x400)]
        roundtrip(chars, ctx, 'code points from %#x' % case[1])
        roundtrip({c: i for i, c in enumerate(chars)}, ctx, 'code points from %#x as keys' % case[1])
        roundtrip(''.join(c for c in chars if not 0xd800 <= ord(c) < 0xe000), ctx, 'a string of code points from %#x' % case[1])
    elif g == 'trees':
        for v in trees(case[1], [None, True, False, 0, -1, 1.5, "", "a", "\u00fc"], ["", "k", "\u4e2d", "x"]):
            roundtrip(v, ctx, 'tree %s' % short(v))
    elif g == 'numbers':
        k = case[1]
        for d in (-1, 0, 1):
            for sign in (1, -1):
                roundtrip(sign * (2 ** k + d), ctx, 'integer %d*(2**%d+%d)' % (sign, k, d))
        for f in (2.0 ** k, 2.0 ** -k, 1 / (k + 3), 10.0 ** k, 0.1 * k, -0.0, 5e-324 * k, 1.7976931348623157e308):
            roundtrip([f, -f], ctx, 'float %r' % f)
    elif g == 'depth':
        a, b = 1, 1
        for i in range(case[1]):
            a, b = [a], {"k": b}
        roundtrip(a, ctx, 'nested lists')
        roundtrip(b, ctx, 'nested objects')
    elif g == 'length':
        n = case[1]
        roundtrip("y" * (n - 2), ctx, 'metadata text of %d bytes' % n)
        roundtrip(spec.payload('noise', n // 2).hex()[:n - 2], ctx, 'metadata text of %d incompressible bytes' % n)
    elif g == 'rewrite-large':
        # sections of up to 64 KiB: values that fit as they are, only compressed, or not at all
        _, mx, vi, codec, depth = case
        noise = spec.payload('noise', mx).hex()
        values = [1, "z" * (mx - 2), "z" * (mx - 1), "z" * (mx * 5), noise[:mx - 2], noise[:mx - 1], ["q" * (mx // 2), noise[:mx // 3]]]
        kws = [{}, {'codec': None, 'level': None}, {'codec': 'None'}, {'level': 1}]
        ck = spec.CHECKSUMS[(mx + vi) % 9]
        value = values[vi]
        if codec == 'None' and len(json.dumps(value)) > mx or codec == 'zlib' and len(zlib.compress(json.dumps(value).encode(), 6)) > mx:
            return
        sec = spec.meta_section(value, codec, 6, ck, mx)
        seq(b'H' * 32 + sec + b'after', [(v, k) for v in range(len(values)) for k in range(len(kws))], depth, ck, ctx,
            ['initially %s (%s, %d reserved)' % (short(value, 30), codec, mx)], values, kws)
        ctx.count('traces')
    elif g == 'rewrite':
        _, ci, first, depth = case
        vi, mx, ck, codec = CFG[ci]
        sec = spec.meta_section(RV[vi], codec, 6, ck, mx)
        state = b'H' * 32 + sec + b'after'
        seq(state, [tuple(first)], depth, ck, ctx, [])
    elif g == 'rewrite-archive':
        vi, mx, ck, codec = CFG[case[1]]
        for off in ('set', 'none'):
            chunks = [spec.compress(spec.payload('ints', 16, i)) for i in range(3)]
            state = spec.build(chunks, spec.meta_section(RV[vi], codec, 6, ck, mx), off, 'sha1', 2 if off == 'set' else 0)
            for a in range(len(RV)):
                for b in range(len(KW)):
                    for f in (hist.do_rewrite, hist.do_rewrite_file):
                        kw = fix(KW[b], ck)
                        m = spec.parse(state)
                        r, after = f(state, RV[a], kw)
                        what = 'rewriting %s to %s with %s' % (short(RV[vi], 60), short(RV[a], 60), kw)
                        ok, m2 = hist.check_rewrite(state, m, RV[a], kw, r, after, what)
                        ctx.count('transitions')
                        if ok:
                            content, meta = must(bp.unpack, after)
                            require(content == m.content and json.dumps(meta) == json.dumps(RV[a]),
                                    '%s: unpacks to other content or metadata %s', what, short(meta))
                            ctx.state(after)
    ctx.sample({'case': case})
    ctx.count('traces')


def fix(kw, ck):
    kw = dict(kw)
    if kw.get('checksum') == 'same':
        kw['checksum'] = [k for k in reversed(spec.CHECKSUMS) if spec.SIZES[k] == spec.SIZES[ck]][0]
    return kw


class Part(object):
    pass


def seq(state, ops, depth, ck, ctx, path, values=RV, kws=KW):
    for vi, ki in ops:
        value, kw = values[vi], fix(kws[ki], ck)
        a = Part()
        a.meta = spec.parse_meta(state, 32)
        r, after = hist.do_rewrite(state, value, kw)
        ctx.count('transitions')
        what = 'rewrites %s' % short(path + [(short(value, 30), kw)], 400)
        kind, exp = hist.rewrite_model(a.meta, value, kw)
        if kind == 'refused':
            require(not r.ok, '%s: accepted', what)
            require(exp is None or isinstance(r.exc, exp), '%s: %s instead of %s', what, r, exp)
            require(after == state, '%s: refused but changed the file', what)
            ctx.outcome('refused: %s' % type(r.exc).__name__)
            continue
        require(r.ok, '%s: %s', what, r)
        require(len(after) == len(state), '%s: length %d became %d', what, len(state), len(after))
        require(after[:32] == state[:32] and after[a.meta.end:] == state[a.meta.end:], '%s: changed bytes around the section', what)
        try:
            m = spec.parse_meta(after, 32)
        except spec.SpecError as e:
            raise Violation('%s: %s' % (what, e))
        require(json.dumps(m.value) == json.dumps(value), '%s: reads back %s', what, short(m.value))
        require(after[32:m.end] == exp, '%s: section is %s, expected %s', what, short(after[32:m.end], 300), short(exp, 300))
        fp = io.BytesIO(after)
        fp.seek(32)
        got, _ = must(bp.file_io._read_metadata, fp)
        require(json.dumps(got) == json.dumps(value), '%s: the library reads %s', what, short(got))
        ctx.outcome('rewritten %s' % m.codec)
        ctx.state(after)
        if depth > 0:
            seq(after, [(v, k) for v in range(len(values)) for k in range(len(kws))], depth - 1, ck, ctx,
                path + [(short(value, 30), kw)], values, kws)
