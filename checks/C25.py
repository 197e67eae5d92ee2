import io
import itertools
import os
from fractions import Fraction

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('reading: every decimal number up to a bound with up to six digits behind the point, in every spelling (leading zeros, bare '
        'point, sign), with every suffix, compared with exact rational arithmetic; every one-character suffix that is not valid. '
        'printing: every size of a range and every size next to multiples and powers of the units, compared with exact '
        'rational arithmetic and read back. use: every entry point that takes a chunk size, with strings and with the integers '
        'they denote, on inputs around that size; the same for the command line. Non-trivial: distinct strings and sizes.')
ASSUMPTIONS = ['read sizes are below 2**52, or 2**36 with up to six digits behind the point']
BLOCK = 4
UNITS = 'BKMGT'
LIMIT = 2 ** 52


def cases(tier):
    top = 20000 if tier == 'thorough' else 2100
    for u in range(5):
        for lo in range(0, top, 100):
            yield ['reading', u, lo, lo + 100]
        yield ['reading long', u]
        for p in range(50):
            yield ['reading powers', u, p]
    for lo in range(0, 0x110000 if tier == 'thorough' else 0x3000, 0x400):
        yield ['suffix', lo]
    top = 1100000 if tier == 'thorough' else 70000
    for lo in range(0, top, 1000):
        yield ['printing', lo, lo + 1000]
    for p in range(64):
        yield ['printing powers', p]
    for u in range(5):
        for k in range(0, 1030, 10):
            yield ['printing multiples', u, k]
    for u in range(3):
        for i in range(24):
            yield ['use', u, i]
    for i in range(60):
        yield ['command', i]


def denotes(text, u):
    """The exact value of a decimal text times the unit, rounded down."""
    v = Fraction(text) * 1024 ** u
    return v.numerator // v.denominator


def check_read(number, u, ctx):
    text = number + UNITS[u]
    want = denotes(number if number[0] != '.' and number[-1] != '.' else '0' + number if number[0] == '.' else number + '0', u)
    if want >= (2 ** 36 if '.' in number else LIMIT):
        return
    got = must(bp.pretty.reverse_pretty, text)
    require(got == want and isinstance(got, int), 'the size %r is read as %r, not %d', text, got, want)
    ctx.count('evaluations')
    ctx.nontrivial(text)


def check_print(n, ctx):
    text = must(bp.pretty.pretty_size, n)
    what = 'the size %d is printed as %r' % (n, text)
    if n == 0:
        require(text == '0B', '%s', what)
    else:
        u = UNITS.find(text[-1:])
        require(u >= 0, '%s', what)
        try:
            v = Fraction(text[:-1])
        except ValueError:
            raise Violation(what)
        largest = max(k for k in range(5) if n >= 1024 ** k)
        require(u == largest, '%s: not in the largest fitting unit %s', what, UNITS[largest])
        q = Fraction(n, 1024 ** u)
        require('.' not in text or len(text[:-1].split('.')[1]) <= 2, '%s: more than two decimals', what)
        if q < 10 ** 9:
            require(abs(v - q) <= Fraction(1, 200) + Fraction(1, 10 ** 9), '%s: it is %f', what, float(q))
        if n < LIMIT:
            back = must(bp.pretty.reverse_pretty, text)
            require(abs(back - n) <= Fraction(1024 ** u, 200) + 1, '%s: and reads back as %d', what, back)
    d = must(bp.pretty.double_pretty_size, n)
    require(d == '%s (%dB)' % (text, n), '%s but with bytes as %r', what, d)
    ctx.count('evaluations')
    ctx.nontrivial(n)


def apis(data, size, d):
    """Everything every entry point makes of a chunk size."""
    F, N = bp.file_io, bp.numpy_io
    a, b = os.path.join(d, 'in'), os.path.join(d, 'out')
    bp.write(a, data)
    arr = np.frombuffer(data, 'u1')
    out = {}

    def keep(name, f):
        r = call(f)
        out[name] = r.value if r.ok else type(r.exc).__name__

    def to_file(f, *args):
        if os.path.exists(b):
            os.remove(b)
        f(*args)
        return bp.read(b)
    keep('calculate_nchunks', lambda: bp.calculate_nchunks(len(data), size))
    keep('pack_bytes_to_bytes', lambda: F.pack_bytes_to_bytes(data, size))
    keep('pack_bytes_to_bytes keyword', lambda: F.pack_bytes_to_bytes(data, chunk_size=size, metadata={"a": 1}))
    keep('pack_bytes_to_file', lambda: to_file(F.pack_bytes_to_file, data, b, size))
    keep('pack_file_to_file', lambda: to_file(F.pack_file_to_file, a, b, size))
    keep('pack_ndarray_to_bytes', lambda: N.pack_ndarray_to_bytes(arr, chunk_size=size))
    keep('pack_ndarray_to_file', lambda: to_file(lambda: N.pack_ndarray_to_file(arr, b, chunk_size=size)))

    def sink():
        s = bp.memory_io.CompressedMemorySink()
        N.pack_ndarray(arr, s, chunk_size=size)
        return list(s.chunks)
    keep('pack_ndarray', sink)
    for name in ('pack_file', 'pack_bytes_file'):
        f = getattr(F, name, None)
        if f is not None:
            keep(name, lambda: to_file(f, a if name == 'pack_file' else data, b, size))
    return out


NUMBERS = ['1', '2', '16', '0.5', '1.5', '0.1', '0.01', '1.999', '0.001', '0.0625', '3.7', '10', '100', '1000', '1023.9', '1.25', '007', '.5', '2.',
           '0', '0.0001', '2047.999', '2048', '123.456']


def run(case, ctx):
    g = case[0]
    if g == 'reading':
        _, u, lo, hi = case
        for n in range(lo, hi):
            forms = ['%d' % n, '%d.0' % n, '0%d' % n, '%d.' % n, '+%d' % n]
            if n < 2100:
                forms += ['%d.%s' % (n, f) for f in ('5', '25', '1', '9', '01', '99', '001', '999', '125', '0001', '9999', '00001', '999999', '000001')]
            for f in forms:
                check_read(f, u, ctx)
            if lo == 0:
                for k in range(1, 4):
                    check_read('%d.%0*d' % (n // 10, k, n % 10), u, ctx)
                check_read('.%02d' % n, u, ctx)
        if lo == 0:
            for n in range(10):
                for f in range(1000):
                    check_read('%d.%03d' % (n, f), u, ctx)
    elif g == 'reading long':
        u = case[1]
        for a in range(8):
            for f in range(0, 1000000, 997):
                check_read('%d.%06d' % (a, f), u, ctx)
    elif g == 'reading powers':
        _, u, p = case
        for d in range(-20, 21):
            if 2 ** p + d >= 0:
                check_read('%d' % (2 ** p + d), u, ctx)
                check_read('%d.5' % (2 ** p + d), u, ctx)
            if 10 ** (p // 3) + d >= 0:
                check_read('%d' % (10 ** (p // 3) + d), u, ctx)
    elif g == 'suffix':
        for c in range(case[1], case[1] + 0x400):
            if 0xd800 <= c < 0xe000 or c > 0x10ffff:
                continue
            ch = chr(c)
            for text in ('1' + ch, '16' + ch, '1.5' + ch, 'K' + ch, '1K' + ch, ch + ch, ch):
                if ch in UNITS:
                    continue
                r = call(bp.pretty.reverse_pretty, text)
                require(not r.ok and isinstance(r.exc, ValueError), 'the size %r is read as %s', text, r)
                ctx.count('evaluations')
            ctx.nontrivial(ch)
        for text in ('1KB', '1kB', '1 ', '1k', '1b', '1m', '1KiB', '16', '1.5', 'xK', '1,5K', '--1K', 'K', 'KK', '1.2.3M', '0x10K', '1 2K', 'B', '1K1K'):
            r = call(bp.pretty.reverse_pretty, text)
            if text == '1KB':
                require(not r.ok, 'the size %r is read as %s', text, r)
            else:
                require(not r.ok and isinstance(r.exc, ValueError), 'the size %r is read as %s', text, r)
            ctx.count('evaluations')
    elif g == 'printing':
        for n in range(case[1], case[2]):
            check_print(n, ctx)
    elif g == 'printing powers':
        p = case[1]
        for d in range(-1100, 1101):
            if 2 ** p + d >= 0:
                check_print(2 ** p + d, ctx)
        for d in range(-30, 31):
            if 10 ** (p // 4) + d >= 0:
                check_print(10 ** (p // 4) + d, ctx)
    elif g == 'printing multiples':
        _, u, k = case
        for m in range(k, k + 10):
            for num, den in itertools.product(range(0, 200, 7), (200, 1000)):
                for d in (-1, 0, 1):
                    n = int((m + Fraction(num, den)) * 1024 ** u) + d
                    if n >= 0:
                        check_print(n, ctx)
    elif g == 'use':
        _, u, i = case
        num = NUMBERS[i]
        text = num + UNITS[u]
        n = denotes(num if num[0] != '.' else '0' + num, u) if num[-1] != '.' else denotes(num + '0', u)
        sizes = {0, 1, 3000}
        if n <= 3000:
            sizes |= {max(n - 1, 0), n, n + 1, 2 * n, 2 * n + 1}
        for size in sorted(sizes):
            if n and size // n > 300:
                size = 299 * n + 1
            data = spec.payload('ints', size)
            want = apis(data, n, ctx.tmp)
            got = apis(data, text, ctx.tmp)
            for k in want:
                require(got[k] == want[k], '%s with chunk size %r on %d bytes gives %s, with %d %s', k, text, size, short(got[k]), n, short(want[k]))
            ctx.count('evaluations', len(want))
        for bad in ('1X', '5', '', 'K', '1k', 'max'):
            for k, v in apis(b'some data', bad, ctx.tmp).items():
                require(v in ('ValueError', 'IndexError'), '%s accepts chunk size %r: %s', k, bad, short(v))
        ctx.nontrivial('use', text)
    else:
        i = case[1]
        u, k = i % 3, i // 3
        num = NUMBERS[k]
        text = num + UNITS[u]
        n = denotes(num if num[0] != '.' else '0' + num, u) if num[-1] != '.' else denotes(num + '0', u)
        size = 2000 if n == 0 or 2000 // n <= 300 else 299 * n + 1
        bp.write('in', spec.payload('ints', size))
        res = []
        for z in (text, str(n)):
            for form in (['-z', z], ['--chunk-size', z], ['--chunk-size=' + z], ['-z' + z]):
                for sub in ('c', 'compress'):
                    if os.path.exists('in.blp'):
                        os.remove('in.blp')
                    st, out, err, exc = bp.run_cli([sub] + form + ['in'])
                    res.append((st, bp.read('in.blp') if os.path.exists('in.blp') and st == 0 else None))
                    ctx.count('evaluations')
        require(len(set(res)) == 1, 'compress with chunk size %r and %d differ: %s', text, n, [(a, b and len(b)) for a, b in res])
        if 1 <= n:
            require(res[0][0] == 0, 'compress with chunk size %r fails', text)
            a = spec.parse(res[0][1])
            require((a.nchunks, a.chunk_size, a.last_chunk) == spec.chunking(size, n), 'compress with chunk size %r makes %d chunks of %d',
                    text, a.nchunks, a.chunk_size)
        else:
            require(res[0][0] != 0, 'compress accepts chunk size %r', text)
        if i == 0:
            for z, n in (('max', spec.MAX_BUFFER), ('1M', 2 ** 20), (None, 2 ** 20)):
                bp.write('in', spec.payload('text', 2 ** 20 + 1))
                if os.path.exists('in.blp'):
                    os.remove('in.blp')
                st, out, err, exc = bp.run_cli(['c'] + (['-z', z] if z else []) + ['in'])
                a = spec.parse(bp.read('in.blp'))
                require((a.nchunks, a.chunk_size, a.last_chunk) == spec.chunking(2 ** 20 + 1, n), 'compress with chunk size %r makes %d chunks of %d',
                        z, a.nchunks, a.chunk_size)
        for z in ('1X', 'K', '1k', '5.5', '1KB', '-1', '-5K', 'x', 'maximum', 'MAX'):
            if os.path.exists('in.blp'):
                os.remove('in.blp')
            st, out, err, exc = bp.run_cli(['c', '-z', z, 'in'])
            require(st != 0, 'compress accepts chunk size %r', z)
            require(not os.path.exists('in.blp'), 'compress with the bad chunk size %r leaves an archive', z)
        ctx.nontrivial('command', text)
    ctx.outcome(g)
    ctx.sample({'case': case})
