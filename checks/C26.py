import functools
import io
import itertools
import os
import struct

from mc import bp, hist, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = ('split: explicit-state search from archives packed by the library with every reservation 0 to 4 (as a number, as a function, '
        'the default) and every fill level of the last chunk: a state is the archive, transitions append sizes that need 0 to '
        'one more chunk than are left (each next to the boundary), until the reservation is used up; an append is accepted '
        'exactly when its new chunks fit what is left. spine: reservations used up in steps of one chunk, of every step, and '
        'at once. compute: full product of offsets, chunk count and reservation (numbers, functions, other values) over the '
        'limits of the 64-bit count. pack: the reservation in the header and the length of the offsets section of packed files.')
ASSUMPTIONS = ['sizes of reservations that are stored in files are at most 70000 chunks']
BLOCK = 1
MAX = spec.MAX_CHUNKS


def cases(tier):
    deep = tier == 'thorough'
    for cs in (1, 3, 8) if not deep else (1, 2, 3, 8, 20):
        for n in (1, 2, 3):
            for fill in sorted({1, cs // 2 + 1, cs}):
                for app in (0, 1, 2, 3) + ((4, 5) if deep else ()):
                    for ck in ('adler32', 'None'):
                        yield ['split', cs, n, fill, app, ck]
    for n in (1, 2, 3, 7):
        for form in (None, 'f:10:0', 'f:2:1', 'f:0:0', 'f:1:0', 5, 20):
            for step in (1, 2, 3, 7, 1000):
                yield ['spine', n, form, step]
    for app in (254, 255, 256, 257, 1000, 65535, 65536, 65537):
        yield ['wide', app]
    for o in (True, False):
        for ni in range(len(COUNTS)):
            yield ['compute', o, ni]
    for o in (True, False):
        for ck in ('None', 'sha512'):
            for n in (1, 2, 5, 300):
                for m in (None, {"a": 1}):
                    yield ['pack', o, ck, n, m]


COUNTS = [-1, 1, 2, 3, 10, 2 ** 31, 2 ** 32 + 1, 2 ** 60, MAX // 11, MAX // 11 + 1, MAX // 2, MAX // 2 + 1, MAX - 10, MAX - 1, MAX,
          0, -2, -10, MAX + 1, 2 ** 64]
VALUES = [0, 1, 2, 10, 255, 2 ** 31, 2 ** 62, MAX - 10, MAX - 3, MAX - 2, MAX - 1, MAX, MAX + 1, 2 ** 64, -1, -2, -2 ** 63]
ODD = [None, 1.0, '5', 'all', b'5', [], {}, object(), 2.5, float('inf'), (1,)]


class Callable(object):
    """A function that is not one: an object that can be called."""

    def __init__(self, m, c):
        self.m, self.c = m, c

    def __call__(self, n):
        return self.m * n + self.c

    def method(self, n):
        return self.m * n + self.c


def callables(m, c):
    """The function m * n + c in every form Python has."""
    yield lambda n: m * n + c
    yield Callable(m, c)
    yield Callable(m, c).method
    yield functools.partial(lambda a, b, n: a * n + b, m, c)
    yield functools.partial(Callable(m, c).method)
    yield type('Named', (Callable,), {})(m, c)
    if c == 0:
        yield m.__mul__                     # a method of a built-in type
    if (m, c) == (1, 0):
        yield int                           # a class
        yield abs                           # a built-in function


def expect(offsets, n, spec_):
    """('ok', value) or ('refused',) for a number or a function of the chunk count."""
    if not -1 <= n <= MAX:
        return 'refused', None
    if not offsets or n == -1:
        return 'ok', 0
    kind, v = spec_
    if kind == 'odd':
        return 'refused', None
    if not isinstance(v, int) or v < 0 or kind == 'number' and v > MAX:
        return 'refused', None
    return 'ok', min(v, MAX - n)


def run(case, ctx):
    g = case[0]
    ctx.sample({'case': case})
    if g == 'compute':
        _, o, ni = case
        n = COUNTS[ni]
        args = [(('number', v), v) for v in VALUES]
        args += [(('function', v), lambda k, v=v: v) for v in VALUES]
        args += [(('odd', v), v) for v in ODD]
        args += [(('function', v), lambda k, v=v: v) for v in ODD]
        args += [(('function', m * n + c), lambda k, m=m, c=c: m * k + c) for m in (0, 1, 2, 10, 11, 2 ** 40, -1) for c in (-1, 0, 1, 5)]
        args += [(('function', m * n + c), f) for m in (0, 1, 2, 10) for c in (0, 5) for f in callables(m, c)]
        for sp, a in args:
            kind, want = expect(o, n, sp)
            r = call(bp.args._handle_max_apps, o, n, a)
            what = 'reservation %s for %d chunks, offsets %s' % (sp, n, o)
            if kind == 'refused':
                require(not r.ok and isinstance(r.exc, (ValueError, TypeError)), '%s: %s', what, r)
            else:
                require(r.ok and r.value == want, '%s: is %s, not %d', what, r, want)
                if n > 0 and not o is False:
                    h = must(bp.headers.BloscpackHeader, offsets=o, nchunks=n, max_app_chunks=r.value, chunk_size=1, last_chunk=1)
                    require(struct.unpack('<q', h.encode()[24:])[0] == want, '%s: the header records %s', what, h.max_app_chunks)
            ctx.count('transitions')
            ctx.outcome(kind)
        # the function is called with the chunk count, and only when there are offsets
        calls = []
        call(bp.args._handle_max_apps, o, n, lambda k: calls.append(k) or 7)
        want = [n] if o and 0 <= n <= MAX else []
        require(set(calls) == set(want), 'the function for %d chunks, offsets %s, is called with %s', n, o, calls)
        ctx.count('traces')
        ctx.state(repr(case).encode())
    elif g == 'pack':
        _, o, ck, n, m = case
        data = spec.payload('ramp', n * 4 - 1)
        for form in (None, 0, 1, 3, 300, 'f:0:0', 'f:0:1', 'f:1:0', 'f:10:0', 'f:3:2', 'f:0:70000'):
            raw = must(bp.pack, data, 4 if n > 1 else None, None, (o, ck, form), m)
            a = spec.parse(raw)
            want = bp.apply_number(form, n, lambda k: 10 * k) if o else 0
            require((a.nchunks, a.max_app_chunks) == (n, want), 'pack %s with reservation %s: records %s, not %s', case, form,
                    (a.nchunks, a.max_app_chunks), (n, want))
            require(a.chunks_pos - a.offsets_pos == (8 * (n + want) if o else 0), 'pack %s with reservation %s: offsets section of %d bytes',
                    case, form, a.chunks_pos - a.offsets_pos)
            ctx.count('transitions')
        for f in (f for mc in ((1, 0), (0, 3), (2, 1), (10, 0)) for f in callables(*mc)):
            want = f(n) if o else 0
            raw = must(bp.file_io.pack_bytes_to_bytes, data, 4 if n > 1 else '1M', metadata=m,
                       bloscpack_args=must(bp.BloscpackArgs, offsets=o, checksum=ck, max_app_chunks=f))
            a = spec.parse(raw)
            require((a.nchunks, a.max_app_chunks) == (n, want), 'pack %s with the callable %s: records %s, not %s', case, type(f).__name__,
                    (a.nchunks, a.max_app_chunks), (n, want))
            ctx.count('transitions')
        for bad in (-1, 'f:0:-1', 'f:-1:0', 2.5, '3', 'half', None):
            if bad is None or isinstance(bad, str) and not bad.startswith('f:'):
                bpa = bp.BloscpackArgs(offsets=o, checksum=ck, max_app_chunks=bad)
            elif isinstance(bad, float):
                bpa = bp.BloscpackArgs(offsets=o, checksum=ck, max_app_chunks=lambda k: 2.5)
            else:
                bpa = bp.BloscpackArgs(offsets=o, checksum=ck, max_app_chunks=bp.number_or_function(bad))
            r = call(bp.file_io.pack_bytes_to_bytes, data, 4, metadata=m, bloscpack_args=bpa)
            if o:
                require(not r.ok, 'pack %s accepts the reservation %s', case, bad)
            else:
                require(r.ok and spec.parse(r.value).max_app_chunks == 0, 'pack %s without offsets and reservation %s: %s', case, bad, r)
            ctx.count('transitions')
        ctx.count('traces')
        ctx.state(repr(case).encode())
        ctx.outcome('pack')
    elif g == 'split':
        _, cs, n, fill, app, ck = case
        size = (n - 1) * cs + fill
        if n == 1 and fill < cs:
            # a single chunk that is not full: only with a chunk size the library would not record
            first = hist.Config(size, cs, ck, app).build()
        else:
            first = must(bp.pack, spec.payload('noise', size), cs, (1, 5, True, 'lz4'), (True, ck, app))
        visited = set()
        search(first, visited, app, ctx, [])
        ctx.count('traces')
        ctx.outcome('split')
    elif g == 'spine':
        _, n, form, step = case
        cs = 4
        raw = must(bp.pack, spec.payload('noise', n * cs), cs, (1, 0, False, 'lz4'), (True, 'crc32', form))
        total = bp.apply_number(form, n, lambda k: 10 * k)
        use(raw, cs, total, step, ctx, 'spine %s' % case)
    else:
        app = case[1]
        cs = 2
        raw = must(bp.pack, spec.payload('noise', 3 * cs), cs, (1, 0, False, 'lz4'), (True, 'adler32', app))
        for step in (app, app - 1, app // 2, app // 3 + 1):
            use(raw, cs, app, step, ctx, 'wide %d step %d' % (app, step))


def use(raw, cs, total, step, ctx, what):
    """Use the reservation up in steps of that many chunks; then not one byte more fits."""
    left = total
    plain = spec.parse(raw).content
    k = 0
    while left:
        m = min(step, left)
        if m == left:
            # one byte more than what is left does not fit
            refused(raw, spec.payload('text', m * cs + 1), '%s: %d chunks and a byte with %d left' % (what, m, left), ctx)
        new = spec.payload('noise', m * cs, salt=k % 3)
        r, raw = hist.do_append(raw, new)
        require(r.ok, '%s: %d chunks with %d left: %s', what, m, left, r)
        require(r.value == m, '%s: reports %s new chunks, not %d', what, r.value, m)
        left -= m
        plain += new
        k += 1
        nchunks, app = struct.unpack('<qq', raw[16:32])
        require(app == left, '%s: records %d left, not %d', what, app, left)
        ctx.count('transitions')
        ctx.state(raw[:64] + len(raw).to_bytes(8, 'little'))
    a = hist.parse(raw, what)
    require(a.content == plain, '%s: content', what)
    refused(raw, b'x', '%s: a byte with nothing left' % what, ctx)
    refused(raw, spec.payload('text', cs), '%s: a chunk with nothing left' % what, ctx)
    r, after = hist.do_append(raw, b'')
    require(r.ok, '%s: nothing with nothing left: %s', what, r)
    require(spec.parse(after).content == plain, '%s: content', what)
    require(bp.unpack(raw)[0] == plain, '%s: unpacks to other content', what)
    ctx.count('traces')
    ctx.outcome('used up')


def refused(raw, new, what, ctx):
    r, after = hist.do_append(raw, new)
    require(not r.ok, '%s: is accepted', what)
    require(isinstance(r.exc, bp.NotEnoughSpace), '%s: %s', what, r)
    require(after == raw, '%s: is refused but changes the archive', what)
    ctx.count('transitions')


def search(raw, visited, app, ctx, path):
    a = spec.parse(raw)
    cs = a.chunk_size
    room = cs - a.sizes[-1]
    left = a.max_app_chunks
    sizes = {0, 1, room, room + 1, max(0, room - 1)}
    for k in range(1, left + 2):
        sizes |= {room + k * cs - 1, room + k * cs, room + k * cs + 1, (k - 1) * cs + 1}
    for m in sorted(sizes):
        new = spec.payload('noise', m, salt=1 + m % 3)
        need = 0 if m <= room else -(-(m - room) // cs)
        what = 'append of %d bytes (%d new chunks) with %d left after %s' % (m, need, left, path)
        if need > left:
            refused(raw, new, what, ctx)
            continue
        r, after = hist.do_append(raw, new, (1, 0, False, 'lz4'))
        require(r.ok, '%s: %s', what, r)
        require(r.value == need, '%s: reports %s', what, r.value)
        b = hist.parse(after, what)
        require(b.content == a.content + new, '%s: content', what)
        require((b.nchunks, b.max_app_chunks) == (a.nchunks + need, left - need), '%s: %d chunks, %d left', what, b.nchunks, b.max_app_chunks)
        ctx.count('transitions')
        # what the future depends on: chunk counts, fill level and positions
        key = (b.nchunks, b.max_app_chunks, b.sizes[-1], len(after))
        if key in visited or (ctx.tier == 'quick' and len(path) > 5):
            continue
        visited.add(key)
        ctx.state(after)
        search(after, visited, app, ctx, path + [m])
