from mc import bp, spec
from mc.core import Violation, call, must, require

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('calculate_nchunks is evaluated on every pair of a dense square of (size, chunk size), on every '
        'pair of boundary values, on human-readable chunk sizes and on invalid arguments, and compared '
        'with the partition law in integer arithmetic; non-trivial: more than one chunk, or a refusal.')
BLOCK = 1

LIMIT = bp.blosc.BLOSC_MAX_BUFFERSIZE
MAXN = 2 ** 63 - 1


def edge_sizes():
    s = set()
    for k in range(0, 96):
        for d in (-2, -1, 0, 1, 2):
            s.add((1 << k) + d)
    for k in range(1, 30):
        for d in (-1, 0, 1):
            s.add(10 ** k + d)
    for cs in (2 ** 20, 3, 7, LIMIT, LIMIT - 1, 1000003):
        for m in (1, 2, 3, 255, 256, 2 ** 31, 2 ** 32 + 1, 2 ** 53 // cs, 2 ** 53 // cs + 1, MAXN - 1, MAXN, MAXN + 1):
            for d in (-1, 0, 1):
                s.add(m * cs + d)
    return sorted(x for x in s if x >= 0)


def edge_chunks():
    s = {LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 0, -1, -2 ** 31, 3, 7, 10, 1000, 1000003}
    for k in range(0, 33):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    return sorted(s)


STRINGS = [(m, s) for m in ('1', '2', '10', '255', '256', '1000', '1023', '1024', '1025', '0.5', '1.5', '2.5', '0.1',
                            '1.75', '999.9', '0.001', '3.14159', '0', '-1', '1e3', '1e-3', '2047.99')
           for s in 'BKMGT']
BAD = [None, 1.5, 1.0, [], {}, b'1K', '', 'K', '1X', '1', 'abc', '1KB', '10k', float('nan'), float('inf'), '1e400B', 'nanK', object]


def cases(tier):
    top = 3000 if tier == 'thorough' else 1200
    for lo in range(0, top, 10):
        yield ['dense', lo, lo + 10, top]
    es = edge_sizes()
    for i in range(0, len(es), 4):
        yield ['edges', i, i + 4]
    for i in range(0, len(es), 20):
        yield ['strings', i, i + 20]
    yield ['bad']
    yield ['default']


def check(size, chunk, asked, ctx):
    """asked is handed to the code, chunk is the integer it denotes (None: not a valid size)."""
    r = call(bp.calculate_nchunks, size, asked)
    ctx.count('evaluations')
    if size < 0:
        require(not r.ok, 'calculate_nchunks(%r, %r) %s for a negative size', size, asked, r)
        ctx.outcome('negative size refused')
        return
    if size == 0:
        require(r.ok and tuple(r.value) == (1, 0, 0), 'calculate_nchunks(0, %r) %s', asked, r)
        ctx.outcome('empty input')
        return
    bad = chunk is None or not 1 <= chunk <= LIMIT
    if not bad:
        cs = min(chunk, size)
        n = (size + cs - 1) // cs
        bad = n > MAXN
    if bad:
        require(not r.ok, 'calculate_nchunks(%r, %r) %s instead of refusing', size, asked, r)
        ctx.outcome('refused')
        ctx.count('refused')
        return
    require(r.ok, 'calculate_nchunks(%r, %r) %s', size, asked, r)
    try:
        nchunks, chunk_size, last = r.value
    except (TypeError, ValueError):
        raise Violation('calculate_nchunks(%r, %r) %s' % (size, asked, r))
    for v in (nchunks, chunk_size, last):
        require(isinstance(v, int), 'calculate_nchunks(%r, %r) %s: not integers', size, asked, r)
    require(chunk_size == cs and 1 <= last <= cs and nchunks == n
            and (nchunks - 1) * chunk_size + last == size,
            'calculate_nchunks(%r, %r) = %s is not a partition of %d bytes', size, asked, r.value, size)
    ctx.outcome('one chunk' if n == 1 else 'several chunks, %s' % ('full last' if last == cs else 'partial last'))


def run(case, ctx):
    g = case[0]
    if g == 'dense':
        for size in range(case[1], case[2]):
            for chunk in range(1, case[3] + 2):
                check(size, chunk, chunk, ctx)
                if chunk < size:
                    ctx.nontrivial(size, chunk)
        ctx.sample({'sizes': case[1:3], 'chunk sizes': [1, case[3] + 1]})
    elif g == 'edges':
        chunks = edge_chunks()
        for size in edge_sizes()[case[1]:case[2]]:
            near = {size + d for d in (-1, 0, 1)} | {size // 2 + d for d in (-1, 0, 1)} | \
                   {size // MAXN + d for d in (-1, 0, 1, 2)} | {size // 3, size // 255, size // 256 + 1}
            for chunk in chunks + sorted(near):
                check(size, chunk, chunk, ctx)
                ctx.nontrivial(size, chunk)
            ctx.sample({'size': size, 'chunk sizes': len(chunks) + len(near)})
    elif g == 'strings':
        mult = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}
        for size in edge_sizes()[case[1]:case[2]]:
            for m, s in STRINGS:
                check(size, int(float(m) * mult[s]), m + s, ctx)
                ctx.nontrivial(size, m + s)
    elif g == 'bad':
        for size in (1, 5, 2 ** 31, 2 ** 70):
            for b in BAD:
                check(size, None, b, ctx)
                ctx.nontrivial(size, repr(b))
        for size in (-1, -2, -2 ** 31, -2 ** 63, -2 ** 70):
            for chunk in (1, 10, LIMIT, '1M', 0):
                check(size, None, chunk, ctx)
                ctx.nontrivial(size, chunk)
        for chunk in (1, 0, -1, '1M', LIMIT + 1, 'bogus'):
            check(0, None, chunk, ctx)
    elif g == 'default':
        for size in edge_sizes():
            r = call(bp.calculate_nchunks, size)
            w = spec.chunking(size, 2 ** 20)
            ctx.count('evaluations')
            if w[0] <= MAXN:
                require(r.ok and tuple(r.value) == w, 'calculate_nchunks(%d) %s, expected %s', size, r, w)
            else:
                require(not r.ok, 'calculate_nchunks(%d) %s', size, r)
            ctx.nontrivial(size)
