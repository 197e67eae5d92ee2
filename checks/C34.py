import io
import itertools
import os
import resource
import signal
import struct
import sys
import time

import numpy as np

from mc import bp, hist, spec
from mc.core import HarnessError, require, short

PROPERTY = 'C34'
LEVEL = 'exploration'
RULE = ('Small archives with every number in them (of the header, the metadata header, the offsets, the headers of the chunks) replaced by every power of two it can '
        'hold, that minus one, and the largest one (pairs: two of them at once, by fewer values), with every option byte replaced by every other, and cut behind it; read '
        'and changed by every operation, in a process of its own each. Oracle: the process ends by itself, not by a signal, within 5 s of '
        'processor time, never uses more than 200 MB, and leaves no file of more than 50 MB. Non-trivial: distinct (archive, replacement, operation).')
ASSUMPTIONS = ['memory that is reserved but never touched does not count', 'compressed metadata that really hold a lot are not malformed']
BLOCK = 1
HANG = 300
CPU, MEMORY, FILE = 5, 200 << 20, 50 << 20
PAGE = os.sysconf('SC_PAGE_SIZE')


def archives():
    a = hist.Config(40, 16, 'crc32', 5, {"a": 1}, 60, 8, 'adler32').build()
    n = bp.numpy_io.pack_ndarray_to_bytes(np.arange(10.), chunk_size=40)
    c = spec.build([spec.compress(b'abc' * 50, 1)], spec.meta_section(["x" * 200], 'zlib', 6, 'sha1', 400), 'none', 'None')
    return {'plain': a, 'array': n, 'compressed': c}


def numbers(raw):
    a = spec.parse(raw)
    f = [('chunk size', 8, 4), ('last chunk', 12, 4), ('chunks', 16, 8), ('reservation', 24, 8)]
    f += [('metadata size', 44, 4), ('metadata reserved', 48, 4), ('metadata compressed', 52, 4)]
    for i, p in enumerate(a.positions):
        f += [('type size %d' % i, p + 3, 1), ('plain size %d' % i, p + 4, 4), ('block size %d' % i, p + 8, 4), ('compressed size %d' % i, p + 12, 4)]
    if a.chunks_pos > a.offsets_pos:
        f += [('offset %d' % i, a.offsets_pos + 8 * i, 8) for i in range(a.nchunks)]
    return f


def options(raw):
    a = spec.parse(raw)
    return [4, 5, 6, 7] + [40, 41, 42, 43] + [p + i for p in a.positions for i in (0, 1, 2)]


def values(width, few):
    bits = range(8 * width) if not few else [b for b in (0, 3, 7, 15, 20, 30, 31, 40, 62, 63) if b < 8 * width]
    s = {256 ** width - 1}
    for b in bits:
        s |= {2 ** b, 2 ** b - 1}
    return sorted(s)


def rewrite():
    with open('x.blp', 'r+b') as fp:
        fp.seek(32)
        bp.rewrite_fp(fp, {"b": 2})


def command(*argv):
    def go():
        status, out, err, exc = bp.run_cli(list(argv))
        if status:
            raise RuntimeError('exit status %s' % status)
    return go


def to_memory():
    source = bp.file_io.CompressedFPSource(io.BytesIO(bp.read('x.blp')))
    bp.abstract_io.unpack(source, bp.memory_io.PlainMemorySink())


OPS = {
    'unpack_bytes_from_file': lambda: bp.file_io.unpack_bytes_from_file('x.blp'),
    'unpack_bytes_from_bytes': lambda: bp.file_io.unpack_bytes_from_bytes(bp.read('x.blp')),
    'unpack_file_from_file': lambda: bp.file_io.unpack_file_from_file('x.blp', 'y'),
    'unpack_ndarray_from_file': lambda: bp.numpy_io.unpack_ndarray_from_file('x.blp'),
    'unpack_ndarray_from_bytes': lambda: bp.numpy_io.unpack_ndarray_from_bytes(bp.read('x.blp')),
    'unpack to memory': to_memory,
    'append': lambda: bp.append_file('x.blp', 'new'),
    'rewrite': rewrite,
    'blpk info': command('info', 'x.blp'),
    'blpk -d decompress': command('-d', '-f', 'decompress', 'x.blp', 'y'),
    'blpk append': command('append', 'x.blp', 'new'),
}


SIZES = sorted({2 ** k - d for k in range(64) for d in (0, 1)} | {2 ** 64, 10 ** 30, -1, -2 ** 31, -2 ** 63})


def described(field):
    """ Numpy archives that announce another array than they hold. """
    meta = {'dtype': "'<f8'", 'shape': [10], 'order': 'C', 'container': 'numpy'}
    few = [0, 1, 2 ** 7, 2 ** 15, 2 ** 20, 2 ** 27, 2 ** 31, 2 ** 35, 2 ** 40, 2 ** 60, 2 ** 62]
    order = 'C'
    if field.startswith('fortran '):
        order, field = 'F', field[8:]
    meta['order'] = order
    v = {'shape': [[n] for n in SIZES] + list(SIZES) + [[a, b] for a in few for b in few] + [[2] * n for n in (20, 28, 32, 33, 60, 64)]
         + [[1] * 10 ** 4, [0, 2 ** 62], [2 ** 31, 2 ** 31, 0], [[2 ** 20]], None, 'x', 1.5, [1e9], True, {}, []],
         'dtype': ["'%s%d'" % (k, n) for k in 'VSU' for n in SIZES] + ['V%d' % n for n in SIZES]
         + ["[('a', '<f8', (%d,))]" % n for n in SIZES] + ["[('a', 'V%d', (%d, %d))]" % (n, a, b) for n in (1, 2 ** 10, 2 ** 30) for a in few for b in few]
         + ["'f%d'" % n for n in range(40)] + ["'f8,' * 10 ** 8", "'(%d,)f8'" % 2 ** 30, '(' * 90, '(' * 5000, '[' * 5000, '-' * 20000 + '1', '9' * 5000, '9**9**9', "'a' * 9999999999"],
         'order': ['F', 'A', 'K', 'X', '', 'C' * 1000, None, 0, 2 ** 62, [], {}],
         'container': ['', 'numpyX', None, 2 ** 62, ['numpy'], {}]}[field]
    chunk = [spec.compress(np.arange(10.).tobytes(), 8)]
    for x in v:
        yield 'order %s, %s %s' % (order, field, short(x)), spec.build(chunk, spec.meta_section(dict(meta, **{field: x}), 'None', 0, 'adler32'), 'set', 'adler32')


def cases(tier):
    deep = tier == 'thorough'
    for field in ('shape', 'dtype', 'order', 'container', 'fortran shape', 'fortran dtype'):
        for part in range(4):
            yield ['described', 'array', field, part]
    for name, raw in sorted(archives().items()):
        for n, pos, width in numbers(raw):
            yield ['number', name, n, pos, width]
        for pos in options(raw):
            yield ['option', name, pos]
        if deep:
            for x, y in itertools.combinations(numbers(raw), 2):
                yield ['pair', name] + list(x) + list(y)
        else:
            fields = {n: (n, p, w) for n, p, w in numbers(raw)}
            for x, y in (('chunks', 'reservation'), ('chunk size', 'last chunk'), ('metadata reserved', 'metadata compressed'),
                         ('metadata size', 'metadata compressed'), ('plain size 0', 'compressed size 0'), ('plain size 0', 'block size 0'),
                         ('chunks', 'last chunk')):
                yield ['pair', name] + list(fields[x]) + list(fields[y])


def usage(pid):
    try:
        with open('/proc/%d/statm' % pid) as fp:
            return int(fp.read().split()[1]) * PAGE
    except (OSError, IndexError, ValueError):
        return 0


def child(ops, raw, w):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 1))
        resource.setrlimit(resource.RLIMIT_FSIZE, (FILE, FILE))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        done = []
        for op in ops:
            bp.write('x.blp', raw)
            try:
                OPS[op]()
                done.append('done')
            except BaseException as e:
                done.append(type(e).__name__)
        peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024
        os.write(w, ('%d %s' % (peak, ' '.join(done))).encode())
    finally:
        os._exit(0)


def observe(ops, raw, ctx):
    """ What went wrong and how each operation ended. """
    bp.write('new', b'z' * 30)
    r, w = os.pipe()
    base = usage(os.getpid())
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(ops, raw, w)
    os.close(w)
    big = 0
    wait = 0.0002
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(wait)
        wait = min(wait * 1.5, 0.005)
        if wait == 0.005:
            big = max(big, usage(pid) - base)
            if big > MEMORY:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
    out = os.read(r, 4096).decode().split()
    os.close(r)
    ctx.count('evaluations')
    if big > MEMORY:
        return 'takes more than %d MB of memory' % (MEMORY >> 20), []
    if os.WIFSIGNALED(status):
        n = os.WTERMSIG(status)
        if n in (signal.SIGXCPU, signal.SIGKILL):
            return 'does not come to an end in %d s' % CPU, []
        return 'the process was killed by signal %d' % n, []
    if not out:
        return 'the process ended without a result', []
    if int(out[0]) - base > MEMORY:
        return 'takes %d MB of memory' % ((int(out[0]) - base) >> 20), []
    return None, out[1:]


def run(case, ctx):
    g, name = case[:2]
    raw = archives()[name]
    if g == 'number':
        _, _, n, pos, width = case
        variants = [('%s %d' % (n, v), raw[:pos] + v.to_bytes(width, 'little') + raw[pos + width:]) for v in values(width, False)]
    elif g == 'option':
        pos = case[2]
        variants = [('byte %d at %d' % (v, pos), raw[:pos] + bytes([v]) + raw[pos + 1:]) for v in range(256)]
    elif g == 'described':
        variants = list(described(case[2]))[case[3]::4]
    else:
        _, _, n1, p1, w1, n2, p2, w2 = case
        variants = []
        for v1, v2 in itertools.product(values(w1, True), values(w2, True)):
            x = bytearray(raw)
            x[p1:p1 + w1] = v1.to_bytes(w1, 'little')
            x[p2:p2 + w2] = v2.to_bytes(w2, 'little')
            variants.append(('%s %d, %s %d' % (n1, v1, n2, v2), bytes(x)))
    top, d = os.getcwd(), ctx.path('hostile')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        for what, x in variants:
            ops = [op for op in sorted(OPS) if g != 'described' or 'append' not in op and op != 'rewrite']
            wrong, kinds = observe(ops, x, ctx)
            if wrong:
                # which one was it? (what is only too much for all of them together is not)
                for op in ops:
                    wrong, k = observe([op], x, ctx)
                    require(not wrong, '%s of the archive %s with %s: %s', op, name, what, wrong)
                    kinds += k
            for op, kind in zip(ops, kinds):
                ctx.outcome(kind)
                ctx.nontrivial(name, what, op)
    finally:
        for f in os.listdir('.'):
            os.unlink(f)
        os.chdir(top)
