import contextlib
import errno
import io
import os

import numpy as np

from mc import bp, spec, vfs
from mc.core import Violation, call, must, require, short

PROPERTY = 'C11'
LEVEL = 'fault_enumeration'
RULE = ('Crash model: packing to a file stops after any prefix of the writes issued, the last one torn after any of its '
        'bytes (fp-*: writes of the library; file-*: writes reaching the kernel), or any single operation (read of the '
        'input, compression of any chunk, write, seek) fails, once or from then on, and the exception takes its course. '
        'fp-crash also: the file has its full size, but reads as zeros from any byte on. '
        'fp-long: no write of a pack of up to 2**16 (thorough 2**17) chunks stores anything but -1 in the offsets before the chunks are complete. For each resulting file content: the reserved offsets are all -1 unless every chunk is complete, and unpacking '
        'fails or gives the full content. Each distinct content reached is one non-trivial evaluation.')
ASSUMPTIONS = ['writes reach the disk in the order in which they were issued']
BLOCK = 1
BAS = [(8, 7, 1, 'blosclz'), (1, 0, 0, 'lz4'), (4, 9, 2, 'zstd')]
METAS = [None, {"a": 1}, {"k": "x" * 70}]
SIZES = [(0, 10), (1, 10), (40, 40), (40, 16), (61, 20), (33, 4), (300, 90)]


def cases(tier):
    deep = tier == 'thorough'
    for ck in spec.CHECKSUMS:
        for zi in range(len(SIZES)):
            for mi in range(3):
                for app in (0, 1, 5, None):
                    for off in (True, False) if app in (0, None) else (True,):
                        yield ['fp-crash', ck, zi, mi, app, off]
                        if mi < 2:
                            yield ['fp-fail', ck, zi, mi, app, off]
        for kind in ('file', 'bytes', 'ndarray'):
            for prior in ('absent', 'garbage', 'archive', 'longer'):
                for n in (100, 30000) + ((200000,) if deep else ()):
                    yield ['file-crash', ck, kind, prior, n]
            for n in (100, 30000):
                for lo in range(0, 60, 12):
                    yield ['file-fail', ck, kind, n, lo]
    for n in (255, 256, 257, 300):
        yield ['fp-many', 'None', n]
        yield ['fp-many', 'md5', n]
    for p in range(9, 18 if deep else 17):
        for d in (-1, 0, 1):
            for app in (0, 1, None):
                for ck in ('None', 'crc32') if p < 14 else ('None',):
                    yield ['fp-long', ck, 2 ** p + d, app]


def packing(data, chunk, ck, app, off, meta, ba, out, source=None):
    n, cs, last = spec.chunking(len(data), chunk)
    bp.abstract_io.pack(bp.file_io.PlainFPSource(source or io.BytesIO(data)), bp.file_io.CompressedFPSink(out),
                        n, cs, last, meta, bp.blosc_args(ba), bp.bloscpack_args((off, ck, app)))


def check(state, f, final, content, what, ctx, ndarray=None):
    """state: content of the output file when packing stopped; f: parse of the final archive."""
    if not ctx.state(state):
        return
    ctx.count('evaluations')
    complete = state[f.chunks_pos:] == final[f.chunks_pos:]
    region = state[f.offsets_pos:f.chunks_pos]
    if not complete and region.strip(b'\xff'):
        raise Violation('%s: %d of %d bytes of chunks are in the file but the offsets are %s' % (
            what, max(0, len(state) - f.chunks_pos), len(final) - f.chunks_pos, short(region)))
    r = call(bp.unpack, state)
    if r.ok:
        require(r.value[0] == content, '%s: unpacks to %s', what, short(r.value[0]))
        ctx.outcome('complete' if complete else 'content complete')
    else:
        ctx.outcome(type(r.exc).__name__)
    if ndarray is not None:
        r = call(bp.numpy_io.unpack_ndarray_from_bytes, state)
        require(not r.ok or (r.value.dtype == ndarray.dtype and r.value.tobytes() == ndarray.tobytes()),
                '%s: unpacks to another array', what)


@contextlib.contextmanager
def failing_compression(at):
    """The at-th compression of a chunk fails."""
    n = [0]

    def wrap(f):
        def g(*a, **kw):
            n[0] += 1
            if n[0] - 1 == at:
                raise MemoryError('injected failure of compression %d' % at)
            return f(*a, **kw)
        return g
    old = bp.blosc.compress, bp.blosc.compress_ptr
    bp.blosc.compress, bp.blosc.compress_ptr = wrap(old[0]), wrap(old[1])
    try:
        yield n
    finally:
        bp.blosc.compress, bp.blosc.compress_ptr = old


def run(case, ctx):
    g = case[0]
    if g in ('fp-crash', 'fp-fail'):
        _, ck, zi, mi, app, off = case
        size, chunk = SIZES[zi]
        ba, meta = BAS[(zi + mi) % 3], METAS[mi]
        data = spec.payload('noise', size, salt=zi)
        args = (data, chunk, ck, app, off, meta, ba)
        plan = vfs.Plan()
        out = vfs.RecFile(plan, 'out')
        must(packing, *args, out)
        final = out.content()
        f = spec.parse(final)
        nops = plan.n
        if g == 'fp-crash':
            for label, state in vfs.crash_states(plan.log, 'out', b''):
                check(state, f, final, data, 'packing %d bytes stopped at %s' % (size, label), ctx)
            require(state == final, 'harness: replaying the writes does not give the archive')
            # the size reached the disk before the data: zeros from some byte on, the offsets written or not
            unset = final[:f.offsets_pos] + b'\xff' * (f.chunks_pos - f.offsets_pos) + final[f.chunks_pos:]
            for k in range(f.chunks_pos, len(final)):
                if ck == 'None' and not any(p <= k <= p + 12 for p in f.positions):
                    continue        # nothing tells zeros in the data of a chunk
                for whole in (unset, final):
                    state = whole[:k] + bytes(len(final) - k)
                    if state != whole:
                        r = call(bp.unpack, state)
                        require(not r.ok or r.value[0] == data, 'packing %d bytes stopped, zeros from %d on: unpacks to %s', size, k,
                                short(r.value and r.value[0]))
                        ctx.state(state)
                        ctx.count('evaluations')
            ctx.sample({'case': case, 'writes': len(plan.log), 'archive bytes': len(final)})
            return
        for at in range(nops):
            for mode in ('once', 'rest', 'torn'):
                plan = vfs.Plan(at, mode, err=errno.ENOSPC)
                out = vfs.RecFile(plan, 'out')
                r = call(packing, *args, out)
                check(out.content(), f, final, data, 'packing %d bytes, output operation %s failed (%s)'
                      % (size, plan.failed, mode), ctx)
        for at in range(f.nchunks + 1):
            plan = vfs.Plan(at)
            out = io.BytesIO()
            r = call(packing, *args, out, vfs.RecFile(plan, 'in', data))
            check(out.getvalue(), f, final, data, 'packing %d bytes, input operation %s failed' % (size, plan.failed), ctx)
            out = io.BytesIO()
            with failing_compression(at):
                r = call(packing, *args, out)
            check(out.getvalue(), f, final, data, 'packing %d bytes, compression %d failed' % (size, at), ctx)
        ctx.sample({'case': case, 'operations': nops, 'archive bytes': len(final)})
    elif g == 'fp-many':
        _, ck, n = case
        data = spec.payload('noise', n)
        plan = vfs.Plan()
        out = vfs.RecFile(plan, 'out')
        must(packing, data, 1, ck, 3, True, None, (1, 0, 0, 'lz4'), out)
        final = out.content()
        f = spec.parse(final)
        for i, (label, state) in enumerate(vfs.crash_states(plan.log, 'out', b'', limit=600)):
            if i % 5 == 0 or len(state) < 200 or len(state) == len(final):
                check(state, f, final, data, 'packing %d chunks stopped at %s' % (n, label), ctx)
    elif g == 'fp-long':
        # nothing but -1 is written to the offsets before the last byte of the last chunk
        _, ck, n, app = case
        data = spec.payload('noise', n)
        plan = vfs.Plan()
        out = vfs.RecFile(plan, 'out')
        must(packing, data, 1, ck, app, True, None, (1, 0, 0, 'lz4'), out)
        final = out.content()
        f = spec.parse(final)
        end = 0
        for i, (_, _, pos, buf) in enumerate(plan.log):
            part = buf[max(0, f.offsets_pos - pos):max(0, f.chunks_pos - pos)]
            require(end == len(final) or not part.strip(b'\xff'), 'packing %d chunks: write %d stores offsets %s when %d '
                    'of %d bytes are in the file', n, i, short(part), end, len(final))
            end = max(end, pos + len(buf))
        require(end == len(final), 'harness: the writes end at %d', end)
        for stop in (len(plan.log) - 1, len(plan.log) - 2, len(plan.log) // 2):
            state = bytearray(len(final))
            end = 0
            for _, _, pos, buf in plan.log[:stop]:
                state[pos:pos + len(buf)] = buf
                end = max(end, pos + len(buf))
            check(bytes(state[:end]), f, final, data, 'packing %d chunks stopped after %d writes' % (n, stop), ctx)
        ctx.count('writes', len(plan.log))
    else:
        ck, kind = case[1], case[2]
        n = case[4] if g == 'file-crash' else case[3]
        data = spec.payload('noise', n)
        arr = np.frombuffer(data, 'u1').reshape(n // 10, 10) if kind == 'ndarray' else None
        chunk = n // 4
        ba, bpa = bp.blosc_args(BAS[1]), bp.bloscpack_args((True, ck, 2))
        prior = {'absent': None, 'garbage': b'\x00' * 50, 'longer': b'\x01' * (2 * n + 1000),
                 'archive': must(bp.pack, b'previous' * 3, 8)}[case[3] if g == 'file-crash' else 'archive']

        def go():
            if kind == 'file':
                bp.file_io.pack_file_to_file('in.bin', 'out.blp', chunk, {"a": 1}, ba, bpa)
            elif kind == 'bytes':
                bp.file_io.pack_bytes_to_file(data, 'out.blp', chunk, None, ba, bpa)
            else:
                bp.numpy_io.pack_ndarray_to_file(arr, 'out.blp', chunk, ba, bpa)

        def prepare():
            for name in ('in.bin', 'out.blp'):
                if os.path.exists(name):
                    os.unlink(name)
            bp.write('in.bin', data)
            if prior is not None:
                bp.write('out.blp', prior)
        prepare()
        with vfs.patched(vfs.Plan()) as plan:
            must(go)
        final = bp.read('out.blp')
        f = spec.parse(final)
        if g == 'file-crash':
            for label, state in vfs.crash_states(plan.log, 'out.blp', prior or b'', limit=200):
                if label != ('start',):
                    check(state, f, final, data, 'pack_%s: stopped at %s' % (kind, label), ctx, arr)
            require(state == final, 'harness: replaying the writes does not give the archive')
            ctx.sample({'case': case, 'writes': len(plan.log), 'archive bytes': len(final)})
            return
        for at in range(case[4], plan.n if case[4] == 48 else min(case[4] + 12, plan.n)):
            for mode in ('once', 'rest', 'torn'):
                prepare()
                with vfs.patched(vfs.Plan(at, mode, err=errno.ENOSPC)) as p:
                    r = call(go)
                state = bp.read('out.blp') if os.path.exists('out.blp') else b''
                if state != prior:
                    check(state, f, final, data, 'pack_%s: operation %s failed (%s)' % (kind, p.failed, mode), ctx, arr)
        if case[4] == 0:
            for at in range(f.nchunks):
                prepare()
                with failing_compression(at):
                    r = call(go)
                state = bp.read('out.blp') if os.path.exists('out.blp') else b''
                if state != prior:
                    check(state, f, final, data, 'pack_%s: compression %d failed' % (kind, at), ctx, arr)
        ctx.sample({'case': case, 'operations': plan.n})
