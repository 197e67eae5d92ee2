import contextlib
import io
import os
import threading

from mc import bp, core, ops, sched, spec
from mc.core import Violation, HarnessError, require, short

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('Stateless exploration of the real code under a controlled scheduler: two operations run in two threads sharing one '
        'pool of option objects and inputs, on different archives; every line (bytecode, function call) of bloscpack code is '
        'a scheduling point. lines-1: every schedule with one preemption at a line, both ways, for every operation with itself '
        'and the listed pairs (thorough: all pairs); outer-2: every schedule with two preemptions at calls of functions up to four deep, '
        'six pairs (thorough: all pairs); thorough only, calls-2: the same at all calls; lines-2: two preemptions at lines, two pairs; families: every pair within the families of operations that rely '
        'on defaults (mc/ops.py), one preemption at each call up to four deep, one way (thorough: both); bytecodes-1: one preemption '
        'at a bytecode, listed pairs; three: three threads nested; messages: one preemption at any call with everything logged. In each execution all results, and the messages each thread prints, must be those of the operation '
        'alone and the shared objects unchanged. transitions: executions; states: distinct (operations, switch points).')
ASSUMPTIONS = ['python-blosc calls are atomic (they hold the interpreter lock)',
               'switches inside the standard library or NumPy are represented by switches at the next bloscpack line']
BLOCK = 1
HANG = 600

SMALL = {}


def small(name):
    def deco(f):
        SMALL[name] = f
        return f
    return deco


def _pack(data, chunk, ba, bpa, meta, ma, to_file=False):
    def f(p, d):
        kw = dict(chunk_size=chunk, blosc_args=p.args.get(ba), bloscpack_args=p.args.get(bpa), metadata=p.meta.get(meta),
                  metadata_args=p.args.get(ma))
        if to_file:
            out = os.path.join(d, 'o')
            bp.file_io.pack_bytes_to_file(data, out, **kw)
            return bp.read(out)
        return bp.file_io.pack_bytes_to_bytes(data, **kw)
    return f


SMALL['pack'] = _pack(spec.payload('ints', 24), 16, 'ba1', 'bpa1', 'mid', 'ma_tight')
SMALL['pack small metadata'] = _pack(spec.payload('text', 5), 16, 'ba1', 'bpa3', 'short', 'ma_tight')
SMALL['pack to file'] = _pack(spec.payload('ints', 40), 20, 'ba2', 'bpa2', None, None, True)
SMALL['pack defaults'] = _pack(spec.payload('noise', 20), '1K', None, None, 'empty', None)
SMALL['pack refused'] = _pack(b'abc', 2, 'ba_bad', 'bpa1', 'short', 'ma1')
SMALL['pack metadata refused'] = _pack(b'abc', 2, 'ba1', 'bpa1', 'long', 'ma_small')
SMALL['array u1'] = lambda p, d: bp.numpy_io.pack_ndarray_to_bytes(p.arrays['u1'], chunk_size=150, blosc_args=p.args['ba1'],
                                                                  bloscpack_args=p.args['bpa1'], metadata_args=p.args['ma_tight'])
SMALL['array F'] = lambda p, d: bp.numpy_io.pack_ndarray_to_bytes(p.arrays['i2 F'], chunk_size=100, blosc_args=p.args['ba1'],
                                                                 bloscpack_args=p.args['bpa2'], metadata_args=p.args['ma_tight'])
SMALL['append none'] = ops._append('tight', 'empty', 'ba_none', 'fp')
SMALL['append none, other typesize'] = ops._append('array', 'one', 'ba_none', 'fp')
SMALL['append dict'] = ops._append('full', 'bytearray', 'd_none', 'fp')
SMALL['append dict, other typesize'] = ops._append('array', 'text', 'd_none', 'fp')
SMALL['append file'] = ops._append('full', 'one', 'ba_part', 'file')
SMALL['append refused'] = ops._append('tight', 'text', 'd_part', 'fp')
SMALL['unpack'] = lambda p, d: bp.unpack(p.archives['full'])
SMALL['unpack damaged'] = lambda p, d: bp.unpack(p.archives['damaged'])
SMALL['unpack file'] = ops._unpack('tight', 'files')
SMALL['unpack array'] = lambda p, d: bp.numpy_io.unpack_ndarray_from_bytes(p.archives['array'])
SMALL['unpack old array'] = lambda p, d: bp.numpy_io.unpack_ndarray_from_bytes(p.archives['array old'])
SMALL['rewrite'] = ops._rewrite('short', {})
SMALL['rewrite plain'] = ops._rewrite('list', {'codec': 'None', 'level': 3})


@small('memory')
def _memory(p, d):
    sink = bp.memory_io.CompressedMemorySink()
    bp.numpy_io.pack_ndarray(p.arrays['f8'], sink, chunk_size=240, blosc_args=p.args['ba2'], bloscpack_args=p.args['bpa3'],
                             metadata_args=p.args['ma1'])
    return bp.numpy_io.unpack_ndarray(bp.memory_io.CompressedMemorySource(sink))


NAMES = list(SMALL)
LISTED = [('pack', 'array u1'), ('array u1', 'array F'), ('append none', 'append none, other typesize'),
          ('append dict', 'append dict, other typesize'), ('pack small metadata', 'pack'), ('pack small metadata', 'array F'),
          ('rewrite', 'pack small metadata'), ('unpack array', 'unpack'), ('unpack array', 'unpack old array'), ('memory', 'array F'),
          ('append none', 'append file'), ('append refused', 'append dict'), ('pack refused', 'pack defaults'),
          ('unpack damaged', 'unpack'), ('pack to file', 'pack'), ('pack metadata refused', 'pack'), ('rewrite', 'rewrite plain'),
          ('unpack file', 'pack to file')]
FAMS = ['append', 'array', 'pack', 'unpack', 'rewrite', 'beginning']
CALLS2 = [0, 1, 2, 3, 4, 7]
LINES2 = [1, 3]
REF = {}
LOUD = {}
SNAP = {}
ROOT = []


class Messages(object):
    """Standard output, kept apart for each thread."""

    def __init__(self):
        self.parts = {}

    def write(self, s):
        self.parts.setdefault(threading.get_ident(), []).append(s)
        return len(s)

    def flush(self):
        pass

    def taken(self):
        return ''.join(self.parts.pop(threading.get_ident(), []))


OUT = Messages()


def guarded(name, pool, d):
    """What the operation gives its caller: result or exception, and what it prints."""
    OUT.taken()
    res = ops.guarded(lambda: SMALL[name](pool, d))
    return [res, OUT.taken()]


@contextlib.contextmanager
def level(x):
    bp.log.LEVEL = x
    try:
        yield
    finally:
        bp.log.LEVEL = bp.log.NORMAL


def setup(ctx):
    for n in 'ABC':
        os.mkdir(ctx.path(n))
    ROOT.append(os.path.join(os.path.abspath(core.REPO), 'bloscpack') + os.sep)
    pool = ops.make_pool()
    with contextlib.redirect_stdout(OUT):
        for name in NAMES:
            REF[name] = guarded(name, pool, ctx.path('A'))
            again = guarded(name, ops.make_pool(), ctx.path('B'))
            if REF[name] != again:
                raise HarnessError('%s is not deterministic: %s %s' % (name, REF[name], again))
            with level(bp.log.DEBUG):
                # the names of the directories are of the same length, but differ
                LOUD[name] = {x: guarded(name, ops.make_pool(), ctx.path(x)) for x in 'ABC'}
                if LOUD[name]['A'] != guarded(name, ops.make_pool(), ctx.path('A')) or REF[name][0] != LOUD[name]['A'][0]:
                    raise HarnessError('%s is not deterministic' % name)
    SNAP.update(ops.snapshot(ops.make_pool()))
    with contextlib.redirect_stdout(OUT):
        for fam in FAMS:
            for name in ops.FAMILIES[fam]:
                SMALL[name] = ops.FAMILIES[fam][name]
                REF[name] = guarded(name, ops.make_pool(), ctx.path('A'))
                if REF[name] != guarded(name, ops.make_pool(), ctx.path('B')):
                    raise HarnessError('%s is not deterministic' % name)


def cases(tier):
    n = len(NAMES)
    deep = tier == 'thorough'
    every = [(i, j) for i in range(n) for j in range(i, n)]
    listed = [(NAMES.index(a), NAMES.index(b)) for a, b in LISTED]
    for i, j in every if deep else [(i, i) for i in range(n)] + listed:
        for first in (0, 1) if i != j else (0,):
            yield ['lines-1', i, j, first]
            yield ['messages', i, j, first]
    for i, j in every if deep else [listed[x] for x in CALLS2]:
        for part in range(8):
            yield ['outer-2', i, j, part]
    for fam in FAMS:
        m = len(ops.FAMILIES[fam])
        for i in range(m):
            for j in range(i, m):
                yield ['family', i, j, fam]
    if deep:
        for x in CALLS2:
            for part in range(64):
                yield ['calls-2', listed[x][0], listed[x][1], part]
        for i, j in listed:
            for first in (0, 1):
                yield ['bytecodes-1', i, j, first]
        for x in LINES2:
            for part in range(256):
                yield ['lines-2', listed[x][0], listed[x][1], part]
        for i in range(n):
            for j in range(n):
                yield ['three', i, j, (i + 2 * j + 1) % n]


UNIT = {'messages': 'call', 'lines-1': 'line', 'lines-2': 'line', 'three': 'line', 'calls-2': 'call', 'outer-2': 'outer', 'bytecodes-1': 'opcode', 'family': 'outer'}
POOL = []


def execute(names, schedule, ctx, unit='line', loud=False):
    if not POOL:
        POOL.append(ops.make_pool())
    pool = POOL[0]
    dirs = [ctx.path(x) for x in 'ABC']
    run = sched.Run([lambda name=name, d=d: guarded(name, pool, d) for name, d in zip(names, dirs)],
                    schedule, ROOT[0], unit)
    try:
        with contextlib.redirect_stdout(OUT), level(bp.log.DEBUG if loud else bp.log.NORMAL):
            res = run.run()
            require(bp.log.LEVEL == (bp.log.DEBUG if loud else bp.log.NORMAL), 'the log level is left changed by %s under the schedule %s: %s',
                    names, schedule, bp.log.LEVEL)
    except sched.Stuck as e:
        raise Violation('%s under %s: %s' % (names, schedule, e))
    ctx.count('transitions')
    for name, got, x in zip(names, res, 'ABC'):
        ref = LOUD[name][x] if loud else REF[name]
        for g, r, kind in zip(got or [None], ref, ('gives', 'prints')):
            require(g == r, '%r %s %s instead of %s when run together with %s under the schedule %s', name, kind,
                    short(g, 300), short(r, 300), [x for x in names], schedule)
    return run


def check_pool(names, ctx):
    snap = ops.snapshot(POOL[0])
    if snap != SNAP:
        bad = [k for k in SNAP if snap.get(k) != SNAP[k]]
        POOL[:] = []
        raise Violation('%s was left changed by %s: %s, was %s' % (bad[0], names, snap[bad[0]], SNAP[bad[0]]))


def run(case, ctx):
    g = case[0]
    names = [NAMES[case[1]], NAMES[case[2]]] if g != 'family' else [list(ops.FAMILIES[case[3]])[x] for x in case[1:3]]
    if g == 'three':
        names.append(NAMES[case[3]])
    unit = UNIT[g]
    loud = g == 'messages'
    execute(names, [], ctx, unit, loud)     # the first traced run of a code object can miss bytecodes
    pts = list(execute(names, [], ctx, unit, loud).points)
    if min(pts) < 1:
        raise HarnessError('only %s scheduling points in %s' % (pts, names))
    if g in ('lines-1', 'bytecodes-1', 'messages'):
        first = case[3]
        for k in range(0 if first else 1, pts[first]):
            r = execute(names, [[first, k], [1 - first, None]], ctx, unit, loud)
            ctx.state(repr((names, first, k, g)).encode())
            ctx.count('executions with a preemption', 1 if r.switches > 2 else 0)
    elif g == 'family':
        # quick: the direction alternates over the pairs, so both occur for each operation
        for first in (0,) if case[1] == case[2] else (0, 1) if ctx.tier == 'thorough' else ((case[1] + case[2]) % 2,):
            for k in range(1, pts[first]):
                execute(names, [[first, k], [1 - first, None]], ctx, unit)
                ctx.state(repr((names, first, k, g)).encode())
    elif g in ('lines-2', 'calls-2', 'outer-2'):
        step = {'outer-2': 8, 'calls-2': 64, 'lines-2': 256}[g]
        for first in (0, 1) if case[1] != case[2] else (0,):
            for k in range(1 + case[3], pts[first], step):
                for m in range(1, pts[1 - first]):
                    execute(names, [[first, k], [1 - first, m], [first, None]], ctx, unit)
                    ctx.state(repr((names, first, k, m, g)).encode())
    else:
        for k in range(1, pts[0]):
            m = 1 + k * (pts[1] - 1) // pts[0]
            execute(names, [[0, k], [1, m], [2, None], [1, None]], ctx)
            execute(names, [[0, k], [1, m], [2, m], [0, None]], ctx)
            ctx.state(repr((names, k, m)).encode())
    check_pool(names, ctx)
    ctx.outcome('%s held' % g)
    ctx.count('traces')
    ctx.sample({'operations': names, 'points': pts})
