import io
import json
import os
import sys

import numpy as np

from mc import bp, helpers, ops, spec
from mc.core import Violation, HarnessError, in_child, require, short

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('Every ordered pair of operations from the alphabet of mc/ops.py (successful and failing packs, array packs, '
        'appends, rewrites, unpacks, memory sources and sinks, failing writes, the command line) sharing one pool of '
        'option objects is run in a fresh process, followed by a quarter of the alphabet (thorough: all of it; in an order '
        'that depends on the pair), so each operation is run after many different histories; thorough: every triple as '
        'well. messages: the same with everything logged, comparing what is printed. helper: ordered pairs of calls of the small '
        'functions (sizes, headers, options, codecs, digests; all of the same function, a fifth of the others, thorough: all), the caller '
        'spoiling the object the first returned, and all of them after each. edited: the caller changes its own objects (every pair of edits) between operations on them; each operation must see '
        'the values of the moment. family: all ordered pairs (one, other, one, other) within families of operations that leave settings to their '
        'defaults on inputs those defaults depend on, and each family forwards and backwards. Every result is '
        'compared with that of the operation alone in a fresh process, and all option objects, inputs and process-wide settings are compared '
        'after every step. A state is what the process carries over: option pool plus the module level data of bloscpack.')
ASSUMPTIONS = ['a worker that has only imported the library stands for a fresh process (it is forked per history)',
               'reuse of sink and source objects is not part of the claim']
BLOCK = 8
NAMES = list(ops.OPS)
THREADS = 3         # unlike anything an operation could set
HELPERS = helpers.table()
ALONE = []
REF = {}
SNAP = {}


def globals_state():
    out = []
    for name in sorted(m for m in sys.modules if m.split('.')[0] == 'bloscpack'):
        for k, v in sorted(vars(sys.modules[name]).items()):
            if isinstance(v, (int, str, bytes, list, dict, tuple, set)) and not k.startswith('__'):
                out.append((name, k, short(v, 400)))
    return out


def setup(ctx):
    d = ctx.path('ops')
    os.mkdir(d)

    def ref(name):
        bp.blosc.set_nthreads(THREADS)
        pool = ops.make_pool()
        with bp.quiet():
            return ops.run_op(name, pool, d)
    for name in NAMES:
        REF[name] = in_child(lambda: ref(name))
        if REF[name] != in_child(lambda: ref(name)):
            raise HarnessError('operation %s is not deterministic' % name)
    for _, fn in HELPERS:
        ALONE.append(in_child(lambda: helpers.result(fn)))
    bp.blosc.set_nthreads(THREADS)
    SNAP.update(ops.snapshot(ops.make_pool()))
    for fam, members in ops.FAMILIES.items():
        for name in members:
            def one():
                bp.blosc.set_nthreads(THREADS)
                with bp.quiet():
                    return ops.run_family(fam, name, ops.make_pool(), d)
            REF[fam, name] = in_child(one)
            if REF[fam, name] != in_child(one):
                raise HarnessError('operation %s is not deterministic' % name)


def cases(tier):
    n = len(NAMES)
    for i in range(n):
        yield ['single', i]
    for i in range(n):
        for j in range(n):
            yield ['pair', i, j]
    for fam, members in ops.FAMILIES.items():
        for i in range(len(members)):
            for j in range(len(members)):
                yield ['family', fam, i, j]
    for first in range(len(MADE)):
        for edit in range(len(EDITS)):
            yield ['edited', first, edit]
    for i in range(n):
        for lv in (1, 2):
            yield ['messages', i, lv]
    for i in range(len(HELPERS)):
        yield ['helper', i]
    if tier == 'thorough':
        for i in range(n):
            for j in range(n):
                yield ['triples', i, j]


# The caller changes its own objects between two operations; each must see the values of the moment.

class Owned(object):
    def __init__(self):
        self.data = spec.payload('text', 100)
        self.meta = {"a": 1, "n": [1, {"x": 2}], "s": "text"}
        self.ba, self.bpa = bp.BloscArgs(typesize=4, clevel=5, cname='lz4'), bp.BloscpackArgs(max_app_chunks=3)
        self.ma = bp.MetadataArgs(max_meta_size=400)
        self.arr = np.arange(60, dtype='<i4').reshape(6, 10)
        self.chunks = [spec.payload('text', 20, i) for i in range(5)]
        self.archive = spec.build([spec.compress(c, 4) for c in self.chunks], spec.meta_section({"old": 1}, 'zlib', 6, 'adler32', 500),
                                  'set', 'crc32', 9, 4, 20, 20)


def _memory(o):
    out = io.BytesIO()
    bp.abstract_io.pack(bp.memory_io.PlainMemorySource(o.chunks), bp.file_io.CompressedFPSink(out), len(o.chunks), 20, 20, o.meta, o.ba, o.bpa, o.ma)
    return out.getvalue()


def _append(o):
    out = io.BytesIO(o.archive)
    bp.append_fp(out, io.BytesIO(o.data), len(o.data), o.ba)
    return out.getvalue()


def _rewrite(o):
    out = io.BytesIO(o.archive)
    out.seek(32)
    bp.rewrite_fp(out, o.meta)
    return out.getvalue()


def _between(o):
    sink = bp.memory_io.CompressedMemorySink()
    bp.numpy_io.pack_ndarray(o.arr, sink, 40, o.ba, o.bpa, o.ma)
    return bp.numpy_io.unpack_ndarray(bp.memory_io.CompressedMemorySource(sink)), sink.chunks, sink.metadata


MADE = [lambda o: bp.file_io.pack_bytes_to_bytes(o.data, 30, o.meta, o.ba, o.bpa, o.ma),
        lambda o: bp.numpy_io.pack_ndarray_to_bytes(o.arr, 40, o.ba, o.bpa, o.ma), _memory, _append, _rewrite, _between,
        lambda o: [repr(o.ba), str(o.bpa), o.ma.pformat(), dict(o.ba), dict(o.ma)]]


def _edit(o, i):
    EDITS[i](o)


EDITS = [lambda o: o.meta.__setitem__('a', o.meta.get('a', 0) + 1), lambda o: o.meta['n'].append(5), lambda o: o.meta['n'][1].update(x=9, y=[]),
         lambda o: o.meta.update(s='TEXT'), lambda o: o.meta.__setitem__('long', 'v' * 50),
         lambda o: setattr(o.ba, 'clevel', 0), lambda o: o.ba.__setitem__('cname', 'zlib'), lambda o: o.ba.update(typesize=8, shuffle=2),
         lambda o: setattr(o.bpa, 'checksum', 'md5'), lambda o: o.bpa.__setitem__('max_app_chunks', 7), lambda o: setattr(o.bpa, 'offsets', False),
         lambda o: setattr(o.ma, 'meta_codec', 'None'), lambda o: o.ma.update(meta_checksum='sha1', meta_level=1),
         lambda o: setattr(o.ma, 'max_meta_size', 1000), lambda o: o.arr.__setitem__((0, 0), 99), lambda o: o.arr.__iadd__(1),
         lambda o: setattr(o.arr, 'shape', (10, 6)), lambda o: setattr(o.arr, 'dtype', '>i4'),
         lambda o: o.chunks.__setitem__(1, b'other' * 4), lambda o: o.chunks.append(b'last'), lambda o: o.chunks.pop(0)]


def edited(first, e1, tier):
    fresh = {}

    def alone(made, edits):
        if (made, edits) not in fresh:
            def one():
                o = Owned()
                for e in edits:
                    _edit(o, e)
                return ops.guarded(lambda: MADE[made](o))
            fresh[made, edits] = in_child(one)
        return fresh[made, edits]
    n = 0
    # what comes before is run once; then each operation sees the object in several of its lives
    for e2 in range(len(EDITS)):
        if tier != 'thorough' and (e1 + e2 + first) % 4:
            continue
        want = [alone(first, ()), alone(first, (e1,)), alone(first, (e1, e2))]
        rest = [[alone(m, (e1,)), alone(m, (e1, e2))] for m in range(len(MADE))]

        def live():
            for second in range(len(MADE)):
                o = Owned()
                for k, edits in enumerate(((), (e1,), (e1, e2))):
                    if edits:
                        _edit(o, edits[-1])
                        got = ops.guarded(lambda: MADE[second](o))
                        require(got == rest[second][k - 1], 'operation %d after operation %d and the edits %s of the caller\'s objects gives %s, with fresh '
                                'objects of these values %s', second, first, edits, short(got), short(rest[second][k - 1]))
                    got = ops.guarded(lambda: MADE[first](o))
                    require(got == want[k], 'operation %d after the edits %s of the caller\'s objects gives %s, with fresh objects of these values %s',
                            first, edits, short(got), short(want[k]))
            return len(MADE) * 5
        n += in_child(live)
    return n


def history(names, d, family=None):
    """Run the names in order on one pool; returns visited states."""
    bp.blosc.set_nthreads(THREADS)
    pool = ops.make_pool()
    states = []
    done = []
    with bp.quiet():
        for name in names:
            got = ops.run_op(name, pool, d) if family is None else ops.run_family(family, name, pool, d)
            ref = REF[name if family is None else (family, name)]
            snap = ops.snapshot(pool)
            done.append(name)
            if snap != SNAP:
                bad = [k for k in SNAP if snap.get(k) != SNAP[k]]
                raise Violation('%s was modified by %r: %s, was %s (history %s)' % (
                    bad[0], name, snap.get(bad[0]), SNAP[bad[0]], short(done[-4:], 400)))
            if got != ref:
                raise Violation('%r gave %s, alone it gives %s (history %s)' % (
                    name, short(got, 300), short(ref, 300), short(done[-6:], 500)))
            states.append(repr(globals_state()))
    return states


def run(case, ctx):
    d = ctx.path('ops')
    n = len(NAMES)
    if case[0] == 'edited':
        ctx.count('transitions', edited(case[1], case[2], ctx.tier))
        ctx.nontrivial(*case)
        ctx.outcome('edited held')
        return
    if case[0] == 'helper':
        first, fn = HELPERS[case[1]]

        def after(k):
            return in_child(lambda: [helpers.result(fn, True), helpers.result(HELPERS[k][1])])
        for k, (second, _) in enumerate(HELPERS):
            # each of a kind in a process of its own, one of five of the others too
            if first.split('(')[0] != second.split('(')[0] and (case[1] + k) % 5 and ctx.tier != 'thorough':
                continue
            one, two = after(k)
            require(one == ALONE[case[1]], '%s gives %s, then %s', first, short(ALONE[case[1]]), short(one))
            require(two == ALONE[k], '%s after %s, whose result the caller has changed, gives %s, alone %s', second, first, short(two), short(ALONE[k]))
            ctx.count('transitions', 2)
        def rest():
            helpers.result(fn, True)
            for k, (second, f) in enumerate(HELPERS):
                got = helpers.result(f, True)
                require(got == ALONE[k], '%s after %s and the others up to it gives %s, alone %s', second, first, short(got), short(ALONE[k]))
        in_child(rest)
        ctx.count('transitions', len(HELPERS))
        ctx.nontrivial(first)
        ctx.outcome('helper held')
        ctx.count('traces')
        return
    if case[0] == 'messages':
        messages(case[1], bp.log.VERBOSITY_LEVELS[case[2]], d, ctx)
        return
    if case[0] == 'single':
        # the operation many times over, then again with fresh option objects
        name = NAMES[case[1]]
        states = in_child(lambda: history([name] * 5, d) + history([name], d))
        steps = 6
    elif case[0] == 'pair':
        i, j = case[1], case[2]
        step = next(s for s in range(1 + (i * n + j) % (n - 1), n * 3) if _coprime(s, n))
        order = [NAMES[(j + 1 + k * step) % n] for k in range(n if ctx.tier == 'thorough' else n // 4)]
        states = in_child(lambda: history([NAMES[i], NAMES[j]] + order, d))
        steps = len(order) + 2
    elif case[0] == 'family':
        _, fam, i, j = case
        names = list(ops.FAMILIES[fam])
        m = len(names)
        seq = [names[i], names[j], names[i], names[j]]
        if j == i:
            # then the whole family, forwards from there and backwards
            seq += names[i:] + names[:i] + names[::-1]
        elif ctx.tier == 'thorough':
            seq += [names[(j + 1 + k) % m] for k in range(m)]
        states = in_child(lambda: history(seq, d, fam))
        steps = len(seq)
    else:
        i, j = case[1], case[2]
        states = []
        steps = 0
        for k in range(n):
            states += in_child(lambda: history([NAMES[i], NAMES[j], NAMES[k]], d))
            steps += 3
    ctx.count('transitions', steps)
    for s in states:
        ctx.state(s.encode())
    ctx.outcome('%s held' % case[0])
    ctx.count('traces')
    ctx.sample({'history': case[1:] if case[0] == 'family' else [NAMES[x] for x in case[1:]]})


def messages(i, level, d, ctx):
    """What an operation prints with everything logged does not depend on what ran before, nor does the level change."""
    n = len(NAMES)

    def printed(pool, j):
        with bp.quiet() as (out, err):
            got = ops.run_op(NAMES[j], pool, d)
        require(bp.log.LEVEL == level, '%r leaves the log level at %s, it was %s', NAMES[j], bp.log.LEVEL, level)
        return [got, out.getvalue(), err.getvalue()]

    def prepared(fn):
        bp.blosc.set_nthreads(THREADS)
        bp.log.LEVEL = level
        return fn(ops.make_pool())
    ref = {}
    for j in range(n):
        if (level, j) not in REF:
            REF[level, j] = in_child(lambda: prepared(lambda pool: printed(pool, j)))
        ref[j] = REF[level, j]
    step = next(s for s in range(1 + i, n * 3) if _coprime(s, n))

    def live(pool):
        for k in range(n + 2):
            j = i if k < 2 else (i + k * step) % n
            got = printed(pool, j)
            for g, r, kind in zip(got, ref[j], ('gives', 'prints', 'prints as errors')):
                require(g == r, '%r with the level %s after %r %s %s, alone %s', NAMES[j], level, [NAMES[i], '...'], kind, short(g, 300), short(r, 300))
    in_child(lambda: prepared(live))
    ctx.count('transitions', n + 2)
    ctx.nontrivial(level, i)
    ctx.outcome('messages held')
    ctx.count('traces')


def _coprime(a, b):
    while b:
        a, b = b, a % b
    return a == 1
