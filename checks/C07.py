import io
import json
import zlib

from mc import bp, hist, spec
from mc.core import Violation, call, must, require, short
from checks import C06

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('From every state reached by every operation sequence of length 0 to 2 (thorough: 3 for every fourth initial archive) over the '
        'initial archives, every refusable operation of the alphabet is run on the real code, both on '
        'an in-memory file and through append() on a real file; a refused one must raise and leave all bytes, and '
        'acceptance must agree with the model at and next to every boundary. States are archives, transitions the '
        'attempted operations.')
ASSUMPTIONS = ['metadata values that only differ in ways Python considers equal (1, 1.0, True) are not in the alphabet']
BLOCK = 2

BAD_SETTINGS = [
    {'typesize': 8, 'clevel': 10, 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': 8, 'clevel': -1, 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': 8, 'clevel': 7, 'shuffle': 3, 'cname': 'blosclz'},
    {'typesize': 8, 'clevel': 7, 'shuffle': -1, 'cname': 'blosclz'},
    {'typesize': 0, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': 256, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': -1, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'bogus'},
    {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': ''},
    {'typesize': 8, 'clevel': '7', 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': '8', 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'},
    {'typesize': 8, 'clevel': 7, 'shuffle': True},
    {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz', 'extra': 1},
    {},
]
OBJ = {"obj": 1}
REWRITES = [
    ({"big": "q" * 5000}, {}), (None, {}), ("same", {}), ({"a": 9}, {'checksum': 'other-length'}),
    ({"a": 9}, {'checksum': 'nope'}), ({"a": 9}, {'checksum': ''}), ({"a": 9}, {'codec': 'gzip'}),
    ({"a": 9}, {'level': 10}), ({"a": 9}, {'level': -1}), ({"a": 9}, {'magic_format': b'BSON'}),
    ({"a": 9}, {'magic_format': b''}), ({"a": 9}, {'codec': 'None'}), ({"b": "r" * 400}, {'codec': 'None'}),
    ({"b": "r" * 400}, {}), ({"a": 9}, {'checksum': 'same-length'}), ({"a": 9}, {'level': 0}),
    ("same", {'codec': 'None'}), ("same", {'checksum': 'other-length'}), (OBJ, {}),
    ({"a": 9}, {'codec': None, 'level': None}), ({"big": "q" * 5000}, {'checksum': 'same-length', 'codec': 'None'}),
]


def cases(tier):
    deep = tier == 'thorough'
    for ci, c in enumerate(C06.CONFIGS):
        ops = C06.ops_of(c, 0, False)
        yield ['states', ci, []]
        for o1 in range(len(ops)):
            yield ['states', ci, [o1]]
            for o2 in range(len(ops)):
                yield ['states', ci, [o1, o2]]
                if deep and ci % 4 == 0:
                    for o3 in range(len(ops)):
                        yield ['states', ci, [o1, o2, o3]]
    for ck in spec.CHECKSUMS:
        for meta in (False, True):
            yield ['no-offsets', ck, meta]
    for ci in range(len(C06.CONFIGS)):
        yield ['boundary', ci]
        yield ['not-archive', ci]
        yield ['unknown', ci]
        if C06.CONFIGS[ci].meta is not None:
            yield ['meta-boundary', ci]


def attempt(state, data, settings, form, file_level):
    if file_level:
        bp.write('orig.blp', state)
        bp.write('new.bin', data)
        r = call(bp.append_file, 'orig.blp', 'new.bin', settings)
        return r, bp.read('orig.blp')
    fp = io.BytesIO(state)
    r = call(bp.append_fp, fp, io.BytesIO(data), len(data), settings)
    return r, fp.getvalue()


def refused(state, data, settings, what, ctx, exc=None):
    for fl in (False, True):
        before = dict(settings) if isinstance(settings, dict) else None
        r, after = attempt(state, data, settings, None, fl)
        ctx.count('transitions')
        require(not r.ok, '%s was accepted', what)
        require(exc is None or isinstance(r.exc, exc), '%s: %s', what, r)
        require(after == state, '%s was refused but changed the archive', what)
        require(before is None or before == settings, '%s changed the settings passed', what)
        ctx.outcome('refused: %s' % type(r.exc).__name__)


def probe(state, a, c, ctx):
    room = a.chunk_size - a.sizes[-1]
    cs = a.chunk_size
    cap = room + a.max_app_chunks * cs
    for n in sorted({cap + 1, cap + cs, cap + 2 * cs + 1, 2 * cap + 3}):
        for settings in (None, {'typesize': 8, 'clevel': 0, 'shuffle': False, 'cname': 'lz4'}):
            refused(state, spec.payload('noise', n), settings, 'append of %d bytes with room for %d' % (n, cap), ctx,
                    bp.NotEnoughSpace)
    for n in sorted({0, 1, room, room + 1, room + cs} - {-1}):
        if n > cap:
            continue
        for bad in BAD_SETTINGS:
            refused(state, spec.payload('noise', n), dict(bad), 'append of %d bytes with settings %s' % (n, bad), ctx)
    if a.meta is not None:
        for value, kw in REWRITES:
            kw = dict(kw)
            if value == 'same':
                value = a.meta.value
            elif value == OBJ:
                fp = io.BytesIO(state)
                fp.seek(32)
                r = call(bp.rewrite_fp, fp, {"x": {1, 2}})
                require(not r.ok and fp.getvalue() == state, 'metadata that is not JSON: %s', r)
                continue
            if kw.get('checksum') == 'other-length':
                kw['checksum'] = [k for k in spec.CHECKSUMS if spec.SIZES[k] != spec.SIZES[a.meta.checksum]][-1]
            elif kw.get('checksum') == 'same-length':
                kw['checksum'] = [k for k in spec.CHECKSUMS if spec.SIZES[k] == spec.SIZES[a.meta.checksum]][-1]
            if value is None:
                value = {"n": [None]}
            if json.dumps(value) == json.dumps(a.meta.value) and kw.get('codec', 1) is None:
                continue
            for f in (hist.do_rewrite, hist.do_rewrite_file):
                r, after = f(state, value, kw)
                ctx.count('transitions')
                ok, b = hist.check_rewrite(state, a, value, kw, r, after, 'rewrite of metadata to %s with %s' % (
                    short(value, 60), kw))
                ctx.outcome('rewrite accepted' if ok else 'rewrite refused: %s' % type(r.exc).__name__)


def run(case, ctx):
    g = case[0]
    if g == 'states':
        c = C06.CONFIGS[case[1]]
        ops = C06.ops_of(c, 0, False)
        state, a = C06.initial(c, ctx)
        for level, oi in enumerate(case[2]):
            nxt = C06.step(state, a, ops[oi], level, ctx)
            if nxt is None:
                return
            state, a = nxt
        probe(state, a, c, ctx)
        ctx.sample({'config': vars(c), 'operations': [ops[i] for i in case[2]]})
    elif g == 'no-offsets':
        _, ck, meta = case
        for size in (1, 8, 20):
            state = must(bp.pack, spec.payload('noise', size), 8, None, [False, ck, None], {"a": 1} if meta else None)
            ctx.state(state)
            for n in (0, 1, 8, 9, 100):
                for st in (None, {'typesize': 8, 'clevel': 3, 'shuffle': True, 'cname': 'zlib'}):
                    refused(state, spec.payload('noise', n), st, 'append to an archive without offsets', ctx)
        ctx.sample({'case': case})
    elif g == 'boundary':
        # accepted exactly up to the capacity, for every size
        c = C06.CONFIGS[case[1]]
        for app in (0, 1, 2, 3):
            for size in sorted({1, c.chunk - 1, c.chunk, c.chunk + 1, c.size} - {0}):
                cc = hist.Config(size, c.chunk, c.checksum, app, c.meta, c.meta_max, c.typesize, c.mck, c.codec, c.ba)
                state = cc.build()
                a = spec.parse(state)
                ctx.state(state)
                cap = a.chunk_size - a.sizes[-1] + app * a.chunk_size
                step = max(1, a.chunk_size // 8)
                for n in sorted(set(range(0, cap + a.chunk_size + 2, step)) | {cap - 1, cap, cap + 1} - {-1}):
                    data = spec.payload('noise', n, salt=3)
                    r, after = hist.do_append(state, data)
                    ctx.count('transitions')
                    if n > cap:
                        require(not r.ok and after == state, 'append of %d bytes with room for %d: %s', n, cap, r)
                        require(isinstance(r.exc, bp.NotEnoughSpace), 'append of %d bytes with room for %d: %s', n, cap, r)
                    else:
                        require(r.ok, 'append of %d bytes with room for %d: %s', n, cap, r)
                        hist.check_append(data, a, state, after, r.value, None, 'append of %d bytes' % n)
        ctx.sample({'case': case})
    elif g == 'meta-boundary':
        c = C06.CONFIGS[case[1]]
        # every stored size around the reservation, for incompressible and compressible values
        for mx in range(40, 90, 1):
            cc = hist.Config(c.size, c.chunk, c.checksum, 1, [0], mx, c.typesize, c.mck, c.codec, c.ba)
            state = cc.build()
            a = spec.parse(state)
            for n in range(max(1, mx - 12), mx + 12):
                for value in (spec.payload('noise', n).hex()[:n - 2] if n > 2 else 1, "e" * (n * 3), {"k": n}):
                    for kw in ({}, {'codec': 'None'}):
                        r, after = hist.do_rewrite(state, value, kw)
                        ctx.count('transitions')
                        ok, b = hist.check_rewrite(state, a, value, kw, r, after, 'metadata of %d bytes into %d' % (
                            len(json.dumps(value)), mx))
                        ctx.outcome('rewrite accepted' if ok else 'rewrite refused: %s' % type(r.exc).__name__)
            ctx.state(state)
        ctx.sample({'case': case})
    elif g == 'unknown':
        # headers that leave something unknown an append needs, as the format allows
        c = C06.CONFIGS[case[1]]
        state = c.build()
        a = spec.parse(state)
        unset = state[:a.offsets_pos] + b'\xff' * (8 * len(a.offsets)) + state[a.chunks_pos:]
        # without a number of chunks there is no reservation, and so no offsets but those of the chunks
        chunks = state[a.chunks_pos:]
        for name, s in (('chunk size', state[:8] + b'\xff' * 4 + state[12:]), ('chunk sizes', state[:8] + b'\xff' * 8 + state[16:]),
                        ('number of chunks', state[:16] + b'\xff' * 8 + bytes(8) + state[32:]),
                        ('number of chunks', state[:16] + b'\xff' * 8 + bytes(8) + state[32:a.offsets_pos] + chunks),
                        ('offsets', unset), ('offsets and last chunk', unset[:12] + b'\xff' * 4 + unset[16:])):
            for n in sorted({0, 1, 2, c.chunk - a.sizes[-1], c.chunk - a.sizes[-1] + 1, c.chunk, 3 * c.chunk}):
                data = spec.payload('noise', n, salt=3)
                for form, file_level in (('dict', False), ('dict', True)):
                    for settings in (None, (8, 3, True, 'lz4')):
                        r, after = attempt(s, data, hist.settings_arg(settings, form), form, file_level)
                        what = 'append of %d bytes to %s with unknown %s' % (n, vars(c), name)
                        ctx.count('transitions')
                        if r.ok:
                            b = hist.parse(after, what)
                            require(b.content == a.content + data, '%s: returned normally, content is %s', what, short(b.content))
                        else:
                            require(after == s, '%s: was refused (%s) but changed the archive', what, r)
                        ctx.outcome('unknown %s: %s' % (name, 'done' if r.ok else type(r.exc).__name__))
                ctx.state(s + bytes([n & 255]))
        ctx.count('traces')
    elif g == 'not-archive':
        c = C06.CONFIGS[case[1]]
        state = c.build()
        for i in range(4):
            s = bytearray(state)
            s[i] ^= 1
            refused(bytes(s), b'xyz', None, 'append to a file without the magic marker', ctx)
        for v in (0, 1, 2, 4, 255):
            s = bytearray(state)
            s[4] = v
            refused(bytes(s), b'xyz', None, 'append to an archive of format version %d' % v, ctx)
        for n in (0, 1, 16, 31, 32):
            refused(state[:n], b'xyz', None, 'append to a file of %d bytes' % n, ctx)
    ctx.count('traces')
