import gc
import io
import json
import os

import numpy as np

from checks import C11, C12
from mc import bp, hist, interrupt, ops, spec
from mc.core import Violation, HarnessError, call, in_child, must, require, short

PROPERTY = 'C29'
LEVEL = 'fault_enumeration'
RULE = ('an exception (Ctrl-C; thorough: MemoryError as well) is raised at a line of bloscpack that an operation executes: the first 60 '
        'lines executed and every line of the source the first and last time it is executed (thorough: every executed line). history: each '
        'operation of mc/ops.py is interrupted at each of these lines, one after the other in one process; after each interruption '
        'the exception must have reached the caller, no file may be open, option objects, inputs and the state of the process (Blosc\'s threads, log level, signals, working directory ...) must be unchanged and the operation '
        'run again must give what it gives alone; every 20 interruptions a part of the alphabet is run and compared as well. pack, append, '
        'command: the files left over after each interruption are judged as in C11 and C12, inputs must be unchanged, and the operation run '
        'again must succeed. Non-trivial: distinct (operation, source line, exception).')
ASSUMPTIONS = ['a with or close statement that is itself interrupted, or the handling of another exception, may leave a file open',
               'the exception arrives between two lines of bloscpack, not inside of the libraries it calls']
BLOCK = 1
NAMES = list(ops.OPS)
FAMS = [(f, n) for f in ('append', 'array', 'pack', 'unpack', 'rewrite', 'cli') for n in ops.FAMILIES[f]]
REF = {}
SNAP = {}
STEP = 25


def run_one(name, pool, d):
    """Like ops.run_op; an interrupted command is reported by run_cli as an exit status."""
    if isinstance(name, tuple):
        return ops.run_family(name[0], name[1], pool, d)
    return ops.run_op(name, pool, d)


def setup(ctx):
    os.mkdir(ctx.path('ops'))


def reference(name, d):
    if name not in REF:
        def ref():
            with bp.quiet():
                return run_one(name, ops.make_pool(), d)
        REF[name] = in_child(ref)
        if not SNAP:
            SNAP.update(ops.snapshot(ops.make_pool()))
    return REF[name]


def cases(tier):
    deep = tier == 'thorough'
    for exc in (0, 1) if deep else (0,):
        for i in range(len(NAMES)):
            for part in range(8):
                yield ['history', i, part, exc]
        for i in range(len(FAMS)):
            for part in range(2) if not deep else range(8):
                yield ['family', i, part, exc]
    for i in range(len(NAMES)):
        yield ['files closed', i]
    for what in FILE_CALLS:
        for meta in (0, 1):
            for level in range(3):
                yield ['refused', what, meta, level]
    for exc in (0, 1):
        for what in PACKS:
            for ck in ('None', 'md5'):
                for part in range(2):
                    yield ['pack', what, ck, part, exc]
        for si in range(len(C12.SHAPES)):
            for ai in range(len(C12.ADDS)):
                for what in ('append_fp', 'append'):
                    yield ['append', what, si, ai, exc]
        for i in range(len(COMMANDS)):
            for part in range(4):
                yield ['command', i, part, exc]


EXC = [interrupt.Interrupt, interrupt.NoMemory]


def chosen(lines, tier):
    if tier == 'thorough':
        return list(range(len(lines)))
    return interrupt.points(lines, 60, 1)


def part_of(points, part, parts):
    n = -(-len(points) // parts)
    return points[part * n:(part + 1) * n]


def closed(what, before, shot=None):
    if shot is not None and shot.closing:
        before[:] = interrupt.open_files()
        return
    now = interrupt.open_files()
    if now != before:
        gc.collect()
        now = interrupt.open_files()
    require(now == before, '%s leaves open %s', what, [f for f in now if f not in before])


def run(case, ctx):
    g = case[0]
    d = ctx.path('ops')
    exc = EXC[case[-1]] if g not in ('files closed', 'refused') else None
    if g in ('history', 'family'):
        name = NAMES[case[1]] if g == 'history' else FAMS[case[1]]
        ref = reference(name, d)
        step = 7 if g == 'history' else 13
        others = [NAMES[(case[1] * 5 + k * step) % len(NAMES)] for k in range(8)]
        for o in others:
            reference(o, d)
        parts = 8 if g == 'history' or ctx.tier == 'thorough' else 2

        def body():
            bp.blosc.set_nthreads(3)        # unlike anything an operation could set
            bp.log.LEVEL = bp.log.VERBOSITY_LEVELS[(case[1] + case[2]) % 3]
            pool = ops.make_pool()
            run_one_quiet(name, pool, d)
            count = interrupt.Shot()
            with bp.quiet():
                count.run(lambda: run_one(name, pool, d))
            before = interrupt.open_files()
            level = bp.log.LEVEL
            process = bp.process_state()
            require(process['blosc threads'] == 3, '%s leaves Blosc set to %s threads', name, process['blosc threads'])
            reached = []
            todo = part_of(chosen(count.lines, ctx.tier), part=case[2], parts=parts)
            for k, at in enumerate(todo):
                shot = interrupt.Shot(at, exc)
                with bp.quiet():
                    got, e = shot.run(lambda: run_one(name, pool, d))
                if shot.where is None:
                    reached.append(None)        # fewer lines are executed than the first time
                    continue
                what = '%r interrupted at line %d executed, %s' % (name, at, shot.where)
                is_command = 'cli' in str(name)
                through = isinstance(e, exc) or (exc is interrupt.NoMemory and got == ['raised', 'NoMemory', 'interrupted']) or \
                    (isinstance(got, list) and got and got[0] == 'ok' and isinstance(got[1], list) and got[1] and
                     (got[1][0] == 'int 1' if is_command else got[1][0] == ['str %r' % 'raised', 'str %r' % 'NoMemory', 'str %r' % 'interrupted']))
                require(through, '%s: the exception does not reach the caller: %s %s', what, short(got), short(e))
                got = e = None
                closed(what, before, shot)
                state = bp.process_state()
                for key in process:
                    require(state[key] == process[key], '%s: %s: %s, was %s', what, key, state[key], process[key])
                require(bp.log.LEVEL == level, '%s: the log level is %s, was %s', what, bp.log.LEVEL, level)
                snap = ops.snapshot(pool)
                for key in SNAP:
                    if key == 'the process':
                        continue
                    require(snap.get(key) == SNAP[key], '%s: %s is %s, was %s', what, key, snap.get(key), SNAP[key])
                again = run_one_quiet(name, pool, d)
                require(again == ref, '%s: run again it gives %s, alone %s', what, short(again, 300), short(ref, 300))
                reached.append(shot.where)
                if k % 20 == 19 or k == len(todo) - 1:
                    for o in others:
                        got = run_one_quiet(o, pool, d)
                        require(got == REF[o], '%s, and others before: then %r gives %s, alone %s', what, o, short(got, 300), short(REF[o], 300))
            return reached
        reached = in_child(body)
        missed = reached.count(None)
        require(not missed or missed < len(reached) // 2 + 20, 'harness: %d of %d lines are not executed again', missed, len(reached))
        for w in filter(None, reached):
            ctx.nontrivial(name, w, case[-1])
        ctx.count('interruptions', len(reached) - missed)
        ctx.count('lines not executed again', missed)
        ctx.sample({'case': case, 'operation': name, 'interruptions': len(reached), 'last at': reached[-1] if reached else None})
    elif g == 'files closed':
        name = NAMES[case[1]]

        def body():
            pool = ops.make_pool()
            run_one_quiet(name, pool, d)
            before = interrupt.open_files()
            for i in range(2):
                run_one_quiet(name, pool, d)
                closed(name, before)
        before = interrupt.open_files()
        in_child(body)
        ctx.nontrivial(name)
    elif g == 'refused':
        refused(case, ctx)
    elif g == 'pack':
        _, what, ck, part, _ = case
        d = ctx.path('ops')
        data = spec.payload('noise', 700)
        arr = np.frombuffer(data, '<u2').reshape(50, 7)
        bp.write('in.bin', data)
        bpa = bp.bloscpack_args((True, ck, 2))
        fn = lambda: PACKS[what](data, arr, bpa)
        must(fn)
        final = bp.read('out.blp')
        f = spec.parse(final)
        is_array = 'ndarray' in what
        before = interrupt.open_files()
        for prior in (None, b'\x00' * 50, must(bp.pack, b'previous' * 400, 64)):
            def prepare():
                if os.path.exists('out.blp'):
                    os.unlink('out.blp')
                if prior is not None:
                    bp.write('out.blp', prior)
            prepare()
            count = interrupt.Shot()
            count.run(fn)
            for at in part_of(chosen(count.lines, ctx.tier), part, 2):
                prepare()
                shot = interrupt.Shot(at, exc)
                _, e = shot.run(fn)
                w = '%s interrupted at %s (line %d executed)' % (what, shot.where, at)
                require(isinstance(e, exc), '%s: the exception does not reach the caller', w)
                e = None
                closed(w, before, shot)
                state = bp.read('out.blp') if os.path.exists('out.blp') else b''
                if state != (prior or b''):
                    C11.check(state, f, final, data, w, ctx, arr if is_array else None)
                require(bp.read('in.bin') == data, '%s: the input changed', w)
                ctx.nontrivial(what, shot.where, case[-1], prior is None)
                ctx.count('interruptions')
            must(fn)
            require(bp.read('out.blp') == final, '%s again gives another archive', what)
    elif g == 'append':
        _, what, si, ai, _ = case
        size, chunk, app, meta, mx, ba = C12.SHAPES[si]
        before = C12.C(size, chunk, 'sha1', app, meta, mx, ba[0], 'adler32', 'None', ba).build()
        a = spec.parse(before)
        room = chunk - a.sizes[-1]
        rel, n = C12.ADDS[ai]
        data = spec.payload('noise', max(0, {'abs': 0, 'room': room, 'two': room + 2 * chunk}[rel] + n), salt=8)
        c = C12.Case(before, data, None)
        files = interrupt.open_files()
        bp.write('n.bin', data)
        last = {}

        def fn():
            if what == 'append':
                bp.append_file('o.blp', 'n.bin')
            else:
                last['fp'] = io.BytesIO(before)
                bp.append_fp(last['fp'], io.BytesIO(data), len(data))
        bp.write('o.blp', before)
        count = interrupt.Shot()
        r, e = count.run(fn)
        require(e is None, 'the append itself fails: %s', e)
        sizes = sorted({1, room, chunk + 1})
        for at in chosen(count.lines, ctx.tier):
            bp.write('o.blp', before)
            shot = interrupt.Shot(at, exc)
            last['fp'] = io.BytesIO(before)
            _, e = shot.run(fn)
            w = '%s of %d bytes to %d interrupted at %s (line %d executed)' % (what, len(data), size, shot.where, at)
            require(isinstance(e, exc), '%s: the exception does not reach the caller', w)
            e = None
            closed(w, files, shot)
            state = bp.read('o.blp') if what == 'append' else last['fp'].getvalue()
            ctx.nontrivial(what, shot.where, case[-1])
            ctx.count('interruptions')
            if ctx.state(state):
                c.check(state, w, ctx)
                c.later(state, w, ctx, sizes, False)
            require(bp.read('n.bin') == data, '%s: the new data changed', w)
    else:
        _, i, part, _ = case
        argv, out, inputs = COMMANDS[i]
        data = spec.payload('text', 500)
        chunks = [spec.compress(spec.payload('text', 20, j), 8, 5) for j in range(4)]
        content = {'c': data, 's': b'ab' * 20, 'm': b'{"a": 1}',
                   'd.blp': spec.build(chunks, spec.meta_section({"old": "v" * 30}, 'zlib', 6, 'adler32', 90), 'set', 'sha1', 9, 8, 20, 20)}

        def prepare():
            for name in os.listdir('.'):
                if os.path.isfile(name):
                    os.unlink(name)
            for name, v in content.items():
                bp.write(name, v)

        def fn():
            return bp.run_cli(argv)
        here = os.getcwd()
        os.makedirs(ctx.path('command'), exist_ok=True)
        os.chdir(ctx.path('command'))
        try:
            prepare()
            count = interrupt.Shot()
            (st, _, err, e), _ = count.run(fn)
            require(st == 0, 'the command %s itself fails: %s', argv, err)
            want = {name: bp.read(name) for name in os.listdir('.')}
            files = interrupt.open_files()
            for at in part_of(chosen(count.lines, ctx.tier), part, 4):
                prepare()
                shot = interrupt.Shot(at, exc)
                (st, _, _, e), _ = shot.run(fn)
                w = '%s interrupted at %s (line %d executed)' % (argv, shot.where, at)
                require(st != 0, '%s: exits with 0', w)
                e = None
                closed(w, files, shot)
                for name in content:
                    if name in inputs:
                        require(bp.read(name) == content[name], '%s: %s changed', w, name)
                extra = [name for name in os.listdir('.') if name not in content and name != out]
                require(not extra, '%s: leaves %s', w, extra)
                if os.path.exists(out) and bp.read(out) not in (want[out], content.get(out)):
                    state = bp.read(out)
                    if argv[0] == 'c':
                        f = spec.parse(want[out])
                        C11.check(state, f, want[out], f.content, w, ctx)
                    elif argv[0] == 'a':
                        c = C12.Case(content[out], content['s'], None)
                        c.check(state, w, ctx)
                    else:
                        require(want[out].startswith(state), '%s: leaves %s', w, short(state))
                ctx.nontrivial(i, shot.where, case[-1])
                ctx.count('interruptions')
                prepare()
                st = fn()[0]
                require(st == 0 and {name: bp.read(name) for name in os.listdir('.')} == want, '%s: run again it does something else (%s)', w, st)
        finally:
            os.chdir(here)


class Unprintable(object):
    pass


def raising(n):
    raise ArithmeticError('no number')


# what a call refuses: changes to the arguments
ARGUMENTS = {
    'nothing': {}, 'chunk size 0': {'chunk_size': 0}, 'chunk size x': {'chunk_size': 'x'}, 'chunk size 2**40': {'chunk_size': 2 ** 40},
    'level 10': {'blosc_args': ('clevel', 10)}, 'codec': {'blosc_args': ('cname', 'x')}, 'type size': {'blosc_args': ('typesize', 300)},
    'shuffle': {'blosc_args': ('shuffle', 9)}, 'checksum': {'bloscpack_args': ('checksum', 'x')},
    'reservation -1': {'bloscpack_args': ('max_app_chunks', -1)}, 'reservation x': {'bloscpack_args': ('max_app_chunks', 'x')},
    'reservation raises': {'bloscpack_args': ('max_app_chunks', raising)},
    'reservation huge': {'bloscpack_args': ('max_app_chunks', 2 ** 63)},
    'metadata': {'metadata': {'a': Unprintable()}}, 'section': {'metadata': {'a': 'x' * 50}, 'metadata_args': ('max_meta_size', 3)},
    'meta codec': {'metadata': {}, 'metadata_args': ('meta_codec', 'x')}, 'meta level': {'metadata': {}, 'metadata_args': ('meta_level', 77)},
    'meta checksum': {'metadata': {}, 'metadata_args': ('meta_checksum', 'x')}, 'meta format': {'metadata': {}, 'metadata_args': ('magic_format', b'x')},
    'meta size raises': {'metadata': {}, 'metadata_args': ('max_meta_size', raising)},
}
CLASSES = {'blosc_args': bp.BloscArgs, 'bloscpack_args': bp.BloscpackArgs, 'metadata_args': bp.MetadataArgs}


def arguments(name, only=None):
    kw = {}
    for key, v in ARGUMENTS[name].items():
        if key in CLASSES:
            obj = CLASSES[key]()
            obj[v[0]] = v[1]
            v = obj
        if only is None or key in only:
            kw[key] = v
    return kw


FILE_CALLS = {
    'pack_file_to_file': lambda i, o, kw: bp.file_io.pack_file_to_file(i, o, **dict({'chunk_size': 100}, **kw)),
    'pack_bytes_to_file': lambda i, o, kw: bp.file_io.pack_bytes_to_file(bp.read(i), o, **dict({'chunk_size': 100}, **kw)),
    'pack_ndarray_to_file': lambda i, o, kw: bp.numpy_io.pack_ndarray_to_file(
        np.array([None, 1], object) if i == 'object' else np.zeros(3, 'S300') if i == 'wide' else np.frombuffer(bp.read(i), '<u2'), o,
        **{k: v for k, v in dict({'chunk_size': 100}, **kw).items() if k != 'metadata'}),
    'unpack_file_from_file': lambda i, o, kw: bp.file_io.unpack_file_from_file(i, o),
    'unpack_bytes_from_file': lambda i, o, kw: bp.file_io.unpack_bytes_from_file(i),
    'unpack_ndarray_from_file': lambda i, o, kw: bp.numpy_io.unpack_ndarray_from_file(i),
    'append': lambda i, o, kw: bp.append_file(o, i, **kw),
    'append to': lambda i, o, kw: bp.append_file(i, o, **kw),
}


def refused(case, ctx):
    """Calls ended by an error of their own: the same promises."""
    _, what, with_meta, level = case
    fn = FILE_CALLS[what]
    data = spec.payload('noise', 90)
    arr = {'dtype': "'<u2'", 'shape': [45], 'order': 'C', 'container': 'numpy'}
    section = spec.meta_section(arr, 'zlib', 6, 'sha1', 200) if with_meta else None
    archive = spec.build([spec.compress(data[i:i + 30], 2, 5) for i in (0, 30, 60)], section, 'set', 'crc32', 3, 2, 30, 30)
    here = os.getcwd()
    os.makedirs(ctx.path('refused'), exist_ok=True)
    os.chdir(ctx.path('refused'))
    try:
        for f in os.listdir('.'):
            if os.path.isfile(f):
                os.unlink(f)
        os.makedirs('dir', exist_ok=True)
        bp.log.LEVEL = bp.log.VERBOSITY_LEVELS[level]
        process = bp.process_state()
        files = interrupt.open_files()

        def attempt(name, i, o, kw, inputs):
            """One call; inputs are files it must not change."""
            content = {f: bp.read(f) for f in os.listdir('.') if os.path.isfile(f)}
            objects = {k: repr(v) for k, v in kw.items()}
            w = '%s, %s' % (what, name)
            with bp.quiet():
                try:
                    fn(i, o, kw)
                    e = None
                except Exception as exc:
                    e = repr(exc)[:80]
                    now = interrupt.open_files()
                    require(now == files, '%s: %s leaves open %s while it is handled', w, e, [f for f in now if f not in files])
            now = interrupt.open_files()
            require(now == files, '%s: leaves open %s', w, [f for f in now if f not in files])
            for f in content:
                if f in inputs:
                    require(os.path.exists(f) and bp.read(f) == content[f], '%s: %s changed', w, f)
            extra = [f for f in os.listdir('.') if f not in content and f not in ('dir', o)]
            require(not extra, '%s: leaves %s', w, extra)
            require({k: repr(v) for k, v in kw.items()} == objects, '%s: an argument changed: %s, was %s', w, kw, objects)
            state = bp.process_state()
            for key in process:
                require(state[key] == process[key], '%s: %s: %s, was %s', w, key, state[key], process[key])
            ctx.count('calls')
            ctx.outcome('%s: %s' % (what, 'succeeds' if e is None else e.split('(')[0]))
            if e is not None:
                ctx.nontrivial(what, with_meta, name)
            for f in os.listdir('.'):
                if os.path.isfile(f) and f not in content:
                    os.unlink(f)
            for f in content:
                bp.write(f, content[f])
            return e

        bp.write('plain', data)
        bp.write('good.blp', archive)
        packs = what.startswith('pack')
        source = 'plain' if packs or what == 'append' else 'good.blp'
        target = {'append': 'good.blp', 'append to': 'plain'}.get(what, 'out')
        ok = []
        if with_meta or what != 'unpack_ndarray_from_file':
            ok = [attempt('nothing wrong', source, target, {}, (source,) if what != 'append to' else (target,))]
        require(ok in ([], [None]), '%s fails: %s', what, ok)
        places = [('missing', target), ('dir', target), (source, 'missing/out'), (source, 'dir'), ('missing', 'dir'), ('', target), (source, '')]
        if what == 'pack_ndarray_to_file':
            places += [('object', target), ('wide', target)]
        for i, o in places:
            if what in ('unpack_bytes_from_file', 'unpack_ndarray_from_file') and i == source or what == 'pack_ndarray_to_file' and i in ('missing', 'dir', ''):
                continue
            e = attempt('from %r to %r' % (i, o), i, o, {}, ('plain', 'good.blp'))
            require(e is not None, '%s from %r to %r succeeds', what, i, o)
        if packs or what.startswith('append'):
            for name in ARGUMENTS:
                kw = arguments(name, None if packs else ('blosc_args',))
                attempt(name, source, target, kw, (source,) if what != 'append to' else (target,))
            if packs:
                for prior in (b'', b'previous' * 300):
                    bp.write('out', prior)
                    for name in ARGUMENTS:
                        attempt(name + ' onto a file', source, 'out', arguments(name), (source,))
                os.unlink('out')
        if not packs:
            which = 'good.blp'
            unchanged = ('plain',) if what.startswith('append') else ('plain', 'good.blp')
            for k in range(len(archive)):
                for x in (1, 0x80) if ctx.tier == 'quick' else (1, 2, 4, 8, 16, 32, 64, 128, 255):
                    bad = bytearray(archive)
                    bad[k] ^= x
                    bp.write(which, bytes(bad))
                    attempt('byte %d ^ %#x' % (k, x), source, target, {}, unchanged)
                bp.write(which, archive[:k])
                attempt('cut off at %d' % k, source, target, {}, unchanged)
            bp.write(which, archive)
        if what.startswith('append'):
            for size in (0, 1, 29, 30, 31, 60, 61, 200):
                bp.write('plain', spec.payload('noise', size))
                for app in (0, 1, 2):
                    for ck in ('None', 'sha512'):
                        for off in ('set', 'none'):
                            a = spec.build([spec.compress(data[i:i + 30], 2, 5) for i in (0, 30, 60)], section, off, ck, app, 2, 30, 30)
                            bp.write('good.blp', a)
                            attempt('%d bytes, room for %d, %s' % (size, app, off), source, target, {}, ('plain',))
    finally:
        os.chdir(here)
        bp.log.LEVEL = bp.log.NORMAL


def run_one_quiet(name, pool, d):
    with bp.quiet():
        return run_one(name, pool, d)


BA = (2, 5, 1, 'lz4')
PACKS = {
    'pack_file_to_file': lambda data, arr, bpa: bp.file_io.pack_file_to_file('in.bin', 'out.blp', 100, {"a": 1}, bp.blosc_args(BA), bpa,
                                                                             bp.metadata_args(('zlib', 6, 'sha1', 60))),
    'pack_bytes_to_file': lambda data, arr, bpa: bp.file_io.pack_bytes_to_file(data, 'out.blp', 100, None, bp.blosc_args(BA), bpa),
    'pack_ndarray_to_file': lambda data, arr, bpa: bp.numpy_io.pack_ndarray_to_file(arr, 'out.blp', 100, bp.blosc_args(BA), bpa),
}
COMMANDS = [
    (['c', '-z', '100', 'c'], 'c.blp', ('c', 's', 'm', 'd.blp')), (['c', '-z', '100', '-m', 'm', '-k', 'md5', 'c', 'x'], 'x', ('c', 's', 'm', 'd.blp')),
    (['d', '-e', 'd.blp', 'o'], 'o', ('c', 's', 'm', 'd.blp')), (['a', 'd.blp', 's'], 'd.blp', ('c', 's', 'm')),
    (['i', 'd.blp'], 'nothing', ('c', 's', 'm', 'd.blp'))]
