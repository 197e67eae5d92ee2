"""Runs every operation of mc.ops, and calls with arguments to be refused, in the interpreter and the
environment of this process and writes down what came out.

python ... envdriver.py SOURCES DIR RESULT SETTINGS (comma separated, see SETTINGS)"""
import os
import sys

MODES = ('ok', 'raised')


def bad_calls(bp, ops, pool, d):
    """(name, function without arguments): what has to be refused, and the borders of it."""
    import io
    import itertools
    import numpy as np
    from mc import spec
    H, M = bp.headers.BloscpackHeader, bp.headers.MetadataHeader
    plain, full = pool.archives['plain'], pool.archives['full']
    for field, values in (('format_version', (-1, 256, 'x', None)), ('checksum', ('nothing', None, 1)), ('typesize', (-1, 256, 1.5)),
                          ('chunk_size', (-2, 2 ** 31 - 16, '1M')), ('last_chunk', (-2, 2 ** 31, 3.0)), ('nchunks', (-2, 2 ** 63, None)),
                          ('max_app_chunks', (-1, 2 ** 63, 5))):
        for v in values:
            yield 'BloscpackHeader(%s=%r)' % (field, v), lambda field=field, v=v: dict(H(**{field: v}))
    yield 'last chunk', lambda: dict(H(chunk_size=3, last_chunk=4))
    yield 'too many', lambda: dict(H(nchunks=2 ** 63 - 2, max_app_chunks=2))
    for field, values in (('magic_format', (b'123456789', 'JSON', None)), ('meta_options', ('0000000', '00000002', 0)), ('meta_checksum', ('nothing',)),
                          ('meta_codec', ('nothing',)), ('meta_level', (-1, 10)), ('meta_size', (-1, 2 ** 32)), ('max_meta_size', (-1, 2 ** 32)),
                          ('meta_comp_size', (-1, 2 ** 32)), ('user_codec', (b'123456789', 'x'))):
        for v in values:
            yield 'MetadataHeader(%s=%r)' % (field, v), lambda field=field, v=v: dict(M(**{field: v}))
    for n, raw in (('header', plain[:32]), ('metadata header', full[32:64])):
        cls = H if n == 'header' else M
        for i in range(32):
            for b in (0, 1, 2, 4, 9, 127, 128, 255):
                yield '%s with %d at %d' % (n, b, i), lambda cls=cls, x=raw[:i] + bytes([b]) + raw[i + 1:]: dict(cls.decode(x))
        for k in (0, 31, 33):
            yield '%s of length %d' % (n, k), lambda cls=cls, x=(raw + raw)[:k]: dict(cls.decode(x))
    for n, c in itertools.product((-1, 0, 1, 100), (0, -1, 1, 7, 2 ** 31, '3G', '1.5B', '1Q', 'x', '', None, 2.0)):
        yield 'calculate_nchunks(%r, %r)' % (n, c), lambda n=n, c=c: bp.calculate_nchunks(n, c)
    for o, n, m in itertools.product((True, False), (-2, -1, 0, 5, 2 ** 63 - 2), (-1, 0, 3, 2 ** 64, 'x', None, 1.5, lambda n: -1, lambda n: 1.5, lambda n: n)):
        yield '_handle_max_apps(%r, %r, %s)' % (o, n, ops.plain(m)), lambda o=o, n=n, m=m: bp.args._handle_max_apps(o, n, m)
    for f in (bp.checksums.check_valid_checksum, bp.metacodecs.check_valid_codec, bp.serializers.check_valid_serializer, bp.log.set_level,
              bp.headers.check_options, bp.headers.decode_options, bp.headers.decode_metadata_options, bp.pretty.reverse_pretty):
        for v in ('nothing', '00000000', '00000100', '0000001', None, '', '5'):
            yield '%s(%r)' % (f.__name__, v), lambda f=f, v=v: f(v)
    yield 'level of a message', lambda: bp.log.verbose('x', level='nothing')
    for kind in ('BloscArgs', 'BloscpackArgs', 'MetadataArgs'):
        for how in ('get', 'set', 'del', 'update'):
            def access(kind=kind, how=how):
                x = getattr(bp, kind)()
                if how == 'get':
                    return x['nothing']
                if how == 'set':
                    x['nothing'] = 1
                elif how == 'del':
                    del x[next(iter(x))]
                else:
                    x.update(nothing=1)
                return dict(x)
            yield '%s %s' % (kind, how), access
    for n in (plain, full, pool.archives['array']):
        for cut in sorted(set(range(0, len(n), 7)) | set(range(28, 36)) | set(range(len(n) - 25, len(n)))):
            yield 'cut %d of %d' % (cut, len(n)), lambda x=n[:cut]: bp.unpack(x)
        for i in range(0, len(n), 5):
            yield 'damage at %d of %d' % (i, len(n)), lambda x=n[:i] + bytes([n[i] ^ 1]) + n[i + 1:]: bp.unpack(x)
    for typesize in (None, 0, -1, 256, 'x'):
        yield 'pack with type size %r' % typesize, lambda t=typesize: bp.pack(b'abc' * 10, ba=(t, 7, 1, 'lz4'))
    for shape, size in itertools.product(([3], [4], [5], [-1], 'x', [2, 2]), (0, 3, 4, 5)):
        def array(shape=shape, size=size):
            m = {'dtype': "'<u2'", 'shape': shape, 'order': 'C', 'container': 'numpy'}
            return bp.numpy_io.unpack_ndarray_from_bytes(spec.build([spec.compress(bytes(range(2 * size)), 2)], spec.meta_section(m), 'none', 'None'))
        yield 'array of shape %r from %d' % (shape, size), array
    for m in (None, 1, [], {}, {'container': 'x'}, {'container': 'numpy'}, {'container': 'numpy', 'dtype': "'O'", 'shape': [1], 'order': 'C'},
              {'container': 'numpy', 'dtype': "1 + 1", 'shape': [1], 'order': 'C'}, {'container': 'numpy', 'dtype': "'<u8'", 'shape': [1], 'order': 'X'}):
        yield 'array with metadata %r' % (m,), lambda m=m: bp.numpy_io.unpack_ndarray_from_bytes(bp.pack(b'12345678', meta=m))
    for c in (0, 1, 7, 8, 12, 16, 2 ** 20, '8B'):
        yield 'array in chunks of %r' % c, lambda c=c: bp.numpy_io.pack_ndarray_to_bytes(np.arange(10.0), chunk_size=c)
    for a, b in itertools.product((None, 1, bp.file_io.PlainFPSource(io.BytesIO(b'abc')), bp.memory_io.PlainMemorySink()), repeat=2):
        yield 'pack(%s, %s)' % (type(a).__name__, type(b).__name__), lambda a=a, b=b: bp.abstract_io.pack(a, b, 1, 3, 3)
        yield 'unpack(%s, %s)' % (type(a).__name__, type(b).__name__), lambda a=a, b=b: bp.abstract_io.unpack(a, b)

    def append(raw, size, **kw):
        f = io.BytesIO(raw)
        r = ops.guarded(lambda: bp.append_fp(f, io.BytesIO(b'z' * size), size, **kw))
        return [r, f.getvalue()]
    for n in ('plain', 'full', 'tight', 'damaged', 'cut', 'magic', 'version'):
        for size in (0, 5, 20, 61, 200):
            yield 'append %d to %s' % (size, n), lambda n=n, size=size: append(pool.archives[n], size)
    for k, v in (('typesize', 256), ('clevel', 10), ('shuffle', 7), ('cname', 'nothing')):
        yield 'append with %s=%r' % (k, v), lambda k=k, v=v: append(full, 70, blosc_args=bp.BloscArgs(**{k: v}))
    yield 'append with less', lambda: ops.guarded(lambda: bp.append_fp(io.BytesIO(full), io.BytesIO(b'z'), 1000))
    yield 'append without a name', lambda: append(full, 70, blosc_args={'typesize': 8})

    def rewrite(**kw):
        f = io.BytesIO(full)
        f.seek(32)
        r = ops.guarded(lambda: bp.rewrite_fp(f, **kw))
        return [r, f.getvalue()]
    for kw in ({'new_metadata': {"old": "v" * 30}}, {'new_metadata': list(range(1000))}, {'new_metadata': 1, 'checksum': 'sha512'}, {'new_metadata': 1, 'checksum': 'x'},
               {'new_metadata': 1, 'codec': 'x'}, {'new_metadata': 1, 'level': 10}, {'new_metadata': 1, 'magic_format': b'x'}, {'new_metadata': {1, 2}}, {'new_metadata': 5}):
        yield 'rewrite %r' % (kw,), lambda kw=kw: rewrite(**kw)
    for ma in ('ma_small', 'ma_bad'):
        yield 'metadata with %s' % ma, lambda ma=ma: bp.file_io.pack_bytes_to_bytes(b'x', metadata={'a': 1}, metadata_args=pool.args[ma])
    a = os.path.join(d, 'same')
    for f in (bp.file_io.pack_file_to_file, bp.file_io.unpack_file_from_file, bp.append_file):
        def same(f=f):
            bp.write(a, full)
            r = ops.guarded(lambda: f(a, a))
            return [r[:2], bp.read(a)]
        yield '%s onto itself' % f.__name__, same
    for argv in (['-n', '0', 'c', 'c'], ['-n', '257', 'c', 'c'], ['c', '-z', '0', 'c'], ['c', '-z', '1Q', 'c'], ['c', '-l', '10', 'c'], ['c', '-t', '999', 'c'], ['c', '-k', 'x', 'c'],
                 ['c', 'none'], ['d', 'none.blp'], ['d', 'c'], ['a', 'c', 'c'], ['i', 'none'], ['i', 'c'], ['d', '-e', 'd0.blp'], ['c', '-m', 'none', 'c'], ['a', 'd0.blp', 'd0.blp'],
                 ['a', '-m', 'm', 'd0.blp', 's'], [], ['-h'], ['c', '-h'], ['d', '-h'], ['a', '-h'], ['i', '-h'], ['--version']):
        yield 'blpk %s' % ' '.join(argv), lambda argv=argv: ops._cli_family(argv)(pool, d)
    # the command with the streams as they are
    def bare(argv):
        argv, sys.argv = sys.argv, ['blpk'] + argv
        level = bp.log.LEVEL
        try:
            bp.cli.main()
            return 0
        except SystemExit as e:
            return e.code
        finally:
            sys.argv = argv
            bp.log.LEVEL = level
    for argv in (['-f', 'c', 'c', 'bare.blp'], ['-n', '1', '-v', '-f', 'd', 'bare.blp', 'bare'], ['-d', 'a', 'bare.blp', 'c'], ['i', 'bare.blp'], ['i', 'c'], ['d', 'bare.blp'],
                 ['-h'], ['--version'], ['x']):
        def streams(argv=argv):
            here = os.getcwd()
            os.chdir(d)
            try:
                r = ops.guarded(lambda: bare(argv))
                return [r, [bp.read(f) if os.path.exists(f) else None for f in ('bare.blp', 'bare')]]
            finally:
                os.chdir(here)
        yield 'blpk %s to its streams' % ' '.join(argv), streams
    # numbers, names and metadata of all kinds as text
    for v in (0, 1, 1023, 1024, 1536, 10 ** 6, 2 ** 31 - 17, 2 ** 50, 1.5):
        yield 'double_pretty_size(%r)' % v, lambda v=v: bp.pretty.double_pretty_size(v)
    for v in ('1.5K', '0.1M', '2G', '1,5K', '1e3B', ' 1K', '1_0K', '\u0661K'):
        yield 'reverse_pretty(%a)' % v, lambda v=v: bp.pretty.reverse_pretty(v)
    for m in ({'\xe9': '\u4e2d'}, 1.1, 1e300, 10 ** 18, 10 ** 700, [None, True, {}], '\ud800', 'I\u0130\u0131', float('inf')):
        yield 'metadata %a' % (m,), lambda m=m: [bp.pack(b'x', meta=m), bp.unpack(bp.pack(b'x', meta=m))[1]]


def everything(where, result):
    import json
    from mc import bp, ops
    found = {}
    os.chdir(where)
    d = os.path.join(where, 'd')
    os.makedirs(d, exist_ok=True)

    def keep(name, r):
        # the text of an error of the system may be in any language
        if r[0] == 'raised' and r[1] in ('FileNotFoundError', 'PermissionError', 'IsADirectoryError', 'OSError'):
            r = r[:2]
        found[name.encode('ascii', 'backslashreplace').decode()] = r
    for name in ops.OPS:
        keep(name, ops.run_op(name, ops.make_pool(), d))
    for family in ops.FAMILIES:
        for name in ops.FAMILIES[family]:
            keep('%s: %s' % (family, name), ops.run_family(family, name, ops.make_pool(), d))
    for name, fn in bad_calls(bp, ops, ops.make_pool(), d):
        keep('call ' + name, ops.guarded(fn))
    with open(result, 'w', encoding='ascii') as fp:
        json.dump(found, fp)


def deep(n, fn):
    return deep(n - 1, fn) if n else fn()


def main(sources, where, result, settings):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [here, sources] + [p for p in sys.path if p and os.path.abspath(p) != os.path.join(here, 'mc')]
    from mc import bp, ops
    import decimal
    import gc
    import locale
    import resource
    import threading
    import time
    import warnings
    import blosc
    import numpy
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    if sys.flags.bytes_warning > 1:
        warnings.simplefilter('error', BytesWarning)
    blosc.set_nthreads(1)
    run = lambda: everything(where, result)
    for s in settings:
        name, _, value = s.partition('=')
        if name == 'locale':
            locale.setlocale(locale.LC_ALL, '')
        elif name == 'warnings':
            warnings.resetwarnings()
            warnings.simplefilter(value)
        elif name == 'threads':
            blosc.set_nthreads(int(value))
        elif name == 'releasegil':
            blosc.set_releasegil(True)
        elif name == 'nogc':
            gc.disable()
        elif name == 'eagergc':
            gc.set_threshold(1)
        elif name == 'umask':
            os.umask(int(value, 8))
        elif name == 'numpy':
            numpy.seterr(all='raise')
            numpy.set_printoptions(precision=1, threshold=1, edgeitems=1, linewidth=1, legacy=value)
        elif name == 'decimal':
            decimal.setcontext(decimal.Context(prec=1, traps=[decimal.Inexact]))
        elif name == 'files':
            resource.setrlimit(resource.RLIMIT_NOFILE, (int(value), int(value)))
        elif name == 'user':
            os.chown(where, 65534, 65534)
            os.chown(os.path.dirname(result), 65534, 65534)
            os.setegid(65534)
            os.seteuid(65534)
        elif name == 'std':
            for n in value.split('+'):
                setattr(sys, n, None)
        elif name == 'close':
            os.close(int(value))
        elif name == 'switch':
            sys.setswitchinterval(float(value))
        elif name == 'trace':
            sys.settrace(lambda *a: None)
        elif name == 'profile':
            sys.setprofile(lambda *a: None)
        elif name == 'deep':
            run = lambda run=run, n=int(value): deep(n, run)
        elif name == 'thread':
            def run(run=run, size=int(value)):
                failed = []

                def target():
                    try:
                        run()
                    except BaseException as e:
                        failed.append(e)
                threading.stack_size(size)
                t = threading.Thread(target=target)
                t.start()
                t.join()
                if failed:
                    raise failed[0]
        elif name == 'fork':
            def run(run=run):
                pid = os.fork()
                if pid == 0:
                    status = 3
                    try:
                        run()
                        status = 0
                    finally:
                        os._exit(status)
                if os.waitpid(pid, 0)[1] != 0:
                    raise RuntimeError('the forked process failed')
        elif name == 'asyncio':
            def run(run=run):
                import asyncio

                async def job():
                    run()
                asyncio.run(job())
        elif name == 'clock':
            time.time = lambda t=float(value): t
        elif name:
            raise RuntimeError('unknown setting %s' % s)
    run()


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4].split(',') if len(sys.argv) > 4 else [])
