"""The entry points of the code under test, by the names the documentation and tests use."""
import atexit
import contextlib
import decimal
import gc
import importlib
import io
import locale
import os
import random
import signal
import sys
import threading
import warnings

warnings.simplefilter('ignore')
import blosc
import numpy
import bloscpack
from bloscpack import (abstract_io, args, checksums, cli, constants,
                       defaults, exceptions, file_io, headers, log, memory_io, metacodecs,
                       numpy_io, pretty, serializers)
from bloscpack.args import BloscArgs, BloscpackArgs, MetadataArgs, calculate_nchunks
from bloscpack.exceptions import *
random.seed(0)
append_mod = importlib.import_module('bloscpack.append')
append_fp = append_mod.append_fp
append_file = append_mod.append
rewrite_fp = append_mod._rewrite_metadata_fp


def seek_to_metadata(fp):
    # not used by tests or documentation, so it may go by another name
    seek = getattr(append_mod, '_seek_to_metadata', None)
    return seek(fp) if seek else fp.seek(32, 1)


CHECKSUM_NAMES = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']


def blosc_args(a):
    """None or (typesize, clevel, shuffle, cname)."""
    if a is None:
        return None
    return BloscArgs(typesize=a[0], clevel=a[1], shuffle=a[2], cname=a[3])


def bloscpack_args(a):
    """None or (offsets, checksum, max_app); max_app None (default), int, or 'xN+M'."""
    if a is None:
        return None
    kw = dict(offsets=a[0], checksum=a[1])
    if a[2] is not None:
        kw['max_app_chunks'] = number_or_function(a[2])
    return BloscpackArgs(**kw)


def number_or_function(x):
    if isinstance(x, str):                      # 'f:3:5' -> lambda n: 3 * n + 5
        _, m, c = x.split(':')
        m, c = int(m), int(c)
        return lambda n: m * n + c
    return x


def apply_number(x, n, default):
    if x is None:
        return default(n)
    f = number_or_function(x)
    return f(n) if callable(f) else f


def metadata_args(a):
    """None or (codec, level, checksum, max_size)."""
    if a is None:
        return None
    kw = dict(meta_codec=a[0], meta_level=a[1], meta_checksum=a[2])
    if a[3] is not None:
        kw['max_meta_size'] = number_or_function(a[3])
    return MetadataArgs(**kw)


def pack(data, chunk_size=None, ba=None, bpa=None, meta=None, ma=None):
    kw = {}
    if chunk_size is not None:
        kw['chunk_size'] = chunk_size
    return file_io.pack_bytes_to_bytes(data, metadata=meta, blosc_args=blosc_args(ba),
                                       bloscpack_args=bloscpack_args(bpa),
                                       metadata_args=metadata_args(ma), **kw)


def unpack(archive):
    return file_io.unpack_bytes_from_bytes(archive)


def write(path, data):
    with open(path, 'wb') as fp:
        fp.write(data)


def read(path):
    with open(path, 'rb') as fp:
        return fp.read()


def process_state():
    """What an operation must not leave changed in the process."""
    umask = os.umask(0o22)
    os.umask(umask)
    threads = blosc.set_nthreads(1)
    if threads != 1:
        blosc.set_nthreads(threads)
    releasegil = blosc.set_releasegil(False)
    blosc.set_releasegil(releasegil)
    return {'blosc threads': threads, 'working directory': os.getcwd(), 'umask': umask, 'log prefix': log.PREFIX, 'log level': log.LEVEL,
            'signals': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGXFSZ)],
            'environment': hash(frozenset(os.environ.items())), 'trace': sys.gettrace() is None, 'profile': sys.getprofile() is None,
            'numpy errors': str(numpy.geterr()), 'collector': (gc.isenabled(), gc.get_threshold()), 'blosc lock': releasegil,
            'numpy printing': str(numpy.get_printoptions()), 'locale': locale.setlocale(locale.LC_ALL), 'at exit': atexit._ncallbacks(),
            'random': (hash(random.getstate()), hash(str(numpy.random.get_state()))), 'recursion': sys.getrecursionlimit(),
            'switching': sys.getswitchinterval(), 'modules path': list(sys.path), 'warnings': list(map(str, warnings.filters)),
            'decimal': str(decimal.getcontext()), 'threads': threading.active_count(), 'mask': str(signal.pthread_sigmask(signal.SIG_BLOCK, []))}


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def run_cli(argv, nthreads=1):
    """The blpk command in this process: (exit status, stdout, stderr, exception or None)."""
    old, level, prefix = sys.argv, log.LEVEL, log.PREFIX
    threads = blosc.set_nthreads(1)
    sys.argv = ['blpk'] + (['-n', str(nthreads)] if nthreads else []) + list(argv)
    log.LEVEL = log.NORMAL
    status, exc = 0, None
    try:
        with quiet() as (out, err):
            try:
                cli.main()
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:          # an uncaught exception makes python exit with 1
                status, exc = 1, e
                e.__traceback__ = None
    finally:
        sys.argv, log.LEVEL, log.PREFIX = old, level, prefix
        blosc.set_nthreads(threads)
    return status, out.getvalue(), err.getvalue(), exc
