import ast
import contextlib
import ctypes
import io
import itertools
import json
import os
import struct
import sys

import numpy as np

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('Exhaustive lists of up to three chunk sizes around what each declared dtype and shape needs, lying chunk headers, '
        'malformed declarations, every kind of other metadata and texts that are code (a grammar of effects and contexts, watched by an audit hook), through files, bytes, file pointers and memory. A '
        'stand-in for blosc.decompress_ptr compares each write with the bounds of the arrays allocated (and does not '
        'perform one outside), and numpy.empty hands out memory with a known pattern. Non-trivial: distinct archives.')
ASSUMPTIONS = ['result arrays are allocated through numpy.empty, zeros, ndarray or full']
BLOCK = 16
DECLS = [("'<i4'", [3]), ("'<f8'", [2, 2]), ("'|u1'", [5]), ("'|u1'", [0]), ("'<i4'", []), ("'|S3'", [2, 1, 2]),
         ("[('a', '<i4'), ('b', '>u2')]", [2]), ("[('a', '|u1'), ('', '|V3'), ('b', '<f4')]", [3]), ("'<u8'", [0, 4])]


def need(decl):
    d = decl[0]
    size = {"'<i4'": 4, "'<f8'": 8, "'|u1'": 1, "'|S3'": 3, "'<u8'": 8}.get(d, 6 if '>u2' in d else 8)
    n = 1
    for s in decl[1]:
        n *= s
    return size * n


def cases(tier):
    deep = tier == 'thorough'
    for di in range(len(DECLS)):
        t = need(DECLS[di])
        sizes = sorted({s for s in (0, 1, 2, t // 2, t - t // 2, t - 1, t, t + 1, t + 8, 2 * t, 1000) if s >= 0})
        for n in (1, 2, 3) + ((4,) if deep else ()):
            for chunks in itertools.product(sizes, repeat=n):
                if n < 3 or deep or sum(chunks) <= 2 * t + 9:
                    yield ['sizes', di, list(chunks)]
    for di in range(len(DECLS)):
        for ci in range(12):
            yield ['lying', di, ci]
    for i in range(len(OTHER)):
        yield ['other', i]
    for i in range(len(BAD)):
        yield ['bad', i]
    for i in range(0, len(expressions(tier)), 8):
        yield ['code', i]
    for n in (1, 4, 8, 16, 100):
        for m in (1, 3, 16):
            yield ['appended', n, m]
    for n in (2 ** 16, 2 ** 20 + 4, 2 ** 22):
        for d in (-4, -1, 1, 4, 4096, 2 ** 20):
            yield ['large', n, d]


def meta(decl, order='C'):
    return {'dtype': decl[0], 'shape': decl[1], 'order': order, 'container': 'numpy'}


OTHER = [None, {}, [], "numpy", "container", 0, 1, True, False, 1.5, "", ["container"], ["container", "numpy"],
         {"container": "Numpy"}, {"container": None}, {"container": ["numpy"]}, {"container": {"numpy": 1}},
         {"container": ""}, {"container": 1}, {"container": True}, {"Container": "numpy"}, {"container ": "numpy"},
         {"container": "numpy "}, {"container": "numpyx"}, {"container": "num"}, {"a": {"container": "numpy"}},
         [{"container": "numpy", "dtype": "'<i4'", "shape": [3], "order": "C"}],
         {"dtype": "'<i4'", "shape": [3], "order": "C"}, {"dtype": "'<i4'", "shape": [3], "order": "C", "container": "pandas"},
         [["container", "numpy"]], "{'container': 'numpy'}", "\u4e2d", {"": "numpy"}, {"numpy": "container"}]
BAD = [{'container': 'numpy'}, {'container': 'numpy', 'dtype': "'<i4'"}, {'container': 'numpy', 'shape': [3], 'order': 'C'},
       dict(meta(DECLS[0]), shape=[-3]), dict(meta(DECLS[0]), shape=[-1]), dict(meta(DECLS[0]), shape='3'),
       dict(meta(DECLS[0]), shape=None), dict(meta(DECLS[0]), shape=[2 ** 62]), dict(meta(DECLS[0]), shape=[2 ** 40]),
       dict(meta(DECLS[0]), shape=[1.5]), dict(meta(DECLS[0]), shape={}), dict(meta(DECLS[0]), shape=[[3]]),
       dict(meta(DECLS[0]), order='X'), dict(meta(DECLS[0]), order=None), dict(meta(DECLS[0]), order=1),
       dict(meta(DECLS[0]), dtype="'O'"), dict(meta(DECLS[0]), dtype="'|O'"), dict(meta(DECLS[0]), dtype='O'),
       dict(meta(DECLS[0]), dtype='|O8'), dict(meta(DECLS[0]), dtype="[('a', 'O')]"), dict(meta(DECLS[0]), dtype=[['a', 'O']]),
       dict(meta(DECLS[0]), dtype="[('a', '<i4'), ('n', [('m', '|O')])]"), dict(meta(DECLS[0]), dtype="[('a', 'O', (1,))]"),
       dict(meta(DECLS[0]), dtype='object'), dict(meta(DECLS[0]), dtype="'object'"),
       dict(meta(DECLS[0]), dtype="'nonsense'"), dict(meta(DECLS[0]), dtype='__import__("os")'), dict(meta(DECLS[0]), dtype=''),
       dict(meta(DECLS[0]), dtype=[]), dict(meta(DECLS[0]), dtype=5), dict(meta(DECLS[0]), dtype=None),
       dict(meta(DECLS[0]), dtype="'V0'"), dict(meta(DECLS[0]), dtype="'S'"), dict(meta(DECLS[0]), dtype="[]"),
       dict(meta(DECLS[0]), dtype="'<i4'" * 2), dict(meta(DECLS[0]), dtype={"a": 1}), dict(meta(DECLS[0]), dtype="{'names': []}")]


# Texts which are code: nothing read from an archive may be run.
EFFECTS = ["open('canary', 'w')", "__import__('os').system('touch canary')", "__import__('mc.canary')", "eval('open(\"canary\", \"w\")')",
           "exec('import mc.canary')", "(lambda: open('canary', 'w'))()", "[open('canary', 'w') for x in (1,)][0]",
           "().__class__.__base__.__subclasses__()", "numpy.save('canary', 1)", "numpy.load('canary.npy')", "np.zeros(3)", "print(1)", "globals()",
           "numpy.dtype('<u1')", "dtype('u1')", "numpy.uint8", "np.uint8", "str('<u1')", "chr(60) + 'u1'", "'<u1'.strip()", "x", "self", "metadata"]
AROUND = ['%s', '(%s)', "%s and '<u1'", "%s or '<u1'", "'<u1' if %s else '<u2'", "'<u1' or %s", "[('a', %s)]", "[('a', '<u1', %s)]", "('<u1', %s)",
          "{'names': ['a'], 'formats': [%s]}", "[%s, '<u1'][1]", "'<u1' if 1 else %s", "not %s", "-%s", "%s + 1", "[%s]", "{%s}", "{'a': %s}", "f'<u{%s}'",
          "(y := %s)", "lambda: %s", "%s.a", "%s[0]", "%s()", "*%s", "'<u1', %s", "%s; '<u1'", "'<u1'\n%s", "  %s", "%s == '<u1'", "'<u1' %% %s",
          "'<u' '1' if %s else 0", "'<u1' # %s", "import os; %s", "%s for x in (1,)", "c%s\n(S'<u1'\ntR.", "!!python/object/apply:%s"]


def expressions(tier):
    return [a % e for e in EFFECTS for a in AROUND] + [
        "'<u' + '1'", "'<u1' * 1", "'<u' '1'", "('<u1')", "'<u1' if 1 else 0", "['<u1'][0]", "'%su1' % '<'", "'<u{}'.format(1)", "f'<u1'", "'<u1',", "1 + 1",
        "'<u1' and '<u2'", "None or '<u1'", "not '<u1'", "(lambda: '<u1')()", "[t for t in ('<u1',)][0]", "{'a': '<u1'}['a']", "'<u1'[:]", "'1u<'[::-1]", "b'<u1'",
        "u'<u1'", "r'<u1'", "'\\x3cu1'", "  '<u1'", "'<u1'  ", "\t'<u1'", "'<u1'\n", "('<u1',)", "'''<u1'''", "0x1", "1j", "...", "Ellipsis", "__debug__"]


EXECUTED = []
WATCH = []


def watch(event, args):
    if WATCH and event in ('exec', 'import', 'os.system', 'subprocess.Popen', 'pickle.find_class', 'os.exec', 'os.fork'):
        EXECUTED.append('%s %s' % (event, str(args)[:80]))


def code(start, ctx):
    if not any(f.__name__ == 'watch' for f in HOOKED):
        sys.addaudithook(watch)
        HOOKED.append(watch)
    for text in expressions(ctx.tier)[start:start + 8]:
        try:
            known = ast.literal_eval(text)
        except Exception:
            known = text                    # names a data type, or nothing
        try:
            size = np.dtype([tuple(x) for x in known] if isinstance(known, list) else known).itemsize
        except Exception:
            size = None
        docs = [(dict(meta(("", [3])), dtype=text), None)]
        docs += [(dict(meta(DECLS[2]), shape=text), 0), (dict(meta(DECLS[2]), order=text), 0), (dict(meta(DECLS[2]), shape=[text]), 0),
                 ({'container': text}, 0), (text, 0)]
        for value, refuse in docs:
            archive = spec.build([spec.compress(b'abc', 1)], spec.meta_section(value), 'set', 'crc32', chunk_size=-1, last_chunk=-1)
            bp.write('code.blp', archive)
            for name, f in (('bytes', lambda: bp.numpy_io.unpack_ndarray_from_bytes(archive)),
                            ('file', lambda: bp.numpy_io.unpack_ndarray_from_file('code.blp')),
                            ('memory', lambda: bp.numpy_io.PlainNumpySink(value).ndarray),
                            ('plain', lambda: bp.file_io.unpack_bytes_from_bytes(archive))):
                with bp.quiet():
                    call(f)                 # imports of its own are over
                    WATCH.append(1)
                    try:
                        r = call(f)
                    finally:
                        WATCH.pop()
                what = 'metadata %s (%s)' % (short(value, 200), name)
                done, EXECUTED[:] = list(EXECUTED), []
                require(not done, '%s: runs code: %s', what, done[:3])
                require(not os.path.exists('canary') and not os.path.exists('canary.npy'), '%s: the code in it ran', what)
                if name != 'plain':
                    require(not r.ok or refuse is None and size == 1, '%s: accepted as %s', what, short(r.value if r.ok else None))
                else:
                    require(r.ok and r.value == (b'abc', value), '%s: gives %s', what, r)
                ctx.outcome('array' if r.ok else 'refused')
            ctx.count('evaluations')
            ctx.state(archive)
        # a section which is no JSON
        for raw in (text, "{'container': 'numpy', 'dtype': %s, 'shape': [3], 'order': 'C'}" % text):
            try:
                json.loads(raw)
                continue
            except ValueError:
                pass
            archive = spec.build([spec.compress(b'abc', 1)], spec.meta_section(None, text=raw), 'set', 'crc32', chunk_size=-1, last_chunk=-1)
            for f in (lambda: bp.numpy_io.unpack_ndarray_from_bytes(archive), lambda: bp.file_io.unpack_bytes_from_bytes(archive)):
                with bp.quiet():
                    call(f)
                    WATCH.append(1)
                    try:
                        r = call(f)
                    finally:
                        WATCH.pop()
                done, EXECUTED[:] = list(EXECUTED), []
                require(not done and not os.path.exists('canary') and not os.path.exists('canary.npy'), 'metadata section %r: runs code: %s', raw, done[:3])
                require(not r.ok, 'metadata section %r: accepted as %s', raw, short(r.value if r.ok else None))


HOOKED = []


class Guard(object):
    """Arrays allocated while unpacking, and the writes into them."""

    def __init__(self):
        self.arrays = []
        self.writes = 0

    def note(self, a):
        if isinstance(a, np.ndarray):
            self.arrays.append((a.__array_interface__['data'][0], a.nbytes, a.dtype.hasobject, a))
        return a

    def check(self, ptr, n):
        self.writes += 1
        for start, size, hasobject, _ in self.arrays:
            if start <= ptr <= start + size:
                if ptr + n > start + size:
                    raise Violation('writes %d bytes to offset %d of an array of %d bytes' % (n, ptr - start, size))
                if hasobject and n:
                    raise Violation('writes bytes of the archive into an array of object pointers')
                return
        if self.arrays:
            raise Violation('writes %d bytes to memory outside every array it allocated' % n)


@contextlib.contextmanager
def guarded():
    g = Guard()
    old = {n: getattr(np, n) for n in ('empty', 'zeros', 'full')}
    real = bp.blosc.decompress_ptr

    def empty(*a, **kw):
        v = old['empty'](*a, **kw)
        if v.nbytes <= 2 ** 26 and not v.dtype.hasobject and v.nbytes:
            ctypes.memset(v.__array_interface__['data'][0], 0xa5, v.nbytes)
        return g.note(v)

    def decompress_ptr(bytesobj, address, *a, **kw):
        n = struct.unpack_from('<I', bytes(bytesobj[:8]), 4)[0]
        g.check(address, n)
        return real(bytesobj, address, *a, **kw)
    np.empty = empty
    np.zeros = lambda *a, **kw: g.note(old['zeros'](*a, **kw))
    np.full = lambda *a, **kw: g.note(old['full'](*a, **kw))
    bp.blosc.decompress_ptr = decompress_ptr
    try:
        yield g
    finally:
        for n, f in old.items():
            setattr(np, n, f)
        bp.blosc.decompress_ptr = real


def readers(archive, chunks, value):
    ni = bp.numpy_io
    yield 'bytes', lambda: ni.unpack_ndarray_from_bytes(archive)
    bp.write('x.blp', archive)
    yield 'file', lambda: ni.unpack_ndarray_from_file('x.blp')
    yield 'fp', lambda: ni.unpack_ndarray(bp.file_io.CompressedFPSource(io.BytesIO(archive)))
    if chunks is not None:
        def memory():
            sink = bp.memory_io.CompressedMemorySink()
            sizes = [len(c) for c in chunks]
            n, last = max(sizes), sizes[-1]
            if any(s != n for s in sizes[:-1]):
                # chunks of different sizes: the header says that it doesn't know
                n = last = -1
            bp.abstract_io.pack(bp.memory_io.PlainMemorySource(chunks), sink, len(chunks), n, last, value)
            source = bp.memory_io.CompressedMemorySource(sink)
            return ni.unpack_ndarray(source)
        yield 'memory', memory


def attempt(archive, chunks, value, size, content, what, ctx, exc=None):
    """size: bytes the declaration needs (None: it is invalid)."""
    ctx.count('evaluations')
    for name, f in readers(archive, chunks, value):
        with guarded() as g:
            try:
                r = call(f)
            except Violation as v:
                raise Violation('%s (%s): %s' % (what, name, v))
        w = '%s (%s)' % (what, name)
        if not r.ok:
            if exc is not None:
                require(isinstance(r.exc, exc), '%s: %s', w, r)
            ctx.outcome(type(r.exc).__name__)
            continue
        require(exc is None, '%s: returned %s', w, short(r.value))
        a = r.value
        require(isinstance(a, np.ndarray) and not a.dtype.hasobject, '%s: returned %s', w, short(a))
        require(size is None or a.nbytes == size, '%s: returned %d bytes', w, a.nbytes)
        got = a.tobytes('A')
        require(len(content) == a.nbytes, '%s: the archive holds %d bytes, the returned array %d', w, len(content), a.nbytes)
        require(got == content, '%s: returned elements which are not in the '
                'archive: %s', w, short(got))
        ctx.outcome('array')
    ctx.state(archive)


def run(case, ctx):
    g = case[0]
    if g == 'sizes':
        decl, sizes = DECLS[case[1]], case[2]
        total = sum(sizes)
        content = bytes((i * 7 + 1) & 0x7f for i in range(total))
        parts, pos = [], 0
        for s in sizes:
            parts.append(content[pos:pos + s])
            pos += s
        for order in 'CF':
            for ck, ba in (('None', (1, 0, 0, 'lz4')), ('adler32', (4, 9, 1, 'blosclz'))):
                value = meta(decl, order)
                archive = spec.build([spec.compress(p, *ba) for p in parts], spec.meta_section(value), 'set', ck)
                attempt(archive, parts, value, need(decl), content,
                        'chunks of %s bytes for dtype %s, shape %s' % (sizes, decl[0], decl[1]), ctx,
                        None if total == need(decl) else BaseException)
        ctx.sample({'dtype': decl[0], 'shape': decl[1], 'chunks': sizes, 'needed': need(decl)})
    elif g == 'lying':
        # the uncompressed size in the chunk header is not what the chunk holds
        decl = DECLS[case[1]]
        t = need(decl)
        lie = [0, 1, t - 1, t + 1, 2 * t, 255, 256, 65536, 2 ** 20, 2 ** 31 - 17, 2 ** 31, 2 ** 32 - 1][case[2]]
        if lie == t or lie < 0:
            return
        content = bytes((i * 7 + 1) & 0x7f for i in range(t))
        for ba in ((1, 0, 0, 'lz4'),):
            for ck in ('None', 'md5'):
                for parts in ([content], [content[:t // 2], content[t // 2:]]):
                    for k in range(len(parts)):
                        if lie == len(parts[k]):
                            continue
                        comp = [spec.compress(p, *ba) for p in parts]
                        comp[k] = comp[k][:4] + struct.pack('<I', lie) + comp[k][8:]
                        archive = spec.build(comp, spec.meta_section(meta(decl)), 'set', ck, chunk_size=-1, last_chunk=-1)
                        # where blosc itself accepts the chunk its bytes count as coming from the archive
                        attempt(archive, None, None, t, content, 'a chunk of %d bytes claiming %d' % (len(parts[k]), lie), ctx,
                                BaseException)
    elif g == 'other':
        value = OTHER[case[1]]
        for parts in ([b''], [b'abcd' * 3], [b'abc', b'x' * 9]):
            for with_null in (True, False):
                if with_null and value is not None:
                    continue
                sec = None if value is None and not with_null else spec.meta_section(value)
                archive = spec.build([spec.compress(p, 1, 0, 0, 'lz4') for p in parts], sec, 'set', 'crc32',
                                     chunk_size=-1, last_chunk=-1)
                attempt(archive, parts, value, None, b'', 'metadata %s' % short(value), ctx, bp.NotANumpyArray)
        ctx.sample({'metadata': value})
    elif g == 'bad':
        value = BAD[case[1]]
        for parts in ([b''], [b'abcd' * 3], [b'\0' * 24], [b'abc', b'x' * 9]):
            archive = spec.build([spec.compress(p, 1, 0, 0, 'lz4') for p in parts], spec.meta_section(value), 'set', 'None',
                                 chunk_size=-1, last_chunk=-1)
            attempt(archive, parts, value, None, b''.join(parts), 'metadata %s' % short(value), ctx,
                    BaseException if "'O'" in str(value.get('dtype')) or 'object' in str(value.get('dtype')) else None)
    elif g == 'code':
        code(case[1], ctx)
    elif g == 'appended':
        # appending to an array archive makes it hold too much
        _, n, m = case
        a = np.arange(n, dtype='<i4')
        for chunk in (4, 4 * n):
            fp = io.BytesIO(bp.numpy_io.pack_ndarray_to_bytes(a, chunk))
            must(bp.append_fp, fp, io.BytesIO(b'\1' * m), m)
            attempt(fp.getvalue(), None, None, None, b'', 'array archive with %d bytes appended' % m, ctx, BaseException)
    elif g == 'large':
        _, n, d = case
        content = spec.payload('ints', n + d)
        cs = 2 ** 20
        parts = [content[i:i + cs] for i in range(0, n + d, cs)]
        for ba in ((4, 1, 1, 'lz4'), (4, 0, 0, 'lz4')):
            archive = spec.build([spec.compress(p, *ba) for p in parts],
                                 spec.meta_section(meta(("'<i4'", [n // 4]))), 'set', 'None', chunk_size=-1, last_chunk=-1)
            attempt(archive, parts, meta(("'<i4'", [n // 4])), n, content,
                    '%d bytes for an array of %d' % (n + d, n), ctx, BaseException)
