import errno
import io
import os
import resource
import signal

import numpy as np

from checks.C12 import Case
from mc import bp, hist, spec, vfs
from mc.core import Violation, call, in_child, must, require, short

PROPERTY = 'C13'
LEVEL = 'fault_enumeration'
RULE = ('Fault model: operation number k (open, stat, read, write, seek, tell, truncate, close) of a run fails with an '
        'OSError: only it, it and all later ones, or after half of its bytes were written. Every k of every scenario: the '
        'call must raise, and after a failed append the archive still gives an error or a prefix. limit-*: every raw read '
        'and write moves at most so many bytes; the call must succeed with the exact result. full: '
        'the file system really takes no more than so many bytes per file (RLIMIT_FSIZE), every number of small archives; the call must '
        'raise or the result be complete. Every (scenario, k, mode) at '
        'which an operation did fail is a distinct non-trivial evaluation.')
ASSUMPTIONS = ['errors from closing a file that was only read are not required to be reported']
BLOCK = 1
ERR = [errno.EIO, errno.ENOSPC]


def cases(tier):
    deep = tier == 'thorough'
    for ck in spec.CHECKSUMS:
        for name in sorted(FP):
            for size, chunk in ((40, 16), (0, 8), (61, 20)) + (((200, 3), (100, 100)) if deep else ()):
                yield ['fp', name, ck, size, chunk]
        for name in sorted(FILES):
            for n, chunk in ((50, 16), (30000, 7000), (25000, 25000)) + (((70000, 70000), (0, 5)) if deep else ()):
                for part in range(6):
                    yield ['file', name, ck, n, chunk, part]
                yield ['limit', name, ck, n, chunk]
            if ck in ('None', 'crc32', 'sha512') or deep:
                for n, chunk in ((50, 16), (0, 8), (300, 300)):
                    yield ['full', name, ck, n, chunk]
                for n, chunk in ((20000, 7000), (25000, 25000)):
                    yield ['full', name, ck, n, chunk]


META = {"k": "v" * 20}
NEWMETA = {"other": [1, 2, 3], "k": 'w' * 12}
BA = (8, 0, 0, 'blosclz')


def archive(n, chunk, ck, meta=META):
    return hist.Config(n, chunk, ck, 4, meta, 100, 8, ck, 'None', BA).build() if n else \
        must(bp.pack, b'', chunk, None, [True, ck, 4], meta, [bp.defaults.DEFAULT_META_CODEC, 6, ck, 100])


def ndarray(n):
    return np.frombuffer(spec.payload('noise', n, salt=1), 'u1')


def nd_archive(n, chunk, ck):
    return bp.numpy_io.pack_ndarray_to_bytes(ndarray(n), chunk, bp.blosc_args(BA), bp.bloscpack_args((True, ck, 1)))


# ---------------------------------------------------------------- scenarios on file objects
class FPPack(object):
    def __init__(self, ck, size, chunk):
        self.data, self.ck, self.chunk = spec.payload('noise', size, salt=1), ck, chunk

    def go(self, plan):
        self.src, self.out = vfs.RecFile(plan, 'in', self.data), vfs.RecFile(plan, 'out')
        n, cs, last = spec.chunking(len(self.data), self.chunk)
        bp.abstract_io.pack(bp.file_io.PlainFPSource(self.src), bp.file_io.CompressedFPSink(self.out), n, cs, last, META,
                            bp.blosc_args(BA), bp.bloscpack_args((True, self.ck, 3)),
                            bp.MetadataArgs(meta_checksum=self.ck))

    def verify(self, r):
        a = hist.parse(self.out.content(), 'pack')
        require(a.content == self.data and a.meta.value == META and a.max_app_chunks == 3, 'wrong archive')


class FPUnpack(object):
    def __init__(self, ck, size, chunk):
        self.data, self.archive = spec.payload('noise', size, salt=1), archive(size, chunk, ck)

    def go(self, plan):
        self.out = vfs.RecFile(plan, 'out')
        source = bp.file_io.CompressedFPSource(vfs.RecFile(plan, 'in', self.archive))
        bp.abstract_io.unpack(source, bp.file_io.PlainFPSink(self.out, source.nchunks))
        return source.metadata

    def verify(self, r):
        require(self.out.content() == self.data and r == META, 'wrong result')


class FPUnpackMemory(FPUnpack):
    def go(self, plan):
        source = bp.file_io.CompressedFPSource(vfs.RecFile(plan, 'in', self.archive))
        sink = bp.memory_io.PlainMemorySink(source.nchunks)
        bp.abstract_io.unpack(source, sink)
        return sink.chunks, source.metadata

    def verify(self, r):
        require(b''.join(r[0]) == self.data and r[1] == META, 'wrong result')


class FPArray(object):
    def __init__(self, ck, size, chunk):
        self.a, self.archive, self.ck, self.chunk = ndarray(size), nd_archive(size, chunk, ck), ck, chunk

    def go(self, plan):
        out = vfs.RecFile(plan, 'out')
        bp.numpy_io.pack_ndarray(self.a, bp.file_io.CompressedFPSink(out), self.chunk, bp.blosc_args(BA),
                                 bp.bloscpack_args((True, self.ck, 1)))
        back = bp.numpy_io.unpack_ndarray(bp.file_io.CompressedFPSource(vfs.RecFile(plan, 'in', self.archive)))
        return out, back

    def verify(self, r):
        require(r[0].content() == self.archive and r[1].tobytes() == self.a.tobytes(), 'wrong result')


class FPAppend(object):
    extra = 50

    def __init__(self, ck, size, chunk):
        self.before = archive(size, chunk, ck) if size else archive(5, chunk, ck)
        self.data = spec.payload('noise', min(self.extra, 2 * chunk + 1), salt=8)
        self.case = Case(self.before, self.data, None)
        self.ck = ck

    def go(self, plan):
        self.fp = vfs.RecFile(plan, 'f', self.before)
        return bp.append_fp(self.fp, vfs.RecFile(plan, 'new', self.data), len(self.data))

    def verify(self, r):
        hist.check_append(self.data, self.case.a, self.before, self.fp.content(), r, None, 'append')

    def after_failure(self, what, ctx):
        if self.ck != 'None':
            self.case.check(self.fp.content(), what, ctx)


class FPSqueeze(FPAppend):
    extra = 1


class FPRewrite(object):
    def __init__(self, ck, size, chunk):
        self.before = archive(size, chunk, ck)
        self.a = spec.parse(self.before)

    def go(self, plan):
        self.fp = vfs.RecFile(vfs.Plan(), 'f', self.before)
        self.fp.seek(32)
        self.fp.plan = plan
        return bp.rewrite_fp(self.fp, NEWMETA)

    def verify(self, r):
        b = hist.parse(self.fp.content(), 'rewrite')
        require(b.meta.value == NEWMETA and b.content == self.a.content, 'wrong result')


FP = {'pack': FPPack, 'unpack': FPUnpack, 'unpack to memory': FPUnpackMemory, 'array': FPArray, 'append': FPAppend,
      'append into last chunk': FPSqueeze, 'rewrite metadata': FPRewrite}


# ---------------------------------------------------------------- scenarios on files
class Files(object):
    def __init__(self, ck, n, chunk):
        self.ck, self.n, self.chunk = ck, n, chunk
        self.data = spec.payload('noise', n, salt=1)
        self.inputs = self.make_inputs()

    def prepare(self):
        for name in ('in.bin', 'in.blp', 'out.blp', 'out.bin'):
            if os.path.exists(name):
                os.unlink(name)
        for name, content in self.inputs.items():
            bp.write(name, content)


class PackFile(Files):
    def make_inputs(self):
        return {'in.bin': self.data}

    def go(self):
        bp.file_io.pack_file_to_file('in.bin', 'out.blp', self.chunk, META, bp.blosc_args(BA),
                                     bp.bloscpack_args((True, self.ck, 3)))

    def verify(self, r):
        a = hist.parse(bp.read('out.blp'), 'pack')
        require(a.content == self.data and a.meta.value == META, 'wrong archive')


class PackBytes(PackFile):
    def make_inputs(self):
        return {'out.blp': b'previous content'}

    def go(self):
        bp.file_io.pack_bytes_to_file(self.data, 'out.blp', self.chunk, META, bp.blosc_args(BA),
                                      bp.bloscpack_args((True, self.ck, 3)))


class PackPlain(PackFile):
    def go(self):
        bp.file_io.pack_file('in.bin', 'out.blp', self.chunk, META, bp.blosc_args(BA),
                             bp.bloscpack_args((False, self.ck, 0)))


class PackArray(PackFile):
    def make_inputs(self):
        return {}

    def go(self):
        bp.numpy_io.pack_ndarray_to_file(ndarray(self.n), 'out.blp', self.chunk, bp.blosc_args(BA),
                                         bp.bloscpack_args((True, self.ck, 1)))

    def verify(self, r):
        require(bp.read('out.blp') == nd_archive(self.n, self.chunk, self.ck), 'wrong archive')


class UnpackFile(Files):
    def make_inputs(self):
        return {'in.blp': archive(self.n, self.chunk, self.ck)}

    def go(self):
        return bp.file_io.unpack_file_from_file('in.blp', 'out.bin')

    def verify(self, r):
        require(bp.read('out.bin') == self.data and r == META, 'wrong result')


class UnpackBytes(UnpackFile):
    def go(self):
        return bp.file_io.unpack_bytes_from_file('in.blp')

    def verify(self, r):
        require(r == (self.data, META), 'wrong result')


class UnpackArray(UnpackFile):
    def make_inputs(self):
        return {'in.blp': nd_archive(self.n, self.chunk, self.ck)}

    def go(self):
        return bp.numpy_io.unpack_ndarray_from_file('in.blp')

    def verify(self, r):
        require(r.tobytes() == self.data, 'wrong result')


class Append(Files):
    def make_inputs(self):
        before = archive(self.n or 5, self.chunk, self.ck)
        self.new = spec.payload('noise', self.chunk + 9, salt=8)
        self.case = Case(before, self.new, None)
        return {'in.blp': before, 'in.bin': self.new}

    def go(self):
        return bp.append_file('in.blp', 'in.bin')

    def verify(self, r):
        c = self.case
        hist.check_append(self.new, c.a, c.before, bp.read('in.blp'), NotImplemented, None, 'append')

    def after_failure(self, what, ctx):
        if self.ck != 'None':
            self.case.check(bp.read('in.blp'), what, ctx)


class Rewrite(Files):
    def make_inputs(self):
        return {'in.blp': archive(self.n, self.chunk, self.ck)}

    def go(self):
        with open('in.blp', 'r+b') as fp:
            bp.seek_to_metadata(fp)
            bp.rewrite_fp(fp, NEWMETA)

    def verify(self, r):
        b = hist.parse(bp.read('in.blp'), 'rewrite')
        require(b.meta.value == NEWMETA and b.content == self.data, 'wrong result')


FILES = {'pack_file_to_file': PackFile, 'pack_bytes_to_file': PackBytes, 'pack_file': PackPlain,
         'pack_ndarray_to_file': PackArray, 'unpack_file_from_file': UnpackFile, 'unpack_bytes_from_file': UnpackBytes,
         'unpack_ndarray_from_file': UnpackArray, 'append': Append, 'rewrite metadata': Rewrite}


def check_failed(what, plan, r, s, ctx):
    """One run with an injected failure; returns False if no operation failed any more."""
    if plan.failed is None:
        return False
    ctx.count('evaluations')
    w = '%s: operation %s failed (%s) but the call returned normally' % (what, plan.failed, plan.mode)
    if r.ok and plan.failed[1] == 'stat':
        # a question about a file (is it there, is it the other one?) nothing depended on, if the result is complete
        try:
            s.verify(r.value)
        except Violation as v:
            raise Violation('%s: %s' % (w, v))
        ctx.outcome('stat: not needed')
        return True
    require(not r.ok, w)
    ctx.outcome('%s of %s: %s' % (plan.failed[1], os.path.basename(plan.failed[2]), type(r.exc).__name__))
    if hasattr(s, 'after_failure'):
        s.after_failure('%s after operation %s failed' % (what, plan.failed), ctx)
    ctx.nontrivial(ctx.case[:5], plan.failed[0], plan.mode, plan.err)
    return True


def run(case, ctx):
    g, name, ck, n, chunk = case[:5]
    what = '%s (%s, %d bytes in chunks of %d)' % (name, ck, n, chunk)
    if g == 'fp':
        s = FP[name](ck, n, chunk)
        plan = vfs.Plan()
        r = must(s.go, plan)
        s.verify(r)
        for at in range(plan.n):
            for mode in ('once', 'rest', 'torn'):
                p = vfs.Plan(at, mode, err=ERR[at % 2])
                r = call(s.go, p)
                require(check_failed(what, p, r, s, ctx), '%s: harness: operation %d did not happen', what, at)
        ctx.sample({'case': case, 'operations': plan.n})
        return
    s = FILES[name](ck, n, chunk)
    if g == 'limit':
        for limit in (1, 7, 1000, 8191) if n < 1000 else (997, 4096):
            s.prepare()
            with vfs.patched(vfs.Plan(limit=limit)):
                r = must(s.go)
            s.verify(r)
            ctx.count('evaluations')
            ctx.nontrivial(*case, limit)
        return
    if g == 'full':
        # the real thing: the file system takes this many bytes per file and not one more
        s.prepare()
        s.verify(must(s.go))
        size = max(os.path.getsize(p) for p in os.listdir('.') if p in ('in.bin', 'in.blp', 'out.blp', 'out.bin'))
        if size <= 1200 or ctx.tier == 'thorough' and size < 30000:
            places = range(size + 1)
        else:
            near = [0, 16, 32, 64, 164, 200, 4096, 8192, 16384, n, size] + [k * chunk for k in range(1, 4)]
            places = sorted({p for q in near for p in range(q - 18, q + 19) if 0 <= p <= size} | set(range(0, size, 397)))

        def body():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            done = []
            for limit in places:
                s.prepare()
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                try:
                    r = call(s.go)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                w = '%s on a file system that is full after %d bytes' % (what, limit)
                if r.ok:
                    try:
                        s.verify(r.value)
                    except Violation as v:
                        raise Violation('%s: the call returned normally, but: %s' % (w, v))
                elif hasattr(s, 'after_failure'):
                    s.after_failure(w, ctx)
                done.append(r.ok)
            require(done[-1], '%s: fails with room for %d bytes: %s', what, places[-1], r)
            return done
        for limit, ok in zip(places, in_child(body)):
            ctx.count('evaluations')
            ctx.outcome('disk full: %s' % ('not noticed, not needed' if ok else 'reported'))
            if not ok:
                ctx.nontrivial(*case, limit)
        return
    s.prepare()
    with vfs.patched(vfs.Plan()) as plan:
        r = must(s.go)
    s.verify(r)
    for at in range(case[5], plan.n, 6):
        for mode in ('once', 'rest', 'torn'):
            s.prepare()
            with vfs.patched(vfs.Plan(at, mode, err=ERR[at % 2])) as p:
                r = call(s.go)
            check_failed(what, p, r, s, ctx)
    ctx.sample({'case': case, 'operations': plan.n, 'kinds': sorted(set(k for k, _ in plan.ops))})
