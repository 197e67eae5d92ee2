import errno
import io
import os
import struct

from mc import bp, hist, spec, vfs
from mc.core import Violation, call, must, require, short

PROPERTY = 'C12'
LEVEL = 'fault_enumeration'
RULE = ('Crash model: an append stops after any prefix of the writes issued (fp-*: by the library, file-*: reaching the '
        'kernel), the last one torn after any of its bytes, or any one operation fails, once or from then on. For each '
        'resulting file: unpacking fails or gives a prefix of old plus appended content with all protected chunks; '
        'protected chunks and metadata are unchanged; and a second append (several sizes, itself interrupted at every '
        'write in the recovery groups) leads to nothing else. fp-crash also: the file has its full size and old or new header and offsets, but reads as zeros from any byte on. Each distinct '
        'resulting file is a non-trivial evaluation.')
ASSUMPTIONS = ['writes reach the disk in the order in which they were issued', 'archives with a checksum']
BLOCK = 1
C = hist.Config
SHAPES = [
    (20, 8, 4, None, None, (8, 0, 0, 'blosclz')), (24, 8, 3, {"a": 1}, 60, (8, 9, 1, 'zstd')),
    (5, 40, 3, [1, "x"], 30, (1, 5, 0, 'lz4')), (40, 40, 2, None, None, (4, 7, 1, 'blosclz')),
    (100, 30, 3, "m" * 50, 200, (4, 5, 2, 'zlib')), (9, 1, 12, None, None, (1, 0, 0, 'lz4')),
]
ADDS = [('abs', 1), ('room', 0), ('room', 1), ('two', -1), ('two', 0), ('abs', 0)]
SETTINGS = [None, (8, 0, False, 'blosclz'), (1, 9, 2, 'zlib')]
KEY = 'torn-nchunks'
CHECKSUMS = spec.CHECKSUMS[1:]


def cases(tier):
    deep = tier == 'thorough'
    for ck in CHECKSUMS:
        for si in range(len(SHAPES)):
            for ai in range(len(ADDS)):
                for st in range(3) if deep or ck in ('adler32', 'sha512') else (0,):
                    yield ['fp-crash', ck, si, ai, st]
                yield ['fp-fail', ck, si, ai, 0]
                if deep or ck == 'md5':
                    yield ['recovery', ck, si, ai, 1]
        for si in (1, 4):
            for ai in (0, 1, 3):
                yield ['file-fail', ck, si, ai, 0]
        for n, m in ((30000, 9000), (30000, 50000), (100000, 60000)):
            yield ['file-crash', ck, n, m]
    for n, k in ((254, 1), (254, 2), (255, 1), (255, 3), (256, 1), (257, 300), (510, 1), (510, 2), (511, 1), (511, 5),
                 (767, 2), (1023, 1), (1024, 1)) + (((65534, 1), (65535, 1), (65535, 2)) if deep else ()):
        yield ['carry', 'crc32', n, k]
        yield ['carry', 'sha1', n, k]


class Case(object):
    """One append being interrupted."""

    def __init__(self, before, data, settings):
        self.before, self.data, self.settings = before, data, settings
        self.a = spec.parse(before)
        self.old = self.a.content
        self.full = self.old + data
        self.protected = self.a.positions[-1]           # bytes of the file which must not change
        self.kept = len(self.old) - self.a.sizes[-1]    # bytes of content which must stay

    def torn_count(self, state):
        """nchunks if the header write is torn inside that 8-byte field, so that its value was never meant to be there."""
        n = struct.unpack_from('<q', state, 16)[0]
        new = self.a.nchunks + hist.new_chunks(self.a, len(self.data))
        if n not in (self.a.nchunks, new) and any(
                struct.pack('<q', new)[:i] + struct.pack('<q', self.a.nchunks)[i:] == state[16:24] for i in range(1, 8)):
            return n
        return None

    def check(self, state, what, ctx, more=b'', torn=None):
        """state: file content after the interruption, and after appending `more` without error."""
        require(state[32:self.a.offsets_pos] == self.before[32:self.a.offsets_pos], '%s: the metadata changed', what)
        keep = state[self.a.chunks_pos:self.protected]
        if keep != self.before[self.a.chunks_pos:self.protected] and torn is None:
            raise Violation('%s: a chunk before the one being filled up changed' % what)
        r = call(bp.unpack, state)
        ctx.count('evaluations')
        if not r.ok:
            ctx.outcome(type(r.exc).__name__)
            return False
        got = r.value[0]
        if self.allowed(got, more):
            ctx.outcome('prefix of %s' % ('content' if not more else 'content, then later append'))
            return True
        if torn is not None:
            bad = '%s: with a torn chunk count of %d instead of %d, unpacks to %s' % (what, torn, self.a.nchunks, short(got))
            if KEY in ctx.known_keys:
                ctx.known[KEY] += 1
                return False
            raise Violation(bad, KEY)
        raise Violation('%s: unpacks to %s (old %d, appended %d, later %d bytes)' % (
            what, short(got), len(self.old), len(self.data), len(more)))

    def allowed(self, got, more):
        if self.full.startswith(got):
            return len(got) >= self.kept
        for n in range(self.kept, min(len(got), len(self.full)) + 1):
            if more.startswith(got[n:]) and self.full.startswith(got[:n]):
                return True
        return False

    def later(self, state, what, ctx, sizes, recover):
        torn = self.torn_count(state)
        first = call(bp.unpack, state)
        for n in sizes:
            more = bytes((i * 3 + 200) & 255 for i in range(n))
            plan = vfs.Plan()
            fp = vfs.RecFile(plan, 'f', state)
            r = call(bp.append_fp, fp, io.BytesIO(more), n)
            w = '%s, then an append of %d bytes (%s)' % (what, n, 'accepted' if r.ok else type(r.exc).__name__)
            after = fp.content()
            good = self.check(after, w, ctx, more, torn)
            if r.ok and first.ok and torn is None:
                # nothing of the interrupted append may come back or get in between
                require(good, '%s: does not unpack, although it did before', w)
                require(bp.unpack(after)[0] == first.value[0] + more, '%s: unpacks to something else than the content '
                        'before (%d bytes) plus the data', w, len(first.value[0]))
                # the layout is whole again: chunks full but for the last one, the header true, nothing left over
                try:
                    spec.parse(after, strict=False)
                except spec.SpecError as e:
                    raise Violation('%s: archive is not in the documented layout: %s' % (w, e))
                ctx.outcome('exactly what it was plus later append')
            if recover and torn is None:
                for label, s2 in vfs.crash_states(plan.log, 'f', state, torn=False):
                    if ctx.state(s2):
                        self.check(s2, '%s stopped at %s' % (w, label), ctx, more)


def run(case, ctx):
    g, ck = case[0], case[1]
    if g in ('fp-crash', 'fp-fail', 'recovery', 'file-fail'):
        _, ck, si, ai, st = case
        size, chunk, app, meta, mx, ba = SHAPES[si]
        before = C(size, chunk, ck, app, meta, mx, ba[0], 'sha1' if si % 2 else 'adler32',
                   'zlib' if si == 4 else 'None', ba).build()
        a = spec.parse(before)
        room = chunk - a.sizes[-1]
        rel, d = ADDS[ai]
        data = spec.payload('noise', max(0, {'abs': 0, 'room': room, 'two': room + 2 * chunk}[rel] + d), salt=8)
        c = Case(before, data, SETTINGS[st])
        arg = hist.settings_arg(c.settings, 'dict')
        sizes = sorted({1, room, chunk, chunk + 1})
        plan = vfs.Plan()
        fp = vfs.RecFile(plan, 'f', before)
        must(bp.append_fp, fp, io.BytesIO(data), len(data), arg)
        final, nops = fp.content(), plan.n
        require(bp.unpack(final)[0] == c.full, 'the append itself went wrong')
        if g in ('fp-crash', 'recovery'):
            for label, state in vfs.crash_states(plan.log, 'f', before):
                if not ctx.state(state):
                    continue
                what = 'append of %d bytes to %d (%s) stopped at %s' % (len(data), size, ck, label)
                c.check(state, what, ctx, torn=c.torn_count(state))
                if g == 'recovery' or ctx.tier == 'thorough' or ck == 'adler32' or len(label) < 4 or label[3] in (1, 17, label[4]):
                    c.later(state, what, ctx, sizes, g == 'recovery')
            require(state == final, 'harness: replaying the writes does not give the archive')
            # the size, and perhaps header and offsets, reached the disk before the data: zeros from some byte on
            lo, hi = a.offsets_pos, a.chunks_pos
            for head in (before, final):
                for offs in (before, final):
                    whole = head[:lo] + offs[lo:hi] + final[hi:]
                    for k in range(a.positions[-1], len(final)):
                        s = whole[:k] + bytes(len(final) - k)
                        if s == whole or not ctx.state(s):
                            continue
                        what = 'append of %d bytes to %d (%s), zeros from %d on, %s header, %s offsets' % (
                            len(data), size, ck, k, 'old' if head is before else 'new', 'old' if offs is before else 'new')
                        c.check(s, what, ctx)
                        if g == 'recovery' or ctx.tier == 'thorough' or (k - a.positions[-1]) % 16 == 0:
                            c.later(s, what, ctx, sizes, False)
            ctx.sample({'case': case, 'writes': [(o[0], o[2], len(o[3]) if len(o) > 3 else '') for o in plan.log]})
        elif g == 'fp-fail':
            for at in range(nops):
                for mode in ('once', 'rest', 'torn'):
                    fp = vfs.RecFile(vfs.Plan(at, mode, err=errno.ENOSPC), 'f', before)
                    r = call(bp.append_fp, fp, io.BytesIO(data), len(data), arg)
                    s = fp.content()
                    what = 'append of %d bytes to %d: operation %s failed (%s)' % (len(data), size, fp.plan.failed, mode)
                    c.check(s, what, ctx)
                    if ctx.state(s):
                        c.later(s, what, ctx, sizes, False)
            for at in range(20):
                p = vfs.Plan(at)
                fp = io.BytesIO(before)
                r = call(bp.append_fp, fp, vfs.RecFile(p, 'new', data), len(data), arg)
                if p.failed is None:
                    break
                s = fp.getvalue()
                what = 'append of %d bytes to %d: input operation %d failed' % (len(data), size, at)
                c.check(s, what, ctx)
                if ctx.state(s):
                    c.later(s, what, ctx, sizes, False)
        else:
            for at in range(500):
                done = False
                for mode in ('once', 'rest', 'torn'):
                    bp.write('o.blp', before)
                    bp.write('n.bin', data)
                    with vfs.patched(vfs.Plan(at, mode, err=errno.ENOSPC)) as p:
                        r = call(bp.append_file, 'o.blp', 'n.bin', arg)
                    done = p.failed is None and mode == 'once'
                    if done:
                        break
                    s = bp.read('o.blp')
                    what = 'append of a file of %d bytes to %d: operation %s failed (%s)' % (len(data), size, p.failed, mode)
                    c.check(s, what, ctx)
                    if ctx.state(s):
                        c.later(s, what, ctx, sizes, False)
                if done:
                    break
    elif g == 'file-crash':
        _, ck, n, m = case
        chunk = 20000
        before = C(n, chunk, ck, 6, {"a": 1}, 40, 8, 'adler32', 'None', (8, 0, 0, 'blosclz')).build()
        data = spec.payload('noise', m, salt=8)
        c = Case(before, data, None)
        bp.write('o.blp', before)
        bp.write('n.bin', data)
        with vfs.patched(vfs.Plan()) as p:
            must(bp.append_file, 'o.blp', 'n.bin', (None))
        final = bp.read('o.blp')
        for label, state in vfs.crash_states(p.log, 'o.blp', before, limit=30 if ctx.tier == 'quick' else 400):
            if ctx.state(state):
                what = 'append of a file of %d bytes to %d stopped at %s' % (m, n, label)
                c.check(state, what, ctx, torn=c.torn_count(state))
                if len(label) < 4 or label[3] == label[4]:
                    c.later(state, what, ctx, [1, 20001], False)
        require(state == final, 'harness: replaying the writes does not give the archive')
        ctx.sample({'case': case, 'kernel writes': [(o[0], o[2], len(o[3]) if len(o) > 3 else '') for o in p.log]})
    elif g == 'carry':
        # the number of chunks in the header carries from one byte to the next
        _, ck, n, k = case
        comp = [spec.compress(spec.payload('noise', 2, salt=j + 1), 1, 0, 0, 'blosclz') for j in range(5)]
        before = spec.build([comp[(i * i) % 5] for i in range(n)], None, 'set', ck, k + 2, 1, 2, 2)
        data = spec.payload('noise', 2 * k, salt=9)
        c = Case(before, data, (1, 0, False, 'blosclz'))
        plan = vfs.Plan()
        fp = vfs.RecFile(plan, 'f', before)
        must(bp.append_fp, fp, io.BytesIO(data), len(data), hist.settings_arg(c.settings, 'dict'))
        header = [i for i, o in enumerate(plan.log) if o[0] == 'write' and o[2] <= 16 < o[2] + len(o[3])]
        for label, state in vfs.crash_states(plan.log, 'f', before, limit=20):
            if len(label) > 3 and label[0] not in header and label[3] not in (1, 8, label[4] - 1, label[4]):
                continue
            if not ctx.state(state):
                continue
            what = 'append of %d chunks to %d (%s) stopped at %s' % (k, n, ck, label)
            c.check(state, what, ctx, torn=c.torn_count(state))
            c.later(state, what, ctx, [1, 3], False)
        ctx.sample({'case': case, 'header written in operations': header})
