"""Files of several gigabytes that take little memory: long runs of known content, and pages for the rest."""
import bisect
import struct

from mc import bp, spec

PAGE = 4096
PIECE = 2 ** 27
N = 33                                  # more than four gigabytes


class Unsupported(Exception):
    """The library uses the file in a way this stand-in does not know; nothing can be said."""


def piece():
    return spec.payload('noise', 2 ** 20) * (PIECE // 2 ** 20)


def stored(data, typesize=1):
    """A Blosc chunk of level 0."""
    return spec.compress(data, typesize, 0, 0, 'blosclz')


def args():
    return bp.BloscArgs(typesize=1, clevel=0, shuffle=False)


def archive(p, n, tail, ck, app, offsets=True):
    """What packing n pieces and a tail must give."""
    e = stored(p)
    f = Far([e])
    total = n + bool(tail)
    last = len(tail) or PIECE
    f.write(spec.header(offsets, False, ck, 1, PIECE, last, total, app if offsets else 0))
    where = 32 + (8 * (total + app) if offsets else 0)
    offs = []
    f.seek(where)
    chunks = [e] * n + ([stored(tail)] if tail else [])
    for c in chunks:
        offs.append(f.tell())
        if len(c) > 2 ** 20:
            f.write(c)
        else:
            f.write(c)
        f.write(spec.digest(ck, c) if c is not e else known_digest(ck, e))
    if offsets:
        f.seek(32)
        f.write(struct.pack('<%dq' % total, *offs) + b'\xff' * (8 * app))
    f.seek(0)
    return f


DIGESTS = {}


def known_digest(ck, e):
    if (ck, len(e)) not in DIGESTS:
        DIGESTS[ck, len(e)] = spec.digest(ck, e)
    return DIGESTS[ck, len(e)]


def differ(a, b):
    """The first difference of two files, or None."""
    if a.size != b.size:
        return '%d bytes instead of %d' % (a.size, b.size)
    if a.starts != b.starts:
        return 'chunks at %s instead of %s' % ([x for x in a.starts if x not in b.starts], [x for x in b.starts if x not in a.starts])
    for x, y in zip(a.runs, b.runs):
        if x is not y and x != y:
            return 'other chunks'
    for k in sorted(set(a.pages) | set(b.pages)):
        x, y = a.pages.get(k, bytes(PAGE)), b.pages.get(k, bytes(PAGE))
        if x != y:
            i = [x[j] == y[j] for j in range(PAGE)].index(False)
            return 'byte %d is %#x instead of %#x' % (k * PAGE + i, x[i], y[i])
    return None


def plain(p, n, tail):
    """A plain file of n pieces and a tail."""
    f = Far([p])
    for _ in range(n):
        f.add(p)
    f.write(tail)
    f.seek(0)
    return f


class Far(object):
    """A file object; `known` are the long byte strings that may be written to it."""

    def __init__(self, known=()):
        self.known = list(known)
        self.starts, self.runs = [], []         # long runs, in the order of their positions
        self.pages = {}
        self.pos = self.size = 0
        self.closed = False

    def tell(self):
        return self.pos

    def seek(self, to, whence=0):
        self.pos = to + (0, self.pos, self.size)[whence]
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def write(self, data):
        n = len(data)
        if n >= 2 ** 20:
            for k in self.known:
                if len(k) == n and k == data:
                    break
                at = bytes(data[:PAGE]).find(k[:64])
                if at >= 0 and data[at:at + len(k)] == k and n - at - len(k) < 2 ** 20 and (at or n > len(k)):
                    return self.write(data[:at]) + self.write(k) + self.write(data[at + len(k):])
            else:
                raise Unsupported('a long run of unknown content is written at %d' % self.pos)
            if self.starts and self.pos < self.starts[-1] + len(self.runs[-1]):
                raise Unsupported('a long run is overwritten at %d' % self.pos)
            self.starts.append(self.pos)
            self.runs.append(k)
        else:
            self._put(self.pos, data)
        self.pos += n
        self.size = max(self.size, self.pos)
        return n

    def _put(self, pos, data):
        data = bytes(data)
        if len(self.pages) > 2 ** 14:
            raise Unsupported('too many small writes')
        i = bisect.bisect(self.starts, pos + len(data) - 1) - 1 if data else -1
        if i >= 0 and pos < self.starts[i] + len(self.runs[i]):
            raise Unsupported('a long run is overwritten at %d' % pos)
        while data:
            page, at = divmod(pos, PAGE)
            part = data[:PAGE - at]
            self.pages.setdefault(page, bytearray(PAGE))[at:at + len(part)] = part
            data, pos = data[len(part):], pos + len(part)

    def add(self, run):
        """Put a long run of known content at the end."""
        self.seek(0, 2)
        self.starts.append(self.pos)
        self.runs.append(run)
        self.pos += len(run)
        self.size = self.pos

    def read(self, n=-1):
        n = self.size - self.pos if n is None or n < 0 else n
        n = max(0, min(n, self.size - self.pos))
        out = []
        while n:
            i = bisect.bisect(self.starts, self.pos) - 1
            if i >= 0 and self.pos < self.starts[i] + len(self.runs[i]):
                at = self.pos - self.starts[i]
                part = self.runs[i][at:at + n] if at or n < len(self.runs[i]) else self.runs[i]
            else:
                page, at = divmod(self.pos, PAGE)
                end = min(n, PAGE - at)
                if i + 1 < len(self.starts):
                    end = min(end, self.starts[i + 1] - self.pos)
                part = bytes(self.pages.get(page, bytes(PAGE))[at:at + end])
            out.append(part)
            self.pos += len(part)
            n -= len(part)
        return out[0] if len(out) == 1 else b''.join(out)

    def small(self, pos, n):
        """n bytes at pos, apart from what is in long runs."""
        old, self.pos = self.pos, pos
        try:
            return self.read(n)
        finally:
            self.pos = old
