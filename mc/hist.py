"""Reference model of archives under appends and metadata rewrites, and the state oracle."""
import io
import json
import zlib

from mc import bp, spec
from mc.core import Violation, call, must, require, short

DEF = (7, True, 'blosclz')


# metadata of a section that holds the JSON value null
NULL = object()


class Config(object):
    """How the initial archive is made (by the independent writer, so states exist that the
    library itself would not produce first)."""

    def __init__(self, size, chunk, checksum='adler32', app=4, meta=None, meta_max=None, typesize=8,
                 mck='adler32', codec='None', ba=None):
        self.size, self.chunk, self.checksum, self.app = size, chunk, checksum, app
        self.meta, self.meta_max, self.typesize, self.mck = meta, meta_max, typesize, mck
        self.codec, self.ba = codec, ba or (typesize, 5, 1, 'lz4')

    def build(self):
        data = spec.payload('noise', self.size, salt=1)
        n, cs, last = spec.chunking(self.size, self.chunk)
        # a single chunk may also be partly filled: chunk_size stays what was asked for
        chunks = [spec.compress(data[i * self.chunk:(i + 1) * self.chunk], *self.ba) for i in range(n)]
        msec = None
        if self.meta is not None:
            msec = spec.meta_section(None if self.meta is NULL else self.meta, self.codec, 6, self.mck, self.meta_max)
        last = self.size - self.chunk * (n - 1)
        return spec.build(chunks, msec, 'set', self.checksum, self.app, self.typesize, self.chunk, last)


def resolve(settings, typesize):
    """settings: None, or (typesize, clevel, shuffle, cname) with None for defaults."""
    t, l, s, c = settings or (None,) * 4
    return (typesize if t is None else t, 7 if l is None else l, True if s is None else s,
            'blosclz' if c is None else c)


def settings_arg(settings, form):
    if settings is None:
        return None
    d = dict(zip(('typesize', 'clevel', 'shuffle', 'cname'), settings))
    if form == 'dict':
        return d
    return bp.BloscArgs(**d)


def parse(data, what):
    try:
        return spec.parse(data)
    except spec.SpecError as e:
        raise Violation('%s: archive is no longer in the documented layout: %s' % (what, e))


def new_chunks(a, n):
    """Number of chunks an append of n bytes adds to parsed archive a."""
    room = a.chunk_size - a.sizes[-1]
    return 0 if n <= room else -(-(n - room) // a.chunk_size)


def check_append(data, a, before, after_bytes, ret, settings, what):
    """before: bytes, a: its parse; after_bytes: the result of appending data; returns its parse."""
    b = parse(after_bytes, what)
    require(b.content == a.content + data, '%s: content is %s, expected %s', what,
            short(b.content), short(a.content + data))
    k = new_chunks(a, len(data))
    require(b.nchunks == a.nchunks + k, '%s: %d chunks, expected %d', what, b.nchunks, a.nchunks + k)
    if ret is not NotImplemented:
        require(ret == k, '%s: reported %r new chunks, expected %d', what, ret, k)
    require(b.max_app_chunks == a.max_app_chunks - k, '%s: reservation %d, expected %d', what,
            b.max_app_chunks, a.max_app_chunks - k)
    require((b.chunk_size, b.checksum, b.typesize, b.options) == (a.chunk_size, a.checksum, a.typesize, a.options),
            '%s: header changed: %s', what, (b.chunk_size, b.checksum, b.typesize, b.options))
    require(b.chunks_pos == a.chunks_pos and after_bytes[32:b.offsets_pos] == before[32:a.offsets_pos],
            '%s: the metadata section or position of the chunks changed', what)
    last = a.nchunks - 1
    require(b.chunks[:last] == a.chunks[:last], '%s: a chunk before the last one changed', what)
    require(all(s == b.chunk_size for s in b.sizes[:-1]), '%s: chunks are not full: %s', what, b.sizes[:50])
    ba = resolve(settings, a.typesize)
    cs = b.chunk_size
    for i in range(last, b.nchunks):
        plain = b.content[i * cs:(i + 1) * cs]
        if i == last and b.sizes[i] == a.sizes[i] and b.chunks[i] == a.chunks[i]:
            continue                            # nothing was added to it
        require(b.chunks[i] == spec.compress(plain, *ba), '%s: chunk %d is not compressed with %s', what, i, ba)
    return b


def do_append(before, data, settings=None, form='dict', extra=b''):
    """append_fp on a copy of before; returns (outcome, bytes afterwards)."""
    fp = io.BytesIO(before)
    new = io.BytesIO(b'skip' + data + extra)
    new.seek(4)
    r = call(bp.append_fp, fp, new, len(data), settings_arg(settings, form))
    return r, fp.getvalue()


def do_append_file(before, data, settings=None, form='dict', orig='orig.blp', new='new.bin'):
    bp.write(orig, before)
    bp.write(new, data)
    r = call(bp.append_file, orig, new, settings_arg(settings, form))
    require(bp.read(new) == data, 'append changed its input file')
    return r, bp.read(orig)


# ----------------------------------------------------------------- metadata rewriting
def rewrite_model(m, value, kw):
    """m: parsed section. Returns ('ok', section bytes) or ('refused', exception class or None)."""
    if json.dumps(m.value, sort_keys=True) == json.dumps(value, sort_keys=True):
        return 'refused', bp.NoChangeInMetadata
    ck = kw.get('checksum')
    ck = m.checksum if ck is None else ck
    codec = kw.get('codec', 'zlib')
    codec = m.codec if codec is None else codec
    level = kw.get('level', 6)
    level = m.level if level is None else level
    if kw.get('magic_format') not in (None, b'JSON'):
        return 'refused', bp.NoSuchSerializer
    if ck not in spec.CHECKSUMS:
        return 'refused', bp.NoSuchChecksum
    if spec.SIZES[ck] != spec.SIZES[m.checksum]:
        return 'refused', bp.ChecksumLengthMismatch
    if codec not in spec.CODECS:
        return 'refused', bp.NoSuchCodec
    if not isinstance(level, int) or not 0 <= level <= 9:
        return 'refused', None
    raw = json.dumps(value, separators=(',', ':')).encode()
    stored = raw
    if codec == 'zlib':
        z = zlib.compress(raw, level)
        if len(z) <= len(raw):
            stored = z
        else:
            codec = 'None'
    if len(stored) > m.max_size:
        return 'refused', bp.MetadataSectionTooSmall
    return 'ok', spec.meta_section(value, codec, level, ck, m.max_size)


def do_rewrite(before, value, kw):
    fp = io.BytesIO(before)
    fp.seek(32)
    r = call(bp.rewrite_fp, fp, value, **kw)
    return r, fp.getvalue()


def do_rewrite_file(before, value, kw, name='rw.blp'):
    bp.write(name, before)

    def f():
        with open(name, 'r+b') as fp:
            fp.seek(32)
            return bp.rewrite_fp(fp, value, **kw)
    r = call(f)
    return r, bp.read(name)


def check_rewrite(before, a, value, kw, r, after, what):
    kind, exp = rewrite_model(a.meta, value, kw)
    if kind == 'refused':
        require(not r.ok, '%s: was accepted', what)
        require(exp is None or isinstance(r.exc, exp), '%s: %s instead of %s', what, r, exp)
        require(after == before, '%s: was refused but changed the archive', what)
        return False, a
    require(r.ok, '%s: %s', what, r)
    want = before[:a.meta.pos] + exp + before[a.meta.end:]
    if after != want:
        b = parse(after, what)
        require(json.dumps(b.meta.value) == json.dumps(value), '%s: metadata reads back as %s', what, short(b.meta.value))
        require(len(after) == len(before), '%s: length changed from %d to %d', what, len(before), len(after))
        require(after[a.meta.end:] == before[a.meta.end:], '%s: bytes after the section changed', what)
        require(after[:32] == before[:32], '%s: the archive header changed', what)
        raise Violation('%s: section is %s, expected %s' % (what, short(after[32:b.meta.end], 400), short(exp, 400)))
    return True, parse(after, what)
