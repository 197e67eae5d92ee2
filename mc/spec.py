"""Independent codec of the documented Bloscpack format (README.rst, 'Bloscpack Format').

Nothing here comes from bloscpack; only python-blosc, zlib, hashlib, json and struct are used.
"""
import hashlib
import json
import struct
import zlib

import blosc

MAGIC = b'blpk'
VERSION = 3
MAX_CHUNKS = 2 ** 63 - 1
MAX_BUFFER = 2 ** 31 - 1 - 16        # Blosc's documented limit: INT_MAX - BLOSC_MAX_OVERHEAD
CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
SIZES = {'None': 0, 'adler32': 4, 'crc32': 4, 'md5': 16, 'sha1': 20, 'sha224': 28,
         'sha256': 32, 'sha384': 48, 'sha512': 64}
CODECS = ['None', 'zlib']


def digest(name, data):
    if name == 'None':
        return b''
    if name == 'adler32':
        return struct.pack('<I', zlib.adler32(data) & 0xffffffff)
    if name == 'crc32':
        return struct.pack('<I', zlib.crc32(data) & 0xffffffff)
    return getattr(hashlib, name)(data).digest()


class SpecError(Exception):
    pass


def need(cond, message, *args):
    if not cond:
        raise SpecError(message % args if args else message)


def header(offsets=True, metadata=False, checksum='adler32', typesize=8, chunk_size=-1,
           last_chunk=-1, nchunks=-1, max_app_chunks=0, version=VERSION, magic=MAGIC,
           options=None):
    if options is None:
        options = (1 if offsets else 0) | (2 if metadata else 0)
    return struct.pack('<4sBBBBiiqq', magic, version, options, CHECKSUMS.index(checksum),
                       typesize, chunk_size, last_chunk, nchunks, max_app_chunks)


def meta_section(value, codec='zlib', level=6, checksum='adler32', max_size=None,
                 magic=b'JSON\0\0\0\0', text=None, prealloc_byte=b'\0'):
    """Bytes of a metadata section holding the JSON text of value."""
    raw = (text if text is not None else json.dumps(value, separators=(',', ':'))).encode('utf-8')
    stored = zlib.compress(raw, level) if codec == 'zlib' else raw
    if max_size is None:
        max_size = len(stored)
    assert max_size >= len(stored)
    return (struct.pack('<8sBBBBIII8s', magic, 0, CHECKSUMS.index(checksum), CODECS.index(codec),
                        level if codec != 'None' else 0, len(raw), max_size, len(stored), b'')
            + stored + prealloc_byte * (max_size - len(stored)) + digest(checksum, stored))


def build(chunks, meta=None, offsets='set', checksum='adler32', max_app=0, typesize=8,
          chunk_size=None, last_chunk=None, version=VERSION, magic=MAGIC):
    """An archive of already compressed chunks; meta: bytes of a metadata section or None.
    offsets: 'none', 'set' or 'unset' (all -1)."""
    nbytes = [struct.unpack('<I', c[4:8])[0] for c in chunks]
    if chunk_size is None:
        chunk_size = nbytes[0] if len(set(nbytes[:-1])) <= 1 and nbytes[-1] <= nbytes[0] else -1
        last_chunk = nbytes[-1] if chunk_size != -1 else -1
    n = len(chunks)
    head = header(offsets != 'none', meta is not None, checksum, typesize, chunk_size,
                  last_chunk, n, max_app if offsets != 'none' else 0, version, magic)
    head += meta or b''
    pos = len(head) + (8 * (n + max_app) if offsets != 'none' else 0)
    offs, body = [], []
    for c in chunks:
        offs.append(pos)
        d = digest(checksum, c)
        body.append(c + d)
        pos += len(c) + len(d)
    if offsets == 'set':
        head += struct.pack('<%dq' % n, *offs) + b'\xff' * (8 * max_app)
    elif offsets == 'unset':
        head += b'\xff' * (8 * (n + max_app))
    return head + b''.join(body)


class Archive(object):
    pass


def parse_header(data):
    need(len(data) >= 32, 'archive shorter than its header')
    a = Archive()
    (magic, a.version, a.options, cs, a.typesize, a.chunk_size, a.last_chunk, a.nchunks,
     a.max_app_chunks) = struct.unpack('<4sBBBBiiqq', data[:32])
    need(magic == MAGIC, 'magic is %r', magic)
    need(a.version == VERSION, 'version is %d', a.version)
    need(a.options & ~3 == 0, 'reserved option bits set: %#x', a.options)
    a.offsets_on, a.metadata_on = bool(a.options & 1), bool(a.options & 2)
    need(cs < len(CHECKSUMS), 'unknown checksum %d', cs)
    a.checksum = CHECKSUMS[cs]
    need(-1 <= a.chunk_size <= MAX_BUFFER and -1 <= a.last_chunk <= MAX_BUFFER, 'chunk sizes')
    need(a.nchunks >= 1, 'nchunks is %d', a.nchunks)
    need(a.max_app_chunks >= 0 and a.nchunks + a.max_app_chunks <= MAX_CHUNKS, 'max_app_chunks')
    need(a.offsets_on or a.max_app_chunks == 0, 'max_app_chunks without offsets')
    return a


def parse_meta(data, pos):
    m = Archive()
    need(len(data) >= pos + 32, 'metadata header cut off')
    (m.magic, m.options, cs, co, m.level, m.size, m.max_size, m.comp_size,
     m.user) = struct.unpack('<8sBBBBIII8s', data[pos:pos + 32])
    need(m.magic == b'JSON\0\0\0\0', 'metadata format %r', m.magic)
    need(m.options == 0, 'metadata options %d', m.options)
    need(cs < len(CHECKSUMS) and co < len(CODECS), 'metadata checksum or codec')
    m.checksum, m.codec = CHECKSUMS[cs], CODECS[co]
    need(m.level <= 9, 'metadata level %d', m.level)
    need(m.codec != 'None' or m.level == 0, 'metadata level %d without a codec', m.level)
    need(m.comp_size <= m.max_size, 'metadata size %d over its maximum %d', m.comp_size, m.max_size)
    need(m.user == b'\0' * 8, 'user codec %r', m.user)
    p = pos + 32
    m.stored = data[p:p + m.comp_size]
    need(len(m.stored) == m.comp_size, 'metadata cut off')
    p += m.comp_size
    pre = data[p:p + m.max_size - m.comp_size]
    need(len(pre) == m.max_size - m.comp_size and not pre.strip(b'\0'), 'preallocation not zeroed')
    p += len(pre)
    n = SIZES[m.checksum]
    m.digest = data[p:p + n]
    need(m.digest == digest(m.checksum, m.stored), 'metadata checksum %s is wrong', m.checksum)
    p += n
    raw = m.stored
    if m.codec == 'zlib':
        try:
            raw = zlib.decompress(m.stored)
        except zlib.error as e:
            raise SpecError('metadata does not decompress: %s' % e)
    need(len(raw) == m.size, 'metadata size is %d, not %d', len(raw), m.size)
    try:
        m.value = json.loads(raw.decode('utf-8'))
    except ValueError as e:
        raise SpecError('metadata is not JSON: %s' % e)
    m.raw = raw
    m.pos, m.end = pos, p
    return m


def parse(data, strict=True, decompress=True):
    """Parse a complete archive, accounting for every byte of it."""
    a = parse_header(data)
    pos = 32
    a.meta = None
    if a.metadata_on:
        a.meta = parse_meta(data, pos)
        pos = a.meta.end
    a.offsets = None
    a.offsets_pos = pos
    if a.offsets_on:
        n = a.nchunks + a.max_app_chunks
        need(len(data) >= pos + 8 * n, 'offsets cut off')
        a.offsets = list(struct.unpack_from('<%dq' % n, data, pos))
        pos += 8 * n
    a.chunks_pos = pos
    a.chunks, a.positions, a.digests, a.sizes = [], [], [], []
    content = []
    ds = SIZES[a.checksum]
    for i in range(a.nchunks):
        need(len(data) >= pos + 16, 'chunk %d cut off', i)
        nbytes, blocksize, ctbytes = struct.unpack_from('<III', data, pos + 4)
        need(ctbytes >= 16, 'chunk %d: ctbytes %d', i, ctbytes)
        c = data[pos:pos + ctbytes]
        need(len(c) == ctbytes, 'chunk %d cut off', i)
        d = data[pos + ctbytes:pos + ctbytes + ds]
        need(d == digest(a.checksum, c), 'checksum of chunk %d is wrong', i)
        want = a.last_chunk if i == a.nchunks - 1 else a.chunk_size
        if want != -1:
            need(nbytes == want, 'chunk %d holds %d bytes, not %d', i, nbytes, want)
        if a.offsets is not None and strict:
            need(a.offsets[i] == pos, 'offset of chunk %d is %d, not %d', i, a.offsets[i], pos)
        if decompress:
            try:
                plain = blosc.decompress(c)
            except Exception as e:
                raise SpecError('chunk %d does not decompress: %s' % (i, e))
            need(len(plain) == nbytes, 'chunk %d: length', i)
            content.append(plain)
        a.chunks.append(c)
        a.positions.append(pos)
        a.digests.append(d)
        a.sizes.append(nbytes)
        pos += ctbytes + ds
    if a.offsets is not None and strict:
        for i in range(a.nchunks, len(a.offsets)):
            need(a.offsets[i] == -1, 'unused offset %d is %d', i, a.offsets[i])
    need(pos == len(data), '%d stale bytes after the last chunk', len(data) - pos)
    a.content = b''.join(content) if decompress else None
    a.length = len(data)
    return a


def chunking(size, chunk_size):
    """(nchunks, chunk_size, last_chunk) of the documented partition."""
    if size == 0:
        return 1, 0, 0
    cs = min(size, chunk_size)
    n = (size - 1) // cs + 1
    return n, cs, size - cs * (n - 1)


# ---------------------------------------------------------------- payloads
def _noise(n):
    out, i = [], 0
    while len(out) * 64 < n:
        out.append(hashlib.sha512(b'noise%d' % i).digest())
        i += 1
    return b''.join(out)[:n]


_CACHE = {}


def payload(kind, n, salt=0):
    """Deterministic bytes; a longer payload of the same kind and salt extends a shorter one."""
    have = _CACHE.get((kind, salt))
    if have is None or len(have) < n:
        m = max(4096, 1 << (n - 1).bit_length() if n else 0)
        if kind == 'zero':
            have = bytes(m)
        elif kind == 'ramp':
            base = bytes(range(256))
            have = b''.join(bytes((b * 1 + j * 37 + salt * 11) & 255 for b in base)
                            for j in range(256))
            have = have * (m // len(have) + 1)
        elif kind == 'ints':
            have = struct.pack('<%dq' % (m // 8 + 1), *range(salt, salt + m // 8 + 1))
        elif kind == 'text':
            s = (b'The quick brown fox %d jumps over the lazy dog. ' % salt)
            have = s * (m // len(s) + 1)
        elif kind == 'noise':
            if salt:
                h = b''.join(hashlib.sha512(b's%d-%d' % (salt, i)).digest()
                             for i in range(m // 64 + 1))
                have = h
            else:
                have = _noise(m)
        else:
            raise ValueError(kind)
        _CACHE[(kind, salt)] = have
    return have[:n]


def compress(data, typesize=8, clevel=7, shuffle=True, cname='blosclz'):
    return blosc.compress(data, typesize=typesize, clevel=clevel, shuffle=int(shuffle),
                          cname=cname)
