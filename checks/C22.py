import io
import itertools
import json
import os
import re
import sys

from mc import bp, clim, ops, packcases, spec
from mc.core import Violation, call, require, short
from checks import C19

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = ('operations: every operation of mc/ops.py at every level, in every order of levels. space: every pack of a bounded '
        'option space, then unpack, append, rewrite and array round trip, at every level. damaged: every byte of three archives '
        'set to up to 17 other values and every cut, at every level. commands: every command of the '
        'alphabet of C19 on every initial directory without, with -v and with -d. levels: every sequence of set_level calls '
        '(valid and not), prefix changes and messages up to a depth, compared with a model of the log module; a state is '
        '(level, prefix). encoding: every command and the functions on files, with names and metadata of every script, at every level with a standard '
        'output of every encoding: as with one that can print everything. Results (return value or error, and complete directories) must agree; nothing may be printed at '
        'the normal level by the library, and the lines of a level must be among those of the next, in order.')
ASSUMPTIONS = ['object addresses in debug messages are not compared']
BLOCK = 4
LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']
NAMES = [n for n in ops.OPS if not n.startswith('cli')]
ORDERS = list(itertools.permutations(LEVELS))


def space(tier):
    for c in packcases.cases('quick'):
        g, kind, size, chunk = c[:4]
        if g == 'dense' and size < (60 if tier == 'thorough' else 34) and chunk < (50 if tier == 'thorough' else 30):
            yield c
        elif g in ('bloscpack-args', 'payloads') and size <= 4000 and (tier == 'thorough' or size <= 100 and chunk == 33 or g == 'payloads' and size > 100):
            yield c
        elif g == 'metadata-args' and (tier == 'thorough' or c[7][1] in (0, 6)):
            yield c
        elif g == 'big-chunks' and size < 5000:
            yield c
        elif g == 'typesize' and (tier == 'thorough' or c[4][0] % 16 in (0, 1, 8)):
            yield c
        elif g == 'many-chunks' and size < (70000 if tier == 'thorough' else 1000):
            yield c


def cases(tier):
    for i in range(len(NAMES)):
        for o in range(len(ORDERS)):
            yield ['operations', i, o]
    block = []
    for c in space(tier):
        block.append(c)
        if len(block) == 16:
            yield ['space', block]
            block = []
    yield ['space', block]
    for i in range(8):
        n = len(list(C19.alphabet(C19.initial(i))))
        for k in range(0, n, 16):
            yield ['commands', i, k, min(n, k + 16)]
    for first in range(len(ACTS)):
        for second in range(len(ACTS)):
            yield ['levels', first, second]
    for i in range(12):
        yield ['arguments', i]
    for i in range(len(SCRIPTS)):
        for enc in ENCODINGS:
            for lv in range(3):
                yield ['encoding', i, enc, lv]
    for i, a in enumerate(damage_archives()):
        for pos in range(len(a)):
            yield ['damaged', i, pos]


def lines(text):
    return [re.sub(r'0x[0-9a-f]{6,}', '0x', l) for l in text.splitlines()]


def subsequence(a, b):
    it = iter(b)
    for x in a:
        for y in it:
            if x == y:
                break
        else:
            return x
    return None


def at_levels(fn, order, what, ctx, silent=True):
    """fn at every level in the given order; results must be the same."""
    seen = {}
    for lv in order:
        bp.log.set_level(getattr(bp.log, lv))
        try:
            with bp.quiet() as (out, err):
                r = fn()
        finally:
            bp.log.set_level(bp.log.NORMAL)
        seen[lv] = (r, lines(out.getvalue()), err.getvalue())
        ctx.count('transitions')
    ref = seen['NORMAL']
    for lv in LEVELS:
        require(seen[lv][0] == ref[0], '%s: gives %s at level %s, %s at level NORMAL', what, short(seen[lv][0], 300), lv, short(ref[0], 300))
        require(not seen[lv][2], '%s: prints on standard error at level %s: %s', what, lv, short(seen[lv][2]))
    if silent:
        require(not ref[1], '%s: prints at the normal level: %s', what, short(ref[1]))
    compare_lines({lv: seen[lv][1] for lv in LEVELS}, what)
    ctx.state(repr(seen['DEBUG'][1][:40]).encode())
    ctx.count('traces')
    return seen


def compare_lines(seen, what):
    for a, b in (('NORMAL', 'VERBOSE'), ('VERBOSE', 'DEBUG')):
        miss = subsequence(seen[a], seen[b])
        require(miss is None, '%s: level %s does not print the line %r of level %s', what, b, miss, a)


# ---- the log module itself

TEXTS = ['plain', 'two\nlines', 'end\n', '\n', '', 'a: b', '100 %s %d', '\u00e9\u4e2d', '  indented\n\n  twice']
ACTS = ([('set', l) for l in ('NORMAL', 'VERBOSE', 'DEBUG', 'QUIET', 'normal', '', None, 0, 1, 'NORMALVERBOSE')] +
        [('prefix', 'blpk'), ('prefix', 'x: y')] +
        [('say', how, lv, i) for i, (how, lv) in enumerate([
            ('normal', 'NORMAL'), ('verbose', 'VERBOSE'), ('debug', 'DEBUG'), ('verbose level', 'NORMAL'), ('verbose level', 'VERBOSE'),
            ('verbose level', 'DEBUG'), ('verbose level', 'LOUD'), ('error', 'NORMAL'), ('error 2', 'NORMAL')])])


def model(level, prefix, act, text):
    """(level, prefix, printed, outcome)"""
    if act[0] == 'set':
        if act[1] in LEVELS:
            return act[1], prefix, '', 'ok'
        return level, prefix, '', 'refused'
    if act[0] == 'prefix':
        return level, act[1], '', 'ok'
    how, lv = act[1], act[2]
    ls = [l for l in text.split('\n') if l]
    if how.startswith('error'):
        return level, prefix, ''.join('%s: error: %s\n' % (prefix, l) for l in ls), 'exit %d' % (2 if how.endswith('2') else 1)
    if lv not in LEVELS:
        return level, prefix, '', 'refused'
    if LEVELS.index(lv) <= LEVELS.index(level):
        return level, prefix, ''.join('%s: %s\n' % (prefix, l) for l in ls), 'ok'
    return level, prefix, '', 'ok'


def perform(act, text):
    log = bp.log
    with bp.quiet() as (out, err):
        try:
            if act[0] == 'set':
                log.set_level(act[1])
            elif act[0] == 'prefix':
                log.set_prefix(act[1])
            elif act[1] == 'verbose level':
                log.verbose(text, level=act[2])
            elif act[1].startswith('error'):
                log.error(*([text] + ([2] if act[1].endswith('2') else [])))
            else:
                getattr(log, act[1])(text)
            res = 'ok'
        except SystemExit as e:
            res = 'exit %s' % e.code
        except (ValueError, TypeError):
            res = 'refused'
    return out.getvalue(), err.getvalue(), res


def run_levels(first, second, depth, ctx):
    old = bp.log.LEVEL, bp.log.PREFIX
    try:
        for third in itertools.product(ACTS, repeat=depth - 2):
            seq = [ACTS[first], ACTS[second]] + list(third)
            level, prefix = 'NORMAL', 'p'
            bp.log.set_level('NORMAL')
            bp.log.set_prefix('p')
            for k, act in enumerate(seq):
                text = TEXTS[(k + first + second) % len(TEXTS)]
                level, prefix, want, wres = model(level, prefix, act, text)
                got, err, res = perform(act, text)
                require((got, res) == (want, wres) and not err, 'after %s: %s of %r prints %r (%s), not %r (%s)',
                        seq[:k], act, text, got + err, res, want, wres)
                ctx.count('transitions')
                ctx.state((level + prefix).encode())
            # at the end every message goes where it should
            for i, text in enumerate(TEXTS):
                for act in (('say', 'normal', 'NORMAL'), ('say', 'verbose', 'VERBOSE'), ('say', 'debug', 'DEBUG'),
                            ('say', 'verbose level', 'DEBUG')):
                    if (i + first) % 3 and depth > 2:
                        continue
                    _, _, want, wres = model(level, prefix, act, text)
                    got, err, res = perform(act, text)
                    require((got, res) == (want, wres), 'after %s: %s of %r prints %r (%s), not %r (%s)', seq, act, text, got, res, want, wres)
                    ctx.count('transitions')
            ctx.count('traces')
    finally:
        bp.log.LEVEL, bp.log.PREFIX = old


# ---- what the terminal can show

SCRIPTS = ['plain', 'caf\u00e9', '\u4e2d\u6587', '\u20ac', '\U0001f600', 'not utf-8 \udcff', 'e\u0301', 'new\nline', '%s {0} \\n', "it's", '\u202e', '\x7f']
ENCODINGS = ['utf-8', 'ascii', 'latin-1', 'cp1252', 'koi8-r', 'shift_jis', 'utf-16', None]


def on_terminal(enc, fn):
    """fn with a standard output of this encoding (None: whatever it gets)."""
    raw = io.BytesIO()
    out = io.StringIO() if enc is None else io.TextIOWrapper(raw, enc, 'strict', write_through=True)
    old = sys.stdout
    sys.stdout = out
    try:
        return fn()
    finally:
        sys.stdout = old
        if enc is not None:
            out.detach()


def run_encoding(i, enc, lv, ctx):
    name = SCRIPTS[i]
    meta = {'name': name.replace('\udcff', '\u00ff'), 'list': [name[0]] * 3, 'n': 1}
    data = spec.payload('text', 300)
    top, d = os.getcwd(), ctx.path('encoding')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    args, kw = bp.blosc_args((8, 1, 1, 'lz4')), {'metadata_args': bp.metadata_args(('None', 0, 'md5', 600))}
    flag = [[], ['-v'], ['-d']][lv]
    level = LEVELS[lv]

    def command(*argv):
        def go():
            old, threads = (sys.argv, bp.log.LEVEL, bp.log.PREFIX), bp.blosc.set_nthreads(1)
            sys.argv = ['blpk', '-n', '1'] + flag + list(argv)
            try:
                bp.cli.main()
                return 'done'
            except SystemExit as e:
                return 'exit %s' % e.code
            finally:
                sys.argv, bp.log.LEVEL, bp.log.PREFIX = old
                bp.blosc.set_nthreads(threads)
        return go

    def at_level(f):
        def go():
            old = bp.log.LEVEL
            bp.log.LEVEL = getattr(bp.log, level)
            try:
                return f()
            finally:
                bp.log.LEVEL = old
        return go
    e = name + '.blp'
    acts = [('pack_file_to_file', at_level(lambda: bp.file_io.pack_file_to_file(name, 'o.blp', 64, meta, args, None, kw['metadata_args']))),
            ('pack_file_to_file to', at_level(lambda: bp.file_io.pack_file_to_file('in', name + '2', 64, meta, args))),
            ('pack_bytes_to_file', at_level(lambda: bp.file_io.pack_bytes_to_file(data, name + '3', 64, meta, args))),
            ('unpack_file_from_file', at_level(lambda: bp.file_io.unpack_file_from_file(e, 'o'))),
            ('unpack_file_from_file to', at_level(lambda: bp.file_io.unpack_file_from_file('a.blp', name + '2'))),
            ('unpack_bytes_from_file', at_level(lambda: bp.file_io.unpack_bytes_from_file(e))),
            ('append', at_level(lambda: bp.append_file(e, name))),
            ('missing file', at_level(lambda: bp.file_io.pack_file_to_file(name + 'x', 'o'))),
            ('rewrite', at_level(lambda: rewrite(e, {'new': name.encode('utf-8', 'replace').decode() * 3}))),
            ('c', command('c', '-z', '100', name, 'o.blp')), ('c default', command('c', name)), ('c meta', command('c', '-m', 'meta', name, 'p.blp')),
            ('d', command('d', e, 'o')), ('d default', command('-f', 'd', e)), ('a', command('a', e, name)), ('a meta', command('a', '-m', 'meta', e, name)),
            ('i', command('i', e)), ('i missing', command('i', name + 'x')), ('c missing', command('c', name + 'x')), ('a missing', command('a', e, name + 'x')),
            ('c there', command('c', 'in', e)), ('d bad name', command('d', name)), ('i no archive', command('i', name)),
            ('bad metadata', command('c', '-m', name, 'in', 'o')), ('a itself', command('a', e, e))]

    def rewrite(e, new):
        with open(e, 'r+b') as fp:
            bp.seek_to_metadata(fp)
            bp.rewrite_fp(fp, new)

    def one(act, enc):
        for n in os.listdir('.'):
            os.unlink(n)
        archive = bp.pack(data, 64, (8, 1, 1, 'lz4'), None, meta, ('None', 0, 'md5', 600))
        for n, content in ((name, data), (e, archive), ('in', data), ('a.blp', archive),
                           ('meta', json.dumps({'other': meta['name']}).encode())):
            bp.write(n, content)
        threads = bp.blosc.set_nthreads(1)
        try:
            r = call(on_terminal, enc, act)
        finally:
            bp.blosc.set_nthreads(threads)
        return (repr(r.value) if r.ok else type(r.exc).__name__), {n: bp.read(n) for n in os.listdir('.')}
    try:
        for what, act in acts:
            ref, got = one(act, None), one(act, enc)
            w = '%s with the name %r at level %s, standard output in %s' % (what, name, level, enc)
            require(got[0] == ref[0], '%s: %s, not %s', w, got[0], ref[0])
            require(got[1] == ref[1], '%s: leaves %s, not %s', w, sorted(got[1]), sorted(ref[1]))
            ctx.count('transitions')
            ctx.outcome('terminal: %s' % ref[0][:20])
            ctx.state(repr((i, enc, lv, what)).encode())
    finally:
        for n in os.listdir('.'):
            os.unlink(n)
        os.chdir(top)


# ---- one point of the option space

def life(case, d):
    """Pack, read in every way, append and rewrite: everything that comes out."""
    g, kind, size, chunk, ba, bpa, meta, ma = case
    data = spec.payload(kind, size)
    res = []
    g1 = ops.guarded
    packed = []

    def pack():
        packed.append(bp.pack(data, chunk, ba, bpa, meta, ma))
        return packed[0]
    res.append(g1(pack))
    if not packed:
        return res
    a, b = os.path.join(d, 'l.blp'), os.path.join(d, 'l')
    bp.write(b, data)

    def files():
        kw = dict(chunk_size=chunk) if chunk is not None else {}
        bp.file_io.pack_file_to_file(b, a, metadata=meta, blosc_args=bp.blosc_args(ba), bloscpack_args=bp.bloscpack_args(bpa),
                                     metadata_args=bp.metadata_args(ma), **kw)
        return bp.read(a)
    res.append(g1(files))

    def tofile():
        kw = dict(chunk_size=chunk) if chunk is not None else {}
        bp.file_io.pack_bytes_to_file(data, a, metadata=meta, blosc_args=bp.blosc_args(ba), bloscpack_args=bp.bloscpack_args(bpa),
                                      metadata_args=bp.metadata_args(ma), **kw)
        return bp.read(a)
    res.append(g1(tofile))
    bp.write(a, packed[0])
    res.append(g1(lambda: bp.unpack(packed[0])))
    res.append(g1(lambda: bp.file_io.unpack_bytes_from_file(a)))

    def unfile():
        m = bp.file_io.unpack_file_from_file(a, b)
        return [m, bp.read(b)]
    res.append(g1(unfile))
    res.append(g1(lambda: bp.numpy_io.unpack_ndarray_from_bytes(packed[0])))
    bp.write(b, data[:40])
    res.append(g1(lambda: bp.append_file(a, b, bp.blosc_args(ba))))
    res.append(ops.plain(bp.read(a)))

    def rewrite():
        with open(a, 'r+b') as fp:
            fp.seek(32)
            return bp.rewrite_fp(fp, {"q": 1})
    if meta is not None:
        res.append(g1(rewrite))
        res.append(ops.plain(bp.read(a)))
    damaged = bytearray(packed[0])
    damaged[-1] ^= 1
    res.append(g1(lambda: bp.unpack(bytes(damaged))))
    res.append(g1(lambda: bp.unpack(packed[0][:-1])))
    return res


# ---- damaged archives

def damage_archives():
    chunks = [spec.compress(spec.payload('text', 24, 0), 4, 5, 1, 'lz4'), spec.compress(b'7' * 24, 8, 9, 1, 'blosclz'), spec.compress(b'q' * 9, 1, 1, 0, 'zlib')]
    meta = {'dtype': "'|u1'", 'shape': [57], 'order': 'C', 'container': 'numpy'}
    for ck, sec, offsets in (('None', None, 'none'), ('crc32', spec.meta_section(meta, 'None', 0, 'None', 80), 'set'),
                             ('None', spec.meta_section(meta, 'zlib', 6, 'adler32', 75), 'unset')):
        yield spec.build(chunks, sec, offsets, ck, 2 if offsets != 'none' else 0, 4, 24, 9)


def attempt(fn):
    try:
        return ops.guarded(fn)
    except MemoryError:             # the header asks for a very long list of offsets
        return ['raised', 'MemoryError', '']


def handled(archive, d, full):
    res = [attempt(lambda: bp.unpack(archive)), attempt(lambda: bp.numpy_io.unpack_ndarray_from_bytes(archive))]
    fp = io.BytesIO(archive)
    res.append(attempt(lambda: bp.append_fp(fp, io.BytesIO(b'z' * 20), 20)))
    res.append(ops.plain(fp.getvalue()))
    if full:
        name = os.path.join(d, 'damaged.blp')
        bp.write(name, archive)
        res.append(attempt(lambda: bp.file_io.unpack_file_from_file(name, name + '.out')))
        if len(archive) >= 52 and archive[50:52] != b'\0\0':
            return res                  # writing gigabytes of preallocated space takes its time
        fp = io.BytesIO(archive)
        fp.seek(32)
        res.append(attempt(lambda: bp.rewrite_fp(fp, {"n": 1})))
        res.append(ops.plain(fp.getvalue()))
    return res


# ---- argument forms

def arguments(i):
    F = bp.file_io
    data = spec.payload('text', 100)
    out = []
    for z in ('16B', '0.5K', '1M', '3.7B', 16, 1, 0, -1, 2 ** 31, 2 ** 31 - 1, 'max', '', '5', 5.0, None, '1X', 'K', b'1K', True, [3]):
        for d in (data, b'', b'x'):
            out.append(lambda z=z, d=d: F.pack_bytes_to_bytes(d, z))
    for n in (0, 1, -1, 10, 2 ** 20, 2 ** 62, 2 ** 63, 2 ** 64, 3.0, None, '5'):
        for z in (1, 2, '1K', 2 ** 20, 0, None):
            out.append(lambda n=n, z=z: bp.calculate_nchunks(n, z))
    for m in (None, {}, [], 0, '', {1: 2}, {"k": float('nan')}, object(), {"k": b'x'}, [1], {"a": "\u4e2d"}):
        for c in (None, ('zlib', 6, 'adler32', None), ('None', 0, 'None', 4), ('zlib', 11, 'None', None), ('x', 1, 'x', None), ('zlib', 6, 'md5', -1),
                  ('zlib', 6, 'md5', 'f:0:0'), ('zlib', 6, 'md5', 2.5), ('zlib', 6, 'md5', 2 ** 33)):
            out.append(lambda m=m, c=c: bp.pack(data, 30, None, None, m, c))
    for app in (None, 0, 5, -1, 2.5, '7', 'f:2:0', 'f:0:-4', 2 ** 16):
        for ck in ('adler32', 'None', 'nope', None, 3, 0):
            for off in (True, False):
                def f(app=app, ck=ck, off=off):
                    kw = {} if app is None else {'max_app_chunks': bp.number_or_function(app) if str(app)[0] == 'f' else app}
                    return F.pack_bytes_to_bytes(data, 30, bloscpack_args=bp.BloscpackArgs(offsets=off, checksum=ck, **kw))
                out.append(f)
    for kw in ({}, dict(typesize=0), dict(typesize=256), dict(typesize=None), dict(clevel=-1), dict(clevel=10), dict(clevel=None), dict(shuffle=3),
               dict(shuffle=None), dict(cname='x'), dict(cname=None), dict(cname='snappy'), dict(typesize='4'), dict(clevel=1.5)):
        out.append(lambda kw=kw: F.pack_bytes_to_bytes(data, 30, blosc_args=bp.BloscArgs(**kw)))
        good = spec.build([spec.compress(data)], None, 'set', 'adler32', 3)

        def g(kw=kw, good=good):
            import io
            fp = io.BytesIO(good)
            r = ops.guarded(lambda: bp.append_fp(fp, io.BytesIO(data), 100, bp.BloscArgs(**kw)))
            return [r, fp.getvalue()]
        out.append(g)
    for name in ('gone', 'dir', 'gone/gone'):
        os.makedirs('dir', exist_ok=True)
        out.append(lambda name=name: F.pack_file_to_file(name, 'o'))
        out.append(lambda name=name: F.pack_bytes_to_file(data, name + '/x/y'))
        out.append(lambda name=name: F.unpack_file_from_file(name, 'o'))
        out.append(lambda name=name: F.unpack_bytes_from_file(name))
        out.append(lambda name=name: bp.append_file(name, name))
        out.append(lambda name=name: bp.numpy_io.unpack_ndarray_from_file(name))
    return out[i::12]


def run(case, ctx):
    g = case[0]
    ctx.sample({'case': short(case)})
    if g == 'operations':
        name = NAMES[case[1]]
        d = ctx.path('lv')
        os.makedirs(d, exist_ok=True)

        def one():
            pool, level = ops.make_pool(), bp.log.LEVEL
            r = ops.run_op(name, pool, d)
            require(bp.log.LEVEL == level, 'operation %s changed the log level to %s', name, bp.log.LEVEL)
            after = ops.snapshot(pool)
            del after['the process']['log level']
            return r, after
        r = at_levels(one, ORDERS[case[2]], 'operation %s' % name, ctx)
        ctx.outcome(r['NORMAL'][0][0][0])
    elif g == 'space':
        for i, c in enumerate(case[1]):
            at_levels(lambda: life(c, ctx.tmp), ORDERS[i % 6], 'life of %s' % short(c, 300), ctx)
    elif g == 'encoding':
        run_encoding(*(case[1:] + [ctx]))
    elif g == 'arguments':
        for f in arguments(case[1]):
            r = at_levels(lambda: ops.guarded(f), ORDERS[case[1] % 6], 'odd arguments %s' % (f.__defaults__,), ctx)
            ctx.outcome(r['NORMAL'][0][0])
    elif g == 'damaged':
        archive = list(damage_archives())[case[1]]
        pos = case[2]
        old = archive[pos]
        for v in sorted({old ^ 1 << b for b in range(8)} | {0, 255, old + 1 & 255, old - 1 & 255, old ^ 0xe0, 0x61, 0x81, 0xa1, 0xc1} - {old}):
            bad = archive[:pos] + bytes([v]) + archive[pos + 1:]
            r = at_levels(lambda: handled(bad, ctx.tmp, v & 1 == 0), ORDERS[v % 6], 'archive %d with byte %d set to %d' % (case[1], pos, v), ctx)
            ctx.outcome(str(r['NORMAL'][0][0][:2] if r['NORMAL'][0][0][0] != 'ok' else 'ok')[:60])
        cut = archive[:pos]
        at_levels(lambda: handled(cut, ctx.tmp, True), ORDERS[pos % 6], 'archive %d cut to %d bytes' % (case[1], pos), ctx)
    elif g == 'commands':
        d0 = C19.initial(case[1])
        cmds = list(C19.alphabet(d0))[case[2]:case[3]]
        for cmd in cmds:
            seen, ref = {}, None
            for lv, opt in zip(LEVELS, ('', '-v', '-d')):
                where = ctx.path('d')
                C19.put(d0, where)
                c = dict(cmd, level=opt)
                old = os.getcwd()
                os.chdir(where)
                try:
                    status, out, err, exc = bp.run_cli(clim.argv(c))
                finally:
                    os.chdir(old)
                got = (status, type(exc).__name__, C19.get(where))
                if ref is None:
                    ref = got
                what = 'blpk %s in directory %d' % (' '.join(clim.argv(c)), case[1])
                require(got == ref, '%s: gives %s, without %s %s', what, short(got, 300), opt, short(ref, 300))
                seen[lv] = lines(out)
                ctx.count('transitions')
            compare_lines(seen, 'blpk %s in directory %d' % (' '.join(clim.argv(cmd)), case[1]))
            ctx.count('traces')
            ctx.outcome('command status %s' % ref[0])
    else:
        run_levels(case[1], case[2], 4 if ctx.tier == 'thorough' else 3, ctx)
