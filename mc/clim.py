"""Model of the blpk command on a directory: what each command must do.

A directory is a dict name -> bytes.  A command is a dict:
  sub    'c' 'd' 'a' 'i' (long or short form by `long`)
  x, y   file arguments (y None: not given)
  force, noext, level ('', '-v', '-d')
  opts   compress/append options: t l s c z k o ; meta: name of the metadata file or None
"""
import json

from mc import bp, hist, spec
from mc.core import Violation, require, short

LONG = {'c': 'compress', 'd': 'decompress', 'a': 'append', 'i': 'info'}


def argv(cmd):
    a = []
    if cmd.get('level'):
        a.append(cmd['level'])
    if cmd.get('force'):
        a.append('-f')
    if cmd.get('nthreads') is not None:
        a += ['-n', str(cmd['nthreads'])]
    a.append(LONG[cmd['sub']] if cmd.get('long') else cmd['sub'])
    o = cmd.get('opts') or {}
    for k in ('t', 'l', 'c', 'z', 'k'):
        if k in o:
            a += ['-' + k, str(o[k])]
    for k in ('s', 'o'):
        if o.get(k):
            a.append('-' + k)
    if cmd.get('meta') is not None:
        a += ['-m', cmd['meta']]
    if cmd.get('noext'):
        a.append('-e')
    a += [v for v in (cmd.get('x'), cmd.get('y')) if v is not None]
    return a


def sizes(z):
    """The chunk size option as an integer."""
    if z == 'max':
        return spec.MAX_BUFFER
    if z[-1] in 'BKMGT':
        return int(float(z[:-1]) * 1024 ** 'BKMGT'.index(z[-1]))
    return int(z)


def try_parse(data):
    try:
        return spec.parse(data, strict=False)
    except spec.SpecError:
        return None


def load_meta(dir_, name):
    """(ok, value)"""
    if name is None:
        return True, None
    if name not in dir_:
        return False, 'oneline'
    try:
        return True, json.loads(dir_[name].decode('utf-8').strip())
    except ValueError:
        return False, 'any'


def fail(how, target=None):
    return {'ok': False, 'how': how, 'target': target}


def damage_kind(data):
    """How the library must report an archive it cannot unpack: 'oneline' for a version or
    checksum mismatch with the rest in order, else 'any'."""
    if data[:4] == b'blpk' and len(data) >= 32 and data[4] != spec.VERSION:
        return 'oneline'
    return 'any'


def expect(dir_, cmd):
    """{'ok': True, 'target': name, ...} or {'ok': False, 'how': 'oneline'|'any', 'target': name that may change}"""
    sub, x, y = cmd['sub'], cmd['x'], cmd.get('y')
    if sub == 'c':
        out = y or x + '.blp'
        if x not in dir_:
            return fail('oneline')
        if out in dir_ and (not cmd.get('force') or out == x):
            return fail('oneline')
        if out == x:
            return fail('oneline')
        ok, meta = load_meta(dir_, cmd.get('meta'))
        if not ok:
            return fail(meta)
        o = cmd.get('opts') or {}
        e = {'ok': True, 'target': out, 'content': dir_[x], 'meta': meta, 'opts': o}
        return e
    if sub == 'd':
        if cmd.get('noext'):
            if y is None:
                return fail('oneline')
            out = y
        else:
            if not x.endswith('.blp'):
                return fail('oneline')
            out = y or x[:-4]
            if not out:                         # a file called just '.blp'
                return fail('oneline' if x not in dir_ else 'any')
        if x not in dir_:
            return fail('oneline')
        if out in dir_ and (not cmd.get('force') or out == x):
            return fail('oneline')
        a = try_parse(dir_[x])
        if a is None:
            return fail(damage_kind(dir_[x]), out)
        return {'ok': True, 'target': out, 'content': a.content, 'archive': a}
    if sub == 'a':
        if not cmd.get('noext') and not x.endswith('.blp'):
            return fail('oneline')
        if x not in dir_ or y not in dir_ or x == y:
            return fail('oneline')
        ok, meta = load_meta(dir_, cmd.get('meta'))
        if not ok:
            return fail(meta)
        a = try_parse(dir_[x])
        if a is None or a.offsets is None:
            return fail('any')
        if a.chunk_size == 0 and dir_[y]:       # made from an empty file: nothing can be appended
            return fail('any')
        o = cmd.get('opts') or {}
        n = len(dir_[y])
        if hist.new_chunks(a, n) > a.max_app_chunks:
            return fail('any')
        if cmd.get('meta') is not None:
            if a.meta is None:
                return fail('any')
            if hist.rewrite_model(a.meta, meta, {})[0] != 'ok':
                return fail('any')
        return {'ok': True, 'target': x, 'archive': a, 'data': dir_[y], 'meta': meta, 'opts': o}
    # info
    if x not in dir_:
        return fail('oneline')
    a = try_parse(dir_[x])
    if a is None:
        return None                             # may or may not be readable far enough
    return {'ok': True, 'target': None, 'archive': a}


def settings(o):
    return (int(o.get('t', 8)), int(o.get('l', 7)), not o.get('s', False), o.get('c', 'blosclz'))


def check(dir_, cmd, status, out, err, exc, after, strict_chunks=True):
    """Raises Violation unless the command did what the model says; returns the expectation."""
    what = 'blpk %s in %s' % (' '.join(argv(cmd)), {k: len(v) for k, v in sorted(dir_.items())})
    e = expect(dir_, cmd)
    target = e and e['target']
    for name in dir_:
        if name != target or (not cmd.get('force') and cmd['sub'] != 'a'):
            require(after.get(name) == dir_[name], '%s: %s the existing file %r', what,
                    'removed' if name not in after else 'changed', name)
    extra = [n for n in after if n not in dir_ and n != target]
    require(not extra, '%s: created %s', what, extra)
    if e is None:
        require(after == dir_, '%s: changed the directory', what)
        require(exc is None or status, '%s: status', what)
        return e
    if not e['ok']:
        require(status != 0, '%s: reports success (%s)', what, short(out))
        if cmd['sub'] == 'a' or target is None:
            require(after == dir_, '%s: failed but changed %s', what, [n for n in after if after[n] != dir_.get(n)])
        if e['how'] == 'oneline':
            oneline(what, cmd, status, out, err, exc)
        return e
    require(status == 0 and exc is None, '%s: status %s, %s %s %s', what, status, exc and repr(exc), short(out), short(err[-300:]))
    if cmd['sub'] in 'ci' and not cmd.get('level') and cmd['sub'] == 'c':
        require(not out, '%s: prints %s', what, short(out))
    if cmd['sub'] == 'c':
        a = hist.parse(after[target], what) if target in after else None
        require(a is not None, '%s: did not write %r', what, target)
        o = e['opts']
        require(a.content == e['content'], '%s: the archive holds %s, not %s', what, short(a.content), short(e['content']))
        require(json.dumps(a.meta.value if a.meta else None) == json.dumps(e['meta']), '%s: metadata %s, not %s', what,
                short(a.meta and a.meta.value), short(e['meta']))
        size = sizes(str(o['z'])) if 'z' in o else 2 ** 20
        n, cs, last = spec.chunking(len(e['content']), size)
        st = settings(o)
        require((a.nchunks, a.chunk_size, a.last_chunk, a.checksum, a.typesize, a.offsets_on, a.max_app_chunks)
                == (n, cs, last, o.get('k', 'adler32'), st[0], not o.get('o'), 0 if o.get('o') else 10 * n),
                '%s: header is %s', what, (a.nchunks, a.chunk_size, a.last_chunk, a.checksum, a.typesize, a.offsets_on,
                                           a.max_app_chunks))
        if strict_chunks:
            for i, c in enumerate(a.chunks):
                require(c == spec.compress(e['content'][i * cs:(i + 1) * cs] if cs else b'', *st),
                        '%s: chunk %d is not compressed with %s', what, i, st)
    elif cmd['sub'] == 'd':
        require(after.get(target) == e['content'], '%s: %r holds %s, not %s', what, target, short(after.get(target)),
                short(e['content']))
        m = e['archive'].meta
        if not cmd.get('level'):
            if m is None or not m.value:
                require(not out, '%s: prints %s', what, short(out))
            else:
                require('Metadata' in out, '%s: does not print the metadata', what)
    elif cmd['sub'] == 'a':
        a = e['archive']
        mid = dir_[x_of(cmd)]
        b = hist.parse(after[target], what)
        if cmd.get('meta') is not None:
            kind, sec = hist.rewrite_model(a.meta, e['meta'], {})
            mid = mid[:a.meta.pos] + sec + mid[a.meta.end:]
            a = hist.parse(mid, what)
        hist.check_append(e['data'], a, mid, after[target], NotImplemented, settings(e['opts']), what)
        if not cmd.get('level'):
            require(not out, '%s: prints %s', what, short(out))
    else:
        require(after == dir_, '%s: changed the directory', what)
        require(out, '%s: prints nothing', what)
    return e


def x_of(cmd):
    return cmd['x']


def oneline(what, cmd, status, out, err, exc):
    require(exc is None and 'Traceback' not in err, '%s: %s instead of an error message', what, exc and repr(exc))
    lines = [l for l in out.splitlines() if ': error: ' in l]
    require(lines, '%s: prints no error (%s, %s)', what, short(out), short(err))
    if not cmd.get('level') and cmd['sub'] != 'i':
        require(len(out.splitlines()) == 1, '%s: prints %s', what, short(out))
    require(len(lines[-1].split(': error: ', 1)[1].strip()) > 0, '%s: prints an empty message', what)
