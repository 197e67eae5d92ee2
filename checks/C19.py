import json
import os
import shutil
import subprocess
import sys

from mc import bp, clim, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = ('Explicit-state search over directories: a state is the complete content of a scratch directory, a transition is one '
        'blpk command run by the real main() in it. Every sequence of two (thorough: three) commands of the alphabet from '
        'each initial directory, visited directories explored once; after every command the exit status, output and the '
        'complete directory are compared with the model of mc/clim.py, in which archives are read by the independent parser. '
        'options: full product of the compress options. locale: compress, decompress, append and info with metadata files and names of every script, '
        'in a process of every locale: as in that for UTF-8.')
ASSUMPTIONS = ['files that the user may read and write, in a directory nobody else changes']
BLOCK = 1
HANG = 300

META = b'{"title": "x", "n": [1, 2, 3]}'
BIG = json.dumps({"big": [i * 7919 % 10007 for i in range(200)]}).encode()


def base():
    return {'a': spec.payload('ints', 90), 'b': spec.payload('text', 30), 'm': META}


def arch(data, chunk=32, meta=None, ck='adler32', off='set', app=2, mx=80):
    n, cs, last = spec.chunking(len(data), chunk)
    chunks = [spec.compress(data[i * cs:(i + 1) * cs] if cs else b'') for i in range(n)]
    return spec.build(chunks, None if meta is None else spec.meta_section(meta, max_size=mx), off, ck, app if off != 'none' else 0,
                      8, cs, last)


def initial(i):
    d = base()
    if i == 1:
        d['a.blp'] = arch(d['b'], meta={"old": 1})
        d['N'] = b'null'
    elif i == 2:
        d['a.blp'] = arch(d['a'], off='none', ck='None')
        d['e'] = b''
    elif i == 3:
        d['a.blp'] = arch(d['b'], 7, None, 'sha512', app=3)
        d['b.blp'] = d['a']
        d['M'] = BIG
        d['N'] = b' null\n'
    elif i == 4:
        a = bytearray(arch(d['a'], meta={"old": 1}))
        a[-20] ^= 4
        d['a.blp'] = bytes(a)
        d['a x'] = b'name with a space'
    elif i == 5:
        a = bytearray(arch(d['a']))
        a[4] = 2
        d['a.blp'] = bytes(a)
        d['.blp'] = arch(d['b'], 16)
    elif i == 6:
        d['a.blp'] = arch(b'', 1, {"old": 1}, app=5)
        d['e'] = b''
    elif i == 8:
        # the extension anywhere but at the end, in other letters, twice, and almost
        del d['b']
        for n in ('x.blp.bak', 'a.BLP', 'ablp', 'a.blp.'):
            d[n] = arch(d['a'] if n != 'ablp' else d['m'], 64)
    elif i == 7:
        d['a.blp'] = arch(d['a'], meta=[], ck='md5')[:-1]
        d['a.blp.blp'] = arch(arch(d['b'], 16), 64)
    return d


OPTS = [{}, {'z': '16B'}, {'z': '50', 'k': 'sha1', 't': 4}, {'o': True, 'k': 'None', 'l': 0}, {'s': True, 'c': 'zlib', 'l': 9},
        {'z': '0.05K', 'k': 'crc32', 'c': 'lz4', 't': 1}, {'z': 'max'}]


def alphabet(dir_):
    """Every command on the files of the directory and a few that do not exist."""
    names = sorted(n for n in dir_ if n not in ('m', 'M', 'N'))
    xs = names + ['gone'] + ([] if 'a.blp' in dir_ else ['a.blp'])
    outs = [None] + [n for n in ('a', 'b.blp', 'a.blp', 'out', 'out.blp')]
    k = 0
    for x in xs:
        for y in outs:
            for force in (False, True):
                k += 1
                yield dict(sub='c', x=x, y=y, force=force, opts=OPTS[k % len(OPTS)], long=k % 2 == 0,
                           meta=(None, 'm', None, 'gone')[k // 2 % 4] if k % 5 else None, level=('', '', '-v', '', '-d')[k % 5])
                yield dict(sub='d', x=x, y=y, force=force, noext=k % 3 == 0, long=k % 2 == 1, level=('', '-v', '', '-d', '')[k % 5])
                yield dict(sub='d', x=x, y=y, force=force, noext=k % 3 != 0)
        for y in names + ['gone']:
            k += 1
            yield dict(sub='a', x=x, y=y, noext=k % 2 == 0, opts=OPTS[k % 2 * 4] if k % 3 else {'l': 3, 't': 2}, meta=None,
                       long=k % 3 == 0)
            yield dict(sub='a', x=x, y=y, noext=k % 2 == 1, meta='m', level=('', '-v', '', '-d')[k % 4])
            if 'M' in dir_:
                yield dict(sub='a', x=x, y=y, meta='M')
            if 'N' in dir_:
                yield dict(sub='a', x=x, y=y, meta='N')
        yield dict(sub='i', x=x, long=k % 2 == 0)


ALPHA = {}


def alpha(i):
    if i not in ALPHA:
        ALPHA[i] = list(alphabet(initial(i)))
    return ALPHA[i]


def put(dir_, where):
    shutil.rmtree(where, ignore_errors=True)
    os.mkdir(where)
    for n, v in dir_.items():
        bp.write(os.path.join(where, n), v)


def get(where):
    return {n: bp.read(os.path.join(where, n)) for n in os.listdir(where)}


def execute(dir_, cmd, ctx, nthreads=1, strict=True):
    """Runs the command, checks it, returns (directory, expectation)."""
    where = ctx.path('d')
    put(dir_, where)
    old = os.getcwd()
    os.chdir(where)
    try:
        status, out, err, exc = bp.run_cli(clim.argv(cmd), nthreads)
    finally:
        os.chdir(old)
    after = get(where)
    ctx.count('transitions')
    e = clim.check(dir_, cmd, status, out, err, exc, after, strict)
    ctx.outcome('%s %s' % (cmd['sub'], 'unspecified' if e is None else 'done' if e['ok'] else 'refused'))
    return after, e


def cases(tier):
    for i in range(9):
        for j in range(len(alpha(i))):
            yield ['search', i, j, 2 if tier == 'thorough' else 1]
    for z in (None, '1', '16', '17B', '0.1K', '1M', 'max', '1.5K'):
        for k in [None] + spec.CHECKSUMS:
            for o in (False, True):
                for m in (None, 'm', 'M', 'empty', 'list', 'null'):
                    yield ['options', z, k, o, m]
    for t in (None, 1, 2, 3, 4, 8, 16, 255):
        for l in (None,) + tuple(range(10)):
            for c in (None, 'blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd'):
                yield ['blosc', t, l, c]
    for n in (1, 2, 3, 4, 5, 8, 16, 255, 256):
        yield ['threads', n]
    for i in range(6):
        yield ['large', i]
    for i in range(len(LOCALES)):
        yield ['locale', i]


def key(dir_):
    return json.dumps(sorted((n, v.hex()) for n, v in dir_.items())).encode()


def search(state, cmds, depth, ctx, visited):
    for cmd in cmds:
        after, e = execute(state, cmd, ctx)
        if after == state:
            continue
        k = key(after)
        if k in visited:
            continue
        visited.add(k)
        ctx.state(k)
        if depth:
            search(after, list(alphabet(after)), depth - 1, ctx, visited)


# name, and character map of one to be made
LOCALES = [('xx', 'ISO-8859-1'), ('xx', 'EUC-JP'), ('xx', 'KOI8-R'), ('xx', 'SHIFT_JIS'), ('xx', 'CP1252'), ('C', None), ('C.utf8', None)]
CONTENTS = [b'{"a": 1}', b'"caf\xc3\xa9"', b'{"\xe4\xb8\xad": ["\xe6\x96\x87", "\xd0\xb6"]}', b'["\\u00e9", "\xf0\x9f\x98\x80"]', b'"\xc2\x85\xc2\xa0x"',
            b'{"k": "\xe2\x82\xac"}\n', b'not json \xc3\xa9', b'"\xe9"', b'"\xa4\xe2"', b'']


def in_locale(i, ctx):
    name, charmap = LOCALES[i]
    top = ctx.path('locale')
    os.makedirs(os.path.join(top, 'dir'), exist_ok=True)
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    for k in [k for k in env if k.startswith('LC_') or k in ('LANG', 'LANGUAGE', 'PYTHONIOENCODING')]:
        del env[k]
    repo = bp.bloscpack.__path__[0]
    env['PYTHONPATH'] = os.path.dirname(repo) + os.pathsep + env['PYTHONPATH']
    env['LC_ALL'] = name
    if charmap is not None:
        full = '%s.%s' % (name, charmap)
        r = subprocess.run(['localedef', '-c', '-i', 'POSIX', '-f', charmap, os.path.join(top, full)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode > 1 or not os.path.isdir(os.path.join(top, full)):
            return None
        env.update(LOCPATH=top, LC_ALL=full)
    out = os.path.join(top, 'result')
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'mc.localedriver', os.path.join(top, 'dir'), out] + [c.hex() for c in CONTENTS],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=top)
    require(r.returncode == 0, 'harness: in locale %s: %s', LOCALES[i], r.stdout[-2000:])
    with open(out) as fp:
        found = json.load(fp)
    shutil.rmtree(top)
    return found


def run_locale(i, ctx):
    got = in_locale(i, ctx)
    if got is None:
        ctx.outcome('locale not available')
        return
    ref = in_locale(len(LOCALES) - 1, ctx)
    require(ref['encoding'].lower() == 'utf-8', 'harness: reference locale is %s', ref['encoding'])
    ctx.outcome('locale %s' % got['encoding'])
    stored = 0
    for a, b in zip(got['runs'], ref['runs']):
        content, flag, cmd, status, files = a
        what = 'blpk %s, metadata file %r, in the locale %s' % (' '.join(flag + [repr(bytes.fromhex(c))[2:-1] for c in cmd]), bytes.fromhex(content), LOCALES[i])
        require(a[:3] == b[:3], 'harness: %s', what)
        require(status == b[3] or status != 'done' != b[3], '%s: %s, in UTF-8 %s', what, status, b[3])
        require(files == b[4], '%s: leaves other files than in UTF-8: %s', what,
                [bytes.fromhex(n) for n in sorted(set(files) | set(b[4])) if files.get(n) != b[4].get(n)])
        if bytes.fromhex(cmd[0]) in (b'c', b'a') and status == 'done':
            arc = spec.parse(bytes.fromhex(files[cmd[-1] + b'.blp'.hex() if len(cmd) == 4 else cmd[-2]]))
            require(arc.meta.value == json.loads(bytes.fromhex(content).decode('utf-8')), '%s: stores %s', what, short(arc.meta.value))
            stored += 1
        ctx.count('transitions')
        ctx.state(repr((i, content, flag, cmd)).encode())
    require(stored > 20, 'harness: only %d archives', stored)


VISITED = {}


def run(case, ctx):
    g = case[0]
    if g == 'search':
        d = initial(case[1])
        ctx.state(key(d))
        search(d, [alpha(case[1])[case[2]]], case[3], ctx, {key(d)} if ctx.tier == 'quick' else VISITED.setdefault(case[1], {key(d)}))
        ctx.sample({'directory': case[1], 'first command': clim.argv(alpha(case[1])[case[2]])})
    elif g in ('options', 'blosc'):
        d = {'in': spec.payload('ints', 100), 'm': META, 'M': BIG, 'empty': b'{}', 'list': b'\n[1, "\\u4e2d"] \n', 'null': b'null'}
        if g == 'options':
            _, z, k, o, m = case
            opts = {}
            if z is not None:
                opts['z'] = z
            if k is not None:
                opts['k'] = k
            if o:
                opts['o'] = True
            mets, sh = [m], [False]
        else:
            _, t, l, c = case
            opts = {'z': '40'}
            for n, v in (('t', t), ('l', l), ('c', c)):
                if v is not None:
                    opts[n] = v
            mets, sh = [None], [False, True]
        for m in mets:
            for s in sh:
                o2 = dict(opts, s=True) if s else opts
                d1, e = execute(d, dict(sub='c', x='in', opts=o2, meta=m), ctx)
                require(e['ok'], 'model: %s', case)
                d2, e = execute(d1, dict(sub='d', x='in.blp', y='back'), ctx)
                require(d2['back'] == d['in'], 'compress and decompress gave other data: %s', case)
                if not opts.get('o'):
                    d3, e = execute(d1, dict(sub='a', x='in.blp', y='m', opts={k: v for k, v in o2.items() if k in 'tlcs'}), ctx)
                    d4, e = execute(d3, dict(sub='d', x='in.blp', y='back'), ctx)
                    require(d4['back'] == d['in'] + META, 'append and decompress gave other data: %s', case)
                execute(d1, dict(sub='i', x='in.blp'), ctx)
                ctx.state(key(d1))
        ctx.sample({'options': opts, 'metadata': mets})
    elif g == 'locale':
        run_locale(case[1], ctx)
    elif g == 'threads':
        d = {'in': spec.payload('ints', 3000000), 'm': META}
        for lv in ('', '-v', '-d'):
            d1, e = execute(d, dict(sub='c', x='in', opts={'z': '1M'}, nthreads=case[1], level=lv), ctx, None, False)
            d2, e = execute(d1, dict(sub='d', x='in.blp', y='o', nthreads=case[1]), ctx, None, False)
            require(d2['o'] == d['in'], 'data')
            ctx.state(key(d1))
    elif g == 'large':
        n = (2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21, 2 ** 22 + 77, 0)[case[1]]
        d = {'in': spec.payload('noise', n), 'x': spec.payload('text', 2 ** 20 + 5)}
        d1, e = execute(d, dict(sub='c', x='in', opts={}), ctx)
        d2, e = execute(d1, dict(sub='d', x='in.blp', force=True), ctx)
        require(d2 == d1, 'round trip')
        if n:
            d3, e = execute(d1, dict(sub='a', x='in.blp', y='x'), ctx)
            d4, e = execute(d3, dict(sub='d', x='in.blp', y='o'), ctx)
            require(d4['o'] == d['in'] + d['x'], 'append')
        ctx.state(key(d1))
    ctx.count('traces')
