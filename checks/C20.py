import json
import os
import subprocess
import sys

from mc import bp, clim, core, hist, spec, vfs
from mc.core import Violation, call, must, require, short
from checks import C19

PROPERTY = 'C20'
LEVEL = 'fault_enumeration'
RULE = ('Every failing situation of the blpk command is enumerated and run through the real main() in a scratch directory: every '
        'truncation and every single-byte change of small archives, every bad value of every option, every kind of refused '
        'append with and without new metadata, unreadable and malformed metadata files, and the failure of every single file '
        'operation of every command. Exit status, messages and the complete directory are compared with the model. subprocess: '
        'the same in real processes. Non-trivial: distinct directories and commands that fail.')
ASSUMPTIONS = ['failures of looking up a file (stat) are treated by Python as absence and are not injected',
               'when the operating system fails in the middle of an append, the state of the archive is the subject of C12 and C13']
BLOCK = 2
HANG = 120

ARCH = [dict(data=('ints', 60), chunk=24, meta=None, ck='adler32', off='set', app=3),
        dict(data=('text', 40), chunk=40, meta={"old": 1}, ck='sha1', off='set', app=0),
        dict(data=('noise', 30), chunk=13, meta=[1, 2], ck='crc32', off='none', app=0),
        dict(data=('zero', 50), chunk=25, meta=None, ck='None', off='set', app=1)]


def make(i):
    a = ARCH[i]
    return C19.arch(spec.payload(*a['data']), a['chunk'], a['meta'], a['ck'], a['off'], a['app'])


BAD_OPTIONS = ([['c', '-z', z, 'in'] for z in ('', 'abc', '1X', '-1', '-5K', '0', '0.5B', '3G', '1T', 'nanB', 'infM', '1.5', 'K',
                                               '2147483632', '99999999999999999999')]
               + [[s, '-l', l] + f for s, f in (('c', ['in']), ('a', ['x.blp', 'in'])) for l in ('10', '-1', 'x', '', '1.5', '100')]
               + [[s, '-c', c] + f for s, f in (('c', ['in']), ('a', ['x.blp', 'in'])) for c in ('foo', '', 'LZ4', 'snappyy')]
               + [['c', '-k', k, 'in'] for k in ('foo', '', 'MD5', 'sha3')]
               + [[s, '-t', t] + f for s, f in (('c', ['in']), ('a', ['x.blp', 'in'])) for t in ('0', '256', '-1', 'x', '', '1.5', '1000')]
               + [['-n', n, 'c', 'in'] for n in ('0', '257', '-1', 'x', '')]
               + [[], ['-v'], ['frob', 'in'], ['c'], ['d'], ['a'], ['a', 'x.blp'], ['i'], ['c', 'in', 'o', 'p'], ['a', 'x.blp', 'in', 'in2'],
                  ['-v', '-d', 'c', 'in'], ['d', '--no-check-extension', 'x.blp'], ['c', '--frob', 'in'], ['c', '-e', 'in'],
                  ['d', '-z', '1', 'x.blp'], ['i', '-f', 'x.blp'], ['d', '-m', 'm', 'x.blp', 'o']])


def cases(tier):
    for i in range(len(ARCH)):
        n = len(make(i))
        for cut in range(n):
            yield ['cut', i, cut]
        for pos in range(n):
            yield ['flip', i, pos]
    for b in range(len(BAD_OPTIONS)):
        yield ['bad option', b]
    for i in range(len(ARCH)):
        for size in (0, 1, 10, 100, 1000, 70000):
            for m in (None, 'same', 'fits', 'big', 'malformed', 'missing', 'directory', 'scalar'):
                for ne in (False, True):
                    yield ['append', i, size, m, ne]
    for content in ('', ' ', '{', '{]', 'nope', "{'a': 1}", '{"a": 1} x', '[1,]', '\xff\xfe'):
        for sub in ('c', 'a'):
            yield ['metadata file', content, sub]
    for kind in range(12):
        yield ['missing', kind]
    for cmd in range(6):
        for mode in ('once', 'rest', 'torn'):
            for k in range(90 if tier == 'quick' else 400):
                yield ['io', cmd, mode, k]
    for i in range(24):
        yield ['subprocess', i]


def run_in(dir_, argv, ctx, nthreads=1, plan=None):
    where = ctx.path('d')
    C19.put(dir_, where)
    old = os.getcwd()
    os.chdir(where)
    try:
        if plan is None:
            r = bp.run_cli(argv, nthreads)
        else:
            with vfs.patched(plan):
                r = bp.run_cli(argv, nthreads)
    finally:
        os.chdir(old)
    ctx.count('evaluations')
    return r, C19.get(where)


def run(case, ctx):
    g = case[0]
    ctx.sample({'case': case})
    if g in ('cut', 'flip'):
        damaged(case, ctx)
    elif g == 'bad option':
        argv = BAD_OPTIONS[case[1]]
        d = {'in': spec.payload('ints', 100), 'x.blp': make(0), 'in2': b'zz', 'm': b'{"m": 2}'}
        (status, out, err, exc), after = run_in(d, argv, ctx, None if '-n' in argv else 1)
        what = 'blpk %s' % ' '.join(argv)
        require(status != 0, '%s: reports success (%s)', what, short(out))
        for n in d:
            require(after.get(n) == d[n], '%s: changed %s', what, n)
        require(set(after) <= set(d) | {'in.blp'}, '%s: created %s', what, set(after))
        if argv[:1] == ['a']:
            require(after == d, '%s: changed the directory', what)
        if argv[:2] == ['c', '-z'] and argv[2] in ('abc', '1X', '-1', '1.5', 'K', 'nanB') or argv[:1] == ['-n'] and argv[1] in (
                '0', '257', '-1'):
            clim.oneline(what, {'sub': argv[0]}, status, out, err, exc)
        # refused before anything is written: with -f as well, what the output file held stays
        sub = [x for x in argv if x in ('c', 'd', 'a', 'i')]
        if sub and argv[-1] in ('in', 'x.blp', 'o', 'p', 'in2') and (sub[0] == 'a' or not {'-t', '--no-check-extension', '-e', 'p'} & set(argv)):
            d['there'] = b'keep'
            force = ['-f'] + [x for x in argv if x not in ('o', 'p')] + (['there'] if sub[0] in 'cd' else [])
            (status, out, err, exc), after = run_in(d, force, ctx, None if '-n' in argv else 1)
            require(status != 0, 'blpk %s: reports success (%s)', ' '.join(force), short(out))
            require(after == d, 'blpk %s: changed the directory', ' '.join(force))
        ctx.nontrivial(*argv)
        ctx.outcome('refused with status %s' % status)
    elif g == 'append':
        _, i, size, m, ne = case
        d = {('x.blp', 'x')[ne]: make(i), 'new': spec.payload('noise', size), 'same': json.dumps(ARCH[i]['meta']).encode(),
             'fits': b'{"n": 5}', 'big': C19.BIG, 'malformed': b'{"n": 5', 'scalar': b'3'}
        cmd = dict(sub='a', x=('x.blp', 'x')[ne], y='new', noext=ne, meta=m)
        if m == 'same' and ARCH[i]['meta'] is None:
            cmd['meta'] = 'fits'
        if m == 'directory':
            cmd['meta'] = '.'
        (status, out, err, exc), after = run_in(d, clim.argv(cmd), ctx)
        e = clim.check(d, cmd, status, out, err, exc, after)
        ctx.nontrivial(i, size, m, ne)
        ctx.outcome('append %s' % ('done' if e['ok'] else 'refused'))
        # refused for the wrong name as well
        cmd['noext'] = False
        if ne:
            (status, out, err, exc), after = run_in(d, clim.argv(cmd), ctx)
            clim.check(d, cmd, status, out, err, exc, after)
    elif g == 'metadata file':
        _, content, sub = case
        d = {'in': b'data' * 5, 'x.blp': make(1), 'm': content.encode('latin-1')}
        for force in (False, True):
            for out in (None, 'in2'):
                d['in2'] = b'old'
                cmd = dict(sub=sub, x='in' if sub == 'c' else 'x.blp', y=out if sub == 'c' else 'in', meta='m', force=force)
                (status, o, err, exc), after = run_in(d, clim.argv(cmd), ctx)
                require(status != 0, 'blpk %s with metadata %r reports success', clim.argv(cmd), content)
                require(after == d, 'blpk %s with metadata %r changed the directory', clim.argv(cmd), content)
        ctx.nontrivial(content, sub)
        ctx.outcome('refused')
    elif g == 'missing':
        missing(case[1], ctx)
    elif g == 'io':
        io_failure(case, ctx)
    elif g == 'subprocess':
        real(case[1], ctx)


def damaged(case, ctx):
    g, i, pos = case
    good = make(i)
    a = spec.parse(good)
    variants = [good[:pos]] if g == 'cut' else []
    if g == 'flip':
        for x in (1, 0x80, 0xff):
            b = bytearray(good)
            b[pos] ^= x
            variants.append(bytes(b))
    in_sum = False                      # is the change certain to be reported as a checksum mismatch?
    if g == 'flip' and a.checksum != 'None':
        for p, c, dg in zip(a.positions, a.chunks, a.digests):
            in_sum = in_sum or p + 16 <= pos < p + len(c) + len(dg)
    if g == 'flip' and a.meta is not None:
        in_sum = in_sum or 64 <= pos < 64 + a.meta.comp_size or a.meta.end - len(a.meta.digest) <= pos < a.meta.end
    protected = g == 'cut' or in_sum
    for data in variants:
        d = {'x.blp': data, 'new': b'more', 'there': b'keep'}
        for cmd in (dict(sub='d', x='x.blp', y='o'), dict(sub='d', x='x.blp', y='there', force=True),
                    dict(sub='d', x='x.blp', y='there'), dict(sub='d', x='x.blp'), dict(sub='i', x='x.blp'),
                    dict(sub='a', x='x.blp', y='new')):
            (status, out, err, exc), after = run_in(d, clim.argv(cmd), ctx)
            what = 'blpk %s on an archive %s %d' % (clim.argv(cmd), 'cut off at' if g == 'cut' else 'changed at byte', pos)
            keep = ['x.blp', 'new'] + ([] if cmd.get('force') else ['there'])
            target = cmd.get('y') or 'x'
            if cmd['sub'] == 'a':
                if status:
                    require(after == d, '%s: failed but changed the directory', what)
                else:
                    require({k: v for k, v in after.items() if k != 'x.blp'} == {k: v for k, v in d.items() if k != 'x.blp'},
                            '%s: changed other files', what)
                    require(not (protected and _touches(a, g, pos)), '%s: reports success', what)
                continue
            for n in keep:
                require(after.get(n) == d[n], '%s: changed %s', what, n)
            require(set(after) <= set(d) | {target}, '%s: created %s', what, set(after))
            if cmd['sub'] == 'i':
                require(after == d, '%s: changed the directory', what)
                if data[:4] != b'blpk' or len(data) < 32:
                    require(status != 0, '%s: reports success', what)
                continue
            if target == 'there' and not cmd.get('force'):
                require(status != 0 and after == d, '%s: overwrote', what)
                continue
            if protected or pos < 5:
                require(status != 0, '%s: reports success', what)
            if status == 0:
                # the damage must not matter: content as far as the archive still says
                got = after.get(target)
                require(got == a.content or a.checksum == 'None' or _header_only(a, pos), '%s: reports success for %s', what, short(got))
            if (in_sum or g == 'flip' and pos == 4) and not cmd.get('force'):
                clim.oneline(what, dict(cmd), status, out, err, exc)
        ctx.nontrivial(i, pos, data[pos:pos + 1])
        ctx.outcome('%s: handled' % g)


def _touches(a, g, pos):
    """Is the damage in what an append reads: the beginning or the last chunk?"""
    return g == 'cut' and pos < a.length or pos >= a.positions[-1] or (a.meta is not None and pos < a.meta.end)


def _header_only(a, pos):
    return pos < a.chunks_pos


def missing(kind, ctx):
    d = {'in': b'abc', 'x.blp': make(0), 'm': b'{"a": 1}'}
    table = [(['c', 'gone'], None), (['c', 'gone', 'in'], None), (['-f', 'c', 'gone', 'in'], None), (['d', 'gone.blp'], None),
             (['d', '-e', 'gone', 'in'], None), (['a', 'gone.blp', 'in'], None), (['a', 'x.blp', 'gone'], None), (['i', 'gone'], None),
             (['c', '-m', 'gone', 'in'], None), (['a', '-m', 'gone', 'x.blp', 'in'], None), (['-f', 'c', '-m', 'gone', 'in', 'm'], None),
             (['-f', 'd', 'gone.blp', 'in'], None)]
    argv, _ = table[kind]
    for lv in ([], ['-v'], ['-d']):
        (status, out, err, exc), after = run_in(d, lv + argv, ctx)
        what = 'blpk %s' % ' '.join(lv + argv)
        require(status != 0, '%s: reports success', what)
        require(after == d, '%s: changed the directory', what)
        clim.oneline(what, {'sub': argv[0], 'level': lv}, status, out, err, exc)
        require('gone' in out, '%s: does not name the file: %s', what, short(out))
    ctx.nontrivial(kind)
    ctx.outcome('refused')


IO = [dict(sub='c', x='in', opts={'z': '40'}, meta='m'), dict(sub='c', x='in', y='there', force=True, opts={'z': '7', 'k': 'md5'}),
      dict(sub='d', x='x.blp', y='o'), dict(sub='d', x='x.blp', y='there', force=True),
      dict(sub='a', x='x.blp', y='in'), dict(sub='a', x='y.blp', y='small', meta='m')]


def io_failure(case, ctx):
    _, ci, mode, k = case
    cmd = IO[ci]
    d = {'in': spec.payload('ints', 100), 'x.blp': C19.arch(spec.payload('ints', 60), 24, None, 'adler32', 'set', 9),
         'y.blp': C19.arch(spec.payload('text', 60), 64, {"old": "meta"}, 'sha1', 'set', 9), 'm': b'{"m": 2}', 'there': b'old' * 30,
         'small': b'1'}
    plan = vfs.Plan(k, mode)
    (status, out, err, exc), after = run_in(d, clim.argv(cmd), ctx, 1, plan)
    what = 'blpk %s with operation %d failing (%s): %s' % (' '.join(clim.argv(cmd)), k, mode, plan.failed)
    if plan.failed is None:
        clim.check(d, cmd, status, out, err, exc, after)
        ctx.outcome('nothing left to fail')
        return
    if plan.failed[1] == 'stat':
        ctx.outcome('stat failed')
        return
    require(status != 0, '%s: reports success', what)
    target = {'c': cmd.get('y') or 'in.blp', 'd': cmd.get('y'), 'a': cmd['x']}[cmd['sub']]
    for n in d:
        if n != target:
            require(after.get(n) == d[n], '%s: changed %s', what, n)
    require(set(after) <= set(d) | {target}, '%s: created %s', what, set(after))
    ctx.nontrivial(ci, mode, k)
    ctx.outcome('failed %s reported' % plan.failed[1])


def real(i, ctx):
    """A real process must behave as main() did in this one."""
    d = {'in': spec.payload('ints', 100), 'x.blp': make(0), 'v.blp': make(0)[:4] + b'\x02' + make(0)[5:], 'cut.blp': make(0)[:-1],
         'sum.blp': make(0)[:-9] + b'\x00\x01' + make(0)[-7:], 'm': b'{"a": 1}', 'meta.blp': make(1)}
    argv = [['c', 'in'], ['c', 'in', 'm'], ['-f', 'c', 'in', 'm'], ['c', 'gone'], ['d', 'x.blp'], ['d', 'x.blp', 'in'], ['d', 'v.blp'],
            ['d', 'cut.blp'], ['d', 'sum.blp'], ['d', 'in'], ['d', '-e', 'x.blp', 'o'], ['a', 'x.blp', 'in'], ['a', 'in', 'm'],
            ['a', 'meta.blp', 'in'], ['a', '-m', 'm', 'x.blp', 'in'], ['i', 'x.blp'], ['i', 'in'], ['i', 'meta.blp'], ['c', '-z', '1X', 'in'],
            ['c', '-l', '11', 'in'], [], ['-d', 'c', 'in'], ['d', 'meta.blp'], ['a', '-m', 'gone', 'x.blp', 'in']][i]
    (status, out, err, exc), after = run_in(d, argv, ctx)
    where = ctx.path('real')
    C19.put(d, where)
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', COLUMNS='80')
    p = subprocess.run([sys.executable, '-B', os.path.join(core.REPO, 'blpk'), '-n', '1'] + argv, cwd=where, env=env,
                       capture_output=True, text=True, timeout=100)
    what = 'blpk %s in a process of its own' % ' '.join(argv)
    ctx.count('evaluations')
    require(p.returncode == status, '%s: exit status %d, main() gave %d: %s', what, p.returncode, status, short(p.stderr[-300:]))
    require(C19.get(where) == after, '%s: directory differs', what)
    require(('Traceback' in p.stderr) == (exc is not None), '%s: %s, but %s in this one', what, short(p.stderr[-200:]), exc and repr(exc))
    if not argv or argv[0] != '-d':
        require(p.stdout == out, '%s: prints %s, not %s', what, short(p.stdout), short(out))
    ctx.nontrivial('real', i)
    ctx.outcome('real process agrees')
