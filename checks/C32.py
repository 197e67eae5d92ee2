import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import bp, spec
from mc.core import HarnessError, require, short

PROPERTY = 'C32'
LEVEL = 'exploration'
RULE = ('the whole set of library operations and commands (mc/ops), and some thousand calls with arguments to be refused and at the borders '
        'of that (mc/envdriver), each run in a process of its own for every mode of the interpreter, every locale, every environment variable '
        'and limit and every setting of the process listed, one at a time (thorough: every pair of two of different kinds): results, errors, '
        'files and printed text are those of a plain process. Non-trivial: distinct (configuration, operation).')
ASSUMPTIONS = ['Blosc is deterministic for inputs of one block, whatever the number of its threads']
BLOCK = 1
HANG = 300

# (kind, name, options of the interpreter, environment (None removes), settings of envdriver)
CONFIGS = []


def config(kind, name, options=(), env=None, settings=()):
    CONFIGS.append((kind, name, list(options), env or {}, list(settings)))


for _o in ('-O', '-OO', '-bb', '-I', '-X dev', '-X utf8=1', '-X int_max_str_digits=0', '-X tracemalloc=5', '-X no_debug_ranges', '-W error', '-q -u', '-R'):
    config('mode', _o, _o.split())
for _v in ('1', '2', '3', '4294967295'):
    config('hash', 'seed ' + _v, env={'PYTHONHASHSEED': _v})
LOCALES = [('POSIX', 'ISO-8859-1'), ('POSIX', 'EUC-JP'), ('POSIX', 'KOI8-R'), ('POSIX', 'SHIFT_JIS'), ('de_DE', 'ISO-8859-15'), ('tr_TR', 'ISO-8859-9'),
           ('ar_SA', 'UTF-8'), ('C', None), ('C.utf8', None)]
for _i, (_n, _c) in enumerate(LOCALES):
    config('locale', '%s %s' % (_n, _c), env={'LOCALE': _i}, settings=['locale'])
for _k, _v in (('TZ', 'Asia/Kathmandu'), ('HOME', '/nonexistent'), ('PATH', ''), ('TMPDIR', '/nonexistent'), ('USER', None), ('TERM', 'dumb'),
               ('PYTHONIOENCODING', 'ascii'), ('PYTHONMALLOC', 'debug'), ('MALLOC_PERTURB_', '165'), ('PYTHONOPTIMIZE', '1'),
               ('PYTHONUNBUFFERED', '1'), ('PYTHONDEVMODE', '1'), ('BLOSC_NOLOCK', '1'), ('BLOSC_NTHREADS', '3'), ('OMP_NUM_THREADS', '1')):
    config('environment', '%s=%s' % (_k, _v), env={_k: _v})
config('environment', 'nothing', env={'*': None})
for _s in ('threads=2', 'threads=8', 'threads=16', 'releasegil', 'numpy=1.13', 'numpy=1.21', 'decimal', 'clock=0', 'clock=-1', 'clock=1e12'):
    config('libraries', _s, settings=[_s])
for _s in ('nogc', 'eagergc', 'trace', 'profile', 'switch=1e-6', 'warnings=error', 'warnings=always'):
    config('runtime', _s, settings=[_s])
for _s in ('thread=0', 'thread=262144', 'fork', 'asyncio', 'deep=700'):
    config('caller', _s, settings=[_s])
for _s in ('umask=077', 'umask=0', 'files=16', 'user'):
    config('process', _s, settings=[_s])
for _s in ('std=stdin', 'std=stdin+stdout+stderr+__stdout__', 'close=0', 'close=1', 'close=2'):
    config('streams', _s, settings=[_s])
REFERENCE = {}


def cases(tier):
    for i in range(len(CONFIGS)):
        yield ['one', i]
    if tier == 'thorough':
        for i, j in itertools.combinations(range(len(CONFIGS)), 2):
            if CONFIGS[i][0] != CONFIGS[j][0]:
                yield ['two', i, j]


def in_process(configs, ctx):
    top = ctx.path('env')
    shutil.rmtree(top, ignore_errors=True)
    where, out = os.path.join(top, 'dir'), os.path.join(top, 'result')
    os.makedirs(where)
    os.makedirs(out)
    for p in (ctx.tmp, os.path.dirname(ctx.tmp)):
        os.chmod(p, 0o755)
    env = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'LANGUAGE')}
    env.update(PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
    options, settings = [], []
    for _, _, o, e, s in configs:
        options += o
        settings += s
        for k, v in e.items():
            if k == 'LOCALE':
                name, charmap = LOCALES[v]
                if charmap is None:
                    env['LC_ALL'] = name
                    continue
                full = 'xx.%s' % charmap
                r = subprocess.run(['localedef', '-c', '-i', name, '-f', charmap, os.path.join(top, full)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode > 1 or not os.path.isdir(os.path.join(top, full)):
                    return None
                env.update(LOCPATH=top, LC_ALL=full)
            elif k == '*':
                env = {}
            elif v is None:
                env.pop(k, None)
            else:
                env[k] = v
    driver = os.path.join(os.path.dirname(os.path.abspath(spec.__file__)), 'envdriver.py')
    sources = os.path.dirname(os.path.abspath(bp.bloscpack.__path__[0]))
    result = os.path.join(out, 'result')
    r = subprocess.run([sys.executable, '-B'] + options + [driver, sources, where, result, ','.join(settings)], env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=top)
    # 120: the interpreter could not flush the streams it was left without
    if r.returncode not in ((0, 120) if any(x.startswith('close=') for x in settings) else (0,)) or not os.path.exists(result):
        return r.stdout[-3000:].decode('latin-1')
    with open(result, encoding='ascii') as fp:
        return json.load(fp)


def reference(ctx):
    if 'result' not in REFERENCE:
        r = in_process([], ctx)
        if not isinstance(r, dict):
            raise HarnessError('plain process: %s' % r)
        REFERENCE['result'] = r
    return REFERENCE['result']


def same(got, ref):
    if got == ref:
        return True
    if not isinstance(got, list) or not isinstance(ref, list):
        return False
    # -bb: what is refused anyhow may be so because it is the wrong kind of text
    if 'raised' in str(ref[:1]) and 'raised' in str(got[:1]) and 'BytesWarning' in str(got[1:2]):
        return True
    return len(got) == len(ref) and all(map(same, got, ref))


def run(case, ctx):
    configs = [CONFIGS[i] for i in case[1:]]
    what = ' and '.join('%s %s' % c[:2] for c in configs)
    ref = reference(ctx)
    got = in_process(configs, ctx)
    if got is None:
        ctx.outcome('locale not available')
        return
    # the harness itself runs in these, so that a process that does not come to its end is the library's
    require(isinstance(got, dict), '%s: the process failed: %s', what, got)
    require(sorted(got) == sorted(ref), '%s: other operations: %s', what, short(sorted(set(got) ^ set(ref))))
    closed = any(x.startswith('close=') for c in configs for x in c[4])
    for k in ref:
        if closed and k.endswith('to its streams'):
            continue                            # what is printed may well fail
        ctx.nontrivial(*(case[1:] + [k]))
        require(same(got[k], ref[k]), '%s: %s gives %s, in a plain process %s', what, k, short(got[k], 400), short(ref[k], 400))
    ctx.count('configurations')
    ctx.outcome('same: %s' % '+'.join(c[0] for c in configs))
    ctx.sample({'configuration': what, 'operations': len(ref), 'refused': sum(v[0] == 'raised' for v in ref.values())})
