"""Exhaustive case explorer.

A check module defines

    PROPERTY, LEVEL, RULE            (strings)
    cases(tier)                      generator of JSON-able lists, case[0] is the group name
    run(case, ctx)                   executes one case on the code in MC_REPO (default /repo)
                                     and raises Violation when the property is broken
    BLOCK, HANG                      optional: work block size, cpu seconds allowed per case
    setup(ctx)                       optional: per worker initialisation

The space is enumerated completely; W forked workers claim consecutive blocks of it from
a shared counter.  A worker killed by a signal, or a case that does not end, is a violation
with the case as its replay.
"""
import collections
import hashlib
import json
import mmap
import os
import random
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.key = key


class HarnessError(Exception):
    pass


class Ctx(object):
    def __init__(self, tier, tmp):
        self.tier = tier
        self.tmp = tmp                      # private scratch directory
        self.counts = collections.Counter()
        self.outcomes = collections.Counter()
        self.groups = collections.Counter()
        self.samples = {}
        self.known = collections.Counter()
        self.seen = set()
        self.case = None
        self.known_keys = ()

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, name):
        self.outcomes[name] += 1

    def nontrivial(self, *key):
        """Count a distinct non-trivial evaluation (deduplicated by its key)."""
        h = hashlib.blake2b(repr((self.case[0],) + key).encode(), digest_size=8).digest()
        self.seen.add(h)

    def state(self, blob):
        """Count a distinct state; returns True if it is new in this worker."""
        h = hashlib.blake2b(blob, digest_size=8).digest()
        if h in self.seen:
            return False
        self.seen.add(h)
        return True

    def sample(self, obj):
        g = self.case[0]
        l = self.samples.setdefault(g, [])
        if len(l) < 1:
            l.append(obj)

    def path(self, name):
        return os.path.join(self.tmp, name)


class Outcome(object):
    """What a call did: a value or an exception."""
    __slots__ = ('value', 'exc', 'ok')

    def __init__(self, value=None, exc=None):
        self.value, self.exc, self.ok = value, exc, exc is None

    def __repr__(self):
        if self.ok:
            return 'returned %s' % short(self.value)
        return 'raised %s(%s)' % (type(self.exc).__name__, short(str(self.exc)))


def short(x, n=160):
    try:
        r = repr(x)
    except Exception as e:
        r = '<%s whose repr fails: %s>' % (type(x).__name__, e)
    return r if len(r) <= n else r[:n] + '...(%d)' % len(r)


# exceptions a library may raise to report a problem (ChunkingException is a BaseException)
def call(fn, *args, **kwargs):
    try:
        return Outcome(fn(*args, **kwargs))
    except (KeyboardInterrupt, GeneratorExit, Violation, HarnessError):
        raise
    except BaseException as e:
        e.__traceback__ = None
        return Outcome(exc=e)


def must(fn, *args, **kwargs):
    """Call something the property requires to succeed."""
    try:
        return fn(*args, **kwargs)
    except (KeyboardInterrupt, GeneratorExit, Violation, HarnessError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                           for f in reversed(tb[-3:]))
        raise Violation('%s failed: %s: %s [%s]' % (
            getattr(fn, '__name__', fn), type(e).__name__, e, where))


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


def _is_harness_problem(e):
    if isinstance(e, (ImportError, NameError, HarnessError, SyntaxError)):
        return True
    if isinstance(e, AttributeError) and "module 'bloscpack" in str(e):
        return True
    if isinstance(e, OSError) and e.errno in (28, 24, 23):     # ENOSPC, EMFILE, ENFILE
        return True
    return False


def run_case(mod, case, ctx):
    """None, or a dict describing the violation."""
    ctx.case = case
    try:
        mod.run(case, ctx)
        return None
    except Violation as v:
        return {'case': case, 'message': str(v), 'key': v.key}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        text = traceback.format_exc()
        if _is_harness_problem(e):
            return {'case': case, 'message': text, 'harness': True, 'key': None}
        return {'case': case, 'message': 'unexpected ' + text, 'key': None}


def in_child(fn):
    """Run fn in a forked process, return what it returns."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        random.seed(0)
        os.close(r)
        try:
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('violation', str(v))
            except BaseException as e:
                out = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(out, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation('the process died with status %d' % status)
    kind, value = pickle.loads(data)
    if kind == 'violation':
        raise Violation(value)
    if kind == 'error':
        raise HarnessError(value)
    return value


# ------------------------------------------------------------------ known findings
def load_known(prop):
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s key=' % prop):
                rest = line.split(' key=', 1)[1]
                key, _, text = rest.partition(' ')
                known[key] = text
    return known


# ------------------------------------------------------------------ shared memory
class Shared(object):
    # 0: next index, 8: stop flag, then per worker 40 bytes:
    # current index+1, cases done, wall start (double), cpu start (double), finished
    def __init__(self, w):
        self.m = mmap.mmap(-1, 16 + 40 * w + 64)

    def get(self, off):
        return struct.unpack_from('<q', self.m, off)[0]

    def put(self, off, v):
        struct.pack_into('<q', self.m, off, v)

    def getd(self, off):
        return struct.unpack_from('<d', self.m, off)[0]

    def putd(self, off, v):
        struct.pack_into('<d', self.m, off, v)


def _claim(lockf, sh, block):
    import fcntl
    fcntl.lockf(lockf, fcntl.LOCK_EX)
    try:
        n = sh.get(0)
        sh.put(0, n + block)
        return n
    finally:
        fcntl.lockf(lockf, fcntl.LOCK_UN)


def _worker(mod, tier, w, sh, rundir, known):
    tmp = os.path.join(rundir, 'w%d' % w)
    os.mkdir(tmp)
    os.chdir(tmp)
    ctx = Ctx(tier, tmp)
    ctx.known_keys = known
    lim = getattr(mod, 'AS_LIMIT', 4 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    base = 16 + 40 * w
    block = getattr(mod, 'BLOCK', 16)
    lockf = open(os.path.join(rundir, 'lock'), 'r+b')
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    start = _claim(lockf, sh, block)
    end = start + block
    done = 0
    bad = None
    for i, case in enumerate(mod.cases(tier)):
        if i < start:
            continue
        if i >= end:
            while i >= end:
                start = _claim(lockf, sh, block)
                end = start + block
            if i < start:
                continue
        if sh.get(8):
            break
        sh.putd(base + 16, time.time())
        sh.putd(base + 24, time.process_time())
        sh.put(base, i + 1)
        ctx.groups[case[0]] += 1
        bad = run_case(mod, case, ctx)
        sh.put(base, 0)
        done += 1
        if bad is not None and bad.get('key') in known and bad.get('key') is not None:
            ctx.known[bad['key']] += 1
            bad = None
        if bad is not None:
            bad['index'] = i
            with open(os.path.join(rundir, 'bad-%d.json' % w), 'w') as fp:
                json.dump(bad, fp)
            sh.put(8, 1)
            break
    sh.put(base + 8, done)
    with open(os.path.join(rundir, 'res-%d.json' % w), 'w') as fp:
        json.dump({'counts': ctx.counts, 'outcomes': ctx.outcomes, 'groups': ctx.groups,
                   'samples': ctx.samples, 'known': ctx.known, 'done': done,
                   'seen': len(ctx.seen)}, fp, default=str)
    with open(os.path.join(rundir, 'seen-%d' % w), 'wb') as fp:
        fp.write(b''.join(ctx.seen))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _nth_case(mod, tier, n):
    for i, c in enumerate(mod.cases(tier)):
        if i == n:
            return c


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def explore(mod, tier, workers=None):
    t0 = time.time()
    prop = mod.PROPERTY
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    W = workers or int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    known = load_known(prop)
    rundir = tempfile.mkdtemp(prefix='mc-%s-' % prop, dir=scratch_root())
    try:
        open(os.path.join(rundir, 'lock'), 'wb').close()
        sh = Shared(W)
        sys.stdout.flush()
        sys.stderr.flush()
        pids = {}
        for w in range(W):
            pid = os.fork()
            if pid == 0:
                try:
                    random.seed(0)              # the state is compared between processes
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    _worker(mod, tier, w, sh, rundir, known)
                except BaseException:
                    try:
                        traceback.print_exc()
                        sys.stderr.flush()
                    except BaseException:
                        pass
                finally:
                    os._exit(70)
            pids[pid] = w
        bads, errors = [], []
        hang_cpu = getattr(mod, 'HANG', 60)
        tick = os.sysconf('SC_CLK_TCK')
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.05)
                for p, w in list(pids.items()):
                    base = 16 + 40 * w
                    idx = sh.get(base)
                    if not idx:
                        continue
                    wall = time.time() - sh.getd(base + 16)
                    if wall < hang_cpu:
                        continue
                    try:
                        f = open('/proc/%d/stat' % p).read().rsplit(')', 1)[1].split()
                        cpu = (int(f[11]) + int(f[12])) / tick - sh.getd(base + 24)
                    except (OSError, IndexError):
                        continue
                    if sh.get(base) != idx:
                        continue
                    if cpu > hang_cpu or wall > 4 * hang_cpu:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        del pids[p]
                        sh.put(8, 1)
                        bads.append({'index': idx - 1, 'case': _nth_case(mod, tier, idx - 1),
                                     'message': 'does not terminate (%.0f s cpu, %.0f s wall)'
                                                % (cpu, wall), 'key': None})
                continue
            w = pids.pop(pid, None)
            if w is None:
                continue
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                idx = sh.get(16 + 40 * w)
                sh.put(8, 1)
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                           signal.SIGILL) and idx:
                    bads.append({'index': idx - 1, 'case': _nth_case(mod, tier, idx - 1),
                                 'message': 'process killed by signal %d' % sig, 'key': None})
                else:
                    errors.append('worker %d killed by signal %d (case %d)' % (w, sig, idx - 1))
            elif os.WEXITSTATUS(status) != 0:
                idx = sh.get(16 + 40 * w)
                sh.put(8, 1)
                if os.WEXITSTATUS(status) != 70 and idx:
                    bads.append({'index': idx - 1, 'case': _nth_case(mod, tier, idx - 1),
                                 'message': 'process exited with status %d'
                                            % os.WEXITSTATUS(status), 'key': None})
                else:
                    errors.append('worker %d failed (case %d)' % (w, idx - 1))
        tot = {'counts': collections.Counter(), 'outcomes': collections.Counter(),
               'groups': collections.Counter(), 'known': collections.Counter()}
        samples, done, seen = {}, 0, set()
        for w in range(W):
            p = os.path.join(rundir, 'res-%d.json' % w)
            if os.path.exists(p):
                r = json.load(open(p))
                for k in tot:
                    tot[k].update(r[k])
                for g, l in r['samples'].items():
                    samples.setdefault(g, l)
                done += r['done']
                blob = open(os.path.join(rundir, 'seen-%d' % w), 'rb').read()
                seen.update(blob[i:i + 8] for i in range(0, len(blob), 8))
            p = os.path.join(rundir, 'bad-%d.json' % w)
            if os.path.exists(p):
                bads.append(json.load(open(p)))
        for b in [b for b in bads if b.get('harness')]:
            errors.append(b['message'])
        bads = [b for b in bads if not b.get('harness')]
        bads.sort(key=lambda b: b['index'])
        wall = time.time() - t0
        complete = not bads and not errors
        write_evidence(mod, tier, seed, tot, samples, done, len(seen), wall, len(bads), complete)
        for key, n in sorted(tot['known'].items()):
            print('KNOWN-FINDING: property=%s %s (key=%s, %d cases)' % (prop, known[key], key, n))
        if bads:
            b = bads[0]
            replay = write_replay(mod, tier, b)
            print('%s: %s' % (prop, b['message']))
            print('case: %s' % short(b['case'], 600))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        if errors:
            for e in errors:
                print('ERROR %s: %s' % (prop, e), file=sys.stderr)
            return 2
        print('%s %s: held on %d cases (%d distinct non-trivial / states) in %.1f s %s' % (
            prop, tier, done, len(seen), wall, dict(tot['groups'])))
        return 0
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def write_replay(mod, tier, bad):
    d = os.path.join(VERIF, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (mod.PROPERTY, hashlib.sha1(
            json.dumps(bad['case']).encode()).hexdigest()[:10]))
        with open(p, 'w') as fp:
            json.dump({'property': mod.PROPERTY, 'tier': tier, 'case': bad['case'],
                       'message': bad['message'],
                       'replay_with': './run.sh %s --replay %s' % (mod.PROPERTY, p)}, fp, indent=1)
        return p
    except OSError:
        return json.dumps(bad['case']).replace(' ', '')


def write_evidence(mod, tier, seed, tot, samples, done, seen, wall, nviol, complete):
    level = mod.LEVEL
    smp = []
    for g in sorted(samples):
        smp.extend(samples[g])
    cov = {}
    if level == 'model_checking':
        cov['states'] = seen
        cov['transitions'] = tot['counts'].get('transitions', 0)
        cov['traces_validated_against_impl'] = tot['counts'].get('traces', done)
        cov['evaluations'] = done
    else:
        cov['evaluations'] = tot['counts'].get('evaluations', done)
        cov['distinct_nontrivial'] = seen
    cov['rule'] = mod.RULE
    cov['samples'] = smp[:12] or ['(stopped before the first complete case)']
    cov['exhaustive'] = bool(complete)
    cov['groups'] = dict(tot['groups'])
    cov['outcomes'] = dict(tot['outcomes'])
    cov['counters'] = {k: v for k, v in tot['counts'].items()
                       if k not in ('transitions', 'traces', 'evaluations')}
    if tot['known']:
        cov['known_findings_hit'] = dict(tot['known'])
    ev = {'property': mod.PROPERTY, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%s.json' % mod.PROPERTY), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)


def replay(mod, path):
    r = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='mc-replay-', dir=scratch_root())
    try:
        os.chdir(tmp)
        ctx = Ctx(r.get('tier', 'quick'), tmp)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        bad = run_case(mod, r['case'], ctx)
        if bad is None:
            print('not reproduced: the property holds on this case')
            return 0
        print(bad['message'])
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        return 1
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
