"""Kernel of the simulation: seeded plans, forked runs, evidence, minimisation, replay.

A check module offers
    ID, TITLE, TECHNIQUE...             constants
    RUNS = {'quick': n, 'thorough': n}  number of plans
    VARIANTS = 1                        a plan is executed once per variant, each
                                        in a process with another hash seed
    gen_plan(rng, index, tier) -> plan  JSON; everything random is decided here
    execute(plan, ctx) -> None or JSON  raises Violation
    compare(plan, [obs..])              when VARIANTS > 1; raises Violation
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
CLASSES = 8
# a run takes some hundred MB; code which takes more and more of it shall not end the whole check
RUN_MEMORY = 3 << 30
RUN_TIMEOUT = float(os.environ.get('VERIF_RUN_TIMEOUT', '40'))


class Violation(Exception):
    def __init__(self, kind, message, **detail):
        super().__init__('{}: {}'.format(kind, message))
        self.kind = kind
        self.message = message
        self.detail = detail


class Inapplicable(Exception):
    """The plan makes no sense (after minimisation, for instance)."""


def rng_for(seed, prop, index, salt=''):
    h = hashlib.sha256('{}/{}/{}/{}'.format(seed, prop, index, salt).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def short_hash(x):
    if not isinstance(x, (bytes, str)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(x, digest_size=8).hexdigest()


# ------------------------------------------------------------------ in a run

class Sink:
    """stdout and stderr of a run. It may be told to fail."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.chars = 0
        self.fail_at = None
        self.writes = 0

    def write(self, s):
        self.writes += 1
        if self.fail_at is not None and self.writes >= self.fail_at:
            raise BrokenPipeError(32, 'simulated broken pipe')
        self.chars += len(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no file')


class Ctx:
    def __init__(self, scratch, variant, seed_info):
        self.scratch = scratch
        self.variant = variant
        self.info = seed_info
        self.faults = {}
        self.states = set()
        self.counters = {}
        self.digest = hashlib.sha256()
        self.nontrivial = False
        self.sample = None
        self.sink = None

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, x):
        self.states.add(short_hash(x))

    def log(self, *event):
        self.digest.update(repr(event).encode('utf-8', 'surrogatepass'))

    def interesting(self, sample=None):
        self.nontrivial = True
        if sample is not None and self.sample is None:
            self.sample = sample

    def check(self, cond, kind, message, **detail):
        self.count('evaluations')
        if not cond:
            raise Violation(kind, message, **detail)

    def forked(self, fn, *args):
        """Run fn in a forked child. ('ok', value) | ('raised', type name, text, mro names)
        | ('crashed', status)."""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            status = 70
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                try:
                    out = ('ok', fn(*args))
                except Violation:
                    raise
                except BaseException as e:
                    out = ('raised', type(e).__name__, str(e)[:500], [c.__name__ for c in type(e).__mro__])
                blob = pickle.dumps(out)
                # through the real libc calls: pipes are not tracked
                view = memoryview(struct.pack('<q', len(blob)) + blob)
                while view:
                    view = view[os.write(w, view):]
                status = 0
            except Violation as e:
                blob = pickle.dumps(('violation', e.kind, e.message, e.detail))
                os.write(w, struct.pack('<q', len(blob)) + blob)
                status = 0
            finally:
                os._exit(status)
        os.close(w)
        data = bytearray()
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        if len(data) >= 8 and len(data) - 8 == struct.unpack_from('<q', data)[0]:
            out = pickle.loads(bytes(data[8:]))
            if out[0] == 'violation':
                raise Violation(out[1], out[2], **out[3])
            return out
        return ('crashed', code)

    def pristine(self, fn, *args):
        """Value of fn(*args) computed by a process which did nothing before."""
        out = self.forked(fn, *args)
        if out[0] == 'crashed':
            raise RuntimeError('pristine run died: {}'.format(out))
        return out


def raised_by_soynlp(e):
    """Did soynlp (or a library it called) raise, or the check itself?"""
    src = os.path.join(REPO, 'soynlp') + os.sep
    inside = False
    tb = e.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(src):
            inside = True
        elif name.startswith(HERE + os.sep):
            inside = False
        tb = tb.tb_next
    return inside


def _execute_in_child(mod, plan, scratch, variant, info, limit_steps):
    sys.stdout = sys.stderr = sink = Sink()
    ctx = Ctx(scratch, variant, info)
    ctx.sink = sink
    t0 = time.perf_counter()
    res = {'status': 'ok', 'obs': None}
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    limit = RUN_MEMORY if hard == resource.RLIM_INFINITY else min(RUN_MEMORY, hard)
    resource.setrlimit(resource.RLIMIT_AS, (limit, hard))
    try:
        if limit_steps:
            from . import sched
            with sched.Steps(limit=limit_steps):
                res['obs'] = mod.execute(plan, ctx)
        else:
            res['obs'] = mod.execute(plan, ctx)
    except Violation as e:
        res.update(status='violation', kind=e.kind, message=e.message, detail=e.detail)
    except Inapplicable as e:
        res.update(status='inapplicable', message=str(e))
    except BaseException as e:
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
        name = type(e).__name__
        if name in ('Stuck', 'StepLimit'):
            res.update(status='violation', kind='no-progress', message=str(e), detail={})
        elif raised_by_soynlp(e):
            where = traceback.extract_tb(e.__traceback__)[-1]
            res.update(status='violation', kind='unexpected-exception',
                       message='{}: {}'.format(name, str(e)[:300]),
                       detail={'traceback': traceback.format_exc()[-2500:], 'where': str(where)})
        elif malformed(e):
            res.update(status='violation', kind='malformed-answer', message='an answer is not what it should be: {}: {}'.format(name, str(e)[:300]),
                       detail={'traceback': traceback.format_exc()[-2500:]})
        else:
            res.update(status='error', message=traceback.format_exc()[-4000:])
    res['digest'] = ctx.digest.hexdigest()[:24]
    res['faults'] = ctx.faults
    res['states'] = sorted(ctx.states)
    res['counters'] = ctx.counters
    res['nontrivial'] = ctx.nontrivial
    res['sample'] = ctx.sample
    res['run_s'] = time.perf_counter() - t0
    return res


def malformed(e):
    """Is it that the judge got something of another kind than expected (None, numbers instead of pairs, ...)? Private names of soynlp
    which are gone say nothing about behaviour: then the check has no answer"""
    if isinstance(e, AttributeError):
        owner = getattr(e, 'obj', None)
        where = owner.__name__ if isinstance(owner, type(sys)) else type(owner).__module__
        return not str(where).startswith('soynlp')
    return isinstance(e, (MemoryError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError, StopIteration))


def run_forked(mod, plan, scratch_base, variant, info, timeout=None, limit_steps=None):
    timeout = timeout or RUN_TIMEOUT
    scratch = os.path.join(scratch_base, 'run')
    shutil.rmtree(scratch, ignore_errors=True)
    os.mkdir(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.chdir(scratch)
            if os.environ.get('VERIF_DEBUG'):
                import faulthandler
                faulthandler.dump_traceback_later(timeout - 1, file=open(os.environ['VERIF_DEBUG'], 'a'))
            res = _execute_in_child(mod, plan, scratch, variant, info, limit_steps)
            try:
                from . import simio
                simio.disarm()
            except Exception:
                pass
            blob = json.dumps(res, default=repr).encode()
            view = memoryview(blob)
            while view:
                view = view[os.write(w, view):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = bytearray()
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    os.close(r)
    if timed_out:
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except ProcessLookupError:
                pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        if limit_steps is None:
            # decide by steps, not by wall time
            res = run_forked(mod, plan, scratch_base, variant, info,
                             timeout=240, limit_steps=getattr(mod, 'STEP_LIMIT', 20_000_000))
            if res['status'] == 'ok':
                res.update(status='error', message='run exceeded {} s of wall time'.format(timeout))
            return res
        return {'status': 'error', 'message': 'run exceeded wall time and its step limit was not reached'}
    if not data:
        code = os.waitstatus_to_exitcode(st)
        if code == -signal.SIGSEGV or code == -signal.SIGABRT:
            return {'status': 'error', 'message': 'run died by signal {}'.format(-code)}
        return {'status': 'error', 'message': 'run ended with {}'.format(code)}
    return json.loads(bytes(data).decode())


# ------------------------------------------------------------------ worker

def worker_main(prop):
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    os.dup2(2, 1)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(10000)
    from . import sched
    sched.install_lock_seam()
    try:
        import warnings
        warnings.simplefilter('ignore')
        import soynlp
        assert os.path.realpath(soynlp.__file__).startswith(REPO + os.sep), soynlp.__file__
        import pkgutil
        for m in pkgutil.walk_packages(soynlp.__path__, 'soynlp.'):
            # an import in a simulated thread would hold the import lock over a switch
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
        mod = importlib.import_module('checks.' + prop.lower())
        if hasattr(mod, 'warmup'):
            mod.warmup()
    except BaseException:
        out.write(json.dumps({'fatal': traceback.format_exc()}) + '\n')
        out.flush()
        os._exit(3)
    import gc
    gc.collect()
    gc.freeze()
    base = tempfile.mkdtemp(prefix='soysim-', dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
    out.write(json.dumps({'ready': os.getpid()}) + '\n')
    out.flush()
    try:
        for line in sys.stdin:
            job = json.loads(line)
            if 'plan' in job:
                plan = job['plan']
            else:
                plan = json.loads(json.dumps(mod.gen_plan(
                    rng_for(job['seed'], prop, job['index']), job['index'], job['tier'])))
            res = run_forked(mod, plan, base, job.get('variant', 0),
                             {'index': job.get('index'), 'tier': job.get('tier')})
            res['job'] = job['job']
            res['plan_size'] = 0
            if res['status'] != 'ok':
                res['plan'] = plan
            out.write(json.dumps(res) + '\n')
            out.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)


class Worker:
    def __init__(self, prop, klass, hashseed, so, scratch):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                   MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8',
                   PYTHONPATH=HERE, LD_PRELOAD=so, VERIF_REPO=REPO, LC_ALL='C.UTF-8', VERIF_SCRATCH=scratch)
        env.pop('PYTHONSTARTUP', None)
        self.klass = klass
        self.hashseed = hashseed
        self.err = tempfile.TemporaryFile(dir=scratch)
        self.p = subprocess.Popen(
            [PYTHON, '-u', '-c', 'import sys; from sim.kernel import worker_main; worker_main(sys.argv[1])', prop],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=HERE)
        self.buf = b''
        self.busy = None
        self.ready = False

    def send(self, job):
        self.busy = job
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.flush()

    def receive(self):
        """Lines which are complete; None at EOF"""
        b = os.read(self.p.stdout.fileno(), 1 << 20)
        if not b:
            return None
        self.buf += b
        lines = self.buf.split(b'\n')
        self.buf = lines.pop()
        return [json.loads(x) for x in lines]

    def stderr_text(self):
        self.err.seek(0)
        return self.err.read().decode('utf-8', 'replace')[-3000:]

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class HarnessError(Exception):
    pass


def build_shim(scratch):
    so = os.path.join(scratch, 'simio.so')
    src = os.path.join(HERE, 'sim', 'simio.c')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', so, src, '-ldl', '-lpthread'], check=True)
    return so


class Pool:
    def __init__(self, prop, seed, size=CLASSES, hashseeds=None):
        self.scratch = tempfile.mkdtemp(prefix='soysim-main-', dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
        self.so = build_shim(self.scratch)
        if hashseeds is None:
            hashseeds = [(seed * 1000003 + k * 7919 + 1) % 4294967295 for k in range(CLASSES)]
        self.hashseeds = hashseeds
        self.prop = prop
        self.workers = {}
        self.size = size
        self.n_jobs = 0

    def worker(self, klass):
        if klass not in self.workers:
            self.workers[klass] = Worker(self.prop, klass, self.hashseeds[klass], self.so, self.scratch)
        return self.workers[klass]

    def pump(self, timeout=None):
        """Yield (worker, message) which arrive"""
        fds = {w.p.stdout.fileno(): w for w in self.workers.values()}
        if not fds:
            return []
        ready, _, _ = select.select(list(fds), [], [], timeout)
        out = []
        for fd in ready:
            w = fds[fd]
            got = w.receive()
            if got is None:
                raise HarnessError('worker {} died: {}'.format(w.klass, w.stderr_text()))
            for m in got:
                if 'fatal' in m:
                    raise HarnessError(m['fatal'])
                if 'ready' in m:
                    w.ready = True
                    continue
                w.busy = None
                out.append((w, m))
        return out

    def run_one(self, klass, plan, variant=0, timeout=400):
        w = self.worker(klass)
        self.n_jobs += 1
        jid = 's{}'.format(self.n_jobs)
        w.send({'job': jid, 'plan': plan, 'variant': variant})
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            for ww, m in self.pump(1):
                if m['job'] == jid:
                    return m
        raise HarnessError('no answer from worker')

    def run_plan(self, mod, plan, klass0):
        """All variants of a plan -> combined result"""
        n = getattr(mod, 'VARIANTS', 1)
        results = []
        for v in range(n):
            r = self.run_one((klass0 + v) % CLASSES, plan, v)
            if r['status'] != 'ok':
                return r
            results.append(r)
        return combine(mod, plan, results)

    def close(self):
        for w in self.workers.values():
            try:
                w.p.stdin.close()
            except OSError:
                pass
        for w in self.workers.values():
            w.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def combine(mod, plan, results):
    res = dict(results[0])
    if len(results) > 1:
        res['digest'] = short_hash('/'.join(r['digest'] for r in results))
        try:
            mod.compare(plan, [r['obs'] for r in results])
        except Violation as e:
            res.update(status='violation', kind=e.kind, message=e.message, detail=e.detail)
        except Exception as e:
            if not malformed(e):
                raise
            res.update(status='violation', kind='malformed-answer', message='answers are not what they should be: {}: {}'.format(
                type(e).__name__, str(e)[:300]), detail={'traceback': traceback.format_exc()[-2500:]})
    return res


# ------------------------------------------------------------------ minimising

def _paths(x, path=()):
    """All containers and scalars which may shrink, big ones first"""
    out = []
    if isinstance(x, list):
        out.append((path, x))
        for i, v in enumerate(x):
            out += _paths(v, path + (i,))
    elif isinstance(x, dict):
        for k in sorted(x):
            if not k.startswith('_'):
                out += _paths(x[k], path + (k,))
    elif isinstance(x, (str, int)) and not isinstance(x, bool):
        out.append((path, x))
    return out


def _set(x, path, value):
    if not path:
        return value
    if isinstance(x, list):
        y = list(x)
    else:
        y = dict(x)
    y[path[0]] = _set(x[path[0]], path[1:], value)
    return y


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def shrink(plan, test, seconds=60, max_trials=400):
    """test(plan) -> True when the same violation is still there"""
    end = time.monotonic() + seconds
    trials = [0]

    def ok(p):
        if trials[0] >= max_trials or time.monotonic() > end:
            return False
        trials[0] += 1
        return test(p)

    best = plan
    changed = True
    while changed and trials[0] < max_trials and time.monotonic() < end:
        changed = False
        items = _paths(best)
        # lists: remove chunks
        for path, _ in [i for i in items if isinstance(i[1], list)]:
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur:
                continue
            size = len(cur)
            while size >= 1:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + size:]
                    p = _set(best, path, cand)
                    if ok(p):
                        best, cur, changed = p, cand, True
                    else:
                        i += size
                size //= 2
        for path, old in _paths(best):
            if isinstance(old, list):
                continue
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(cur, int):
                for cand in (0, 1, cur // 2, cur - 1):
                    if 0 <= cand < cur:
                        p = _set(best, path, cand)
                        if ok(p):
                            best, changed = p, True
                            break
            elif isinstance(cur, str) and len(cur) > 2 and ' ' in cur:
                words = cur.split(' ')
                size = max(1, len(words) // 2)
                while size >= 1:
                    i = 0
                    while i < len(words) and len(words) > 1:
                        cand = words[:i] + words[i + size:]
                        p = _set(best, path, ' '.join(cand))
                        if ok(p):
                            best, words, changed = p, cand, True
                        else:
                            i += size
                    size //= 2
    return best, trials[0]


# ------------------------------------------------------------------ main

def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        return json.load(f).get('findings', [])


def is_known(prop, res, known):
    for k in known:
        if k['property'] == prop and k['kind'] == res.get('kind') and k.get('match', '') in res.get('message', ''):
            return k
    return None


def write_replay(prop, seed, index, klass, plan, res, pool, trials, original):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-seed{}-{}.json'.format(prop, seed, index))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({
            'property': prop, 'seed': seed, 'index': index, 'class': klass,
            'hashseeds': pool.hashseeds, 'kind': res['kind'], 'message': res['message'],
            'detail': res.get('detail'), 'digest': res['digest'], 'faults': res.get('faults'),
            'shrink_trials': trials, 'plan': plan, 'original_plan': original,
        }, f, ensure_ascii=True, indent=1)
    return path


def replay(path):
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    prop = rec['property']
    sys.path.insert(0, HERE)
    mod = Lazy(prop)
    pool = Pool(prop, rec['seed'], hashseeds=rec['hashseeds'])
    try:
        res = pool.run_plan(mod, rec['plan'], rec['class'])
    finally:
        pool.close()
    print('replay of {}: {} {}'.format(path, res['status'], res.get('message', '')))
    if res['status'] == 'violation':
        same = res['kind'] == rec['kind'] and res['message'] == rec['message'] and res['digest'] == rec['digest']
        print('exactly the recorded execution' if same else 'a violation, but not the recorded execution')
        print(json.dumps(res.get('detail'), ensure_ascii=False, indent=1)[:4000])
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if res['status'] == 'ok':
        return 0
    return 2


class Lazy:
    """Constants of a check module without importing soynlp into this process"""

    def __init__(self, prop):
        spec = importlib.import_module('checks.spec')
        self.__dict__.update(spec.CHECKS[prop])
        self.ID = prop

    def compare(self, plan, obs):
        from checks import compare
        return getattr(compare, self.ID.lower())(plan, obs)


def run_check(prop, tier, seed, runs=None, workers=CLASSES, wall=None, digests=None, start=0):
    sys.path.insert(0, HERE)
    mod = Lazy(prop)
    known = load_known()
    n = runs or mod.RUNS[tier]
    variants = getattr(mod, 'VARIANTS', 1)
    wall = wall or (780 if tier == 'quick' else 6 * 3600)
    t0 = time.monotonic()
    pool = Pool(prop, seed)
    agg = {'runs': 0, 'inapplicable': 0, 'faults': {}, 'counters': {}, 'states': set(),
           'nontrivial': 0, 'distinct': set(), 'samples': [], 'new_state_curve': []}
    violations = []     # (index, klass, result)
    known_seen = {}
    partial = {}
    try:
        # queue of jobs for each hash class
        queues = {k: [] for k in range(CLASSES)}
        for i in range(start, start + n):
            for v in range(variants):
                queues[(i + v) % CLASSES].append((i, v))
        if workers < CLASSES:
            order = [k for k in range(CLASSES)]
        else:
            order = list(range(CLASSES))
        pos = {k: 0 for k in order}
        stop_index = None
        active = [k for k in order if queues[k]]

        def feed():
            busy = sum(1 for w in pool.workers.values() if w.busy)
            for k in list(active):
                if busy >= workers:
                    break
                w = pool.workers.get(k)
                if w is not None and w.busy:
                    continue
                while pos[k] < len(queues[k]) and stop_index is not None and queues[k][pos[k]][0] > stop_index:
                    pos[k] += 1
                if pos[k] >= len(queues[k]):
                    active.remove(k)
                    continue
                i, v = queues[k][pos[k]]
                pos[k] += 1
                pool.worker(k).send({'job': '{}.{}'.format(i, v), 'index': i, 'variant': v,
                                     'seed': seed, 'tier': tier})
                busy += 1

        feed()
        while any(w.busy for w in pool.workers.values()) or active:
            if time.monotonic() - t0 > wall:
                if agg['runs'] >= (n * variants / 4 if tier == 'quick' else 1):
                    break       # the evidence says how many runs there were
                raise HarnessError('wall limit of {} s reached after {} of {} runs'.format(wall, agg['runs'], n))
            for w, m in pool.pump(5):
                i, v = map(int, m['job'].split('.'))
                if m['status'] == 'error':
                    raise HarnessError('run {} variant {}: {}'.format(i, v, m['message']))
                final = None
                if m['status'] == 'violation' or variants == 1:
                    final = m
                elif m['status'] == 'ok':
                    got = partial.setdefault(i, {})
                    got[v] = m
                    if len(got) == variants:
                        rs = [got[x] for x in range(variants)]
                        partial.pop(i)
                        plan = None
                        final = combine(mod, plan, rs)
                for kk, x in (m.get('faults') or {}).items():
                    agg['faults'][kk] = agg['faults'].get(kk, 0) + x
                for kk, x in (m.get('counters') or {}).items():
                    agg['counters'][kk] = agg['counters'].get(kk, 0) + x
                before = len(agg['states'])
                agg['states'].update(m.get('states') or ())
                agg['new_state_curve'].append(len(agg['states']) - before)
                if m['status'] == 'inapplicable':
                    agg['inapplicable'] += 1
                agg['runs'] += 1
                if m.get('nontrivial'):
                    agg['nontrivial'] += 1
                    agg['distinct'].add(m['digest'])
                    if m.get('sample') is not None and len(agg['samples']) < 8:
                        agg['samples'].append({'index': i, 'variant': v, 'run': m['sample']})
                if digests is not None:
                    digests[m['job']] = (m['digest'], m['status'])
                if final is not None and final['status'] == 'violation':
                    k = is_known(prop, final, known)
                    if k:
                        known_seen[k['id']] = k
                    else:
                        violations.append((i, i % CLASSES, final))
                        stop_index = i if stop_index is None else min(stop_index, i)
            feed()
        elapsed = time.monotonic() - t0
        for k in known_seen.values():
            print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
        status = 0
        out = []
        if violations and digests is None:
            violations.sort(key=lambda x: x[0])
            # (where the changed code itself depends on chance outside of the simulation, not every run shows it again)
            for i, klass, res in violations:
                plan = res.get('plan')
                if plan is None:
                    plan = regenerate(prop, seed, i, tier)
                original = plan

                def same(p):
                    r = pool.run_plan(mod, p, klass)
                    return r['status'] == 'violation' and r['kind'] == res['kind']

                plan, trials = shrink(plan, same)
                for plan in [plan] + [original] * 4:
                    final = pool.run_plan(mod, plan, klass)
                    if final['status'] == 'violation':
                        break
                if final['status'] == 'violation':
                    break
            else:
                raise HarnessError('violation of run {} does not reproduce: {}'.format(i, final))
            path = write_replay(prop, seed, i, klass, plan, final, pool, trials, original)
            out.append({'index': i, 'kind': final['kind'], 'message': final['message'], 'replay': path})
            print('{}: run {} of seed {}: {}: {}'.format(prop, i, seed, final['kind'], final['message']))
            print('  detail: ' + json.dumps(final.get('detail'), ensure_ascii=False)[:1500])
            print('VIOLATION property={} replay={}'.format(prop, path))
            status = 1
        if digests is None:
            write_evidence(mod, prop, tier, seed, agg, elapsed, time.monotonic() - t0, out, variants)
            print('{} {}: {} runs in {:.1f} s, {} distinct states, faults {}'.format(
                prop, tier, agg['runs'], elapsed, len(agg['states']),
                json.dumps(agg['faults'], sort_keys=True)))
        return status
    finally:
        pool.close()


def regenerate(prop, seed, index, tier):
    """Plan of a run, made in a process of its own (gen_plan may import soynlp)"""
    code = ('import sys, json; sys.path[:0] = [{!r}, {!r}]; '
            'from sim.kernel import rng_for; import importlib; '
            'm = importlib.import_module("checks." + {!r}); '
            'print("\\x00" + json.dumps(m.gen_plan(rng_for({}, {!r}, {}), {}, {!r})))').format(
                HERE, REPO, prop.lower(), seed, prop, index, index, tier)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
    out = subprocess.run([PYTHON, '-c', code], capture_output=True, check=True, env=env, cwd=HERE).stdout
    return json.loads(out.decode().split('\x00')[1])


def write_evidence(mod, prop, tier, seed, agg, elapsed, wall, violations, variants):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    curve = agg['new_state_curve']
    q = max(1, len(curve) // 4)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(agg['distinct']),
            'rule': mod.RULE,
            'samples': agg['samples'] or ['no nontrivial run'],
            'oracle_checks': int(agg['counters'].get('evaluations', 0)),
            'distinct_states': len(agg['states']),
            'nontrivial_runs': agg['nontrivial'],
            'inapplicable_runs': agg['inapplicable'],
            'plans': agg['runs'] // variants,
            'runs_per_hour': int(agg['runs'] / max(elapsed, 1e-6) * 3600),
            'seeds_per_hour': int(agg['runs'] / variants / max(elapsed, 1e-6) * 3600),
            'simulated_time': {k: v for k, v in sorted(agg['counters'].items()) if k != 'evaluations'},
            'simulated_time_note': 'soynlp uses no clock; simulated time is counted in scheduler steps and I/O operations',
            'faults_injected': dict(sorted(agg['faults'].items())),
            'distinct_states_measure': mod.STATES,
            'new_states_per_quarter': [sum(curve[i:i + q]) for i in range(0, len(curve), q)][:5],
            'components_real': mod.REAL,
            'components_stub': mod.STUB,
        },
        'wall_s': round(wall, 2),
        'assumptions': mod.ASSUMPTIONS,
        'violations': len(violations),
    }
    if violations:
        ev['coverage']['violation_list'] = violations
    with open(os.path.join(d, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1, sort_keys=True)
