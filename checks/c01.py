"""C01: saving is all or nothing, whatever goes wrong and whoever saves or reads at the same time."""
import os
import shutil

from sim import gen, race, sched, simio
from sim.kernel import Inapplicable, Violation, raised_by_soynlp
from .subjects import SUBJECTS

OPS = {'any': list(simio.MUTATING) + ['close'], 'open': ['openw'], 'write': ['write'], 'sync': ['fsync'],
       'rename': ['rename'], 'close': ['close'], 'link': ['link', 'unlink', 'rename'], 'mkdir': ['mkdir']}
BYSTANDERS = ('model.txt.tmp', 'model.txt~', 'model.txt.bak', '.model.txt.swp', 'model', 'tmp', 'model.txt.new',
              'model.txt.vocab.tmp', 'model.txt.vocab~', '.model.txt.tmp')


def gen_attempt(rng, subject):
    mode = rng.choices(['clean', 'crash', 'errno', 'sigint', 'line', 'power', 'threads', 'processes', 'content', 'input'],
                       [2, 6, 6, 2, 3, 4, 4, 4, 2, 4 if 'to_file' in subject else 0])[0]
    a = {'mode': mode, 'data': rng.randint(0, 2), 'wchunk': rng.choice([0, 0, 7, 33]), 'where': rng.random()}
    if mode == 'crash':
        a.update(ops=rng.choice(['any', 'any', 'write', 'rename', 'close']), after=rng.random() < 0.4)
    elif mode == 'errno':
        a.update(ops=rng.choice(['any', 'open', 'write', 'write', 'sync', 'rename', 'close']),
                 errno=rng.choice(['EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EROFS', 'EMFILE']),
                 sticky=rng.random() < 0.4, short=rng.random() < 0.3)
    elif mode == 'sigint':
        a.update(ops=rng.choice(['any', 'write', 'write']))
    elif mode == 'line':
        a.update(exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
    elif mode == 'input':
        a.update(how=rng.choice(['corpus', 'corpus', 'stdout']))
    elif mode == 'power':
        a.update(cut=[rng.choice([0, 0, 1, 2, 3]) for _ in range(3)], frac=[rng.choice([0, 0, 0.5, 1, rng.random()]) for _ in range(3)],
                 zeros=[rng.random() < 0.4 for _ in range(3)], crash=rng.random() < 0.6, wchunk=rng.choice([0, 33]))
    elif mode == 'threads':
        a.update(savers=[rng.randint(0, 2) for _ in range(rng.choice([1, 2, 2, 3]))], readers=rng.choice([0, 1, 1, 2]),
                 switches=gen.gaps(rng, rng.choice([3, 10, 30]), rng.choice([3, 10, 30])),
                 granularity=rng.choice(['line', 'line', 'line']))
    elif mode == 'processes':
        a.update(savers=[rng.randint(0, 2) for _ in range(rng.choice([1, 2, 2, 3]))], readers=rng.choice([0, 1, 1]),
                 switches=gen.gaps(rng, rng.choice([3, 10, 30]), rng.choice([1, 1, 3])),
                 kills=[[rng.randint(0, 2), rng.randint(0, 9)] for _ in range(rng.choice([0, 0, 1, 1]))],
                 rchunk=rng.choice([0, 0, 64]))
    return a


def gen_plan(rng, index, tier):
    names = list(SUBJECTS)
    name = names[index % len(names)]
    s = SUBJECTS[name]
    n = rng.choice([1, 1, 2, 3, 4])
    old = rng.choice(['none', 'valid', 'valid', 'garbage'])
    if name == 'sort_by_alphabet':
        old = 'valid'
    return {
        'subject': name, 'old': old,
        'path': rng.choice(['relative', 'absolute', 'subdir', 'newdir', 'symlink', 'readonly-mode']),
        'garbage': rng.choice(['', 'nothing to see', '가 나 다 라 마\n', 'x' * 5000]),
        'data': [s.gen(rng) for _ in range(4)],
        'attempts': [gen_attempt(rng, name) for _ in range(n)],
    }


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.subject = SUBJECTS[plan['subject']]
        self.sorting = plan['subject'] == 'sort_by_alphabet'
        self.dir = os.path.join(ctx.scratch, 'd')
        os.mkdir(self.dir)
        style = plan['path']
        if style == 'newdir' and (not self.subject.mkdirs or plan['old'] != 'none'):
            style = 'subdir'
        self.style = style
        where = self.dir
        if style in ('subdir', 'newdir'):
            where = os.path.join(self.dir, 'a', 'b')
            if style == 'subdir':
                os.makedirs(where)
        name = os.path.join(where, 'model.txt')
        if style == 'relative':
            os.chdir(self.dir)
            name = 'model.txt'
        self.arg = name                                     # what the user passes
        self.target = os.path.abspath(self.subject.path(name))   # what is written
        for b in BYSTANDERS:
            p = os.path.join(self.dir if not os.path.isdir(where) else where, b)
            if p != self.target:
                with open(p, 'w') as f:
                    f.write('bystander ' + b)
        if style == 'symlink':
            self.real = self.subject.path(os.path.join(self.dir, 'elsewhere', 'real.bin'))
            os.mkdir(os.path.dirname(self.real))
            os.symlink(self.real, self.target)
        else:
            self.real = self.target
        self.objects = [self.subject.build(d) for d in plan['data'][:3]]
        self.old_object = self.subject.build(plan['data'][3])
        if plan['old'] == 'garbage':
            with open(self.real, 'w', encoding='utf-8') as f:
                f.write(plan['garbage'])
        elif plan['old'] == 'valid':
            if self.sorting:
                with open(self.real, 'w', encoding='utf-8') as f:
                    f.write(self.subject.text(self.old_object))
            else:
                self.subject.save(self.old_object, self.arg)
        if style == 'readonly-mode' and os.path.exists(self.real):
            os.chmod(self.real, 0o640)
        self.mode = self._mode()
        self.rests = set()
        self.refresh()

    def _mode(self):
        try:
            return os.stat(self.real).st_mode & 0o7777
        except FileNotFoundError:
            return None

    def read(self, real=None):
        try:
            with open(real or self.real, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def refresh(self):
        """Remember what is there now"""
        self.prev = self.read()
        self.prev_files = {k: v for k, v in self.listing().items() if k not in self.rests}

    def listing(self):
        files, _ = simio.read_tree(self.dir)
        rel = os.path.relpath(self.real, self.dir)
        return {k: v for k, v in files.items() if k != rel and not k.startswith('power')}

    def new_view(self, k):
        """What the file must hold after saving object k"""
        if self.sorting:
            return ['bytes-sorted', None]
        return self.subject.saved_view(self.objects[k % 3]) if self.subject.can_load else self.subject.view(self.objects[k % 3])

    def sorted_bytes(self, data):
        lines = [l.strip() for l in data.decode('utf-8').split('\n')]
        return ''.join(l + '\n' for l in sorted(l for l in lines if l)).encode('utf-8')

    def classify(self, data, path, ks):
        """'old' | 'new <k>' | None for the content of a file"""
        if data == self.prev:
            return 'old'
        if data is None:
            return None
        if self.sorting:
            return 'new' if data == self.sorted_bytes(self.prev) else None
        for k in ks:
            if self.is_new(path, k):
                return 'new {}'.format(k % 3)
        return None

    def is_new(self, path, k):
        try:
            return self.subject.file_view(path) == self.new_view(k)
        except Exception as e:
            if self.subject.can_load and not raised_by_soynlp(e):
                pass
            return False

    def save(self, k):
        self.subject.save(self.objects[k % 3], self.arg)

    def check_content(self, what, ks, allowed, path=None):
        path = path or self.real
        data = self.read(path)
        got = self.classify(data, path, ks)
        kind = None if got is None else got.split(' ')[0]
        self.ctx.state((self.plan['subject'], self.plan['old'], self.style, what.split(':')[0], kind))
        if kind not in allowed and not (kind == 'old' and 'new' in allowed and self.old_is_new(ks, path)):
            raise Violation('torn-file', '{}: after {} the file is neither complete ({})'.format(
                self.plan['subject'], what, ' or '.join(allowed)),
                content=repr(data)[:400], previous=repr(self.prev)[:400], got=got)
        self.ctx.count('evaluations')
        return got

    def old_is_new(self, ks, path):
        """The old content already is what was to be saved"""
        if self.sorting:
            return self.prev is not None and self.prev == self.sorted_bytes(self.prev)
        return self.prev is not None and any(self.is_new(path, k) for k in ks)

    def check_others(self, what, allow_leftover):
        now = self.listing()
        for k, v in self.prev_files.items():
            if now.get(k) != v:
                raise Violation('other-file-changed', '{}: {} changed the file {}'.format(self.plan['subject'], what, k),
                                before=repr(v)[:200], after=repr(now.get(k))[:200])
        extra = sorted(set(now) - set(self.prev_files) - self.rests)
        if extra and not allow_leftover:
            raise Violation('left-behind', '{}: {} left {} file(s) behind'.format(self.plan['subject'], what, len(extra)),
                            files=extra)
        # rests of crashed processes stay in the way of later attempts
        self.rests.update(extra)
        if self.style == 'symlink' and not os.path.islink(self.target):
            raise Violation('link-replaced', '{}: {} replaced the symbolic link'.format(self.plan['subject'], what))
        mode = self._mode()
        if self.mode is not None and mode is not None and mode != self.mode:
            raise Violation('mode-changed', '{}: {} changed the mode of the file'.format(self.plan['subject'], what),
                            before=oct(self.mode), after=oct(mode))
        self.mode = mode
        self.ctx.count('evaluations', 2)

    def count_ops(self, k, ops, wchunk):
        """Number of operations of a save which is not disturbed, and its lines"""
        def dry():
            simio.arm([self.dir], wchunk=wchunk)
            with sched.Steps() as st:
                self.save(k)
            c = simio.counts()
            simio.disarm()
            return sum(c[o] for o in ops), st.n
        backup = os.path.join(self.ctx.scratch, 'backup')
        shutil.copytree(self.dir, backup, symlinks=True)
        out = self.ctx.forked(dry)
        self._restore(backup)
        if out[0] != 'ok':
            raise Violation('save-fails', '{}: undisturbed save fails: {}'.format(self.plan['subject'], out[1:3]))
        return out[1]

    def _restore(self, backup):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
        for n in os.listdir(backup):
            p, q = os.path.join(backup, n), os.path.join(self.dir, n)
            os.rename(p, q)
        os.rmdir(backup)


def execute(plan, ctx):
    if not plan['attempts'] or len(plan['data']) < 4:
        raise Inapplicable()
    w = World(plan, ctx)
    ctx.interesting({'subject': plan['subject'], 'old': plan['old'], 'path': plan['path'],
                     'attempts': [a['mode'] for a in plan['attempts']]})
    for a in plan['attempts']:
        ctx.log(a['mode'])
        MODES[a['mode']](w, a, ctx)
        simio.disarm()
        w.refresh()
    # restart: a fresh process can save and read
    def restart():
        w.save(0)
        if w.subject.can_load:
            return w.subject.file_view(w.arg) == w.new_view(0)
        return True
    out = ctx.forked(restart)
    ctx.check(out[0] == 'ok' and out[1], 'restart', '{}: saving after the faults does not give the model: {}'.format(
        plan['subject'], out[1:3] if out[0] != 'ok' else 'other content'))
    w.check_content('a later save', [0], ('new',))
    w.check_others('a later save', False)


def clean(w, a, ctx):
    simio.arm([w.dir], [{'ops': ['write'], 'nth': int(a['where'] * 5), 'action': 'short', 'arg': 3},
                        {'ops': ['write'], 'nth': int(a['where'] * 3), 'action': 'errno', 'arg': 'EINTR'}],
              wchunk=a['wchunk'])
    w.save(a['data'])
    fired = simio.fired(2)
    simio.disarm()
    ctx.fault('short-write', fired[0] + (1 if a['wchunk'] else 0))
    ctx.fault('eintr', fired[1])
    w.check_content('a successful save', [a['data']], ('new',))
    w.check_others('a successful save', False)


def crash(w, a, ctx):
    n, _ = w.count_ops(a['data'], OPS[a['ops']], a['wchunk'])
    if n == 0:
        return clean(w, a, ctx)
    nth = int(a['where'] * n)

    def run():
        simio.arm([w.dir], [{'ops': OPS[a['ops']], 'nth': nth, 'action': 'crash_after' if a['after'] else 'crash'}],
                  wchunk=a['wchunk'])
        w.save(a['data'])
        simio.disarm()

    out = ctx.forked(run)
    if out == ('crashed', simio.CRASH_STATUS):
        ctx.fault('crash')
        w.check_content('a crash', [a['data']], ('old', 'new'))
        w.check_others('a crash', True)
    elif out[0] == 'ok':
        w.check_content('a successful save', [a['data']], ('new',))
        w.check_others('a successful save', False)
    else:
        raise Violation('save-fails', 'save raises without a fault: {}'.format(out[1:3]))


def errno(w, a, ctx):
    ops = OPS[a['ops']]
    n, _ = w.count_ops(a['data'], ops, a['wchunk'])
    if n == 0:
        return clean(w, a, ctx)
    faults = [{'ops': ops, 'nth': int(a['where'] * n), 'action': 'errno', 'arg': a['errno'], 'sticky': a['sticky']}]
    if a['short']:
        faults.insert(0, {'ops': ['write'], 'nth': 0, 'action': 'short', 'arg': 5})
    disturbed(w, a, ctx, faults, a['errno'])


def sigint(w, a, ctx):
    ops = OPS[a['ops']]
    n, _ = w.count_ops(a['data'], ops, a['wchunk'])
    if n == 0:
        return clean(w, a, ctx)
    disturbed(w, a, ctx, [{'ops': ops, 'nth': int(a['where'] * n), 'action': 'sigint'}], 'SIGINT')


def disturbed(w, a, ctx, faults, name):
    simio.arm([w.dir], faults, wchunk=a['wchunk'])
    try:
        try:
            w.save(a['data'])
        finally:
            fired = simio.fired(len(faults))
            counts = simio.counts()
            handles = simio.open_handles()
            simio.disarm()
        failed = None
    except (OSError, KeyboardInterrupt) as e:
        failed = e
    ctx.fault(name, fired[-1])
    ctx.log(failed is None, fired)
    if failed is None:
        w.check_content('a save which returned: {}'.format(name), [a['data']], ('new',))
        w.check_others('a save which returned', False)
        return
    if not fired[-1]:
        raise Violation('save-fails', '{}: save raises without a fault: {!r}'.format(w.plan['subject'], failed))
    w.check_content('a failed save: {}'.format(name), [a['data']], ('old', 'new'))
    # the removal of the temporary file may be what failed
    unlink_faulted = 'unlink' in faults[-1]['ops'] and (faults[-1].get('sticky') or counts['unlink'])
    w.check_others('a failed save', unlink_faulted)
    failed = None
    ctx.check(handles == 0, 'open-file', '{}: a failed save keeps {} file(s) open'.format(w.plan['subject'], handles))
    w.refresh()
    # the fault is over: the same object can be saved
    w.save(a['data'])
    w.check_content('a retried save', [a['data']], ('new',))
    w.check_others('a retried save', False)


def line(w, a, ctx):
    _, lines = w.count_ops(a['data'], OPS['any'], a['wchunk'])
    at = 1 + int(a['where'] * lines)
    exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[a['exc']]
    simio.arm([w.dir], wchunk=a['wchunk'])
    st = sched.Steps(interrupt_at=at, exc=exc)
    failed = None
    try:
        with st:
            w.save(a['data'])
    except (KeyboardInterrupt, MemoryError) as e:
        failed = str(e)
    finally:
        simio.disarm()
    ctx.fault(a['exc'], 1 if failed else 0)
    ctx.log(st.n, st.where)
    if failed is None:
        w.check_content('a successful save', [a['data']], ('new',))
        w.check_others('a successful save', False)
    else:
        w.check_content('an interrupted save', [a['data']], ('old', 'new'))
        # an interrupt may hit the cleaning as well
        w.check_others('an interrupted save', True)


class Injected(Exception):
    pass


def content(w, a, ctx):
    """Part of the model cannot be encoded: a lone surrogate"""
    bad = w.subject.poisoned(w.plan['data'][a['data'] % 3], a['where'])
    if bad is None:
        return clean(w, a, ctx)
    ctx.fault('unencodable')
    failed = None
    simio.arm([w.dir], wchunk=a['wchunk'])
    try:
        w.subject.save(bad, w.arg)
    except UnicodeError as e:
        failed = str(e)
    handles = simio.open_handles()
    simio.disarm()
    if failed is None:
        # it could be encoded after all: then it must be there
        ctx.check(w.subject.file_view(w.arg) == w.subject.saved_view(bad), 'torn-file',
                  '{}: a model with odd characters is saved incompletely'.format(w.plan['subject']))
    else:
        w.check_content('a failed save: unencodable', [a['data']], ('old',))
    w.check_others('a failed save', False)
    ctx.check(handles == 0, 'open-file', '{}: a failed save keeps a file open'.format(w.plan['subject']))


class FailingDocs:
    """Fails at the n-th document counted over all passes"""

    def __init__(self, docs, at):
        self.docs, self.at = docs, at

    def __len__(self):
        return len(self.docs)

    def __iter__(self):
        for d in self.docs:
            self.at -= 1
            if self.at < 0:
                raise Injected('corpus')
            yield d


def input(w, a, ctx):
    obj = w.objects[a['data'] % 3]
    docs = obj._docs_for_save
    old = obj._docs_for_save
    if a['how'] == 'corpus':
        obj._docs_for_save = FailingDocs(docs, int(a['where'] * len(docs) * (3 if obj._fit_for_save else 2)))
    else:
        ctx.sink.fail_at = ctx.sink.writes + 1 + int(a['where'] * 12)
    failed = None
    try:
        w.save(a['data'])
    except (Injected, BrokenPipeError) as e:
        failed = e
    ctx.sink.fail_at = None
    obj._docs_for_save = old
    if failed is None:
        w.check_content('a successful save', [a['data']], ('new',))
    else:
        ctx.fault('corpus-error' if a['how'] == 'corpus' else 'stdout-error')
        w.check_content('a failed save: input', [a['data']], ('old', 'new') if a['how'] != 'corpus' else ('old',))
    failed = None
    w.check_others('a failed save', False)


def power(w, a, ctx):
    ops = OPS['any']
    n, _ = w.count_ops(a['data'], ops, a['wchunk'])
    nth = int(a['where'] * n)
    initial, _ = simio.read_tree(w.dir)
    log = simio.Log()
    real_dir = os.path.realpath(w.dir)

    def run():
        simio.arm([w.dir], [{'ops': ops, 'nth': nth, 'action': 'crash_after'}] if a['crash'] and n else [],
                  wchunk=a['wchunk'], log=log)
        w.save(a['data'])
        simio.disarm()

    out = ctx.forked(run)
    if out[0] == 'raised':
        raise Violation('save-fails', 'save raises without a fault: {}'.format(out[1:3]))
    records = log.records()
    ctx.log([(r[0], r[1], len(r[6])) for r in records])
    rel = os.path.relpath(w.real, w.dir)
    disk = simio.PowerLoss(initial, real_dir)
    seen = set()
    for cut, frac, zeros in zip(a['cut'], a['frac'], a['zeros']):
        for c in sorted({cut, 0}):
            for fr in sorted({frac, 0}):
                files = disk.materialise(records, c, fr, zeros)
                data = files.get(rel)
                if data in seen:
                    continue
                seen.add(data)
                ctx.fault('power-loss')
                p = os.path.join(w.ctx.scratch, os.path.basename(w.real))
                if data is not None:
                    with open(p, 'wb') as f:
                        f.write(data)
                elif os.path.exists(p):
                    os.remove(p)
                w.check_content('a power loss', [a['data']], ('old', 'new'), path=p)
                for k, v in initial.items():
                    if k != rel and isinstance(v, bytes) and not os.path.basename(k).startswith('.soynlp-') \
                            and files.get(k) != v:
                        raise Violation('other-file-changed', '{}: a power loss changed the file {}'.format(
                            w.plan['subject'], k))
    if out[0] == 'crashed':
        w.check_content('a crash', [a['data']], ('old', 'new'))
    w.check_others('a power loss', out[0] == 'crashed')


def threads(w, a, ctx):
    savers = a['savers'] or [0]
    results = []

    def saver(k):
        return lambda: w.save(k)

    def reader():
        if not w.subject.can_load:
            return w.read()
        try:
            return w.subject.file_view(w.arg)
        except FileNotFoundError:
            return 'absent'
        except Exception as e:
            return ['broken', repr(e)[:200]]

    old_view = reader()
    tasks = [saver(k) for k in savers] + [reader] * a['readers']
    s = sched.Scheduler(tasks, a['switches'], a['granularity'])
    results = s.run()
    ctx.count('scheduler_steps', s.steps)
    ctx.fault('thread-switch', len(s.trace))
    ctx.log(s.trace)
    race_outcome(w, a, ctx, savers, results, old_view, 'concurrent savers', crashed=False)


def processes(w, a, ctx):
    savers = a['savers'] or [0]

    def saver(k):
        return lambda: w.save(k)

    def reader():
        try:
            if not w.subject.can_load:
                return w.read()
            return w.subject.file_view(w.arg)
        except FileNotFoundError:
            return 'absent'
        except Exception as e:
            return ['broken', repr(e)[:200]]

    old_view = reader()
    fns = [saver(k) for k in savers] + [reader] * a['readers']
    kills = [k for k in a['kills'] if k[0] < len(savers)]
    results, trace = race.race(fns, [w.dir], a['switches'] or [[1, 0]], kills, a['wchunk'], a['rchunk'])
    ctx.count('io_operations', len(trace))
    ctx.fault('process-switch', sum(1 for x, y in zip(trace, trace[1:]) if x[0] != y[0]))
    crashed = sum(1 for r in results if r[0] == 'crashed')
    ctx.fault('crash', crashed)
    ctx.log(trace)
    race_outcome(w, a, ctx, savers, results, old_view, 'concurrent processes', crashed=bool(crashed))


def race_outcome(w, a, ctx, savers, results, old_view, what, crashed):
    done = 0
    for k, r in zip(savers, results):
        if r[0] == 'ok':
            done += 1
        elif r[0] == 'raised':
            raise Violation('save-fails', '{}: one of {} fails: {}'.format(w.plan['subject'], what, repr(r[1:])[:300]))
    allowed = ('new',) if done else ('old', 'new')
    ks = list(savers)
    if w.sorting:
        w.check_content(what, ks, ('new', 'old') if not done else ('new',))
    else:
        w.check_content(what, ks, allowed)
    w.check_others(what, crashed)
    views = [old_view] + [w.new_view(k) for k in ks]
    for r in results[len(savers):]:
        if r[0] != 'ok':
            raise Violation('reader', '{}: a reader beside {} fails: {}'.format(w.plan['subject'], what, repr(r[1:])[:300]))
        v = r[1]
        if w.subject.can_load:
            good = v in views
        elif w.sorting:
            good = v in (w.prev, w.sorted_bytes(w.prev))
        else:
            if v == w.prev or v == 'absent':
                good = v == w.prev or w.prev is None
            else:
                p = os.path.join(ctx.scratch, 'seen')
                with open(p, 'wb') as f:
                    f.write(v if isinstance(v, bytes) else b'')
                good = any(w.is_new(p, k) for k in ks)
        ctx.check(good, 'reader', '{}: a reader beside {} sees neither an old nor a new model'.format(
            w.plan['subject'], what), seen=repr(v)[:300])


MODES = {'clean': clean, 'crash': crash, 'errno': errno, 'sigint': sigint, 'line': line, 'power': power,
         'threads': threads, 'processes': processes, 'content': content, 'input': input}
