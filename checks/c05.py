"""C05: a training which fails keeps the previous model, says why, and can be repeated."""
import os

from sim import gen, sched, simio
from sim.canon import first_difference
from sim.kernel import REPO, Inapplicable, Violation, raised_by_soynlp
from .trainables import TRAINABLES, FaultyCorpus, corpus_of

EXC = {'RuntimeError': RuntimeError, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt,
       'MemoryError': MemoryError, 'OSError': OSError, 'KeyError': KeyError, 'GeneratorExit': GeneratorExit,
       'SystemExit': SystemExit, 'TypeError': TypeError}
# slow ones less often
NAMES = [n for n in TRAINABLES if 'POS' not in n] * 2 + [n for n in TRAINABLES if 'POS' in n]
ERRNOS = ['EIO', 'EACCES', 'EMFILE', 'ENOMEM', 'ESTALE']


def gen_fault(rng, t, kind):
    hows = ['line', 'line', 'stdout', 'memory-reading']
    if kind in ('list', 'iter'):
        hows += ['corpus'] * 5 + ['bad-item'] * 2
    if kind == 'file':
        hows += ['io'] * 5 + ['sigint'] * 2
    if t.callback:
        hows += ['callback'] * 3
    if t.name.endswith('POSExtractor'):
        hows += ['resource'] * 2
    return {'how': rng.choice(hows), 'pass': rng.choice([0, 0, 1, 1, 2, 3]), 'where': rng.random(),
            'exc': rng.choice(list(EXC)), 'errno': rng.choice(ERRNOS), 'op': rng.choice(['read', 'read', 'openr']),
            'bad': rng.randint(0, 2), 'tail': rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 10, 13])}


def gen_plan(rng, index, tier):
    names = NAMES
    t = TRAINABLES[names[index % len(names)]]
    v = gen.vocabulary(rng, korean_only=t.korean)
    ops = []
    n = rng.choice([1, 2, 2, 3, 3])
    for i in range(n):
        kind = rng.choice(t.kinds)
        op = {'sents': gen.corpus(rng, 2, rng.choice([4, 20]), v if rng.random() < 0.7 else None, t.korean),
              'kind': kind, 'targs': t.gen_targs(rng), 'fault': None}
        if i == n - 1 or rng.random() < 0.4:
            op['fault'] = gen_fault(rng, t, kind)
            op['retry'] = rng.random() < 0.5
        ops.append(op)
    return {'subject': t.name, 'data': t.gen(rng), 'rchunk': rng.choice([0, 0, 16, 100]), 'ops': ops,
            'last': {'sents': gen.corpus(rng, 2, 12, v, t.korean), 'kind': rng.choice(t.kinds), 'targs': t.gen_targs(rng)}}


def execute(plan, ctx):
    t = TRAINABLES[plan['subject']]
    data = plan['data']
    root = os.path.join(ctx.scratch, 'c')
    os.mkdir(root)
    if not plan['last']['sents'] or any(not op['sents'] for op in plan['ops']):
        raise Inapplicable()

    def the_corpus(op, n):
        kind = 'iter' if op['kind'] == 'list' and op.get('fault') else op['kind']
        return corpus_of(kind, op['sents'], os.path.join(root, 'corpus{}.txt'.format(n)))

    def look(obj):
        # what a user sees of a model, without any influence on it
        out = ctx.forked(t.view, obj, data)
        if out[0] == 'crashed':
            raise RuntimeError('looking at the model crashed')
        return list(out[:2])

    memo = {}

    def reference(history):
        """Views of an object which was trained with exactly these trainings"""
        key = repr(history)
        if key not in memo:
            def fn():
                simio.disarm()
                obj = t.make(data)
                for n, op in history:
                    t.train(obj, the_corpus(op, 'r{}'.format(n)), op['targs'], data)
                return t.view(obj, data)
            memo[key] = list(ctx.pristine(fn)[:2])
        return memo[key]

    obj = t.make(data)
    done = []           # trainings which have been completed
    for n, op in enumerate(plan['ops'] + [dict(plan['last'], fault=None)]):
        fault = op['fault']
        corpus = the_corpus(op, n)
        before = look(obj)
        ctx.state((t.name, op['kind'], fault and fault['how'], fault and fault['exc'] if fault and fault['how'] == 'corpus' else None,
                   len(done), n))
        if fault is None:
            t.train(obj, corpus, op['targs'], data)
            done.append((n, op))
            if n == len(plan['ops']):
                got, want = look(obj), reference(done)
                ctx.check(got == want, 'retry', 'after failed trainings a model differs from one which never failed: {}'.format(
                    t.name), where=first_difference(got, want)[:600])
                ctx.log(got)
            continue
        outcome = disturbed(ctx, t, obj, corpus, op, data, root, plan['rchunk'])
        if outcome is None:
            done.append((n, op))        # the fault did not fire
            continue
        ctx.interesting({'subject': t.name, 'kind': op['kind'], 'fault': fault['how'], 'outcome': outcome[0]})
        ctx.log(n, outcome[0])
        after = look(obj)
        if outcome[0] == 'raised':
            if after != before:
                late = fault['how'] in ('line',) or outcome[1] == 'after'
                if late and after == reference(done + [(n, op)]):
                    done.append((n, op))
                    ctx.count('raised_after_the_end')
                else:
                    raise Violation('lost-model', '{}: a training which failed has changed the model'.format(t.name),
                                    fault=fault, where=first_difference(after, before)[:600])
            ctx.count('evaluations')
            if op['retry'] and after == before:
                t.train(obj, the_corpus(dict(op, fault=None), n), op['targs'], data)
                done.append((n, op))
                got, want = look(obj), reference(done)
                ctx.check(got == want, 'retry', '{}: training again after a failure differs from training once'.format(t.name),
                          fault=fault, where=first_difference(got, want)[:600])
        else:
            # an interrupt which was caught inside: the model must be complete
            ctx.check(after == reference(done + [(n, op)]), 'swallowed',
                      '{}: an interrupt was swallowed and the model is not complete'.format(t.name), fault=fault)
            done.append((n, op))


def disturbed(ctx, t, obj, corpus, op, data, root, rchunk):
    """None: fault did not fire; ('raised', when) or ('returned',)"""
    fault = op['fault']
    how = fault['how']
    exc = EXC[fault['exc']]('injected')
    where = fault['where']

    def train():
        t.train(obj, corpus, op['targs'], data)

    if how in ('corpus', 'bad-item'):
        if not isinstance(corpus, FaultyCorpus):
            raise Inapplicable()
        item = int(where * len(corpus)) % len(corpus)
        what = exc if how == 'corpus' else [None, 17, 0.5][fault['bad']]
        corpus.fault = (fault['pass'], item, what)
        expected = exc if how == 'corpus' else None
        try:
            train()
        except BaseException as e:
            if not corpus.fired:
                raise
            ctx.fault(how + ('-' + fault['exc'] if how == 'corpus' else ''))
            late = 'during'
            if how == 'corpus' and not chain_holds(e, exc):
                raise Violation('other-error', '{}: the corpus failed with {!r}, the caller sees {!r}'.format(t.name, exc, e))
            if t.name == 'BaseVectorizer' and op['targs']['how'] != 'fit' and fault['pass'] > 0:
                late = 'after'          # fit was complete, the transformation failed
            return ('raised', late)
        if corpus.fired:
            raise Violation('swallowed', '{}: training goes on over a failing corpus ({})'.format(t.name, how), fault=fault)
        return None
    if how == 'callback':
        flaky = obj._flaky
        flaky.fuse, flaky.exc = int(where * 2.5 * len(op['sents'])), exc
        try:
            train()
        except BaseException as e:
            if flaky.fuse is not None:
                raise
            ctx.fault('callback')
            if not chain_holds(e, exc):
                raise Violation('other-error', '{}: the tokenizer failed with {!r}, the caller sees {!r}'.format(t.name, exc, e))
            return ('raised', 'after' if t.name == 'BaseVectorizer' and op['targs']['how'] != 'fit' else 'during')
        fired = flaky.fuse is None
        flaky.fuse = None
        if fired:
            raise Violation('swallowed', '{}: training goes on over a failing tokenizer'.format(t.name))
        return None
    if how == 'line':
        total = steps_of(ctx, train)
        if total < 1:
            train()
            return None
        s = sched.Steps(interrupt_at=max(1, total + 1 - fault['tail']) if fault['tail'] else 1 + int(where * total), exc=KeyboardInterrupt)
        try:
            with s:
                train()
        except KeyboardInterrupt:
            if s.where is None:
                raise
            ctx.fault('interrupted-line')
            ctx.log(s.where[0])
            return ('raised', 'during')
        finally:
            ctx.count('lines', s.n)
        if s.where is not None:
            ctx.fault('interrupted-line')
            return ('returned',)
        return None
    if how == 'stdout':
        writes = writes_of(ctx, train)
        if not writes:
            train()
            return None
        ctx.sink.fail_at = ctx.sink.writes + 1 + int(where * writes)
        try:
            train()
        except BrokenPipeError:
            ctx.fault('stdout')
            late = t.name in ('BaseVectorizer',)
            return ('raised', 'after' if late else 'during')
        finally:
            fired = ctx.sink.fail_at is not None and ctx.sink.writes >= ctx.sink.fail_at
            ctx.sink.fail_at = None
        if fired:
            raise Violation('swallowed', '{}: training swallows a failing output'.format(t.name))
        return None
    if how == 'memory-reading':
        import psutil
        real, seen = psutil.Process, [0]

        class Process(real):
            def memory_info(self):
                seen[0] += 1
                if seen[0] == limit:
                    raise psutil.AccessDenied(self.pid)
                return real.memory_info(self)
        psutil.Process = Process
        limit = 1 + int(where * 4)
        try:
            train()
        except psutil.AccessDenied:
            if seen[0] < limit:
                raise
            ctx.fault('memory-reading')
            # the reading may be a part of the last message
            return ('raised', 'after' if t.name == 'BaseVectorizer' else 'during')
        finally:
            psutil.Process = real
        return None
    # faults of files
    roots = [os.path.join(REPO, 'soynlp')] if how == 'resource' else [root]
    total = io_of(ctx, train, roots, fault['op'], rchunk)
    if not total:
        train()
        return None
    f = {'ops': [fault['op']], 'nth': int(where * total), 'action': 'sigint' if how == 'sigint' else 'errno',
         'arg': 0 if how == 'sigint' else fault['errno'], 'sticky': False}
    simio.arm(roots, [f], rchunk=rchunk)
    try:
        train()
    except (OSError, KeyboardInterrupt) as e:
        fired = simio.fired(1)[0]
        if not fired:
            raise
        ctx.fault('SIGINT' if how == 'sigint' else fault['errno'])
        ctx.count('io_operations', simio.total())
        return ('raised', 'after' if t.name == 'BaseVectorizer' else 'during')
    finally:
        fired = simio.fired(1)[0]
        simio.disarm()
    if fired and how == 'sigint':
        ctx.fault('SIGINT')
        return ('returned',)
    if fired:
        raise Violation('swallowed', '{}: training swallows a read error of its {}'.format(
            t.name, 'resources' if how == 'resource' else 'corpus'), fault=fault)
    return None


def chain_holds(e, exc):
    """Is exc what was raised, or its stated cause?"""
    while e is not None:
        if e is exc:
            return True
        e = e.__cause__ or e.__context__
    return False


def steps_of(ctx, train):
    def fn():
        s = sched.Steps()
        with s:
            train()
        return s.n
    out = ctx.forked(fn)
    if out[0] != 'ok':
        raise Inapplicable()
    return out[1]


def writes_of(ctx, train):
    def fn():
        n = ctx.sink.writes
        train()
        return ctx.sink.writes - n
    out = ctx.forked(fn)
    if out[0] != 'ok':
        raise Inapplicable()
    return out[1]


def io_of(ctx, train, roots, op, rchunk):
    def fn():
        simio.arm(roots, rchunk=rchunk)
        train()
        n = simio.counts()[op]
        simio.disarm()
        return n
    out = ctx.forked(fn)
    if out[0] != 'ok':
        raise Inapplicable()
    return out[1]
