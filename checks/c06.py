"""C06: an extraction depends on the trained model and its parameters only, not on extractions before it, be they
complete or interrupted."""
import os

from sim import gen, sched, simio
from sim.canon import canon, first_difference
from sim.kernel import Inapplicable, Violation
from .c05 import io_of, steps_of, writes_of
from .trainables import TRAINABLES, corpus_of

NAMES = [n for n, t in TRAINABLES.items() if t.has_extract()]
NAMES = [n for n in NAMES if 'POS' not in n] * 3 + ['LRNounExtractor_v2', 'LRNounExtractor_v2'] + [n for n in NAMES if 'POS' in n]


def gen_plan(rng, index, tier):
    t = TRAINABLES[NAMES[index % len(NAMES)]]
    v = gen.vocabulary(rng, korean_only=t.korean)
    small = t.korean and rng.random() < 0.7
    trainings = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.choice([k for k in t.kinds if k not in ('file', 'iter')])
        trainings.append({'sents': gen.corpus(rng, 3, 15 if small else 30, v, t.korean), 'kind': kind, 'targs': t.gen_targs(rng)})
    ops = []
    for _ in range(rng.randint(2, 6)):
        what = rng.choices(['extract', 'disturbed', 'query', 'no-reset', 'train'], [4, 5, 1, 1, 0.5])[0]
        op = {'op': what, 'xargs': t.gen_xargs(rng), 'candidates': rng.random() < 0.15, 'seed': rng.randint(0, 10 ** 6)}
        if what == 'disturbed':
            op.update(how=rng.choice(['line', 'line', 'line', 'stdout', 'memory-reading', 'log', 'log']), where=rng.random(),
                      exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']),
                      errno=rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'SIGINT']), io=rng.choice(['write', 'write', 'openw', 'close']),
                      tail=rng.choice([0, 0, 0, 0, 1, 2, 4, 8, 16]))
            if 'POS' in t.name:
                op['exc'] = 'KeyboardInterrupt'     # words which cannot be lemmatised are skipped, whatever the Exception
        ops.append(op)
    ops.append({'op': 'extract', 'xargs': rng.choice([o['xargs'] for o in ops]), 'candidates': False, 'seed': 0})
    return {'subject': t.name, 'data': t.gen(rng), 'trainings': trainings, 'ops': ops}


def candidates_of(t, op, words):
    """Words which the user asks for, or None"""
    if not op['candidates'] or not words:
        return None
    some = [w for i, w in enumerate(sorted(words)) if (op['seed'] >> (i % 17)) & 1] or sorted(words)[:1]
    if t.name in ('LRNounExtractor', 'NewsNounExtractor'):
        return {'noun_candidates': some}
    if t.name == 'PredicatorExtractor':
        return {'candidates': {w: 3 for w in some}}
    return None


def graph_of(obj):
    """The L-R graph of an extractor, as a user sees it"""
    g = getattr(obj, 'lrgraph', None)
    if g is None or not hasattr(g, 'to_EojeolCounter'):
        return None
    words = sorted(w for w, _ in g.to_EojeolCounter().items())
    ls = sorted({w[:i] for w in words for i in range(1, len(w) + 1)})
    rs = sorted({w[i:] for w in words for i in range(1, len(w))})
    return canon([[[l, sorted(g.get_r(l, -1))] for l in ls], [[r, sorted(g.get_l(r, -1))] for r in rs]])


def execute(plan, ctx):
    t = TRAINABLES[plan['subject']]
    data = plan['data']
    if not plan['trainings'] or any(not x['sents'] for x in plan['trainings']):
        raise Inapplicable()
    words = {w for x in plan['trainings'] for s in x['sents'] for w in s.split()}
    memo = {}

    def train(obj, n):
        for x in plan['trainings'][:n]:
            t.train(obj, corpus_of(x['kind'], x['sents']), x['targs'], data)

    def run(obj, op):
        xargs = dict(op['xargs'])
        extra = candidates_of(t, op, words)
        if extra:
            xargs.update(extra)
        if op['op'] == 'no-reset' and t.name == 'LRNounExtractor_v2':
            xargs['reset_lrgraph'] = False
        return t.extract(obj, xargs)

    def reference(n, op, what):
        key = (n, what, repr(op['xargs']), op['candidates'] and op['seed'], op['op'] == 'no-reset')
        if key not in memo:
            def fn():
                simio.disarm()
                obj = t.make(data)
                train(obj, n)
                if what == 'graph':
                    return graph_of(obj)
                out = run(obj, op)
                return [out, graph_of(obj)]
            r = ctx.pristine(fn)
            if r[0] != 'ok':
                raise RuntimeError('pristine extraction fails: {}'.format(r))
            memo[key] = r[1]
        return memo[key]

    obj = t.make(data)
    n = 1
    train(obj, 1)
    dirty = False
    simio.disarm()
    for i, op in enumerate(plan['ops']):
        ctx.state((t.name, op['op'], op.get('how'), op.get('exc') if op.get('how') == 'line' else None,
                   plan['ops'][i - 1]['op'] if i else None, plan['ops'][i - 1].get('how') if i else None, op['candidates']))
        if dirty:
            obj.lrgraph.reset_lrgraph()
            dirty = False
        if op['op'] == 'train':
            if n < len(plan['trainings']):
                x = plan['trainings'][n]
                t.train(obj, corpus_of(x['kind'], x['sents']), x['targs'], data)
                n += 1
            continue
        if op['op'] == 'query':
            for w in sorted(words)[:10]:
                if t.name in ('LRNounExtractor', 'NewsNounExtractor', 'LRNounExtractor_v2'):
                    obj.predict(w)
                elif t.name == 'WordExtractor':
                    obj.cohesion_score(w), obj.branching_entropy(w)
            continue
        if op['op'] == 'disturbed':
            got = disturbed(ctx, t, obj, op, lambda: run(obj, op))
        else:
            got = [run(obj, op)]
        if got is not None:
            want = reference(n, op, 'result')
            ctx.check(got[0] == want[0], 'result', '{}: an extraction differs from the first extraction of a fresh model{}'.format(
                t.name, ' (an interrupt was swallowed)' if op['op'] == 'disturbed' else ''),
                where=first_difference(got[0], want[0])[:600], op=i)
            ctx.log(i, got[0])
            if op['op'] == 'no-reset':
                dirty = t.name == 'LRNounExtractor_v2'
                ctx.check(graph_of(obj) == want[1], 'graph', '{}: what an extraction leaves of the graph differs'.format(t.name))
                continue
        if t.name in ('LRNounExtractor', 'LRNounExtractor_v2'):
            ctx.check(graph_of(obj) == reference(n, op, 'graph'), 'graph',
                      '{}: the L-R graph is not as it was trained after an extraction{}'.format(
                          t.name, ' which was interrupted' if got is None else ''), op=i)
    ctx.interesting({'subject': t.name, 'ops': [[o['op'], o.get('how')] for o in plan['ops']]})


def disturbed(ctx, t, obj, op, run):
    """[result] or None when it was interrupted"""
    how, where = op['how'], op['where']
    if how == 'line':
        total = steps_of(ctx, run)
        if total < 1:
            return [run()]
        at = max(1, total + 1 - op['tail']) if op['tail'] else 1 + int(where * total)
        exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[op['exc']]
        s = sched.Steps(interrupt_at=at, exc=exc)
        try:
            with s:
                return [run()]
        except (KeyboardInterrupt, MemoryError):
            if s.where is None:
                raise
            return None
        finally:
            ctx.count('lines', s.n)
            if s.where is not None:
                ctx.fault(op['exc'])
                ctx.log(s.where[0])
    if how == 'stdout':
        writes = writes_of(ctx, run)
        if not writes:
            return [run()]
        ctx.sink.fail_at = ctx.sink.writes + 1 + int(where * writes)
        try:
            run()
        except BrokenPipeError:
            ctx.fault('stdout')
            return None
        finally:
            ctx.sink.fail_at = None
        raise Violation('swallowed', '{}: an extraction swallows a failing output'.format(t.name))
    if how == 'memory-reading':
        import psutil
        real, seen, limit = psutil.Process, [0], 1 + int(where * 3)

        class Process(real):
            def memory_info(self):
                seen[0] += 1
                if seen[0] == limit:
                    raise psutil.AccessDenied(self.pid)
                return real.memory_info(self)
        psutil.Process = Process
        try:
            return [run()]
        except psutil.AccessDenied:
            ctx.fault('memory-reading')
            return None
        finally:
            psutil.Process = real
    # log files
    roots = [os.path.abspath('.')]
    total = io_of(ctx, run, roots, op['io'], 0)
    if not total:
        return [run()]
    sig = op['errno'] == 'SIGINT'
    simio.arm(roots, [{'ops': [op['io']], 'nth': int(where * total), 'action': 'sigint' if sig else 'errno',
                       'arg': 0 if sig else op['errno'], 'sticky': False}])
    try:
        out = [run()]
    except (OSError, KeyboardInterrupt):
        if not simio.fired(1)[0]:
            raise
        ctx.fault('log-' + op['errno'])
        return None
    finally:
        fired = simio.fired(1)[0]
        simio.disarm()
    if fired and not sig:
        raise Violation('swallowed', '{}: an extraction swallows an error of its log file'.format(t.name))
    return out
