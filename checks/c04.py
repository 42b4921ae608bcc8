"""C04: DoublespaceLineCorpus: every pass, however interleaved, sees the same items; len() counts them; a read
error is an error, not an end."""
import gc
import os

from sim import gen, sched, simio
from sim.kernel import Inapplicable, Violation

PIECES = ['  ', '  ', '   ', '    ', ' ', '\t', '']


def gen_line(rng, v):
    x = rng.random()
    if x < 0.08:
        return rng.choice(['', ' ', '  ', '\t', '     '])
    out = ''
    for _ in range(rng.randint(1, 5)):
        out += gen.sentence(rng, v, 1, 3) + rng.choice(PIECES)
    if rng.random() < 0.2:
        out = rng.choice(['  ', ' ', '\u3000']) + out
    return out


def gen_plan(rng, index, tier):
    v = gen.vocabulary(rng)
    lines = [gen_line(rng, v) for _ in range(rng.choice([0, 1, 2, rng.randint(1, 14), rng.randint(1, 40)]))]
    ops = []
    for _ in range(rng.randint(3, 24)):
        what = rng.choices(['open', 'next', 'drop', 'len', 'full', 'threads', 'gone', 'new', 'switch'], [5, 9, 2, 4, 4, 2, 1, 1, 1.5])[0]
        ops.append({'op': what, 'it': rng.randint(0, 3), 'n': rng.choice([1, 1, 2, 3, 9]),
                    'fault': rng.choice([None, None, None, 'EIO', 'EACCES', 'SIGINT', 'EINTR']),
                    'on': rng.choice(['read', 'read', 'openr']), 'nth': rng.choice([0, 0, 1, 2, 3, 8]),
                    'sticky': rng.random() < 0.3, 'switches': gen.gaps(rng, 20, rng.choice([2, 8, 30]))
                    if what == 'threads' else [],
                    'fresh': what == 'threads' and rng.random() < 0.6, 'tasks': rng.choice(['ili', 'lli', 'lil', 'llll', 'llll', 'ii'])})
    return {'lines': lines, 'newline': rng.choice(['\n', '\n', '\r\n']), 'last': rng.random() < 0.7,
            'num_doc': rng.choice([-1, -1, -1, 1, 2, 3, rng.randint(1, 45)]), 'num_sent': rng.choice([-1, -1, -1, 1, 2, rng.randint(1, 90)]),
            'iter_sent': rng.random() < 0.5, 'skip_header': rng.choice([0, 0, 1, 2, 50]),
            'rchunk': rng.choice([0, 1, 5, 64, 64]), 'omit': rng.random() < 0.3, 'ops': ops}


def model(plan, iter_sent):
    """(items, least): a pass yields these items, or the first of them, `least` or more"""
    docs = list(plan['lines'])
    if docs and not plan['last'] and docs[-1] == '':
        docs.pop()          # no newline and nothing behind it: there is no such line
    docs = docs[plan['skip_header']:]
    if plan['num_doc'] > 0:
        docs = docs[:plan['num_doc']]
    if not iter_sent:
        least = most = len(docs)
        if plan['num_sent'] > 0:
            # documents until the limit of sentences is reached, or exceeded
            total = 0
            for i, d in enumerate(docs):
                total += sum(1 for s in d.split('  ') if s.strip())
                if total >= plan['num_sent'] and least == len(docs):
                    least = i + 1
                if total > plan['num_sent']:
                    most = i + 1
                    break
        return [d.strip() for d in docs[:most]], least
    sents = [s.strip() for d in docs for s in d.split('  ')]
    sents = [s for s in sents if s]
    if plan['num_sent'] > 0:
        sents = sents[:plan['num_sent']]
    return sents, len(sents)


class World:
    pass


def execute(plan, ctx):
    from soynlp.utils import DoublespaceLineCorpus
    root = os.path.join(ctx.scratch, 'd')
    os.mkdir(root)
    path = os.path.join(root, 'corpus.txt')
    if not plan['lines']:
        text = ''
    else:
        text = plan['newline'].join(plan['lines']) + (plan['newline'] if plan['last'] else '')
    if any('\n' in l or '\r' in l for l in plan['lines']):
        raise Inapplicable()
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8'))
    known, mode = {}, [plan['iter_sent']]

    def make():
        limits = {k: plan[k] for k in ('num_doc', 'num_sent') if plan[k] > 0 or not plan.get('omit')}
        if plan['skip_header'] or not plan.get('omit'):
            limits['skip_header'] = plan['skip_header']
        if mode[0] or not plan.get('omit'):
            limits['iter_sent'] = mode[0]
        return DoublespaceLineCorpus(path, **limits)

    def wanted():
        if mode[0] not in known:
            items, least = model(plan, mode[0])
            if least < len(items):
                first = [x for x in corpus]
                ctx.check(first == items[:len(first)] and len(first) >= least, 'limit', 'a pass yields other than the items within the limits')
                items = first
            known[mode[0]] = items
        return known[mode[0]]

    simio.arm([root], rchunk=plan['rchunk'])
    corpus = make()
    want = wanted()
    iters = {}          # slot -> [iterator, position, alive]
    n_faults = 0

    def arm(op):
        if op['fault'] is None:
            return None
        f = {'ops': [op['on']], 'nth': op['nth'], 'action': 'sigint' if op['fault'] == 'SIGINT' else 'errno',
             'arg': op['fault'] if op['fault'] != 'SIGINT' else 0, 'sticky': op['sticky'] and op['fault'] in ('EIO', 'EACCES')}
        simio.lib().sim_fault(simio.BIT[op['on']], -1, f['nth'], simio.ACTIONS[f['action']],
                              getattr(__import__('errno'), f['arg']) if f['arg'] else 0, 1 if f['sticky'] else 0)
        return f

    def settle(op, what):
        """Did the fault fire?"""
        fired = simio.fired(1)[0] if op['fault'] else 0
        simio.lib().sim_clear_faults()
        if fired:
            ctx.fault(op['fault'], fired)
        return fired > 0

    def guarded(op, what, fn):
        """('ok', value) or ('failed',). A failure needs a fault, and a hard fault needs a failure"""
        arm(op)
        try:
            value = fn()
            failed = False
        except (OSError, KeyboardInterrupt) as e:
            failed, value = True, type(e).__name__
        fired = settle(op, what)
        if failed and not fired:
            raise Violation('spurious', '{} fails without a fault: {}'.format(what, value))
        if failed and op['fault'] == 'EINTR':
            raise Violation('eintr', '{}: an interrupted system call is not repeated'.format(what))
        hard = fired and op['fault'] in ('EIO', 'EACCES', 'SIGINT')
        return failed, hard, value

    for op in plan['ops']:
        what = op['op']
        ctx.state((what, op['fault'], mode[0], plan['num_doc'] > 0, plan['num_sent'] > 0,
                   plan['skip_header'] > 0, len(iters), min(len(want), 6)))
        if what == 'new':
            failed, hard, value = guarded(op, 'making the corpus', make)
            if hard and not failed:
                # the fault may be used up by nothing but a length which is not needed
                raise Violation('swallowed', 'an error while the file is scanned is not reported')
            if not failed:
                corpus = value
        elif what == 'open':
            iters[op['it']] = [iter(corpus), 0, True]
        elif what == 'next' and op['it'] in iters:
            slot = iters[op['it']]

            def take():
                got = []
                for _ in range(op['n']):
                    try:
                        x = next(slot[0])
                    except StopIteration:
                        got.append(None)
                        break
                    got.append(('item', x))
                    slot[1] += 1
                    ctx.count('evaluations')
                    if slot[2] and (slot[1] > len(want) or want[slot[1] - 1] != x):
                        raise Violation('item', 'item {} of a pass is not the item of the file'.format(slot[1] - 1),
                                        got=x, want=want[slot[1] - 1] if slot[1] <= len(want) else None)
                return got
            alive = slot[2]
            failed, hard, got = guarded(op, 'iterating', take)
            if failed:
                slot[2] = False
            elif alive and got and got[-1] is None:
                if slot[1] != len(want):
                    raise Violation('early-end', 'a pass ends after {} of {} items{}'.format(
                        slot[1], len(want), ' at a read error' if hard else ''))
                slot[2] = False
                slot[1] = 1 << 40
            elif not alive and any(g is not None for g in got):
                raise Violation('item', 'a pass goes on after its end')
        elif what == 'switch':
            # documents instead of sentences, or the other way round
            slot = None
            iters.clear()
            mode[0] = corpus.iter_sent = not mode[0]
            want = wanted()
        elif what == 'drop':
            iters.pop(op['it'], None)
        elif what == 'len':
            failed, hard, got = guarded(op, 'len()', lambda: len(corpus))
            if not failed:
                ctx.check(got == len(want), 'length', 'len() is {} but a pass has {} items'.format(got, len(want)))
        elif what == 'full':
            failed, hard, got = guarded(op, 'a pass', lambda: [x for x in corpus])
            if not failed:
                ctx.check(got == want, 'early-end' if hard else 'pass', 'a pass differs from the file ({} of {} items)'.format(
                    len(got), len(want)))
        elif what == 'gone':
            os.rename(path, path + '.away')
            try:
                list(corpus)
                raise Violation('swallowed', 'a pass over a file which is gone just ends')
            except OSError:
                ctx.fault('file-gone')
            os.rename(path + '.away', path)
        elif what == 'threads':
            # a corpus which nobody has asked for its length so far
            shared = make() if op['fresh'] else corpus

            def one():
                return [x for x in shared]

            def length():
                return len(shared)
            s = sched.Scheduler([one if t == 'i' else length for t in op['tasks']], op['switches'])
            res = s.run()
            ctx.fault('thread-switch', len(s.trace))
            ctx.count('scheduler_steps', s.steps)
            for r, t in zip(res, op['tasks']):
                w = want if t == 'i' else len(want)
                ctx.check(r == ('ok', w), 'threads', 'a pass beside another thread differs: {}'.format(repr(r)[:100]))
            ctx.log(s.trace)
    slot = take = got = None
    iters.clear()
    gc.collect()
    handles = simio.open_handles()
    ctx.check(handles == 0, 'open-file', '{} passes keep the file open after their end'.format(handles))
    ctx.check(list(corpus) == want and len(corpus) == len(want), 'pass', 'the last pass differs from the file')
    with open(path, 'rb') as f:
        ctx.check(f.read() == text.encode('utf-8'), 'changed', 'the file has changed')
    ctx.count('io_operations', simio.total())
    simio.disarm()
    ctx.log(want, n_faults)
    ctx.interesting({'lines': len(plan['lines']), 'items': len(want), 'ops': [o['op'] for o in plan['ops']]})
