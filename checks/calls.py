"""Calls of one shared object: in sequence, interrupted, with a failing output, by several threads. Every answer is that
of the only call ever made."""
import copy

from sim import gen, sched
from sim.canon import canon, first_difference
from sim.kernel import Inapplicable, Violation

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def gen_phases(rng, a, data, heavy=1.0):
    pool = [a.gen_call(rng, data) for _ in range(rng.randint(2, 6))]
    phases = []
    for _ in range(rng.randint(2, 5)):
        mode = rng.choices(['calls', 'threads', 'interrupt', 'stdout'], [3, 5, 2, 1 if a.prints else 0])[0]
        p = {'mode': mode}
        if mode == 'calls':
            p['calls'] = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        elif mode == 'threads':
            n = rng.choice([2, 2, 3])
            p['tasks'] = [[rng.choice(pool) for _ in range(rng.randint(1, 3))] for _ in range(n)]
            p['switches'] = gen.gaps(rng, rng.randint(3, 40), rng.choice([2, 5, 12, 40, 150]) * heavy)
            if rng.random() < 0.25:
                p['interrupt'] = [rng.randrange(n), 1 + int(rng.expovariate(1 / 60.0) * heavy), rng.choice(list(EXC))]
        elif mode == 'interrupt':
            p.update(call=rng.choice(pool), where=rng.random(), exc=rng.choice(list(EXC)))
        else:
            p.update(call=rng.choice(pool), where=rng.random())
        if rng.random() < 0.3:
            p['spoil'] = True
        phases.append(p)
    phases.append({'mode': 'calls', 'calls': [rng.choice(pool) for _ in range(2)]})
    return phases


def spoil(x, depth=0):
    """The caller does what it likes with what it got"""
    if depth > 4:
        return
    if isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.append('spoilt')
        x.reverse()
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)


def run(plan, ctx, a):
    data = plan['data']
    obj, inputs = a.make(data)
    frozen = copy.deepcopy(inputs)
    memo = {}
    for c in [c for p in plan['phases'] for c in ([p['call']] if 'call' in p else p.get('calls') or sum(p.get('tasks', []), []))]:
        # each in a process of its own, before anything is asked here: the only call ever made
        if repr(c) not in memo:
            r = ctx.pristine(lambda: a.canon(a.call(obj, c, data)))
            if r[0] != 'ok':
                raise Violation('error', '{}: a call of a fresh object fails: {}: {}'.format(a.name, r[1], r[2]), call=c)
            memo[repr(c)] = r[1]

    def reference(c):
        return memo[repr(c)]

    def judge(c, raw, how, spoilt):
        got = a.canon(raw)
        ctx.count('evaluations')
        wrong = a.law(data, c, raw)
        if wrong:
            raise Violation('law', '{}: {}'.format(a.name, wrong), call=c)
        want = reference(c)
        if got != want:
            raise Violation('answer', '{}: a call {} answers otherwise than the first call of a fresh object'.format(a.name, how),
                            call=c, difference=first_difference(got, want)[:500])
        if spoilt:
            spoil(raw)
        return got

    for i, p in enumerate(plan['phases']):
        before = plan['phases'][i - 1]['mode'] if i else None
        ctx.state((a.name, p['mode'], before, bool(p.get('spoil')), repr(p.get('call'))[:60], len(p.get('tasks', ()))))
        how = 'after other calls'
        if p['mode'] == 'calls':
            for c in p['calls']:
                ctx.log(judge(c, a.call(obj, c, data), how, p.get('spoil')))
        elif p['mode'] == 'interrupt':
            c = p['call']
            st = sched.Steps()
            with st:
                a.call(obj, c, data)
            if st.n < 1:
                continue
            st = sched.Steps(interrupt_at=1 + int(p['where'] * st.n), exc=EXC[p['exc']])
            try:
                with st:
                    raw = a.call(obj, c, data)
            except (KeyboardInterrupt, MemoryError):
                if st.where is None:
                    raise
                ctx.fault(p['exc'])
                ctx.log(st.where[0])
            else:
                if st.where is not None:
                    judge(c, raw, 'which swallowed an interrupt', False)
        elif p['mode'] == 'stdout':
            c = p['call']
            w0 = ctx.sink.writes
            a.call(obj, c, data)
            n = ctx.sink.writes - w0
            if not n:
                continue
            ctx.sink.fail_at = ctx.sink.writes + 1 + int(p['where'] * n)
            try:
                raw = a.call(obj, c, data)
            except BrokenPipeError:
                ctx.fault('stdout')
            else:
                judge(c, raw, 'whose output fails', False)
            finally:
                ctx.sink.fail_at = None
        else:
            results = [[] for _ in p['tasks']]

            def body(k):
                def fn():
                    for c in p['tasks'][k]:
                        results[k].append(a.call(obj, c, data))
                return fn
            interrupts = {}
            if p.get('interrupt'):
                k, at, exc = p['interrupt']
                if k >= len(p['tasks']):
                    raise Inapplicable()
                interrupts = {k: [(at, EXC[exc])]}
            s = sched.Scheduler([body(k) for k in range(len(p['tasks']))], p['switches'], interrupts=interrupts)
            out = s.run()
            fired = sum(1 for t in s.trace if t[1] == 'interrupt')
            ctx.fault('thread-switch', len(s.trace) - fired)
            ctx.fault('thread-interrupt', fired)
            ctx.count('steps', s.steps)
            ctx.log([(t[0], t[1]) for t in s.trace])
            ctx.state((a.name, 'switches', min(len(s.trace), 8), tuple(t[2:] for t in s.trace[:1])))
            for k, (status, value) in enumerate(out):
                if status == 'raised':
                    if isinstance(value, (KeyboardInterrupt, MemoryError)) and fired and p['interrupt'][0] == k:
                        pass
                    else:
                        raise Violation('thread', '{}: a call fails while another thread calls the same object: {}: {}'.format(
                            a.name, type(value).__name__, value), calls=p['tasks'])
                for c, raw in zip(p['tasks'][k], results[k]):
                    ctx.log(judge(c, raw, 'while other threads call the same object', p.get('spoil')))
        if canon(inputs) != canon(frozen):
            raise Violation('inputs', '{}: a call changes what the caller gave to the constructor'.format(a.name),
                            difference=first_difference(canon(inputs), canon(frozen))[:300])
    ctx.interesting({'subject': a.name, 'phases': [p['mode'] for p in plan['phases']]})
