"""C14: chance is in the hands of the caller. Decompositions are the only thing in soynlp which draws random numbers; the generators
are simulated state: every draw, by whoever in whichever order or thread, is accounted for."""
import random

from sim import gen, sched
from sim.kernel import Inapplicable, Violation


def gen_plan(rng, index, tier):
    ops = []
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        if x < 0.6:
            ops.append(gen_svd(rng))
        elif x < 0.7:
            ops.append({'op': 'draw', 'n': rng.randint(1, 5), 'of': rng.choice(['numpy', 'python'])})
        elif x < 0.8:
            ops.append({'op': 'seed', 'n': rng.randint(0, 3), 'of': rng.choice(['numpy', 'python'])})
        elif x < 0.9:
            ops.append(dict(gen_svd(rng), op='interrupt', where=rng.random()))
        else:
            ops.append({'op': 'threads', 'tasks': [[dict(gen_svd(rng), state='seed') for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(2, 3))],
                        'switches': gen.gaps(rng, rng.choice([1, 3, 8]), rng.choice([2, 5, 12]))})
    return {'seed': rng.randint(0, 10 ** 6), 'corpus': gen.corpus(rng, 4, 12), 'ops': ops}


def gen_svd(rng):
    return {'op': 'svd', 'x': rng.randint(0, 3), 'k': rng.choice([1, 2, 3, 5, 50]), 'iter': rng.choice([1, 5]),
            'state': rng.choice(['seed', 'seed', 'generator', 'none', 'none']), 'n': rng.randint(0, 3)}


def execute(plan, ctx):
    import numpy as np
    from scipy.sparse import csr_matrix
    from sklearn.utils.extmath import randomized_svd
    from soynlp.utils import svd
    from soynlp.vectorizer import sent_to_word_contexts_matrix
    if not plan['corpus']:
        raise Inapplicable()
    r = np.random.RandomState(plan['seed'])
    low = r.rand(9, 2).dot(r.rand(2, 8))
    xs = [csr_matrix(low), csr_matrix(np.where(r.rand(70, 45) < 0.3, r.rand(70, 45), 0.0)), csr_matrix(r.rand(30, 60) - 0.5),
          sent_to_word_contexts_matrix(plan['corpus'], windows=2, min_tf=1, verbose=False)[0].astype(float)]
    frozen = [x.copy() for x in xs]
    generators = [np.random.RandomState(100 + k) for k in range(4)]
    mirrors = [np.random.RandomState(100 + k) for k in range(4)]      # what the generators must be
    np.random.seed(7)
    random.seed(7)
    world = np.random.RandomState(7)                                   # what the global one must be
    python = random.Random(7)
    memo = {}

    def call(op, state):
        return svd(xs[op['x']], op['k'], n_iter=op['iter'], random_state=state)

    def truth(op, state):
        return randomized_svd(xs[op['x']], op['k'], n_iter=op['iter'], random_state=state)

    def value(out):
        return [np.asarray(a).tolist() for a in out]

    def seeded(op):
        """By scikit-learn in a process which did nothing else"""
        key = (op['x'], op['k'], op['iter'], op['n'])
        if key not in memo:
            out = ctx.pristine(lambda: value(truth(op, np.random.RandomState(op['n']))))
            if out[0] != 'ok':
                raise Violation('error', 'a decomposition fails: {} {}'.format(out[1], out[2]))
            memo[key] = out[1]
        return memo[key]

    def drawn(op, state):
        """-> (value, state of the generator afterwards) of a decomposition by scikit-learn in a process which did nothing else"""
        def fn():
            g = np.random.RandomState()
            g.set_state(state)
            return value(truth(op, g)), g.get_state()
        out = ctx.pristine(fn)
        if out[0] != 'ok':
            raise Violation('error', 'a decomposition fails: {} {}'.format(out[1], out[2]))
        return out[1]

    def same_state(a, b):
        return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]

    def meaningful(op, out, what):
        u, s, vt = out
        x = xs[op['x']]
        k = min(op['k'], min(x.shape))
        ok = u.shape == (x.shape[0], k) and s.shape == (k,) and vt.shape == (k, x.shape[1]) and all(a >= b - 1e-9 for a, b in zip(s, s[1:])) and (s >= -1e-9).all()
        real = [i for i in range(k) if s[i] > 1e-8]
        ok = ok and np.allclose(u[:, real].T.dot(u[:, real]), np.eye(len(real)), atol=1e-6)
        ok = ok and np.allclose(vt[real].dot(vt[real].T), np.eye(len(real)), atol=1e-6)
        full = np.linalg.svd(x.toarray(), compute_uv=False)
        ok = ok and (s <= full[:k] + 1e-6).all()
        if op['x'] == 0 and k >= 2:
            ok = ok and np.allclose((u * s).dot(vt), low, atol=1e-6)
        if not ok:
            raise Violation('meaning', 'a decomposition is not one ({})'.format(what), matrix=op['x'], components=op['k'])

    def legal(op):
        return op['k'] < xs[op['x']].shape[1] and min(xs[op['x']].shape) > 0

    def expect(op, out, want, what):
        ctx.count('evaluations')
        got = value(out)
        ok = [np.shape(a) for a in got] == [np.shape(b) for b in want] and np.allclose(got[1], want[1], rtol=1e-7, atol=1e-9)
        if ok:
            sv = np.asarray(want[1])
            # vectors of values which are zero or equal are arbitrary
            clear = [i for i in range(len(sv)) if sv[i] > 1e-6 and all(abs(sv[i] - sv[j]) > 1e-4 * sv[0] for j in range(len(sv)) if j != i)]
            u, vt, u_, vt_ = np.asarray(got[0]), np.asarray(got[2]), np.asarray(want[0]), np.asarray(want[2])
            ok = np.allclose(u[:, clear], u_[:, clear], atol=1e-6) and np.allclose(vt[clear], vt_[clear], atol=1e-6)
        if not ok:
            raise Violation('chance', 'a decomposition depends on something else than its input and its random state ({})'.format(what), call=op)

    last = None
    for n, op in enumerate(plan['ops']):
        what = op['op']
        if what == 'draw':
            if op['of'] == 'numpy':
                np.random.rand(op['n'])
                world.rand(op['n'])
            else:
                for g in (random, python):
                    for _ in range(op['n']):
                        g.random()
        elif what == 'seed':
            if op['of'] == 'numpy':
                np.random.seed(op['n'])
                world.seed(op['n'])
            else:
                random.seed(op['n'])
                python.seed(op['n'])
        elif what in ('svd', 'interrupt'):
            state = {'seed': op['n'], 'generator': generators[op['n']], 'none': None}[op['state']]
            if not legal(op):
                try:
                    call(op, state)
                except ValueError:
                    pass
                else:
                    raise Violation('refuse', 'more components than features are accepted')
                what = 'refused'
            elif what == 'svd':
                if op['state'] == 'seed':
                    want = seeded(op)
                else:
                    mirror = world if op['state'] == 'none' else mirrors[op['n']]
                    want, after = drawn(op, mirror.get_state())
                    mirror.set_state(after)
                out = call(op, state)
                expect(op, out, want, 'after other calls')
                meaningful(op, out, op['state'])
            else:
                st = sched.Steps(interrupt_at=1 + int(op['where'] * 6), exc=KeyboardInterrupt)
                mirror = None if op['state'] == 'seed' else world if op['state'] == 'none' else mirrors[op['n']]
                try:
                    with st:
                        call(op, state)
                except KeyboardInterrupt:
                    if st.where is None:
                        raise
                    ctx.fault('interrupted-line')
                # it may have drawn or not
                if mirror is not None:
                    now = np.random.get_state() if op['state'] == 'none' else generators[op['n']].get_state()
                    after = drawn(op, mirror.get_state())[1]
                    if same_state(now, after):
                        mirror.set_state(after)
        elif what == 'threads':
            tasks = [[c for c in t if legal(c)] for t in op['tasks']]
            wants = [[seeded(c) for c in t] for t in tasks]
            results = [[] for _ in tasks]

            def body(k):
                def fn():
                    for c in tasks[k]:
                        results[k].append(call(c, c['n']))
                return fn
            s = sched.Scheduler([body(k) for k in range(len(tasks))], op['switches'])
            out = s.run()
            ctx.fault('thread-switch', len(s.trace))
            for k, (status, v) in enumerate(out):
                if status == 'raised':
                    raise Violation('thread', 'a decomposition fails beside others: {}: {}'.format(type(v).__name__, v))
                for c, got, want in zip(tasks[k], results[k], wants[k]):
                    expect(c, got, want, 'beside other threads')
        ctx.count('evaluations')
        if not same_state(np.random.get_state(), world.get_state()):
            raise Violation('global', 'the global random generator of numpy is not where the caller left it ({})'.format(what), op=op)
        if random.getstate() != python.getstate():
            raise Violation('global', 'the global random generator of Python is not where the caller left it ({})'.format(what), op=op)
        for g, m in zip(generators, mirrors):
            if not same_state(g.get_state(), m.get_state()):
                raise Violation('generator', 'a random generator is not where it must be ({})'.format(what), op=op)
        if any((a != b).nnz for a, b in zip(xs, frozen)):
            raise Violation('input', 'a decomposition changes its input')
        ctx.state((what, op.get('state'), op.get('x'), op.get('k'), last))
        last = (what, op.get('state'))
        ctx.log(n, what, world.get_state()[2])
    ctx.interesting({'operations': [o['op'] for o in plan['ops']]})
